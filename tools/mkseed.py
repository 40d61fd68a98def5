#!/usr/bin/env python3
"""Plants a bug in a scratch copy of /repo, confirms it, and stores it under
/verif/seeded/ID.  usage: mkseed.py SPEC.py  (a Python file that calls
seed(id, prop, [(file, old, new)...], demo, needs, breaks, files={}))"""
import json, os, re, shutil, subprocess, sys
ROOT = "/tmp/seed"
SR = ROOT + "/repo"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def build():
    t = open("/opt/vp/build.sh").read().replace("/repo", SR)
    open(ROOT + "/build.sh", "w").write(t)
    r = sh("bash %s/build.sh" % ROOT)
    return r.returncode, r.stdout.decode("latin1")[-1500:]


def stable():
    env = dict(os.environ, HOME="/root", LC_ALL="C", LANG="C", TZ="UTC", WINEPREFIX=ROOT + "/p", WINEDEBUG="-all", WINEARCH="win64",
               WINEDLLOVERRIDES="mscoree,mshtml,winemenubuilder.exe,winedbg.exe=d")
    for k in ("DISPLAY", "ASM", "UASM", "JWASM", "INCLUDE"):
        env.pop(k, None)
    res = ROOT + "/res.txt"
    sh("timeout 600 python3 /opt/vp/runtests.py %s/_build/win64/uasm.exe %s/_build/regress %s" % (SR, SR, res), env=env)
    out = ROOT + "/o.json"
    open(out, "w").write('{"passed": [], "failed": []}')
    sh("python3 /opt/vp/results.py %s lines:%s" % (out, res), env=env)
    b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return sorted(b - set(json.load(open(out))["passed"]))


def demo(d, exe):
    t = ROOT + "/demo"
    if os.path.isdir(t):
        shutil.rmtree(t)
    shutil.copytree(d, t)
    r = sh("timeout 300 bash %s/demo.sh" % t, cwd="/repo", env=dict(os.environ, UEXE=exe))
    return r.returncode, r.stdout.decode("latin1")[-800:]


def prep():
    if not os.path.isdir(SR):
        os.makedirs(ROOT, exist_ok=True)
        sh("cp -a /repo %s" % SR)
        os.makedirs(ROOT + "/p/dosdevices")
        sh("cp /opt/vp/wine/*.reg /opt/vp/wine/.update-timestamp %s/p/; ln -s /opt/vp/wine/drive_c %s/p/dosdevices/c:; ln -s / %s/p/dosdevices/z:" % (ROOT, ROOT, ROOT))
    sh("git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD && git -C %s clean -fdq" % (SR, SR, SR))
    shutil.rmtree(SR + "/_build/regress", ignore_errors=True)


def seed(id, prop, edits, demo_text, needs, breaks, files=None):
    if len(sys.argv) > 2 and id not in sys.argv[2:]:
        return
    prep()
    clean = ROOT + "/clean.exe"
    rc, o = build()
    shutil.copy(SR + "/_build/win64/uasm.exe", clean)
    for f, old, new in edits:
        p = SR + "/" + f
        s = open(p, encoding="latin1", newline="").read()
        if "\r\n" in s:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        if s.count(old) != 1:
            print(id, "EDIT: %d matches in %s for %r" % (s.count(old), f, old[:60]))
            return False
        open(p, "w", encoding="latin1", newline="").write(s.replace(old, new))
    d = V + "/seeded/" + id
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    diff = subprocess.run(["git", "-C", SR, "diff"], stdout=subprocess.PIPE).stdout
    open(d + "/patch.diff", "wb").write(diff)
    lib = open(V + "/tools/demo_lib.sh").read()
    open(d + "/demo.sh", "w").write("#!/bin/bash\nHERE=$(cd \"$(dirname \"$0\")\" && pwd)\n" + lib + demo_text)
    for n, t in (files or {}).items():
        open(d + "/" + n, "w").write(t)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    rc, o = build()
    if rc:
        print(id, "BUILD FAILS", o)
        return False
    miss = stable()
    a = demo(d, clean)
    b = demo(d, SR + "/_build/win64/uasm.exe")
    ok = not miss and a[0] == 0 and b[0] != 0
    print(id, prop, "OK" if ok else "BAD", "tests missing:", miss[:4], "demo clean", a if a[0] else 0, "patched", b[0] if ok else b)
    if not ok:
        os.rename(d, ROOT + "/bad_" + id) if not os.path.isdir(ROOT + "/bad_" + id) else shutil.rmtree(d)
    return ok


if __name__ == "__main__":
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"))
