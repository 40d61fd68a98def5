"""C23: output depends only on the source and the options."""
import os, re, shutil
from lib import pbt, progs, corpus, common


class P(pbt.Prop):
    id = "C23"
    rule = ("one case = 2-4 generated or mutated programs with the same options: each is assembled alone, again in another directory with another environment, memory fill pattern and stack position, and together with the others on one command line; "
            "trivial: all programs under 10 lines")
    counts = {"quick": 5000, "thorough": 120000}
    assumptions = ["the clock is fixed by the shim of the native build", "allocator contents are varied with MALLOC_PERTURB_"]

    def setup(self):
        self.cor = {}
        for n, o, t in corpus.load(60000):
            self.cor.setdefault(tuple(o), []).append(t)

    def worker_init(self, wid):
        pbt.Prop.worker_init(self, wid)
        self.r2 = common.Runner(self.exe["o1"], "another_directory_%d_" % wid)

    def gen(self, c):
        fmts = c.choice([["bin16", "bin32", "bin64"], ["omf16", "omf32"], ["coff32"], ["coff64"], ["elf32"], ["elf64"], ["macho64"], ["pe32", "pe64"], ["mz"]])
        opts = list(progs.OPT[fmts[0]])
        cor = [t for o, ts in self.cor.items() if o[0] == opts[0] for t in ts]
        srcs = []
        for _ in range(c.int(2, 4)):
            if c.bool(1, 4) and cor:
                t = c.choice(cor)
                e = c.int(0, 3)
            else:
                t = progs.gen(c, fmts).text()
                e = c.choice([0, 0, 0, 1, 2])
            srcs.append(corpus.mutate(c, t, e))
        if c.bool():
            opts.append("-Fl")
        if fmts[0] in ("coff32", "omf16", "coff64") and c.bool(1, 3):
            opts.append("-Zd")
        if c.bool(1, 3):
            opts += c.sample(["-Zp4", "-Cp", "-W3", "-Zm", "-Cu", "-DX=1", "-Zf", "-Sa"], c.int(1, 2))
        return {"opts": opts, "srcs": srcs}

    def snap(self, r, d, names=None):
        out = {}
        for f in sorted(os.listdir(d)):
            if f.endswith(".asm"):
                continue
            with open(os.path.join(d, f), "rb") as fh:
                out[f] = fh.read()
        return out

    def msgs(self, r, name):
        """the message lines about one file"""
        return [l for l in r.text.splitlines() if re.match(r"\s*%s\b" % re.escape(name), l)]

    def run(self, cs):
        names = ["m%d" % i for i in range(len(cs["srcs"]))]
        kw = dict(labels=[cs["opts"][0]], key=cs["srcs"], nontrivial=max(s.count("\n") for s in cs["srcs"]) >= 10, sample=cs["srcs"][0][:500],
                  files={n + ".asm": s for n, s in zip(names, cs["srcs"])}, n=0)
        alone = {}
        for n, s in zip(names, cs["srcs"]):
            a = self.r.asm(s, cs["opts"], name=n + ".asm", timeout=10)
            if a.timeout or a.rc < 0 or "General Failure" in a.text:
                return pbt.V(None, labels=["crash (C22)"], nontrivial=False)
            x = self.snap(a, a.dir)
            b = self.r2.asm(s, cs["opts"], name=n + ".asm", timeout=10, env={"MALLOC_PERTURB_": "165", "HOME": "/", "PADDING": "x" * (37 * (1 + len(s) % 50)), "LANG": "de_DE.UTF-8"})
            y = self.snap(b, b.dir)
            kw["n"] += 1
            if a.rc != b.rc or a.out != b.out or x != y:
                d = [f for f in sorted(set(x) | set(y)) if x.get(f) != y.get(f)]
                return pbt.V("%s: two runs differ: status %d %d, files %s\n%s\n---\n%s\n%s" % (cs["opts"], a.rc, b.rc, d, a.text[-500:], b.text[-500:], s), "repeat %s" % (d[0].split(".")[-1] if d else "messages"), **kw)
            alone[n] = (a.rc, self.msgs(a, n + ".asm"), x)
        self.r.clean()
        self.r.write({n + ".asm": s for n, s in zip(names, cs["srcs"])})
        j = self.r.run([self.exe["o1"], "-q"] + cs["opts"] + [n + ".asm" for n in names], 30)
        if j.timeout or j.rc < 0 or "General Failure" in j.text:
            return pbt.V("together: status %s\n%s" % (j.rc, j.text[-800:]) + "".join("\n==== %s\n%s" % z for z in zip(names, cs["srcs"])), "together crash", **kw)
        z = self.snap(j, j.dir)
        kw["n"] += 1
        if (j.rc != 0) != any(rc for rc, _, _ in alone.values()):
            return pbt.V("%s: exit status %d of the joint run, alone %s" % (cs["opts"], j.rc, [alone[n][0] for n in names]) + "".join("\n==== %s\n%s" % z for z in zip(names, cs["srcs"])), "together status", **kw)
        for n in names:
            rc, ms, x = alone[n]
            jm = self.msgs(j, n + ".asm")
            y = {f: b for f, b in z.items() if f.startswith(n + ".")}
            if jm != ms or x != y:
                d = [f for f in sorted(set(x) | set(y)) if x.get(f) != y.get(f)]
                detail = ""
                if d:
                    p, q = x.get(d[0]), y.get(d[0])
                    if p is not None and q is not None:
                        i = next((i for i, (u, v) in enumerate(zip(p, q)) if u != v), min(len(p), len(q)))
                        detail = "%s at %d: %r / %r" % (d[0], i, p[max(0, i - 40):i + 40], q[max(0, i - 40):i + 40])
                return pbt.V("%s %s alone and together differ: files %s %s\n%s\n---\n%s" % (cs["opts"], n, d, detail, "\n".join(ms[:9]), "\n".join(jm[:9])) + "".join("\n==== %s\n%s" % z for z in zip(names, cs["srcs"])),
                             "together %s" % (d[0].split(".")[-1] if d else "messages"), **kw)
        return pbt.V(None, **kw)


PROP = P()
