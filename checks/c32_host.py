"""C32: the Windows program and a native build of the same sources give the same files and messages."""
import os, re, struct
from lib import pbt, progs, corpus, common, wine


def norm_obj(b, opts):
    if b is None:
        return None
    b = bytearray(b)
    if ("-coff" in opts or "-win64" in opts) and len(b) > 20:
        b[4:8] = b"\0\0\0\0"
    if "-omf" in opts:        # COMENT records of class E9 hold the time of the source
        i = 0
        while i + 3 <= len(b):
            n = struct.unpack_from("<H", b, i + 1)[0]
            if b[i] == 0x88 and n >= 7 and b[i + 4] == 0xe9:
                b[i + 5:i + 9] = b"\0\0\0\0"
                b[i + 2 + n:i + 3 + n] = b"\0"
            i += 3 + n
    if "-pe" in opts and len(b) > 0x40:
        o = struct.unpack_from("<I", b, 0x3c)[0]
        if o + 12 <= len(b) and b[o:o + 4] == b"PE\0\0":
            b[o + 8:o + 12] = b"\0\0\0\0"
    return bytes(b)


def norm_text(t):
    if t is None:
        return None
    t = t.decode("latin1").replace("\r\n", "\n")
    t = re.sub(r"\x1b\[[0-9;]*m", "", t)
    t = re.sub(r"[A-Z][a-z][a-z] [A-Z][a-z][a-z] +\d+ [\d:]+ \d{4}|\d\d/\d\d/\d\d(\d\d)?|\d\d:\d\d:\d\d", "TIME", t)
    t = re.sub(r"\d+ ms", "N ms", t)
    t = re.sub(r"^(UASM v[\d.]+, )\w+ +\d+ \d+", r"\1DATE", t, flags=re.M)
    return t


class P(pbt.Prop):
    id = "C32"
    rule = ("one case = a generated program of any output format (sometimes with an edit that makes it erroneous) or an edited example source of the repository, assembled by the Windows program and by the native build; "
            "trivial: fewer than 10 lines")
    kinds = ("o1", "win")
    counts = {"quick": 2400, "thorough": 40000}
    assumptions = ["time stamps and dates are masked; the native build is UASM's sources compiled for Linux with the compatibility header in /verif/shim"]

    def setup(self):
        self.w = wine.Wine()
        self.w.start()
        self.cor = corpus.load(60000)

    def worker_init(self, wid):
        pbt.Prop.worker_init(self, wid)
        self.r2 = common.Runner(self.exe["win"], "v%d_" % wid)

    def gen(self, c):
        if c.bool(1, 3) and self.cor:
            n, o, t = c.choice(self.cor)
            o = [x for x in o if not x.startswith("-Zi")]      # the debug information names the directory
            return {"opts": o + ["-Fl=t.lst"], "src": corpus.mutate(c, t, c.int(0, 3)), "out": corpus.outname(o)}
        p = progs.gen(c)
        t = p.text()
        if c.bool(1, 3):
            t = corpus.mutate(c, t, c.int(1, 3))
        o = p.opts + ["-Fl=t.lst"]
        if p.fmt in ("coff32", "omf32", "omf16", "coff64") and c.bool(1, 3):
            o += ["-Zd"]
        if c.bool(1, 3):
            o += c.sample(["-Zp4", "-Sa", "-Sg", "-Cp", "-W3", "-Zm", "-Sn", "-zcw" if 0 else "-Cu", "-DX=1", "-Zf"], c.int(1, 3))
        return {"opts": o, "src": t, "out": p.out}

    def run(self, cs):
        kw = dict(labels=[cs["opts"][0]], key=cs["src"], nontrivial=cs["src"].count("\n") >= 10, sample=cs["src"][:600], files={"t.asm": cs["src"]})
        a = self.r.asm(cs["src"], cs["opts"], timeout=10)
        if a.timeout or a.rc < 0 or "General Failure" in a.text:
            return pbt.V(None, labels=["crash (C22)"], nontrivial=False)
        self.r2.clean()
        self.r2.write({"t.asm": cs["src"]})
        b = self.r2.run(["wine", self.exe["win"], "-q"] + cs["opts"] + ["t.asm"], 30, self.w.env)
        if b.timeout or "General Failure" in b.text:
            return pbt.V(None, labels=["crash (C22)"], nontrivial=False)
        if a.rc != b.rc:
            return pbt.V("exit status %s natively, %s on Windows\n%s\n%s\n%s" % (a.rc, b.rc, a.text, b.text, cs["src"]), "status", **kw)
        x, y = norm_text(a.out), norm_text(b.out)
        if x != y:
            return pbt.V("messages differ: natively\n%s\non Windows\n%s\n%s" % (x, y, cs["src"]), "messages", **kw)
        fa, fb = sorted(os.listdir(a.dir)), sorted(os.listdir(b.dir))
        if [f.lower() for f in fa] != [f.lower() for f in fb]:
            return pbt.V("files differ: %s / %s\n%s" % (fa, fb, cs["src"]), "files", **kw)
        for f, g in zip(fa, fb):
            if f == "t.asm":
                continue
            p, q = a.file(f), b.file(g)
            if f.lower().endswith((".lst", ".err")):
                p, q = norm_text(p), norm_text(q)
                if p != q:
                    d = next(((i, u, v) for i, (u, v) in enumerate(zip(p.split("\n") + [""], q.split("\n") + [""])) if u != v), "length")
                    return pbt.V("%s differs at %s\n%s" % (f, d, cs["src"]), "text %s" % f, **kw)
            else:
                p, q = norm_obj(p, cs["opts"]), norm_obj(q, cs["opts"])
                if p != q:
                    d = next((i for i, (u, v) in enumerate(zip(p, q)) if u != v), min(len(p), len(q)))
                    return pbt.V("%s (%s) differs at %d: %s / %s, lengths %d %d\n%s" % (f, cs["opts"], d, p[d:d + 16].hex(), q[d:d + 16].hex(), len(p), len(q), cs["src"]), "object %s" % cs["opts"][0], **kw)
        return pbt.V(None, **kw)


PROP = P()
