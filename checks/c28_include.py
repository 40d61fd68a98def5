"""C28: INCLUDE and INCBIN bring in exactly the named content."""
import os, re, struct
from lib import pbt, objload

DIRS = ["", "a/", "b/", "a/c/", "d e/", "b/a/"]
OPT = {"bin": (["-bin"], "t.BIN"), "elf": (["-elf"], "t.obj"), "coff": (["-coff"], "t.obj"), "win64": (["-win64"], "t.obj"), "omf": (["-omf"], "t.obj"), "macho": (["-macho64"], "t.obj")}


def omf_data(b):
    """the bytes of the only segment with LEDATA"""
    i, out = 0, bytearray()
    while i + 3 <= len(b):
        t, n = b[i], b[i + 1] | b[i + 2] << 8
        r = b[i + 3:i + 2 + n]
        if t in (0xA0, 0xA1):
            o = struct.unpack("<I" if t & 1 else "<H", r[1:5 if t & 1 else 3])[0]
            d = r[5 if t & 1 else 3:]
            if len(out) < o:
                out += bytes(o - len(out))
            out[o:o + len(d)] = d
        i += 3 + n
    return bytes(out)


class P(pbt.Prop):
    id = "C28"
    rule = ("one case = a tree of include files and binary files, equally named in several directories, nested INCLUDEs and INCBINs (start, length) from the main file, -I options, INCLUDE variable, -x; oracle: a model of the search order, "
            "the bytes of the section must be the concatenation; a missing file must be an error; trivial: fewer than 2 files read")
    counts = {"quick": 12000, "thorough": 300000}
    assumptions = ["search order: directory of the including file, current directory, -I in order, INCLUDE variable unless -x"]

    def gen(self, c):
        fmt = c.choice(sorted(OPT))
        files = {}
        k = [0]

        def name(lv):
            return c.choice(["L%d.inc", "l%d", "L%d.x.y", "n%d a.inc", "z%d.asm", "1%d"]) % lv

        names = {lv: [name(lv) for _ in range(c.int(1, 2))] for lv in range(1, 4)}
        bins = [c.choice(["data.bin", "d", "x y.bin", "L1.inc", "7"]) for _ in range(c.int(1, 2))]
        for b in bins:
            for d in c.sample(DIRS, c.weighted([(1, c.int(0, 2)), (4, 4), (12, 6)])):
                n = c.weighted([(4, c.int(0, 40)), (2, c.int(0, 3000)), (1, c.int(1000, 1040)), (1, c.int(0, 70000) if fmt != "bin" else 5)])
                s = c.int(0, 1 << 30)
                files.setdefault(d + b, {"bin": [n, s, c.choice(["rand", "zero", "ff", "nl"])]})

        def body(lv):
            ls = []
            for _ in range(c.int(1, 5) if lv else c.int(2, 9)):
                j = c.weighted([(3, "db"), (4 if lv < 3 else 0, "inc"), (2, "bin"), (1, "loc"), (1, "if0"), (1, "equ")])
                if j == "db":
                    k[0] += 1
                    ls.append(["db", [k[0] & 255, k[0] >> 8] + [c.int(0, 255) for _ in range(c.int(0, 3))]])
                elif j == "inc":
                    ls.append(["inc", c.weighted([(16, ""), (1, "a/"), (1, "c/"), (1, "b/"), (1, "../a/")]) + c.choice(names[lv + 1]), c.int(0, 5)])
                elif j == "bin":
                    a = c.choice([None, None, c.int(0, 60), c.int(0, 3000), 0])
                    n = c.choice([None, None, c.int(0, 60), c.int(0, 4000), 0, 1])
                    ls.append(["bin", c.weighted([(16, ""), (1, "a/"), (1, "c/")]) + c.choice(bins), a, n, c.int(0, 5)])
                elif j == "loc":
                    ls.append(["loc"])
                elif j == "if0":
                    ls.append(["if0", c.choice(["no_such.inc", c.choice(names[1])])])
                else:
                    ls.append(["equ", c.int(0, 200)])
            return ls
        for lv in range(1, 4):
            for n in names[lv]:
                for d in c.sample(DIRS, c.weighted([(1, c.int(0, 2)), (4, 4), (12, 6)])):
                    if d + n not in files or "bin" not in files[d + n]:
                        files.setdefault(d + n, {"txt": body(lv), "eol": c.choice(["\n", "\n", "\r\n"]), "last": c.bool(3, 4)})
        main = {"txt": body(0), "eol": "\n", "last": True}
        return {"fmt": fmt, "files": files, "main": main, "mdir": c.choice(["", "", "a/", "b/"]), "I": [c.choice(["a", "b/", "./a", "d e", "b/a", "nowhere", "a;b", "b//a"]) for _ in range(c.weighted([(2, 0), (2, 1), (2, 2), (1, 4)]))],
                "env": [c.choice(["a", "b", "d e", "a/c"]) for _ in range(c.weighted([(3, 0), (1, 1), (1, 2)]))], "x": c.bool(1, 4), "style": c.int(0, 2)}

    def content(self, f):
        import random
        n, s, k = f["bin"]
        if k == "zero":
            return bytes(n)
        if k == "ff":
            return b"\xff" * n
        r = random.Random(s)
        if k == "nl":
            return bytes(r.choice(b"\r\n\x1a\0;AB") for _ in range(n))
        return r.randbytes(n)

    def render(self, f):
        out = []
        for l in f["txt"]:
            if l[0] == "db":
                out.append(" db " + ", ".join(map(str, l[1])))
            elif l[0] == "inc":
                q = l[2]
                out.append(["include %s", " include <%s>", "\tINCLUDE  %s  ", "include %s ; remark", "include <%s> ; remark", "Include %s"][q] % l[1])
            elif l[0] == "bin":
                s = ["incbin <%s>", " INCBIN \"%s\"", "incbin '%s'", "incbin  \"%s\"", "incbin <%s>", "incbin '%s'"][l[4]] % l[1]
                num = lambda v: ["%d", "0%xh", "%d+0", "(%d)", "%dd", "0x%x"][l[4]] % v
                if l[2] is not None or l[3] is not None:
                    s += ", " + (num(l[2]) if l[2] is not None else "0" if l[4] else "")
                    if l[3] is not None:
                        s += ", " + num(l[3])
                out.append(s)
            elif l[0] == "loc":
                out.append(" dd $ - base")
            elif l[0] == "if0":
                out += ["if 0", " include " + l[1], " incbin <%s>" % l[1], "endif"]
            else:
                out += ["ev = %d" % l[1], " db ev"]
        return f["eol"].join(out) + (f["eol"] if f["last"] else "")

    def find(self, cs, cur, path):
        d = os.path.dirname(cur)
        cand = ([d + "/" + path] if d else []) + [path]
        dirs = []
        for i in cs["I"]:
            dirs += i.split(";")
        if not cs["x"]:
            dirs += cs["env"]
        cand += [i.rstrip("/") + "/" + path for i in dirs]
        for p in cand:
            n = os.path.normpath(p)
            if n in cs["files"]:
                # a directory on the way must exist for a/../b
                parts, okd = p.split("/")[:-1], True
                for j in range(1, len(parts) + 1):
                    q = os.path.normpath("/".join(parts[:j]))
                    okd = okd and (q == "." or any(f.startswith(q + "/") for f in list(cs["files"]) + [cs["mdir"] + "t.asm"]))
                if okd:
                    return p, cs["files"][n]
        return None, None

    def model(self, cs, f, cur, out, depth=0):
        for l in f["txt"]:
            if l[0] == "db":
                out += bytes(l[1])
            elif l[0] == "equ":
                out.append(l[1])
            elif l[0] == "loc":
                out += struct.pack("<I", len(out))
            elif l[0] == "inc":
                p, g = self.find(cs, cur, l[1])
                if g is None:
                    self.missing.append((cur, l[1]))
                    continue
                if "bin" in g:
                    raise pbt.Discard()
                self.nread += 1
                self.model(cs, g, p, out, depth + 1)
            elif l[0] == "bin":
                p, g = self.find(cs, cur, l[1])
                if g is None:
                    self.missing.append((cur, l[1]))
                    continue
                self.nread += 1
                b = self.content(g) if "bin" in g else self.render(g).encode("latin1")
                b = b[(l[2] or 0):]
                out += b if l[3] is None else b[:l[3]]
            if len(out) > 400000:
                raise pbt.Discard()

    def run(self, cs):
        opts, outn = OPT[cs["fmt"]]
        out = bytearray()
        self.missing, self.nread = [], 0
        main = cs["mdir"] + "t.asm"
        self.model(cs, cs["main"], main, out)
        pre = {"bin": ".386\n.model flat\n.data\n", "elf": ".386\n.model flat\n.data\n", "coff": ".386\n.model flat\n.data\n", "omf": ".386\n.model flat\n.data\n"}.get(cs["fmt"], ".data\n")
        text = pre + "base label byte\n" + self.render(cs["main"]) + "end\n"
        opts = list(opts)
        for i in cs["I"]:
            opts += [["-I" + i], ["-I", i], ["-I=" + i]][0 if cs["style"] == 0 else 1 if cs["style"] == 1 else 0]
        if cs["x"]:
            opts.append("-x") if 0 else opts.append("-X")
        env = {"INCLUDE": ";".join(cs["env"])} if cs["env"] else {}
        self.r.clean()
        for n, f in list(cs["files"].items()) + [(main, None)]:
            p = os.path.join(self.r.dir, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as fh:
                fh.write(text.encode("latin1") if f is None else self.content(f) if "bin" in f else self.render(f).encode("latin1"))
        r = self.r.run([self.exe["o1"], "-q"] + opts + ["-Fo", "out.o", main], 20, env=env)
        shown = "%s INCLUDE=%s %s\n%s" % (" ".join(opts), ";".join(cs["env"]), main, text) + "".join("--- %s: %s\n" % (n, "%d bytes" % f["bin"][0] if "bin" in f else "\n" + self.render(f)) for n, f in sorted(cs["files"].items()))
        kw = dict(labels=[cs["fmt"], "missing" if self.missing else "%d files read" % min(self.nread, 5)] + ["-I"] * bool(cs["I"]) + ["env"] * bool(cs["env"]), key=shown, nontrivial=self.nread >= 2 or bool(self.missing), sample=shown[:900],
                  files={n.replace("/", "_"): (self.content(f).decode("latin1") if "bin" in f else self.render(f)) for n, f in cs["files"].items()} | {"t.asm": text, "cmd": " ".join(opts)})
        if r.timeout or r.rc < 0 or "General Failure" in r.text:
            return pbt.V("crash or time-out: %s\n%s" % (r.text[-300:], shown), "crash", **kw)
        o = r.file("out.o")
        if self.missing:
            errs = r.errors()
            if r.rc == 0 or o is not None or not any(e[3] in (1000, 2106, 1106) and self.missing[0][1] in e[4] for e in errs):
                return pbt.V("missing %s: status %d, object %s\n%s\n%s" % (self.missing, r.rc, o is not None, r.text[-500:], shown), "missing file not reported", **kw)
            return pbt.V(None, **kw)
        if r.rc or o is None:
            return pbt.V("all files exist, but status %d\n%s\n%s" % (r.rc, r.text[-500:], shown), "refused: " + re.sub(r"\S*[\d.]\S*", "N", (r.errors() or [[0, 0, 0, 0, ""]])[0][4])[:50], **kw)
        if cs["fmt"] == "bin":
            got = o
        elif cs["fmt"] == "omf":
            got = omf_data(o)
        else:
            ob = objload.read(o)
            got = b"".join(bytes(s.data) for s in ob.secs.values() if s.name in (".data", "__data"))
        if got[:len(out)] != bytes(out) or got[len(out):].strip(b"\0"):
            i = next((i for i, (u, v) in enumerate(zip(got, out)) if u != v), min(len(got), len(out)))
            return pbt.V("%d bytes expected, %d found, first difference at %d: %s / %s\n%s" % (len(out), len(got), i, bytes(out[i:i + 16]).hex(), got[i:i + 16].hex(), shown), "bytes differ", **kw)
        return pbt.V(None, **kw)


PROP = P()
