"""C13: INVOKE, executed: what arrives at an independent callee."""
import re, struct
from lib import pbt, common, execlib, objload, image

GP = {8: "rax rcx rdx rbx rsp rbp rsi rdi r8 r9 r10 r11 r12 r13 r14 r15".split(),
      4: "eax ecx edx ebx esp ebp esi edi r8d r9d r10d r11d r12d r13d r14d r15d".split(),
      2: "ax cx dx bx sp bp si di r8w r9w r10w r11w r12w r13w r14w r15w".split(),
      1: "al cl dl bl spl bpl sil dil r8b r9b r10b r11b r12b r13b r14b r15b".split()}
INT = {"BYTE": (1, 0), "SBYTE": (1, 1), "WORD": (2, 0), "SWORD": (2, 1), "DWORD": (4, 0), "SDWORD": (4, 1), "QWORD": (8, 0), "SQWORD": (8, 1)}
FLT = {"REAL4": 4, "REAL8": 8}
VARS = ["BYTE", "SBYTE", "WORD", "SWORD", "DWORD", "SDWORD", "QWORD", "SQWORD", "REAL4", "REAL8"]
FLOATS = ["1.0", "-2.5", "0.1", "3.14159265358979", "1.5e10", "-7.25e-3", "123456.789", "100.0", "0.5", "-1.0"]
SCR = {"w64": {0, 1, 2, 8, 9}, "sysv": {0, 1, 2, 6, 7, 8, 9}, "fast": {0, 1, 2}, "c": {0}, "stdcall": {0}, "pascal": {0}, "syscall": {0}}
PRES = {"w64": [3, 5, 6, 7, 12, 13, 14, 15], "sysv": [3, 5, 12, 13, 14, 15]}
NV = 2          # variables of each type


def tsize(t, m):
    if t in INT:
        return INT[t][0]
    if t in FLT:
        return FLT[t]
    return m // 8       # pointers


class P(pbt.Prop):
    id = "C13"
    rule = ("one case = a module with 10 INVOKEs of external procedures in one calling convention, executed; at the entry of the callee every argument is read where the ABI puts it; "
            "an evaluation is one call; keys are calls; trivial: no argument")
    counts = {"quick": 16000, "thorough": 400000}
    assumptions = ["only as many bytes of an argument as its parameter has are compared", "bits above a narrow parameter are unspecified"]

    def setup(self):
        self.ex = execlib.build()

    # ------------------------------------------------------------ generation
    def gen(self, c):
        conv = c.weighted([(4, "w64"), (4, "sysv"), (2, "c"), (2, "stdcall"), (1, "pascal"), (1, "syscall"), (2, "fast")])
        m = 64 if conv in ("w64", "sysv") else 32
        vals = {}
        for t in VARS:
            for k in range(NV):
                n = tsize(t, m)
                if t in FLT:
                    vals[t.lower() + str(k)] = c.choice(FLOATS)
                else:
                    vals[t.lower() + str(k)] = c.choice([c.bits(8 * n), 0, (1 << 8 * n) - 1, 1 << 8 * n - 1, c.bits(7)])
        tests = [self.test(c, conv, m) for _ in range(10)]
        return {"conv": conv, "vals": vals, "tests": tests, "fmt": c.int(0, 1), "opt": c.int(0, 3)}

    def test(self, c, conv, m):
        va = conv in ("w64", "sysv", "c") and c.bool(1, 6)
        n = c.weighted([(1, 0), (6, c.int(1, 4)), (4, c.int(4, 7)), (2, c.int(8, 12))])
        types = VARS + ["PTR", "PTR DWORD"]
        ps = [c.choice(types) for _ in range(n)]
        # registers: some hold pointers to the variables
        used = set()
        ptrs = []
        cand = [0, 1, 2, 3, 6, 7] + ([8, 9, 10, 11, 12, 13] if m == 64 else [])
        ptr = c.choice(cand)
        args = [self.arg(c, conv, m, p, ptr, cand) for p in ps]
        extra = []
        if va:
            for _ in range(c.int(0, 6)):
                p = c.choice(["DWORD", "QWORD", "DWORD", "SDWORD", "PTR"] if m == 64 else ["DWORD", "SDWORD", "PTR"])
                if m == 64 and c.bool(1, 4):
                    p = "REAL8"
                extra.append((p, self.arg(c, conv, m, p, ptr, cand, va=True)))
        return {"ps": ps, "args": args, "va": extra if va else None, "ptr": ptr, "gpr": [c.bits(64 if c.bool(2, 3) else 8) for _ in range(16)], "xmm": [c.choice(FLOATS) for _ in range(16)],
                "tgt": c.weighted([(5, 0), (1, 1), (1, 2)])}

    def arg(self, c, conv, m, p, ptr, cand, va=False):
        n = tsize(p, m)
        nat = m // 8
        if p in FLT:
            k = c.weighted([(3, "f"), (3, "v"), (2 if m == 64 else 0, "x"), (2, "m")])
            if va and (k == "f" or k == "x" and conv == "w64"):
                k = "v"
            if k == "f":
                return ["f", c.choice(FLOATS)]
            if k == "x":
                return ["x", c.int(0, 15 if m == 64 else 7)]
            v = "%s%d" % (p.lower(), c.int(0, NV - 1))
            return ["v", v] if k == "v" else ["m", p, v]
        if p.startswith("PTR"):
            k = c.choice("aaoorvmss" if va else "aaoorvms")
            if k == "s":
                w = c.bool(1, 4)
                n = c.weighted([(8, c.int(1, 6)), (2, c.int(7, 40)), (1, c.int(200, 240))])
                ab = c.choice(["aA", "abcXYZ 019,;()<>%&!'", "AQBa"])
                x = "".join(c.choice(ab) for _ in range(n))
                if c.bool(1, 4):
                    x = x[:n // 2] + c.choice(["\\n", "\\r", "\\t"]) + x[n // 2:]
                return ["s", x, w]
            v = "%s%d" % (c.choice(VARS).lower(), c.int(0, NV - 1))
            if k == "a":
                return c.choice([["a", v], ["a", v], ["am", v]])
            if k == "o":
                return ["a" if conv == "sysv" else "o", v]     # push offset X: refused
            if k == "r":
                return ["r", nat, c.choice(cand)]
            v = "%s%d" % ("qword" if m == 64 else "dword", c.int(0, NV - 1))
            return ["v", v] if k == "v" else ["m", v[:-1].upper(), v]
        k = c.choice("ccrrvvm" + ("a" if n == nat else ""))
        if va and k == "c":
            return ["c", c.choice([c.int(0, 100), c.int(-2 ** 31, 2 ** 31 - 1)])]
        if k == "c":
            v = c.choice([c.int(0, 10), 0, -1, c.int(-128, 127), c.bits(8 * n), c.bits(8 * n - 1), -c.bits(8 * n - 1)])
            lo, hi = -(1 << 8 * n - 1), (1 << 8 * n) - 1
            return ["c", max(lo, min(hi, v))]
        if k == "a":
            return ["a", "%s%d" % (c.choice(VARS).lower(), c.int(0, NV - 1))]
        if k == "r":
            s = n
            if s == 8 and m == 32:
                return ["v", "qword0"]
            if not va and conv not in ("sysv", "fast") and n <= nat:
                s = c.choice([x for x in (1, 2, 4, 8) if x <= n] + [n, n])
            r = c.choice(cand)
            if s == 1 and m == 32:
                r = c.choice([0, 1, 2, 3])
                if conv != "fast" and c.bool(1, 4):
                    return ["rh", r]
            return ["r", s, r]
        t = p
        ext = [x for x in INT if INT[x][0] <= n and INT[x][1] == INT[p][1]] if conv == "w64" or m == 32 and n <= 4 else [x for x in INT if INT[x][0] == n]
        if va or conv == "fast":
            ext = [x for x in INT if INT[x][0] == n]
        t = c.choice(ext + [p])
        v = "%s%d" % (t.lower(), c.int(0, NV - 1))
        return ["v", v] if k == "v" else ["m", t, v]

    # ------------------------------------------------------------ running
    def text(self, a, m, t):
        k = a[0]
        pr = GP[m // 8][t["ptr"]]
        if k == "f":
            return a[1]
        if k == "s":
            return ("L" if a[2] else "") + '"%s"' % a[1]
        if k == "x":
            return "xmm%d" % a[1]
        if k == "v":
            return a[1]
        if k == "m":
            return "%s ptr [%s+%d]" % (a[1].lower(), pr, self.off[a[2]])
        if k == "a":
            return "addr " + a[1]
        if k == "am":
            return "addr [%s+%d]" % (pr, self.off[a[1]])
        if k == "o":
            return "offset " + a[1]
        if k == "r":
            return GP[a[1]][a[2]]
        if k == "rh":
            return ["ah", "ch", "dh", "bh"][a[1]]
        if k == "c":
            return str(a[1])

    def regsof(self, a, t):
        k = a[0]
        if k in ("m", "am"):
            return {t["ptr"]}
        if k == "r":
            return {a[2]}
        if k == "rh":
            return {a[1]}
        return set()

    def xregsof(self, a):
        return {a[1]} if a[0] == "x" else set()

    def value(self, a, p, m, t, cs, gpr, base):
        """bytes of the argument, or None: unspecified"""
        n = tsize(p, m)
        k = a[0]
        fl = lambda s, n: struct.pack("<f" if n == 4 else "<d", float(s))
        if k == "f":
            return fl(a[1], n)
        if k == "x":
            return fl(t["xmm"][a[1]], 4) if p == "REAL4" else fl(t["xmm"][a[1]], 8)
        if k in ("v", "m"):
            v = a[1] if k == "v" else a[2]
            ty = v[:-1].upper()
            if ty in FLT:
                return fl(cs["vals"][v], FLT[ty])
            s, sg = INT[ty]
            x = cs["vals"][v]
            if sg and x >> 8 * s - 1:
                x -= 1 << 8 * s
            return (x & (1 << 8 * n) - 1).to_bytes(n, "little")
        if k in ("a", "am", "o"):
            return ((base + self.off[a[1]]) & (1 << 8 * n) - 1).to_bytes(n, "little")
        if k == "r":
            return (gpr[a[2]] & (1 << 8 * a[1]) - 1).to_bytes(n, "little")
        if k == "rh":
            return (gpr[a[1]] >> 8 & 255).to_bytes(n, "little")
        return (a[1] & (1 << 8 * n) - 1).to_bytes(n, "little")

    def source(self, cs, keep):
        conv = cs["conv"]
        m = 64 if conv in ("w64", "sysv") else 32
        o = []
        if m == 32:
            o += [".686", ".xmm", ".model flat, " + {"fast": "fastcall"}.get(conv, conv)]
        o += ["option casemap:none", "option literals:on"]
        lang = {"fast": "fastcall ", "w64": "fastcall " if cs["opt"] & 1 else "", "sysv": "systemv " if cs["opt"] & 1 else ""}.get(conv, "")
        o.append(".data")
        o += ["align 16", "public blk", "blk label byte"]
        off = 0
        self.off = {}
        for t in VARS:
            for k in range(NV):
                v = t.lower() + str(k)
                o.append("align 8")
                o.append("%s %s %s" % (v, t, cs["vals"][v]))
                self.off[v] = off
                off += 8
        pt = []
        for i in keep:
            t = cs["tests"][i]
            par = [":" + p for p in t["ps"]] + ([":VARARG"] if t["va"] is not None else [])
            o.append("f%d PROTO %s%s" % (i, lang, ", ".join(par)))
            if t["tgt"]:
                o.append("T%d typedef PROTO %s%s" % (i, lang, ", ".join(par)))
                o.append("PT%d typedef PTR T%d" % (i, i))
                o.append("pf%d PT%d f%d" % (i, i, i))
        o += [".code"]
        lines = {}
        for i in keep:
            t = cs["tests"][i]
            o.append("public t%d" % i)
            o.append("t%d::" % i)
            if m == 64:
                o.append(" sub rsp, 8")
            tg = "f%d" % i
            if t["tgt"] == 1:
                tg = "pf%d" % i
            elif t["tgt"] == 2:
                r = "r14" if m == 64 else "esi"
                tg = "(PT%d ptr pf%d)" % (i, i) if 0 else "pf%d" % i
            args = [self.text(a, m, t) for a in t["args"]] + [self.text(a, m, t) for p, a in t["va"] or []]
            o.append(" invoke " + ", ".join([tg] + args))
            lines[len(o)] = i
            if m == 64:
                o.append(" add rsp, 8")
            o.append(" ret")
        o.append("end")
        return "\n".join(o) + "\n", lines

    def run(self, cs):
        conv = cs["conv"]
        m = 64 if conv in ("w64", "sysv") else 32
        keep = list(range(len(cs["tests"])))
        opt = {"w64": "-win64", "sysv": "-elf64"}.get(conv) or ["-elf", "-coff"][cs["fmt"]]
        labels = [conv]
        for rnd in range(4):
            src, lines = self.source(cs, keep)
            kw = dict(labels=labels, key=None, files={"t.asm": src, "opts": opt}, n=max(1, len(keep)))
            r = self.r.asm(src, (opt, "-e5000"))
            ob = r.file("t.obj") or r.file("t.o")
            er = [e for e in r.errors() if e[2] != "Warning"]
            if not er and not r.rc and ob is not None:
                break
            drop = set()
            for e in er:
                i = lines.get(e[1])
                if i is None:
                    return pbt.V("error outside of the calls: %s\n%s" % (e, src), "error %s" % e[3], **kw)
                t = cs["tests"][i]
                rg = set()
                for a in t["args"] + [a for p, a in t["va"] or []]:
                    rg |= self.regsof(a, t)
                xr = set()
                for a in t["args"] + [a for p, a in t["va"] or []]:
                    xr |= self.xregsof(a)
                if any(x[1] == e[1] and "overwritten" in x[4] for x in er) and (rg & SCR[conv] or xr):
                    drop.add(i)
                    continue
                return pbt.V("a valid call is refused (%s): %s\n%s\n%s" % (opt, e, src.split("\n")[e[1] - 1], [x for x in src.split("\n") if x.startswith("f%d " % i)]),
                             "refused %s %s" % (conv, e[3]), **kw)
            if not drop:
                return pbt.V("assembly fails: rc %d %s\n%s" % (r.rc, r.text[-300:], src), "fails", **kw)
            labels.append("overwrite reported")
            keep = [i for i in keep if i not in drop]
        if not keep:
            return pbt.V(None, **{**kw, "nontrivial": False, "key": src})
        try:
            obj = objload.read(ob)
            ext = lambda n: execlib.HOOKS + 16 * int(re.search(r"f(\d+)", n).group(1))
            names = {s.name for s in obj.syms.values()} if isinstance(obj.syms, dict) else {s.name for s in obj.syms if s}
            e = {}
            for n in names:
                q = re.fullmatch(r"[_@]?f(\d+)(@+\d+)?|F(\d+)", n or "")
                if q:
                    e[n] = execlib.HOOKS + 16 * int(q.group(1) or q.group(3))
            img, size, glob = image.build([obj], ext=e)
        except objload.Bad as x:
            return pbt.V("object cannot be loaded (%s): %s\n%s" % (opt, x, src), "object", **kw)
        nm = {k.lstrip("_").lower(): v for k, v in glob.items()}
        base = nm["blk"]
        runs, hooks = [], [[0, execlib.C32 if m == 32 else execlib.SYSV if conv == "sysv" else execlib.WIN64, 0x77, 0] for _ in cs["tests"]]
        mk = (1 << m) - 1
        for i in keep:
            t = cs["tests"][i]
            if conv in ("stdcall", "pascal") or conv == "fast":
                lay = self.layout(conv, m, t)
                hooks[i][0] = sum((tsize(p, m) + 3) // 4 * 4 for p, l in zip(t["ps"], lay) if l[0] == "s")
            g = {k: v & mk for k, v in enumerate(t["gpr"])}
            g.pop(4)
            g[t["ptr"]] = base
            xm = {}
            for k in range(16 if m == 64 else 8):
                # REAL4 users of an xmm register see a float: use doubles unless a REAL4 parameter takes it
                f4 = any(a[0] == "x" and a[1] == k and p == "REAL4" for p, a in zip(t["ps"], t["args"]))
                f8 = any(a[0] == "x" and a[1] == k and p == "REAL8" for p, a in list(zip(t["ps"], t["args"])) + (t["va"] or []))
                if f4 and f8:
                    pass
                xm[k] = (struct.pack("<f", float(t["xmm"][k])) + b"\x55" * 12) if f4 and not f8 else struct.pack("<d", float(t["xmm"][k])) + b"\x66" * 8
            runs.append((i, g, xm))
        try:
            recs = execlib.run(self.ex[m], m, img, size, [tuple(h) for h in hooks], [execlib.Test(nm["t%d" % i], g, xm) for i, g, xm in runs])
        except execlib.HarnessError as x:
            return pbt.V("the program does not run to the end: %s\n%s" % (x, src), "runner", **kw)
        keys = []
        for (i, g, xm), rec in zip(runs, recs):
            t = cs["tests"][i]
            call = [l for l in src.split("\n") if re.match(r" invoke p?f%d\b" % i, l)][0]
            pro = [l for l in src.split("\n") if l.startswith("f%d " % i)][0]
            keys.append(pro + call)
            where = "%s\n%s\nregisters %s\n%s\n%s" % (pro, call.strip(), {GP[m // 8][k]: hex(v) for k, v in g.items() if k < (16 if m == 64 else 8)}, opt, src)
            if rec.status:
                return pbt.V("signal %d\n%s" % (rec.status, where), "signal " + conv, **kw)
            if len(rec.calls) != 1 or rec.calls[0].id != i:
                return pbt.V("calls made: %s\n%s" % ([x.id for x in rec.calls], where), "calls", **kw)
            if rec.spdelta:
                return pbt.V("stack pointer off by %d after the call\n%s" % (rec.spdelta if rec.spdelta < 1 << 31 else rec.spdelta - (1 << m), where), "sp " + conv, **kw)
            call = rec.calls[0]
            if m == 64 and (call.sp + 8) % 16:
                return pbt.V("stack misaligned at the call\n%s" % where, "align " + conv, **kw)
            st = b"".join((x & mk).to_bytes(m // 8, "little") for x in call.stack)
            lay = self.layout(conv, m, t)
            nx = 0
            for k, ((p, a), l) in enumerate(zip(list(zip(t["ps"], t["args"])) + (t["va"] or []), lay)):
                if a[0] == "s":
                    q = l
                    got = st[l[1]:l[1] + m // 8] if l[0] == "s" else call.gpr[l[1]].to_bytes(8, "little")[:m // 8]
                    at = int.from_bytes(got, "little") - execlib.IMG
                    w = a[1].replace("\\n", "\n").replace("\\r", "\r").replace("\\t", "\t").encode("utf-16le" if a[2] else "latin1") + bytes(2 if a[2] else 1)
                    if not 0 <= at < len(img) or img[at:at + len(w)] != w:
                        return pbt.V("argument %d: string %r is %r\n%s" % (k + 1, w, bytes(img[at:at + len(w)]) if 0 <= at < len(img) else hex(at), where), "string %s" % conv, **kw)
                    continue
                w = self.value(a, p, m, t, cs, g, base)
                if a[0] == "x":
                    w = xm[a[1]][:tsize(p, m)]
                n = len(w)
                for where_ in (l if isinstance(l, list) else [l]):
                    if where_[0] == "s":
                        got = st[where_[1]:where_[1] + n]
                    elif where_[0] == "g":
                        got = (call.gpr[where_[1]]).to_bytes(8, "little")[:n]
                    else:
                        got = call.xmm[where_[1]][:n]
                        nx += 1
                    if got != w:
                        return pbt.V("argument %d (%s, %s) is %s in %s, expected %s\n%s" % (k + 1, p, self.text(a, m, t), got.hex(), where_, w.hex(), where), "arg %s %s %s" % (conv, p, a[0]), **kw)
            if conv == "sysv" and t["va"] is not None and not nx <= (call.gpr[0] & 255) <= 8:
                return pbt.V("al is %d for %d vector registers\n%s" % (call.gpr[0] & 255, nx, where), "al", **kw)
            for k in PRES.get(conv, [3, 5, 6, 7]):
                if k in g and rec.gpr[k] & mk != g[k]:
                    return pbt.V("register %s was changed\n%s" % (GP[m // 8][k], where), "preserved", **kw)
        kw["n"] = len(keep)
        kw.pop("key")
        return pbt.V(None, keys=keys, nontrivial=any(cs["tests"][i]["args"] for i in keep), sample=[l.strip() for l in src.split("\n") if " invoke" in l][:4], **kw)

    def layout(self, conv, m, t):
        ps = t["ps"] + [p for p, a in t["va"] or []]
        nf = len(t["ps"])
        r = []
        if conv == "w64":
            for i, p in enumerate(ps):
                if i >= 4:
                    r.append(("s", 8 + 8 * i))
                elif p in FLT:
                    r.append(("x", i) if i < nf else ("g", [1, 2, 8, 9][i]))
                else:
                    r.append(("g", [1, 2, 8, 9][i]))
        elif conv == "sysv":
            gi = xi = si = 0
            for p in ps:
                if p in FLT and xi < 8:
                    r.append(("x", xi))
                    xi += 1
                elif p not in FLT and gi < 6:
                    r.append(("g", [7, 6, 2, 1, 8, 9][gi]))
                    gi += 1
                else:
                    r.append(("s", 8 + 8 * si))
                    si += 1
        elif conv == "fast":
            gi, so = 0, 4
            for p in ps:
                n = tsize(p, m)
                if p not in FLT and n <= 4 and gi < 2:
                    r.append(("g", [1, 2][gi]))
                    gi += 1
                else:
                    r.append(("s", so))
                    so += (n + 3) // 4 * 4
        else:
            so = 4
            for p in (reversed(ps) if conv == "pascal" else ps):
                r.append(("s", so))
                so += (tsize(p, m) + 3) // 4 * 4
            if conv == "pascal":
                r.reverse()
        return r


PROP = P()
