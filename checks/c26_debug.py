"""C26: line records and CodeView symbols and types describe the program; debug options do not change the code."""
import os, struct
from lib import pbt, cvread, omf

PRIMS = {"byte": 1, "sbyte": 1, "word": 2, "sword": 2, "dword": 4, "sdword": 4, "real4": 4, "qword": 8, "real8": 8}
CODE = [("nop", 1), ("xor eax, eax", 2), ("mov eax, 12345678h", 5), ("inc byte ptr [esi]", 2), ("add ecx, 5", 3), ("cld", 1), ("cdq", 1)]
CODE64 = [("nop", 1), ("xor eax, eax", 2), ("mov eax, 12345678h", 5), ("mov rax, rcx", 3), ("add ecx, 5", 3), ("cld", 1), ("cqo", 2)]
CODE16 = [("nop", 1), ("xor ax, ax", 2), ("mov ax, 1234h", 3), ("inc byte ptr [si]", 2), ("add cx, 5", 3), ("cld", 1), ("cwd", 1)]


def up(v, a):
    return (v + a - 1) // a * a


def gen(c):
    fmt = c.choice(["omf32", "omf16", "coff", "coff", "win64"])
    o16, o64 = fmt == "omf16", fmt == "win64"
    opt = c.choice(["-Zd", "-Zi"] if fmt.startswith("omf") else ["-Zd", "-Zi", "-Zi8", "-Zi8"])
    files = {"t.asm": []}
    lines, data, procs, structs, labels = [], [], [], [], []
    loc = {}
    cur = ["t.asm"]
    n = [0]

    def name(p):
        n[0] += 1
        return p + c.choice(["", "x", "Name", "_" + "y" * c.int(1, 40)]) + str(n[0])

    def put(t):
        files[cur[0]].append(t)
        return len(files[cur[0]])
    W = 2 if o16 else 8 if o64 else 4
    o386 = not o16 or c.bool()
    if not o16:
        put(".386" if not o64 else ".x64")
    if fmt != "omf16":
        put(".model flat" + (", c" if not o64 else ", fastcall"))
    else:
        put(".model %s, c" % c.choice(["small", "compact"]))
        if o386:
            put(".386")
    code = [x for x in (CODE16 if o16 else CODE64 if o64 else CODE)]
    # macros
    macs = []
    for _ in range(c.int(0, 2)):
        nm = name("m")
        put("%s macro" % nm)
        ins = [c.choice(code) for _ in range(c.int(1, 3))]
        for t, _ in ins:
            put("  " + t)
        put("endm")
        macs.append((nm, [s for _, s in ins]))
    # types
    def ftype():
        if structs and c.bool(1, 4):
            s = c.choice(structs)
            return s["name"], s["size"], "struct"
        t = c.choice(sorted(PRIMS))
        return t, PRIMS[t], "prim"
    for _ in range(c.int(0, 3)):
        nm = name("S")
        un = c.bool(1, 4)
        put("%s %s" % (nm, "union" if un else "struct"))
        fs, at = [], 0
        for _ in range(c.int(1, 5)):
            t, sz, k = ftype()
            cnt = c.choice([1, 1, 1, 2, 5, 300]) if not un else 1
            if sz * cnt > 65000:
                cnt = 1
            f = name("f")
            put("  %s %s %s" % (f, t, "%d dup (%s)" % (cnt, "<>" if k == "struct" else "?") if cnt > 1 else "<>" if k == "struct" else "?"))
            fs.append((f, 0 if un else at, t, sz, cnt))
            at = max(at, sz * cnt) if un else at + sz * cnt
        put("%s ends" % nm)
        structs.append(dict(name=nm, size=at, fields=fs, union=un))
    inc = []
    for k in range(c.int(0, 2)):
        inc.append("i%d.inc" % k)
    curseg = [None]

    def seg(s):
        put(s)
        curseg[0] = s
        loc.setdefault(s, 0)

    def instr(t, sz):
        ln = put("  " + t)
        lines.append((curseg[0], loc[curseg[0]], cur[0], ln, inproc[0]))
        loc[curseg[0]] += sz
    inproc = [None]

    def body(k):
        for _ in range(k):
            q = c.int(0, 9)
            if q == 0:
                put("")
            elif q == 1:
                put("  ; a comment")
            elif q == 2 and macs:
                nm, szs = c.choice(macs)
                instr(nm, sum(szs))
            elif q == 3:
                put("  db 90h")
                loc[curseg[0]] += 1
            elif q == 4 and not o64 and o386:
                # two or three generated instructions
                t = c.choice(["eax", "ecx", "edx"]) if not o16 else c.choice(["ax", "cx", "dx"])
                instr(".if %s == 3" % t, 5)
                instr(*c.choice(code))
                put("  .endif")
            else:
                instr(*c.choice(code))

    def block(depth=0):
        k = c.weighted([(4, "proc"), (3, "data"), (1, "loose"), (2, "inc")])
        if k == "inc":
            if depth or not inc or curseg[0] is None:
                return
            f = inc.pop()
            put("include %s" % f)
            old = cur[0]
            cur[0] = f
            files[f] = []
            for _ in range(c.int(0, 6)):
                put("; padding")
            for _ in range(c.int(1, 3)):
                block(1)
            cur[0] = old
            return
        if k == "data":
            seg(c.choice([".data", ".data?"]))
            for _ in range(c.int(1, 4)):
                nm = name("v")
                t, sz, kind = ftype()
                cnt = c.choice([1, 1, 2, 9])
                pub = c.bool(1, 3)
                if pub:
                    put("public " + nm)
                i = "<>" if kind == "struct" else "?"
                put("%s %s %s" % (nm, t, "%d dup (%s)" % (cnt, i) if cnt > 1 else i))
                data.append(dict(name=nm, seg=curseg[0], at=loc[curseg[0]], type=t, size=sz, cnt=cnt, pub=pub, kind=kind))
                loc[curseg[0]] += sz * cnt
            return
        seg(".code")
        if k == "loose":
            if opt == "-Zi8" or o64:
                return
            nm = name("L")
            put(nm + ":")
            labels.append(dict(name=nm, seg=".code", at=loc[".code"]))
            body(c.int(1, 4))
            return
        nm = name("P")
        at = loc[".code"]
        pars = [(name("a"), c.choice(["word", "byte"] if o16 else ["dword", "word", "byte"])) for _ in range(c.int(0, 3))] if not o64 else []
        vis = c.choice(["", "private", "public"])
        pl = put(" ".join(x for x in [nm, "proc", vis, ", ".join("%s:%s" % x for x in pars)] if x))
        locs = []
        tot = 0
        if not o64:
            for _ in range(c.int(0, 3)):
                t, sz, kind = ftype()
                cnt = c.choice([1, 1, 3])
                if kind == "struct" or o16 and sz > 4 or sz * cnt > 30000:
                    continue
                ln = name("l")
                put("  local %s%s:%s" % (ln, "[%d]" % cnt if cnt > 1 else "", t))
                tot = up(tot + sz * cnt, min(sz, W)) if sz > 1 else tot + sz * cnt
                locs.append((ln, -tot, sz, cnt))
        tot = up(tot, W)
        pro = 0
        if pars or locs:
            pro = 3 + ((3 if tot <= 128 else 4 if o16 else 6) if tot else 0)
        loc[".code"] += pro
        inproc[0] = nm
        k0 = len(lines)
        if c.bool(1, 3):
            l2 = name("q")
            put(l2 + ":")
        instr(*c.choice(code))
        body(c.int(0, 5))
        e = 1 + (0 if not pars and not locs else 1 if not tot or o386 else 3)
        instr("ret", e)
        put("%s endp" % nm)
        inproc[0] = None
        procs.append(dict(name=nm, at=at, size=loc[".code"] - at, pro=pro, pub=vis != "private", line=pl, file=cur[0],
                          pars=[(a, 2 * W + i * W, PRIMS[t]) for i, (a, t) in enumerate(pars)], locs=locs))
    for _ in range(c.int(2, 7)):
        block()
    put("end")
    return dict(fmt=fmt, opt=opt, files={k: "\n".join(v) + "\n" for k, v in files.items()}, lines=lines, data=data, procs=procs, structs=structs,
                labels=labels)


class P(pbt.Prop):
    id = "C26"
    counts = {"quick": 16000, "thorough": 150000}
    rule = ("one case = a program with procedures (parameters, locals), macros, .if blocks, include files, data, structures and unions, assembled with "
            "-Zd, -Zi or -Zi8 to OMF (16/32-bit) or COFF (32/64-bit): every line record must name the line that made the code at its offset and every "
            "line with code must have one; CodeView symbols and types are read by an own reader and compared with the program; "
            "sections with and without the option must be equal; trivial: fewer than 4 lines of code")
    assumptions = ["lines that make no instruction (data in a code segment, labels) have no record", "CodeView records as in Microsoft's published description",
                   "COFF line tables count from the .bf record of their procedure"]

    def gen(self, c):
        return gen(c)

    def run(self, case):
        fmt, opt = case["fmt"], case["opt"]
        fo = ["-q", {"omf32": "-omf", "omf16": "-omf", "coff": "-coff", "win64": "-win64"}[fmt]]
        fs = {k: v for k, v in case["files"].items() if k != "t.asm"}
        src = case["files"]["t.asm"]
        shown = "%s %s\n%s" % (" ".join(fo), opt, "".join("--- %s\n%s" % z for z in sorted(case["files"].items())))
        kw = dict(labels=[fmt + " " + opt] + ["include"] * (len(fs) > 0) + ["struct"] * bool(case["structs"]), sample=shown, key=shown,
                  nontrivial=len(case["lines"]) >= 4, files=case["files"])
        fail = lambda sig, t: pbt.V("%s\n%s" % (t, shown), sig, **kw)
        a = self.r.asm(src, fo + [opt], files=fs, timeout=10)
        if a.rc and "A2223" in a.text:
            # the generated variables are larger than a 16-bit segment: same without the option
            return pbt.V(None, None, nontrivial=False, **{x: kw[x] for x in ("labels", "sample", "key")})
        if a.rc:
            return fail("rejected", a.text[-400:])
        d = a.file("t.obj")
        b = self.r.asm(src, fo, files=fs, timeout=10)
        d0 = b.file("t.obj")
        try:
            if fmt.startswith("omf"):
                w = self.omf(case, d, d0)
            else:
                w = self.coff(case, d, d0)
        except (cvread.Bad, omf.Bad) as e:
            return fail("malformed", "malformed: %s" % e)
        except (struct.error, IndexError, ValueError) as e:
            return fail("malformed", "malformed (%s)" % e)
        if w:
            return fail(w[0], w[1])
        return pbt.V(None, **kw)

    def checklines(self, case, got, files=True):
        """got: [(offset, file, line)] of .code"""
        exp = {}
        for s, at, f, ln, p in case["lines"]:
            if s == ".code":
                exp[(at, f if files else "", ln)] = p
        pro = {}
        for p in case["procs"]:
            pro[(p["at"], p["file"] if files else "", p["line"])] = p
            pro[(p["at"] + p["pro"], p["file"] if files else "", p["line"])] = p
        g = set(got)
        for k in exp:
            if k not in g:
                return "line missing", "%s line %d made the code at %X, but there is no such line record: %s" % (k[1], k[2], k[0], sorted(g)[:60])
        for p in case["procs"]:
            if p["pro"] and (p["at"], p["file"] if files else "", p["line"]) not in g:
                return "procedure line missing", "%s line %d, procedure %s at %X: %s" % (p["file"], p["line"], p["name"], p["at"], sorted(g)[:60])
        for k in g:
            if k not in exp and k not in pro:
                return "wrong line", "record %X: %s line %d: %s" % (k[0], k[1], k[2], sorted(g)[:60])
        o = [x[0] for x in got]
        if o != sorted(o):
            return "order", "offsets not in order: %s" % got

    def omf(self, case, d, d0):
        o, z = omf.read(d), omf.read(d0)
        code = [i for i, s in enumerate(o.segs) if s and s.name == "_TEXT"]
        got = [(off, os.path.basename(f).lower(), ln) for si, ln, off, f in o.lines if si in code]
        w = self.checklines(case, got)
        if w:
            return w
        x = [(s.name, s.cls, bytes(s.data or b"")) for s in o.segs if s and not s.name.startswith("$$")]
        y = [(s.name, s.cls, bytes(s.data or b"")) for s in z.segs if s]
        if x != y:
            return "code changed", "segments differ with the debug option: %s" % [(u[0], v[0]) for u, v in zip(x, y) if u != v]

    def coff(self, case, d, d0):
        o, z = cvread.Coff(d), cvread.Coff(d0)
        strip = lambda q: [(s[0], s[1], [(r[0], q.syms[r[1]][0], r[2]) for r in s[2]], s[4]) for s in q.secs if not s[0].startswith(".debug")]
        x, y = strip(o), strip(z)
        if x != y:
            return "code changed", "sections differ with the debug option: %s" % [(u[0], v[0]) for u, v in zip(x, y) if u != v]
        idx = {s[0]: i + 1 for i, s in enumerate(o.secs)}
        text = next((i for i, s in enumerate(o.secs) if s[0].startswith(".text")), None)
        if text is None:
            return
        if case["opt"] != "-Zi8":
            # COFF line numbers
            got, proc, base = [], None, 0
            bf = {}
            last = None
            for i, s in enumerate(o.syms):
                if s is None:
                    continue
                if s[0] == ".bf":
                    bf[last] = struct.unpack_from("<H", s[5], 4)[0]
                elif s[3] == 0x20 and s[5]:
                    last = i
            seen = set()
            for a, ln in o.secs[text][3]:
                if ln == 0:
                    s = o.syms[a] if a < len(o.syms) else None
                    if s is None:
                        return "line table", "entry for symbol %d, which does not exist" % a
                    proc = a
                    if a not in bf:
                        return "line table", "%s has lines but no .bf" % s[0]
                    base = bf[a]
                    seen.add(s[0])
                    continue
                if proc is None:
                    return "line table", "line before the first procedure"
                got.append((a, s[0], ln))
            pn = {p["name"]: p for p in case["procs"]}
            # relative to the line of the procedure: the first real line of a procedure fixes the base
            exp = {}
            for sg, at, f, ln, p in case["lines"]:
                if sg == ".code":
                    exp.setdefault(at, []).append(ln)
            cur = {}
            ends = []
            for at, s, ln in got:
                nm = s.lstrip("_")
                p = pn.get(nm) or pn.get(s)
                if ln == 0x7fff:
                    ln = 0
                if p and at == p["at"] and p["pro"]:
                    cur.setdefault(s, []).append((ln, [p["line"]]))
                    continue
                if at not in exp:
                    return "wrong line", "%s: record at %X, where no line begins: %s" % (s, at, got)
                cur.setdefault(s, []).append((ln, exp[at]))
                ends.append(at)
            for s, l in cur.items():
                # one base for all lines of the procedure
                bases = None
                for ln, e in l:
                    k = {x - ln for x in e}
                    bases = k if bases is None else bases & k
                if not bases:
                    return "wrong line", "%s: records (relative line, line) %s" % (s, l)
            for at in exp:
                if at not in ends:
                    return "line missing", "line %s made the code at %X, no record: %s" % (exp[at], at, got)
            if [x[0] for x in got] != sorted(x[0] for x in got):
                return "order", "offsets not in order: %s" % got
            if case["opt"] == "-Zd":
                return
        v = cvread.Cv(o)
        if case["opt"] == "-Zi8":
            got = []
            for sec, off, ln, files in v.linetabs:
                if sec != text + 1:
                    return "line section", "lines of section %d" % sec
                for f, l in files:
                    got += [(off + x, os.path.basename(f.replace("\\", "/")).lower(), y) for x, y in l]
                    if any(x > ln for x, y in l):
                        return "line beyond", "line at %s of a block of %X bytes" % (l, ln)
            w = self.checklines(case, got)
            if w:
                return w
        return self.symbols(case, o, v)

    def typed(self, v, t, size, cnt, tname, what):
        k = v.ty(t)
        if cnt > 1:
            if k[0] != "array" or k[1] != size * cnt:
                return "type", "%s: array of %d bytes expected, type %x is %s" % (what, size * cnt, t, k)
            k = v.ty(k[2])
        if k[0] == "none" or k[1] != size:
            return "type", "%s: %s of %d bytes expected, type %x is %s" % (what, tname, size, t, k)
        if k[0] in ("struct", "union") and k[2] != tname or k[0] == "prim" and tname and tname not in PRIMS:
            return "type", "%s: %s expected, type %x is %s" % (what, tname, t, k)

    def symbols(self, case, o, v):
        by = {}
        for s in v.syms:
            if s["k"] in ("proc", "data", "label", "udt", "const"):
                by.setdefault((s["k"], s["name"]), []).append(s)
        secno = {}
        for i, s in enumerate(o.secs):
            secno.setdefault({".te": ".code", ".da": ".data", ".bs": ".data?"}.get(s[0][:3]), i + 1)
        for k, l in by.items():
            if len(l) > 1:
                return "twice", "%s %s has %d records" % (k + (len(l),))
        want = {("proc", p["name"]) for p in case["procs"]} | {("data", x["name"]) for x in case["data"]}
        for k in want:
            if k not in by:
                return "no symbol", "no %s record for %s: %s" % (k + (sorted(by),))
        for k in by:
            if k[0] in ("proc", "data") and k not in want and not k[1].startswith("$$$"):
                return "symbol", "%s record for %s" % k
        for p in case["procs"]:
            s = by["proc", p["name"]][0]
            if s["addr"][:2] != (secno[".code"], p["at"]):
                return "address", "%s is at %X, recorded %s" % (p["name"], p["at"], s["addr"])
            if s["len"] != p["size"] or s["dbg"][0] != p["pro"] or not p["pro"] <= s["dbg"][1] <= p["size"]:
                return "size", "%s: size %X, prologue %X; recorded %X, %s" % (p["name"], p["size"], p["pro"], s["len"], s["dbg"])
            if s["glob"] != p["pub"]:
                return "visibility", "%s: %s" % (p["name"], s)
            ex = {a: (of, sz, 1) for a, of, sz in p["pars"]}
            ex.update({a: (of, sz, cnt) for a, of, sz, cnt in p["locs"]})
            if sorted(x[0] for x in s["vars"]) != sorted(ex):
                return "variables", "%s has %s, recorded %s" % (p["name"], sorted(ex), s["vars"])
            for nm, rg, of, t in s["vars"]:
                if of != ex[nm][0] or rg != "bp":
                    return "variable", "%s.%s is at bp%+d, recorded %s%+d" % (p["name"], nm, ex[nm][0], rg, of)
                w = self.typed(v, t, ex[nm][1], ex[nm][2], "", p["name"] + "." + nm)
                if w:
                    return w
        for x in case["data"]:
            s = by["data", x["name"]][0]
            if s["addr"][:2] != (secno[x["seg"]], x["at"]):
                return "address", "%s is at %s:%X, recorded %s" % (x["name"], x["seg"], x["at"], s["addr"])
            if s["glob"] != x["pub"]:
                return "visibility", "%s: %s" % (x["name"], s)
            w = self.typed(v, s["type"], x["size"], x["cnt"], x["type"], x["name"])
            if w:
                return w
        for x in case["labels"]:
            s = by.get(("label", x["name"]))
            if not s or s[0]["addr"][:2] != (secno[".code"], x["at"]):
                return "label", "label %s at %X: %s" % (x["name"], x["at"], s)
        for st in case["structs"]:
            s = by.get(("udt", st["name"]))
            if not s:
                return "no type", "no record for %s" % st["name"]
            k = v.ty(s[0]["type"])
            if k[:3] != ("union" if st["union"] else "struct", st["size"], st["name"]) or k[3] != len(st["fields"]):
                return "structure", "%s of %d bytes, %d members; recorded %s" % (st["name"], st["size"], len(st["fields"]), k)
            f = v.fields(k[4])
            if [(n, a) for n, a, t in f] != [(n, a) for n, a, *_ in st["fields"]]:
                return "members", "%s has %s, recorded %s" % (st["name"], [(n, a) for n, a, *_ in st["fields"]], f)
            for (n, a, t), e in zip(f, st["fields"]):
                w = self.typed(v, t, e[3], e[4], e[2], st["name"] + "." + n)
                if w:
                    return w


PROP = P()
