"""C25: the listing file against the source and the object it was made with."""
import re
from lib import objload, omf, progs
from lib.pbt import Prop, V

CAPS = ("Macros:", "Structures and Unions:", "Records:", "Types:", "Segments and Groups:", "Procedures, parameters and locals:", "Symbols:")
TEXTDEF = re.compile(r"\s*(\S+)\s+(?:textequ|catstr|substr|macro|equ)\b", re.I)


def norm(l):
    """without comment and with single spaces"""
    o, q = [], ""
    for ch in l:
        if q:
            if ch == q:
                q = ""
        elif ch in "'\"":
            q = ch
        elif ch == ";":
            break
        o.append(ch)
    return " ".join("".join(o).split())


def volatile(fmt, d):
    d = bytearray(d)
    if fmt.startswith("coff"):
        d[4:8] = bytes(4)
    return bytes(d)


class Bad(Exception):
    pass


def need(ok, sig, msg=""):
    if not ok:
        raise Bad(sig, msg)


# ------------------------------------------------------------ symbol table
SIMPLE = {"byte": (1, "Byte"), "sbyte": (1, "Byte"), "word": (2, "Word"), "sword": (2, "Word"), "dword": (4, "DWord"), "sdword": (4, "DWord"),
          "qword": (8, "QWord"), "real4": (4, ""), "real8": (8, ""), "fword": (6, "FWord"), "tbyte": (10, "TByte"), "oword": (16, "XmmWord")}
SEGN = {".data": "_DATA", ".data?": "_BSS", ".code": "_TEXT", ".const": "CONST"}


def up(n, a):
    return -(-n // a) * a


def hexn(v):
    return "-%08Xh" % -v if -2**32 < v < 0 else "%Xh" % v


def ctr(t, n):
    return t if n == 1 else "%s[%d]" % (t, n)


def table(c):
    """a program of declarations and the rows its symbol table must have"""
    fmt = c.choice(["coff32", "omf32", "elf32", "omf16", "coff64", "elf64"])
    o16, o64 = fmt == "omf16", fmt.endswith("64")
    W = 2 if o16 else 8 if o64 else 4
    lang = "C"
    L = [] if o64 else [".286"] if o16 else [".686"]
    if o64:
        if fmt == "coff64":
            lang = "FASTCALL"
        else:
            lang = "?"
    else:
        L.append(".model %s, c" % ("small" if o16 else "flat"))
    L.append("option casemap:none")
    if o64:
        L += ["option prologue:none", "option epilogue:none"]
    rows = []       # (caption, words of the row)
    body = []       # words shown before an equate
    seq = [0]

    def name(pre):
        seq[0] += 1
        return pre + str(seq[0]) + c.choice(["", "", "_x", "_a_rather_long_name_of_a_symbol", "@", "$"])
    structs = []
    cap = "Structures and Unions:"

    def fieldtype():
        if structs and c.bool(1, 4):
            return c.choice(structs)
        t = c.choice([x for x in SIMPLE if not (x == "oword" and o16)])
        return (t, SIMPLE[t][0], SIMPLE[t][0], SIMPLE[t][1])
    for _ in range(c.int(0, 3)):
        nm = name("S")
        al = c.choice([1, 1, 1, 2, 4, 8])
        un = c.bool(1, 3)
        L.append("%s %s%s" % (nm, "union" if un else "struct", "" if al == 1 else " %d" % al))
        off, size, big, fr = 0, 0, 1, []
        for k in range(c.int(1, 4)):
            t, sz, el, shown = fieldtype()
            if al > 1 and (t in ("fword", "tbyte") or t not in SIMPLE):
                t, sz, el, shown = "word", 2, 2, "Word"
            n = c.choice([1, 1, 1, 2, 5])
            f = name("fld")
            st = t not in SIMPLE
            L.append("  %s %s %s%s%s" % (f, t, "%d dup (" % n if n > 1 else "", "<>" if st else "?", ")" if n > 1 else ""))
            a = min(al, el)
            big = max(big, a)
            at = 0 if un else up(off, a)
            off = at + sz * n
            size = max(size, off)
            fr.append([f, at] + [x for x in [ctr(shown, n)] if x])
        size = up(size, big)
        L.append("%s ends" % nm)
        rows.append((cap, [nm, "%X" % size] + (["(%d)" % al] if al > 1 else [])))
        for f in fr:
            rows.append((cap, [f[0], "%X" % f[1]] + f[2:]))
        structs.append((nm, size, big, nm))
    for _ in range(c.int(0, 2)):
        nm = name("Rec")
        fs = []
        left = 8 if c.bool() else 16 if o16 else 32
        for k in range(c.int(1, 3)):
            w = c.int(1, max(1, min(left - (3 - k), 9)))
            left -= w
            fs.append((name("b"), w, c.int(0, 2**min(w, 8) - 1) if c.bool() else None))
        tot = sum(x[1] for x in fs)
        sz = 1 if tot <= 8 else 2 if tot <= 16 else 4
        L.append("%s record %s" % (nm, ", ".join("%s:%d%s" % (f, w, "" if i is None else "=%d" % i) for f, w, i in fs)))
        rows.append(("Records:", [nm, "%X" % (sz * 8), "%X" % len(fs)]))
        sh = tot
        for f, w, i in fs:
            sh -= w
            rows.append(("Records:", [f, "%X" % sh, "%X" % w, "%08X" % (((1 << w) - 1) << sh), "?" if i is None else "%d" % i]))
    tds = []
    for _ in range(c.int(0, 2)):
        nm = name("T")
        if c.bool(1, 3):
            t = c.choice(["byte", "word", "dword"])
            L.append("%s typedef ptr %s" % (nm, t))
            rows.append(("Types:", [nm, "%d" % W, "Near" if o64 else "Near16" if o16 else "Near32", "Ptr", SIMPLE[t][1]]))
            tds.append((nm, W, W, nm))
        else:
            t, sz, el, shown = fieldtype()
            L.append("%s typedef %s" % (nm, t))
            rows.append(("Types:", [nm, "%d" % sz] + ([shown] if shown else [])))
            if t in SIMPLE:
                tds.append((nm, sz, el, nm))
    SY = "Symbols:"
    for _ in range(c.int(0, 4)):
        nm = name("c")
        k = c.int(0, 3)
        if k < 2:
            v = c.choice([0, 1, c.int(0, 300), c.int(0, 0xffffffff), -1, -c.int(1, 70000), 0x80000000, 0xffffffff, c.int(0, 2**31)])
            if k and o64 and c.bool(1, 4):
                v = c.int(2**32, 2**63)
            if k == 0:
                v = v & 0x7fffffff
            L.append("%s %s %s%s" % (nm, "equ" if k else "=", "-" if v < 0 else "", "0%Xh" % abs(v)))
            body.append((nm, "%X" % (v % 2**32 if v < 2**32 else v)))
            rows.append((SY, [nm, "Number", hexn(v)]))
        else:
            t = c.choice(["abc", "x", "mov eax, 1", "a string that is longer than twenty-five chars", "1+2*3"])
            L.append("%s %s <%s>" % (nm, "textequ" if k == 2 else "equ", t))
            body.append((nm, t[:25]))
            rows.append((SY, [nm, "Text"] + t.split()))
    for _ in range(c.int(0, 2)):
        nm = name("e")
        t = c.choice(["byte", "word", "dword", "qword"])
        L.append("extern %s:%s" % (nm, t))
        rows.append((SY, [nm, SIMPLE[t][1], "0h", "External", lang]))
    loc = {".data": 0, ".data?": 0, ".code": 0, ".const": 0}
    used = set()
    P_ = "Procedures, parameters and locals:"
    for _ in range(c.int(1, 6)):
        seg = c.choice([".data", ".data", ".data?", ".const", ".code", ".code"])
        used.add(seg)
        L.append(seg)
        sn = SEGN[seg]
        if seg != ".code":
            for k in range(c.int(1, 4)):
                nm = name("v")
                t, sz, el, shown = fieldtype() if not tds or c.bool(3, 4) else c.choice(tds)
                n = c.choice([1, 1, 1, 2, 3, 7])
                i = "<>" if t in [s[0] for s in structs] else "?" if seg == ".data?" or c.bool(1, 3) else "0"
                L.append("%s %s %s%s%s" % (nm, t, "%d dup (" % n if n > 1 else "", i, ")" if n > 1 else ""))
                pub = c.bool(1, 4)
                if pub:
                    L.append("public " + nm)
                w = [nm] + [x for x in [ctr(shown, n)] if x]
                rows.append((SY, w + ["%Xh" % loc[seg], sn] + (["Public"] if pub else []) + [lang]))
                loc[seg] += sz * n
            continue
        nm = name("P")
        at = loc[seg]
        pars = [(name("a"), c.choice(["word", "byte"] if o16 else ["dword", "word", "byte"])) for _ in range(c.int(0, 3))] if not o64 else []
        locs = []
        vis = c.choice(["", "", "private", "public"])
        L.append(" ".join(x for x in [nm, "proc", vis, ", ".join("%s:%s" % x for x in pars)] if x))
        if not o64:
            for k in range(c.int(0, 3)):
                t, sz, el, shown = fieldtype()
                n = c.choice([1, 1, 3])
                if not shown or t not in SIMPLE and sz < W:
                    continue
                ln = name("l")
                L.append("  local %s%s:%s" % (ln, "[%d]" % n if n > 1 else "", t))
                locs.append((ln, ctr(shown, n), sz * n, sz))
        tot = 0
        lr = []
        for ln, sh, sz, el in locs:
            tot = up(tot + sz, min(el, W)) if el > 1 else tot + sz
            lr.append([ln, sh, "bp" if o16 else "ebp", "-", "%04X" % tot])
        tot = up(tot, W)
        n = c.int(0, 5)
        code = 0
        if pars or locs:
            # push bp; mov bp, sp; sub/add sp, n
            code = 3 + ((3 if tot <= 128 else 4 if o16 else 6) if tot else 0)
        lab = []
        for k in range(n):
            if c.bool(1, 3):
                ln = name("q")
                L.append("%s:" % ln)
                lab.append((ln, at + code))
            L.append("  nop")
            code += 1
        if n == 0:
            code = 0        # without an instruction there's no prologue
        else:
            L.append("  ret")
            code += 1 + (0 if not pars and not locs else 1 if not tot or o16 else 3)
            if (pars or locs) and not tot:
                pass
        L.append("%s endp" % nm)
        hx = (lambda v: "%04X" % v) if o16 else (lambda v: "%08X" % v)
        rows.append((P_, [nm, "P", "Near", hx(at), sn, hx(code), "Private" if vis == "private" else "Public", lang]))
        o = 2 * W
        for a, t in pars:
            rows.append((P_, [a, SIMPLE[t][1], "bp" if o16 else "ebp", "+", "%04X" % o]))
            o += W
        for w in lr:
            rows.append((P_, w[:2] + w[2:]))
        for ln, v in lab:
            rows.append((P_, [ln, "L", "Near", hx(v), sn]))
        loc[seg] = at + code
    L.append("end")
    for s in sorted(used):
        if not (fmt == "omf16" or o64) or True:
            rows.append(("Segments and Groups:", [SEGN[s], "%d" % (16 if o16 else 64 if o64 else 32), "Bit", ("%04X" if o16 else "%08X") % loc[s]]))
    opts = {"coff32": ["-coff"], "omf32": ["-omf"], "elf32": ["-elf"], "omf16": ["-omf"], "coff64": ["-win64"], "elf64": ["-elf64"]}[fmt]
    return {"fmt": fmt, "lines": L, "opts": opts, "rows": rows, "body": body}


def check_table(cs, lst):
    L = lst.replace("\r\n", "\n").split("\n")
    L = L[L.index("t.asm") + 1:]
    cur, got = None, {}
    for l in L:
        if l in CAPS or l == "Types:":
            cur = l
        elif cur and l.strip() and not l.startswith("t.asm: "):
            w = l.split(None, 1)
            r = re.sub(r"^[. ]+", "", w[1]) if len(w) > 1 else ""
            got.setdefault((cur, w[0]), []).append(r.split())
    body = {}
    for l in L:
        m = re.match(r" = (.{25}.{4}) *(\S+) ", l.ljust(60))
        if m:
            body[m.group(2)] = l[3:28].strip()
    for nm, v in cs["body"]:
        need(body.get(nm) == v.strip(), "value of an equate", "%s is %r in the listing, not %r" % (nm, body.get(nm), v))
    want = {}
    for cap, w in cs["rows"]:
        want.setdefault((cap, w[0]), []).append(w[1:])
    for (cap, nm), w in want.items():
        g = got.get((cap, nm), [])
        if cap.startswith("Segments"):
            g = [x[:3] for x in g]
        need(sorted(g) == sorted(w), "symbol table", "%s %s is listed as %s, not %s" % (cap, nm, g, w))


class P(Prop):
    id = "C25"
    counts = {"quick": 5000, "thorough": 150000}
    rule = "programs whose listing shows at least eight lines with code bytes, all compared with the object"
    assumptions = ["with -Sg the segment of a line is known from the segment and ends lines before it"]

    def gen(self, c):
        if c.bool(1, 3):
            cs = table(c)
            cs.update(out="t.obj", lst=[o for o in ("-Sg", "-Sa") if c.bool(1, 4)])
            return cs
        fmt = c.choice(["coff32", "coff64", "elf32", "elf64", "omf32", "omf16", "coff32", "coff64", "elf32"])
        p = progs.gen(c, [fmt], n=c.choice([4, 8, 12]))
        lines = []
        for l in p.lines:
            if c.bool(1, 12):
                l += c.choice([" ; remark", "\t;x; y", " ;;"]) if not l.endswith("\\") and "<" not in l and "textequ" not in l else ""
            lines.append(l)
            if c.bool(1, 25) and not l.rstrip().endswith(("\\", ",")):
                lines.append(c.choice(["", "; only a remark", "   "]))
        k = lines.index(next(l for l in lines[::-1] if l.split()[:1] == ["end"]))
        lines = lines[:k + 1]
        lst = ["-Sg"] if c.bool(5, 6) else []
        lst += [o for o in ("-Sx", "-Sn", "-Sa") if c.bool(1, 5)]
        return {"fmt": fmt, "lines": lines, "opts": p.opts, "out": p.out, "lst": lst}

    # -------------------------------------------------------- oracle
    def run(self, cs):
        src = "\n".join(cs["lines"]) + "\n"
        files = {"t.asm": src}
        fmt = cs["fmt"]
        labels = {fmt} | set(cs["lst"])

        def bad(sig, msg):
            return V(fail="%s\noptions %s -Fl=t.lst %s\n%s" % (msg, " ".join(cs["opts"]), " ".join(cs["lst"]), src), sig=sig, labels=labels, files=files)
        a = self.r.asm(src, ["-q"] + cs["opts"], timeout=10)
        oa = a.file(cs["out"])
        ea = a.errors()
        b = self.r.asm(src, ["-q"] + cs["opts"] + ["-Fl=t.lst"] + cs["lst"], timeout=10)
        ob = b.file(cs["out"])
        lst = b.file("t.lst")
        if a.rc != b.rc or ea != b.errors():
            return bad("messages differ", "without listing: %s %s\nwith listing: %s %s" % (a.rc, ea[:4], b.rc, b.errors()[:4]))
        if a.rc or oa is None:
            return V(nontrivial=None, labels=labels | {"refused"})
        if ob is None or volatile(fmt, oa) != volatile(fmt, ob):
            return bad("object differs", "the object differs from the one made without a listing")
        if lst is None:
            return bad("no listing", "no listing file")
        try:
            if "rows" in cs:
                check_table(cs, lst.decode("latin1"))
                return V(nontrivial=src if len(cs["rows"]) >= 8 else None, labels=labels | {"table"}, sample={"rows": len(cs["rows"])})
            n = self.check(cs, lst.decode("latin1"), ob)
        except Bad as x:
            return bad(x.args[0], "%s: %s" % x.args)
        except (objload.Bad, omf.Bad) as x:
            return bad("object", str(x))
        return V(nontrivial=src if n >= 8 else None, labels=labels, sample={"code lines": n})

    def check(self, cs, lst, ob):
        L = lst.replace("\r\n", "\n").split("\n")
        L = L[L.index("t.asm") + 1:]
        rows = []
        for l in L:
            if l in CAPS or l.startswith("t.asm: "):
                break
            rows.append(l)
        self.lines_(cs, rows)
        if "-Sg" not in cs["lst"]:
            return 0
        return self.bytes_(cs, rows, self.sections(cs["fmt"], ob))

    def lines_(self, cs, rows):
        """every source line once and in order"""
        texts = {m.group(1).lower() for l in cs["lines"] for m in [TEXTDEF.match(l)] if m}
        for l in cs["lines"]:
            if " proc" in l:        # parameters in registers are text macros
                texts |= set(re.findall(r"([\w@$?]+)\s*:", l.lower()))
        empty = {a.split()[0].lower() for a, b in zip(cs["lines"], cs["lines"][1:]) if re.search(r"\smacro\b", a) and norm(b) == "endm"}
        own = []
        for l in rows:
            left = l[:32]
            if left[28:29] == "*" or left[29:30].strip() or left[30:31] == "C":
                continue
            t = norm(l[32:])
            if t and not re.match(r"\s+(Error|Warning) A", l):
                own.append(t)
        want, cond = [], []
        cont = ""
        for l in cs["lines"]:
            t = norm(l)
            cont += t
            if cont.endswith("\\"):
                cont = cont[:-1] + " "
                continue
            t, cont = norm(cont), ""
            if not t:
                continue
            w = t.lower().split()
            opt = False
            if re.match(r"(if|ife|ifdef|ifndef|ifb|ifnb|ifidni?|ifdifi?|if1|if2)$", w[0]):
                opt = bool(cond)
                cond.append(1)
            elif w[0] == "endif" and cond:
                cond.pop()
                opt = bool(cond)
            elif cond:
                opt = True
            want.append((t, opt, bool(texts & set(re.split(r"[^\w@$?.]+", t.lower())))))
        # alignment: every obligatory line has its row, every row its line
        at = {0}
        for t, opt, wild in want:
            e = t.split()[0].lower() in empty
            new = set()
            for j in at:
                if j < len(own) and (own[j] == t or wild and not e):
                    new.add(j + 1)
                if e or opt and ("-Sx" not in cs["lst"] or wild):
                    new.add(j)      # a call of an empty macro has no line, nor has a branch not taken
            if not new:
                j = max(at)
                raise Bad("source line missing", "%r; the next line in the listing is %r" % (t, own[j] if j < len(own) else None))
            at = new
        need(len(own) in at, "line not in the source", "%r" % own[max(at):max(at) + 1])

    def sections(self, fmt, ob):
        r = {}
        if fmt.startswith("omf"):
            o = omf.read(ob)
            for s in o.segs[1:]:
                mask = set()
                for f in s.fix:
                    mask |= set(range(f[0], f[0] + omf.LOC[f[1]]))
                r.setdefault(s.name, []).append((bytes(s.data), mask))
        else:
            o = objload.read(ob)
            T = objload.C64 if fmt == "coff64" else objload.C32 if fmt == "coff32" else objload.R64 if fmt == "elf64" else objload.R32
            for s in o.secs.values():
                mask = set()
                for x in s.relocs:
                    mask |= set(range(x[0], x[0] + T[x[1]][1]))
                r.setdefault(s.name, []).append((bytes(s.data).ljust(s.size, b"\0"), mask))
        return r

    def bytes_(self, cs, rows, secs):
        stack, pos, n, struct_, macro = [], {}, 0, 0, 0
        cv = {"coff": {"_TEXT": ".text", "_DATA": ".data", "_BSS": ".bss", "CONST": ".rdata"}, "elf3": {"_TEXT": ".text", "_DATA": ".data", "_BSS": ".bss", "CONST": ".rodata"}, "omf": {}}
        cv = cv["omf" if cs["fmt"].startswith("omf") else "coff" if cs["fmt"].startswith("coff") else "elf3"]
        # generated lines that the first pass didn't have - the prologue of a 64-bit procedure may grow - are missing
        wide64, last = "64" in cs["fmt"], {}
        for l in rows:
            left, text = l[:32].ljust(32), l[32:]
            wide = wide64 or left[28] == "*"
            if left[1] == ">":
                continue
            w = norm(text).split()
            lw = [x.lower() for x in w]
            if struct_:
                if lw[1:2] == ["ends"] or lw[:1] == ["ends"]:
                    struct_ -= 1
                elif lw[1:2] in (["struct"], ["struc"], ["union"]) or lw[:1] in (["struct"], ["union"]):
                    struct_ += 1
                continue
            if lw[1:2] in (["struct"], ["struc"], ["union"]) and not left[28:32].strip():
                struct_ = 1
                continue
            if lw[1:2] == ["segment"]:
                stack.append(w[0])
                continue
            if lw[1:2] == ["ends"]:
                if stack:
                    stack.pop()
                continue
            if "=" in left or not re.match(r"[0-9A-F]{8} ", left):
                continue
            off = int(left[:8], 16)
            hx = left[10:28].strip()
            seg = stack[-1] if stack else None
            if seg is None:
                continue
            b = secs.get(cv.get(seg, seg)) or secs.get(seg)
            if not b or len(b) != 1:
                continue
            data, mask = b[0]
            jump = lw[:1] in (["org"], ["align"], ["even"])
            if not lw or lw[:1] == ["org"]:
                last[seg] = 0
            elif left[28] != "*" and not lw[0].startswith(".") and not (wide64 and lw[1:2] == ["proc"]):
                need(off >= last.get(seg, 0), "offset below the one before", "%r: the line before in %s was at %#x" % (l, seg, last.get(seg, 0)))
                last[seg] = off
            if hx:
                need(re.match(r"([0-9A-F]{2})+$", hx), "code bytes column", repr(l))
                c = bytes.fromhex(hx)
                need(off + len(c) <= len(data), "code line outside the segment", "%r: %s has %#x bytes" % (l, seg, len(data)))
                for i, x in enumerate(c):
                    need(off + i in mask or data[off + i] == x, "code bytes differ from the object", "%r: byte %d is %02x in %s at %#x" % (l, i, data[off + i], seg, off + i))
                if seg in pos and not jump and not wide:
                    need(off == pos[seg] or pos[seg] is None, "offset of a line", "%r: the line before in %s ended at %#x" % (l, seg, pos[seg] or 0))
                pos[seg] = off + len(c) if len(c) < 9 else None
                n += 1
            elif jump:
                pos[seg] = None
            elif lw and (lw[0].endswith(":") or lw[1:2] == ["proc"] or lw[1:2] == ["endp"] or lw[1:2] == ["label"]) and pos.get(seg) is not None and not wide:
                need(off == pos[seg], "offset of a label", "%r: the line before in %s ended at %#x" % (l, seg, pos[seg]))
            elif left[28] == "*" and lw and lw[0].endswith(":"):
                pos[seg] = off
            if jump:
                pos[seg] = None
        return n


PROP = P()
