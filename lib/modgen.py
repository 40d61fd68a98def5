"""Generates whole modules (sections, labels, references, publics, externals,
communals) together with an exact model of what they mean: every section as a
list of literal bytes and references, every symbol with its place."""
import struct
from .pbt import Discard

# (text, bytes before, kind, size, bytes after, what symbol)   kind: rel abs rva secrel
C64 = [
    ("call {S}", "e8", "rel", 4, "", "c"), ("call {S}", "e8", "rel", 4, "", "x"), ("jmp {S}", "e9", "rel", 4, "", "x"),
    ("jz {S}", "0f84", "rel", 4, "", "x"), ("jge {S}", "0f8d", "rel", 4, "", "x"),
    ("lea rax, {S}{A}", "488d05", "rel", 4, "", "*"), ("lea r9, {S}{A}", "4c8d0d", "rel", 4, "", "*"), ("lea edx, {S}{A}", "8d15", "rel", 4, "", "*"),
    ("mov eax, dword ptr {S}{A}", "8b05", "rel", 4, "", "d"), ("mov r15b, byte ptr {S}{A}", "448a3d", "rel", 4, "", "d"),
    ("mov dword ptr {S}{A}, 12345678h", "c705", "rel", 4, "78563412", "d"), ("mov word ptr {S}{A}, 1234h", "66c705", "rel", 4, "3412", "d"),
    ("mov byte ptr {S}{A}, 5", "c605", "rel", 4, "05", "d"), ("cmp byte ptr {S}{A}, 5", "803d", "rel", 4, "05", "d"),
    ("mov qword ptr {S}{A}, -2", "48c705", "rel", 4, "feffffff", "d"), ("add qword ptr {S}{A}, -1", "488305", "rel", 4, "ff", "d"),
    ("cmp word ptr {S}{A}, 7fh", "66833d", "rel", 4, "7f", "d"), ("and word ptr {S}{A}, 1234h", "668125", "rel", 4, "3412", "d"),
    ("test dword ptr {S}{A}, 80000000h", "f705", "rel", 4, "00000080", "d"), ("test byte ptr {S}{A}, 3", "f605", "rel", 4, "03", "d"),
    ("imul ecx, dword ptr {S}{A}, 1000", "690d", "rel", 4, "e8030000", "d"), ("imul ecx, dword ptr {S}{A}, 10", "6b0d", "rel", 4, "0a", "d"),
    ("shl dword ptr {S}{A}, 3", "c125", "rel", 4, "03", "d"), ("bt qword ptr {S}{A}, 7", "480fba25", "rel", 4, "07", "d"),
    ("shld dword ptr {S}{A}, ecx, 4", "0fa40d", "rel", 4, "04", "d"), ("shl dword ptr {S}{A}, cl", "d325", "rel", 4, "", "d"),
    ("pshufd xmm9, xmmword ptr {S}{A}, 3", "66440f700d", "rel", 4, "03", "d"), ("movaps xmm0, xmmword ptr {S}{A}", "0f2805", "rel", 4, "", "d"),
    ("push qword ptr {S}{A}", "ff35", "rel", 4, "", "d"), ("movzx r10d, byte ptr {S}{A}", "440fb615", "rel", 4, "", "d"),
    ("fld qword ptr {S}{A}", "dd05", "rel", 4, "", "d"), ("call qword ptr {S}{A}", "ff15", "rel", 4, "", "d"), ("jmp qword ptr {S}{A}", "ff25", "rel", 4, "", "d"),
    ("vpaddd xmm1, xmm2, xmmword ptr {S}{A}", "c5e9fe0d", "rel", 4, "", "d"), ("vpshufd ymm1, ymmword ptr {S}{A}, 7", "c5fd700d", "rel", 4, "07", "d"),
    ("mov rax, offset {S}{A}", "48b8", "abs", 8, "", "*"), ("mov r10, offset {S}{A}", "49ba", "abs", 8, "", "*"),
    ("mov eax, offset {S}{A}", "b8", "abs", 4, "", "*4"), ("mov eax, dword ptr {S}[rbx{A}]", "8b83", "abs", 4, "", "d4"), ("lea rdx, {S}[rsi{A}]", "488d96", "abs", 4, "", "d4"),
    ("mov byte ptr {S}[rcx*2{A}], 9", "c6044d", "abs", 4, "09", "d4"),
    ("mov ecx, imagerel {S}{A}", "b9", "rva", 4, "", "*coff"), ("mov ecx, sectionrel {S}{A}", "b9", "secrel", 4, "", "*coff"),
    ("add eax, imagerel {S}{A}", "05", "rva", 4, "", "*coff"), ("mov edx, dword ptr [rbx+imagerel {S}]", "8b93", "rva", 4, "", "dcoff"),
]
C32 = [
    ("call {S}", "e8", "rel", 4, "", "c"), ("call {S}", "e8", "rel", 4, "", "x"), ("jmp {S}", "e9", "rel", 4, "", "x"),
    ("jz {S}", "0f84", "rel", 4, "", "x"), ("jge {S}", "0f8d", "rel", 4, "", "x"),
    ("lea eax, {S}{A}", "8d05", "abs", 4, "", "*"), ("lea esi, {S}{A}", "8d35", "abs", 4, "", "*"),
    ("mov eax, dword ptr {S}{A}", "a1", "abs", 4, "", "d"), ("mov dword ptr {S}{A}, eax", "a3", "abs", 4, "", "d"), ("mov dl, byte ptr {S}{A}", "8a15", "abs", 4, "", "d"),
    ("mov dword ptr {S}{A}, 12345678h", "c705", "abs", 4, "78563412", "d"), ("mov word ptr {S}{A}, 1234h", "66c705", "abs", 4, "3412", "d"),
    ("mov byte ptr {S}{A}, 5", "c605", "abs", 4, "05", "d"), ("cmp byte ptr {S}{A}, 5", "803d", "abs", 4, "05", "d"),
    ("cmp word ptr {S}{A}, 7fh", "66833d", "abs", 4, "7f", "d"), ("test dword ptr {S}{A}, 80000000h", "f705", "abs", 4, "00000080", "d"),
    ("imul ecx, dword ptr {S}{A}, 1000", "690d", "abs", 4, "e8030000", "d"), ("shl dword ptr {S}{A}, 3", "c125", "abs", 4, "03", "d"),
    ("pshufd xmm1, xmmword ptr {S}{A}, 3", "660f700d", "abs", 4, "03", "d"), ("fld qword ptr {S}{A}", "dd05", "abs", 4, "", "d"),
    ("push dword ptr {S}{A}", "ff35", "abs", 4, "", "d"), ("call dword ptr {S}{A}", "ff15", "abs", 4, "", "d"),
    ("push offset {S}{A}", "68", "abs", 4, "", "*"), ("mov eax, offset {S}{A}", "b8", "abs", 4, "", "*"), ("mov dword ptr [ebx], offset {S}{A}", "c703", "abs", 4, "", "*"),
    ("mov dword ptr {S}, offset {T}", "c705", "abs2", 4, "", "d"),
    ("add eax, offset {S}{A}", "05", "abs", 4, "", "*"), ("cmp edx, offset {S}{A}", "81fa", "abs", 4, "", "*"),
    ("mov eax, dword ptr {S}[ebx{A}]", "8b83", "abs", 4, "", "d"), ("mov eax, dword ptr {S}[ecx*4{A}]", "8b048d", "abs", 4, "", "d"), ("lea eax, {S}[esi+ecx*2{A}]", "8d844e", "abs", 4, "", "*"),
    ("mov ecx, imagerel {S}{A}", "b9", "rva", 4, "", "*coff"), ("mov ecx, sectionrel {S}{A}", "b9", "secrel", 4, "", "*coff"),
]
D64 = [("dq {S}{A}", "abs", 8, "*"), ("dq offset {S}{A}", "abs", 8, "*"), ("qword {S}{A}", "abs", 8, "*"), ("dd {S}{A}", "abs", 4, "*4"), ("dd imagerel {S}{A}", "rva", 4, "*coff"),
       ("dd sectionrel {S}{A}", "secrel", 4, "*coff"), ("dd offset {S}", "abs", 4, "*4")]
D32 = [("dd {S}{A}", "abs", 4, "*"), ("dd offset {S}{A}", "abs", 4, "*"), ("dword {S}{A}", "abs", 4, "*"), ("dd imagerel {S}{A}", "rva", 4, "*coff"), ("dd sectionrel {S}{A}", "secrel", 4, "*coff")]

FMT = {  # option, header, 64-bit?
    "elf64": ("-elf64", "", True), "coff64": ("-win64", "", True), "macho64": ("-macho64", "", True),
    "pe32": ("-pe", ".686p\n.xmm\n.model flat\n", False), "pe64": ("-pe", ".x64p\n.model flat, fastcall\n", True),
    "bin32": ("-bin", ".686p\n.xmm\n.model flat\n", False), "bin64": ("-bin", ".x64p\n.model flat, fastcall\n", True),
    "omf32": ("-omf", ".686p\n.xmm\n.model flat\n", False),
    "elf32": ("-elf", ".686p\n.xmm\n.model flat\n", False), "coff32": ("-coff", ".686p\n.xmm\n.model flat\n", False),
}
SIMPLE = {".code": "text", ".data": "data", ".data?": "bss", ".const": "const"}
OBJNAME = {
    "elf": {".code": ".text", ".data": ".data", ".data?": ".bss", ".const": ".rodata"},
    "coff": {".code": ".text", ".data": ".data", ".data?": ".bss", ".const": ".rdata"},
    "omf": {".code": "_TEXT", ".data": "_DATA", ".data?": "_BSS", ".const": "CONST"},
    "pe": {".code": "_TEXT", ".data": "_DATA", ".data?": "_BSS", ".const": "CONST"},
    "bin": {".code": "_TEXT", ".data": "_DATA", ".data?": "_BSS", ".const": "CONST"},
    "macho": {".code": "__text", ".data": "__data", ".data?": "__bss", ".const": "_rdata"},
}


class Sec:
    def __init__(self, src, name, kind, align, open_):
        self.src, self.name, self.kind, self.align, self.open = src, name, kind, align, open_
        self.parts = []         # ("raw", bytes, known) | ("ref", size, kind, sym, add, trail)
        self.size = 0


class Symbol:
    def __init__(self, name, cls, sec=None, off=0, vis="local", size=0, typ="byte"):
        # cls: c code label, d data label, x external code, e external data, m communal
        self.alt, self.export = None, False
        self.name, self.cls, self.sec, self.off, self.vis, self.size, self.typ = name, cls, sec, off, vis, size, typ


class Mod:
    pass


def gen(c, fmt, opts=None):
    opts = opts or {}
    six = FMT[fmt][2]
    fam = fmt.rstrip("3264") if not fmt.startswith("macho") else "macho"
    m = Mod()
    m.many = False
    m.fmt, m.six, m.fam = fmt, six, fam
    # ------ sections
    secs = []
    names = [".code", ".data"] + c.sample([".data?", ".const"], c.below(3))
    for s in names:
        secs.append(Sec(s, OBJNAME[fam][s], SIMPLE[s], None, s))
    if True:
        for k in range(c.below(4)):
            kind = c.choice(["text", "data", "bss", "const", "data"])
            cl = {"text": "CODE", "data": "DATA", "bss": "BSS", "const": "CONST"}[kind]
            al = c.choice([("byte", 1), ("word", 2), ("dword", 4), ("para", 16), ("page", 256), ("align(8)", 8), ("align(32)", 32), ("align(64)", 64), ("", 16)])
            n = c.choice(["S%d", "seg%d", "_LONGSEG%d", "a_very_long_nam%d"]) % k
            alias = c.choice([None, None, ".x%d" % k, ".text$a%d" % k, ".averylongsection%d" % k, ".rdata%d" % k])
            if fam == "macho":
                alias, n = None, n[:16]     # names of 16 characters
            if fam in ("pe", "bin"):
                alias = None
            if fam == "omf":
                alias = None
                if al[1] in (8, 32, 64):
                    al = ("dword", 4)
            if fam == "elf" and alias and "$" in alias:
                alias = ".my%d.s" % k
            o = "%s segment %s %s'%s'" % (n, al[0], "alias('%s') " % alias if alias else "", cl)
            if fam == "omf" and c.bool() or fam in ("pe", "bin"):
                o += " flat"
            secs.append(Sec(n, alias or n, kind, al[1], o))
    m.secs = secs
    # ------ symbols, planned first so that references may go forward
    syms = []
    pre = c.choice(["L", "lab_", "A_rather_long_label_name_", "x@y"])
    for k in range(c.int(2, 10)):
        s = c.choice(secs)
        cls = "c" if s.kind == "text" and c.bool(2, 3) else "d"
        syms.append(Symbol("%s%d" % (pre, k), cls, s, 0, c.choice(["local", "local", "public"])))
    for k in range(c.int(0, 4) if fam not in ("pe", "bin") else 0):
        if c.bool():
            syms.append(Symbol("ext%d" % k, "x", None, 0, "ext"))
        else:
            syms.append(Symbol("an_external_%d" % k, "e", None, 0, "ext", typ=c.choice(["byte", "dword", "qword"])))
    if fam not in ("pe", "bin"):
        for k in range(c.below(3)):
            t = c.choice([("byte", 1), ("word", 2), ("dword", 4), ("qword", 8)])
            n = c.choice([1, 1, 3, 16, 100])
            y = Symbol("common%d" % k, "m", None, 0, "com", t[1] * n, t[0])
            y.count = n
            syms.append(y)
    if fam in ("coff", "elf", "omf"):
        # weak externals: name (alternate)
        for y in [y for y in syms if y.vis == "ext"]:
            l = [z for z in syms if z is not y and (z.vis == "ext" and z.alt is None or z.vis == "public") and (z.cls in "cx") == (y.cls == "x")]
            if l and c.bool(1, 4) and not any(z.alt is y for z in syms):
                y.alt = c.choice(l)
                y.defined = fam != "coff" or c.bool()
    m.syms = syms
    use4 = not six or fam in ("pe", "bin") or (fam != "macho" and c.bool(2, 3))
    m.low = use4
    pending = [y for y in syms if y.sec]
    by = lambda f: [y for y in syms if f(y)]
    cand = {"c": by(lambda y: y.cls == "c"), "x": by(lambda y: y.cls == "x"), "d": by(lambda y: y.cls in "dem"), "*": syms}
    sametext = {}
    out = []
    m.order = []
    cur = [None]

    def enter(s):
        if cur[0] is s:
            return
        if s not in m.order:
            m.order.append(s)
        if cur[0] is not None and cur[0].align is not None:
            out.append("%s ends" % cur[0].src)
        out.append(s.open)
        cur[0] = s
    nlab = [0]

    def add(s, kind, *a):
        s.parts.append((kind,) + a)

    def raw(s, b, known=True):
        s.parts.append(("raw", bytes(b), known))
        s.size += len(b)

    def addend():
        return c.choice([0, 0, 0, 1, 3, 8, 100, 0x1234, -1, -8, 127, 128]) if not opts.get("noadd") else 0

    def ref(s, t, pfx, kind, size, trail, what, sym=None):
        if what.endswith("coff"):
            if fam != "coff" and not (fam == "pe" and kind == "rva"):
                return False
            what = what[:-4]
        if what.endswith("4"):
            if not use4:
                return False
            what = what[:-1]
        l = cand[what]
        if not l:
            return False
        y = c.choice(l)
        if kind == "secrel" and y.sec is None:
            return False
        if kind == "rel" and s is y.sec and "lea" not in t and "call {S}" not in t and s.kind != "text":
            pass
        a = addend() if "{A}" in t else 0
        if kind == "rel" and fam in ("pe", "bin") and a and not c.bool(1, 60):
            a = 0       # see the known finding about displacements of RIP-relative operands
        at = "%+d" % a if a else ""
        pb = bytes.fromhex(pfx)
        tb = bytes.fromhex(trail)
        if kind == "abs2":      # two references in one instruction
            z = c.choice(cand["*"])
            out.append("  " + t.format(S=y.name, T=z.name))
            raw(s, pb)
            s.parts.append(("ref", 4, "abs", y, 0, 4))
            s.parts.append(("ref", 4, "abs", z, 0, 0))
            s.size += 8
            return True
        out.append("  " + t.format(S=y.name, A=at))
        if pb:
            raw(s, pb)
        s.parts.append(("ref", size, kind, y, a, len(tb)))
        s.size += size
        if tb:
            raw(s, tb)
        return True

    for step in range(c.int(3, 40)):
        s = c.choice(secs) if cur[0] is None or c.bool(1, 4) else cur[0]
        enter(s)
        # place a label?
        mine = [y for y in pending if y.sec is s]
        if mine and c.bool(1, 2):
            y = mine[0]
            pending.remove(y)
            place(c, out, s, y, raw, fam)
            continue
        k = c.below(10)
        if s.kind == "bss":
            n = c.choice([1, 2, 3, 7, 16, 33])
            out.append("  db %d dup (?)" % n)
            raw(s, bytes(n))
        elif k < 5:
            T = C64 if six else C32
            if s.kind == "text":
                for _ in range(5):
                    t = c.choice(T)
                    if ref(s, t[0], t[1], t[2], t[3], t[4], t[5]):
                        break
            else:
                for _ in range(5):
                    t = c.choice(D64 if six else D32)
                    if ref(s, t[0], "", t[1], t[2], "", t[3]):
                        break
        elif k == 5 and s.kind != "text":
            # list of references and numbers
            w, d = (8, "dq") if six else (4, "dd")
            items = []
            for _ in range(c.int(2, 5)):
                if c.bool():
                    v = c.below(200)
                    items.append("%d" % v)
                    raw(s, v.to_bytes(w, "little"))
                else:
                    y = c.choice(syms)
                    a = addend()
                    n = c.choice([1, 1, 2, 3])
                    e = y.name + ("%+d" % a if a else "")
                    items.append("%d dup (%s)" % (n, e) if n > 1 else e)
                    for _ in range(n):
                        s.parts.append(("ref", w, "abs", y, a, 0))
                        s.size += w
            out.append("  %s %s" % (d, ", ".join(items)))
        elif k == 6:
            n = c.choice([2, 4, 8, 16])
            sal = s.align if s.align is not None else (16 if six else 4)
            if n <= min(sal, 4 if s.align is None else sal):
                out.append("  align %d" % n)
                p = -s.size % n
                if p:
                    raw(s, bytes(p), s.kind != "text")
                continue
            out.append("  db %d" % n)
            raw(s, bytes([n]))
        elif k == 7 and s.kind != "text":
            # distances
            l = [y for y in syms if y.sec and y not in pending]
            l2 = [(a, b) for a in l for b in l if a.sec is b.sec]
            if l2:
                a, b = c.choice(l2)
                out.append("  dd %s-%s" % (a.name, b.name))
                raw(s, ((a.off - b.off) & 0xffffffff).to_bytes(4, "little"))
        else:
            b = [c.below(256) for _ in range(c.int(1, 9))]
            if c.bool(1, 8):
                b = b * 200
                out.append("  db 200 dup (%s)" % ",".join(map(str, b[:len(b) // 200])))
            else:
                out.append("  db " + ",".join(map(str, b)))
            raw(s, b)
    if fam == "coff" and c.bool(1, 250):
        # around the limit of the 16-bit relocation count
        s = [s for s in secs if s.kind == "data"][0]
        enter(s)
        n = c.choice([65534, 65535, 65536, 65537, 70000]) - sum(1 for p in s.parts if p[0] == "ref" and p[2] != "rel")
        y = c.choice([y for y in syms if y.sec])
        out.append("  %s %d dup (%s)" % ("dq" if six else "dd", n, y.name))
        for _ in range(n):
            s.parts.append(("ref", 8 if six else 4, "abs", y, 0, 0))
        s.size += n * (8 if six else 4)
        m.many = True
    for y in pending:
        enter(y.sec)
        place(c, out, y.sec, y, raw, fam)
    if cur[0] is not None and cur[0].align is not None:
        out.append("%s ends" % cur[0].src)
    head, weak = [], []
    for y in syms:
        if y.vis == "public" and not getattr(y, "procpub", False):
            head.append((c.choice(["public %s", "public %s", "externdef %s:" + ("near" if y.cls == "c" else y.typ)])) % y.name)
        elif y.vis == "ext" and y.alt is not None:
            t = c.choice(["near", "proc"]) if y.cls == "x" else y.typ
            weak.append("%s %s (%s):%s" % (c.choice(["extern", "extrn"]), y.name, y.alt.name, t))
        elif y.vis == "ext":
            t = c.choice(["near", "proc"]) if y.cls == "x" else y.typ
            head.append("%s %s:%s" % (c.choice(["extern", "extrn", "externdef"]), y.name, t))
        elif y.vis == "com":
            head.append("comm %s:%s%s" % (y.name, y.typ, ":%d" % y.count if y.count > 1 else ""))
    if c.bool(1, 6):
        head.append("externdef never_used:dword")
    tail = []
    m.consts = {}
    if c.bool(1, 4):
        v = c.choice([0, 1, 5, 0x1234, 0x12345678])
        tail.append("public aconst")
        tail.append("aconst equ %d" % v if c.bool() else "aconst = %d" % v)
        m.consts["aconst"] = v
    head = c.shuffle(head)
    k = c.below(len(head) + 1) if c.bool(1, 3) else len(head)
    # externals must be declared before use; publics may come last
    late = [h for h in head[k:] if h.startswith("public")]
    early = [h for h in head if h not in late]
    m.start = None
    l = [y for y in syms if y.cls == "c" and y.sec]
    if fam == "pe" and l and c.bool(7, 8):
        m.start = c.choice(l)
    m.libs, m.entry = [], None
    if fam == "coff" and c.bool(1, 4):
        for k in range(c.below(3)):
            m.libs.append(c.choice(["lib%d.lib", "a_longer_name_%d.lib", "with space%d.lib"]) % k)
            early.append("includelib %s" % ("<%s>" % m.libs[-1] if " " in m.libs[-1] or c.bool() else m.libs[-1]))
        if l and c.bool():
            m.start = m.entry = c.choice(l)
            m.entry.procpub, m.entry.procpriv = True, False       # the start label becomes public
    m.relocs = fam == "pe" and c.bool()
    if m.relocs:
        early.append("@pe_file_flags = @pe_file_flags and not 1")
    early += weak
    m.text = FMT[fmt][1] + "option casemap:none\noption prologue:none\noption epilogue:none\n" + "\n".join(early + out + late + tail) + "\nend%s\n" % (" " + m.start.name if m.start else "")
    m.opts = ["-q", FMT[fmt][0]]
    if fam == "coff":
        m.opts += [o for o in ("-zls", "-zlf", "-zlp", "-zze") if c.bool(1, 6)]
    return m


def place(c, out, s, y, raw, fam):
    y.off = s.size
    if y.cls == "c":
        if c.bool():
            if y.vis == "public":
                y.procpub = c.bool()
                y.export = fam not in ("pe", "bin") and c.bool(1, 4)
                out.append("%s proc export" % y.name if y.export else "%s proc" % y.name + (" public" if c.bool() else "") if y.procpub else "%s proc" % y.name)
            else:
                out.append("%s proc private" % y.name)
                y.procpriv = True
            out.append("  nop")
            raw(s, b"\x90")
            out.append("%s endp" % y.name)
        else:
            out.append("%s:" % y.name)
        return
    if s.kind == "bss":
        n = c.choice([("db", 1), ("dw", 2), ("dd", 4), ("dq", 8)])
        k = c.choice([1, 1, 5])
        out.append("%s %s %s" % (y.name, n[0], "?" if k == 1 else "%d dup (?)" % k))
        raw(s, bytes(n[1] * k))
        y.size, y.typ = n[1] * k, {"db": "byte", "dw": "word", "dd": "dword", "dq": "qword"}[n[0]]
        return
    if c.bool(1, 5):
        t = c.choice(["byte", "dword"])
        out.append("%s label %s" % (y.name, t))
        y.typ = t
        return
    n = c.choice([("db", 1), ("dw", 2), ("dd", 4), ("dq", 8)])
    v = c.below(256)
    out.append("%s %s %d" % (y.name, n[0], v))
    raw(s, v.to_bytes(n[1], "little"))
    y.size, y.typ = n[1], {"db": "byte", "dw": "word", "dd": "dword", "dq": "qword"}[n[0]]


def expected(m, base, symaddr, imagebase, secnum=None):
    """{section: (bytes, mask)} for the given addresses"""
    res = {}
    for s in m.secs:
        b, k = bytearray(), bytearray()
        for p in s.parts:
            if p[0] == "raw":
                b += p[1]
                k += (b"\1" if p[2] else b"\0") * len(p[1])
                continue
            _, size, kind, y, a, trail = p
            P = base[s] + len(b)
            if kind == "rel":
                v = symaddr(y) + a - (P + size + trail)
            elif kind == "abs":
                v = symaddr(y) + a
            elif kind == "rva":
                v = symaddr(y) + a - imagebase
            elif kind == "secrel":
                v = y.off + a
            if v < 0 and m.fam == "bin" and size == 8:
                v &= 0xffffffff         # addresses below the image are not sign-extended
            b += (v & ((1 << 8 * size) - 1)).to_bytes(size, "little")
            k += b"\1" * size
        res[s] = (bytes(b), bytes(k))
    return res
