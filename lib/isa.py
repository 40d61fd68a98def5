"""x86 statements: random instances of operand forms, and their meaning by an
independent assembler (GNU as) and disassembler (objdump).

A form is (mnemonic, operand kinds, decoration).  instance() draws concrete
registers, memory operands and immediates and returns the statement in UASM's
and in gas' spelling (both Intel syntax; they differ in little)."""
import os, re, subprocess, struct
from . import common

MEM = {"m8": "byte", "m16": "word", "m32": "dword", "m48": "fword", "m64": "qword", "m80": "tbyte", "m128": "xmmword", "m256": "ymmword", "m512": "zmmword"}
R64 = "rax rcx rdx rbx rsp rbp rsi rdi r8 r9 r10 r11 r12 r13 r14 r15".split()
R32 = "eax ecx edx ebx esp ebp esi edi r8d r9d r10d r11d r12d r13d r14d r15d".split()
R16 = "ax cx dx bx sp bp si di r8w r9w r10w r11w r12w r13w r14w r15w".split()
R8 = "al cl dl bl spl bpl sil dil r8b r9b r10b r11b r12b r13b r14b r15b".split()
R8H = "ah ch dh bh".split()
REGNO = {r: i for l in (R64, R32, R16, R8) for i, r in enumerate(l)}
REGNO.update(spl=8, bpl=8, sil=8, dil=8)      # need REX
FIXED = {"al", "ax", "eax", "rax", "cl", "dx", "1"}
SEGS = ["es", "cs", "ss", "ds", "fs", "gs"]


def ismem(k):
    return k == "m" or k in MEM or k[:2] == "vm"


class Ctx:
    """per statement restrictions that keep an instance encodable"""
    def __init__(self, c, mode, kinds, evex, name="", deco=()):
        self.mode = mode
        # EVEX statements: see evexdom()
        self.evx = bool(evex or deco)
        self.ndd = self.evx and re.match(r"vp(ror|rol|sll|srl|sra)\w+$", name) is not None
        self.memc = self.dispc = self.seg = self.regc = 0
        self.evex = evex and mode == 64
        # a high byte register cannot be used with REX
        self.legacy = mode != 64 or ("r8" in kinds and c.bool(1, 3))

    def reg(self, r):
        n = REGNO.get(r)
        if n is None:
            m = re.match(r"[xyz]mm(\d+)$", r)
            n = int(m.group(1)) if m else 0
        self.regc = max(self.regc, 0 if n < 8 else 1 if n < 16 else 2)

    def dtext(self, c, d):
        if c.bool(1, 3):
            return "", ""
        self.dispc = 1 if -128 <= d <= 127 else 2
        return dtext(c, d)

    def feat(self):
        return ((self.memc * 3 + self.dispc) * 2 + self.seg) * 3 + self.regc


def disp(c, asz):
    k = c.below(9)
    if k < 2:
        return c.int(-128, 127)
    if k == 2:
        return c.choice([128, -129, 127, -128, 255, 256, 1, -1, 2, 4, 8, 16, 32, 64, -16, -64])
    if k < 6:
        return (1 << c.below(7)) * c.int(-130, 130)         # multiples, for compressed displacements
    if asz == 16:
        return c.int(-32768, 32767)
    if k == 6:
        return c.choice([0x7fffffff, -0x80000000, 0x12345678, -0x1000])
    return c.int(-(1 << 31), (1 << 31) - 1)


def dtext(c, d):
    if d >= 0:
        return ("+%d" % d, "+%d" % d) if c.bool(1, 2) else ("+0%xh" % d, "+0x%x" % d)
    return ("-%d" % -d, "-%d" % -d) if c.bool(1, 2) else ("-0%xh" % -d, "-0x%x" % -d)


def mem(c, x, k):
    mode = x.mode
    asz = mode
    if mode == 64:
        asz = 32 if c.bool(1, 12) else 64
    else:
        if c.bool(1, 4):
            asz = 48 - mode
    seg = ""
    if c.bool(1, 10):
        seg = c.choice(["fs", "gs"] if mode == 64 else SEGS) + ":"
        x.seg = 1
    x.memc = 4 if asz != mode else 0
    if k[:2] == "vm":
        # vector index: vm<index class><element size>
        idx = {"x": "xmm", "y": "ymm", "z": "zmm"}[k[2]]
        ev = x.evex
        n = c.below(32 if ev else (16 if mode == 64 else 8))
        if asz == 16 or mode == 64 and asz == 32:
            asz = mode if mode != 16 else 32        # 32-bit VSIB addresses in 64-bit code: listed finding
            x.memc = 4 if asz != mode else 0
        regs = R64 if asz == 64 else R32
        base = c.choice(regs[:16 if mode == 64 else 8])
        sc = c.choice([1, 2, 4, 8])
        if x.evx and base in ("ebp", "rbp", "r13", "r13d"):
            base = regs[1]      # listed finding: scatters with a base of rBP/r13 and no displacement
        d = disp(c, 32)
        du, dg = x.dtext(c, d)
        x.memc = 5
        x.reg(base)
        x.reg(idx + str(n))
        t = "%s+%s%d*%d" % (base, idx, n, sc)
        p = MEM["m" + k[3:]] + " ptr " if k[3:] else ""
        return p + seg + "[" + t + du + "]", p + seg + "[" + t + dg + "]"
    p = "" if k == "m" else MEM[k] + " ptr "
    if asz == mode and k != "m" and c.bool(1, 8):
        # a label of the program
        x.memc = 6
        n = c.int(1, 7)
        d = c.choice([0, 0, 1, 2, 100, 1000, 0x1234, -1])
        if mode == 64:
            d = 0       # listed finding: -bin adds the displacement of a RIP-relative operand twice
        elif x.evx:
            d = 0       # listed finding: the displacement added to a label is compressed
        t = "LB%d" % n + ("%+d" % d if d else "")
        g = "%d" % (n + d)
        if mode == 64:
            return p + seg + t, p + seg + "[rip+D0+%s]" % g
        if c.bool(1, 2):
            return p + seg + t, p + (seg or "ds:") + "[%s]" % g
        x.dispc = 1
        if d < 0:       # "LB-1[bx]" is -(1[bx])
            t, g = "LB%d" % n, "%d" % n
        if asz == 16:
            b = c.choice(["bx+si", "bx+di", "bp+si", "bp+di", "si", "di", "bp", "bx"])
        else:
            b = c.choice(R32[:8])
            x.reg(b)
            i = c.choice([r for r in R32[:8] if r != "esp"])
            if c.bool(1, 3):
                b += "+%s*%d" % (i, c.choice([2, 4, 8]))
        u = p + seg + (t + "[" + b + "]" if c.bool(1, 2) else "[" + b + "+" + t + "]")
        return u, p + seg + "[" + b + "+" + g + "]"
    if asz == 16:
        b = c.choice(["bx+si", "bx+di", "bp+si", "bp+di", "si", "di", "bp", "bx"])
        du, dg = x.dtext(c, disp(c, 16))
        return p + seg + "[" + b + du + "]", p + seg + "[" + b + dg + "]"
    regs = (R64 if asz == 64 else R32)[:8 if x.legacy or mode != 64 else 16]
    s = c.weighted([(4, "b"), (4, "bi"), (3, "bis"), (2, "is"), (1, "abs")])
    if x.evx and asz != mode and s in ("is", "abs"):
        s = "b"
    if x.ndd and x.regc:
        regs = [r for r in regs if r not in ("rsp", "esp", "r12", "r12d")]
    du, dg = x.dtext(c, disp(c, 32)) if s != "abs" else ("", "")
    if x.memc == 0:
        x.memc = {"b": 0, "bi": 1, "bis": 1, "is": 2, "abs": 3}[s]
    if s == "abs":
        if mode == 64:
            seg = seg or "gs:"
            asz = 64
        else:
            seg = seg or "ds:"
        v = c.int(0, 0x7fff if mode == 16 else 0x7fffffff)
        return p + seg + "[0%xh]" % v, p + seg + "[0x%x]" % v
    if s == "b":
        t = c.choice(regs)
    else:
        i = c.choice([r for r in regs if r not in ("rsp", "esp")])
        if s == "bi":
            t = c.choice(regs) + "+" + i
        elif s == "bis":
            sc = "%s*%d" % (i, c.choice([1, 2, 4, 8]))
            b = c.choice(regs)
            t = b + "+" + sc if c.bool(3, 4) or x.evx and b in ("esp", "rsp") else sc + "+" + b
        else:
            t = "%s*%d" % (i, c.choice([4, 8, 2]))
    for r in re.findall(r"[a-z][a-z0-9]+", t):
        x.reg(r)
    return p + seg + "[" + t + du + "]", p + seg + "[" + t + dg + "]"


def imm(c, k):
    n = int(k[1:])
    if n == 64:
        v = c.choice([0x123456789abcdef0, -0x123456789abcdef0, 1 << 63, (1 << 64) - 1, 0x80000000, 0xffffffff, 0x100000000, -0x80000001])
    else:
        j = c.below(6)
        hi = (1 << n)
        if j == 0:
            v = c.int(0, 9)
        elif j == 1:
            v = hi - 1 - c.below(4)
        elif j == 2:
            v = -(hi >> 1) + c.below(4)
        elif j == 3:
            v = (hi >> 1) - 1 - c.below(3)
        elif j == 4:
            v = -c.int(1, 130)
        else:
            v = c.int(-(hi >> 1), hi - 1)
        if n == 8 and v < -128:
            v = -128
        if n == 16 and v < -32768:
            v = -32768
    return ("%d" % v, "%d" % v) if v < 0 or c.bool(1, 2) else ("0%xh" % v, "0x%x" % v)


def operand(c, x, k):
    r = operand1(c, x, k)
    if not ismem(k):
        x.reg(r[0])
    return r


def operand1(c, x, k):
    mode = x.mode
    if k[0] == "=":
        return k[1:], k[1:]
    if k in FIXED:
        return k, k
    n = 8 if x.legacy else 16
    if k == "r8":
        if x.legacy:
            r = c.choice(R8[:4] + R8H)
        else:
            r = c.choice(R8)
        return r, r
    if k in ("r16", "r32", "r64"):
        r = c.choice({"r16": R16, "r32": R32, "r64": R64}[k][:n])
        return r, r
    if k in ("x", "y", "z"):
        lim = 32 if x.evex else 16 if mode == 64 else 8
        r = {"x": "xmm", "y": "ymm", "z": "zmm"}[k] + str(c.below(lim))
        return r, r
    if k == "mm":
        r = "mm%d" % c.below(8)
        return r, r
    if k == "k":
        r = "k%d" % c.below(8)
        return r, r
    if k == "bnd":
        r = "bnd%d" % c.below(4)
        return r, r
    if k == "sreg":
        r = c.choice(SEGS)
        return r, r
    if k == "cr":
        r = "cr" + c.choice("02348" if mode == 64 else "0234")
        return r, r
    if k == "dr":
        r = "dr" + c.choice("012367")
        return r, r
    if k == "st":
        return (c.choice(["st", "st(0)"]), "st")
    if k == "sti":
        r = "st(%d)" % c.below(8)
        return r, r
    if k[0] == "i":
        return imm(c, k)
    if ismem(k):
        return mem(c, x, k)
    raise ValueError(k)


def instance(c, form, mode):
    """(uasm text, gas text, feature class)"""
    name, kinds, deco, evex = form
    name = name.replace("_", " ") if name.startswith(("rep", "lock_")) else name
    x = Ctx(c, mode, kinds, evex, name, deco)
    ops = [operand(c, x, k) for k in kinds]
    u = [o[0] for o in ops]
    g = [o[1] for o in ops]
    for d in deco:
        if d == "k" or d == "kz":
            s = "{k%d}" % c.int(1, 7) + ("{z}" if d == "kz" else "")
            # the mask belongs to the destination
            u[0] += s
            g[0] += s
        elif d[0] == "b":           # b<elsize>x<count> on the memory operand
            el, n = d[1:].split("x")
            i = [j for j, k in enumerate(kinds) if ismem(k)][0]
            for l, isg in ((u, 0), (g, 1)):
                body = l[i][l[i].index("ptr ") + 4:] if "ptr " in l[i] else l[i]
                l[i] = body
            if c.below(2):
                u[i] += "{1to%s}" % n
                g[i] += "{1to%s}" % n
            else:
                u[i] = MEM["m" + el] + " bcst " + u[i]
                g[i] = MEM["m" + el] + " bcst " + g[i]
        elif d in ("sae", "rn-sae", "rd-sae", "ru-sae", "rz-sae"):
            j = len(u)
            while j and kinds[j - 1] == "i8":
                j -= 1
            u[j - 1] += ", {%s}" % d
            g[j - 1] += ", {%s}" % d
    gname = GASNAME.get((mode, name), name)
    return (name + " " + ", ".join(u)).strip(), (gname + " " + ", ".join(g)).strip(), x.feat()


# where the MASM mnemonic means something else than gas' one
GASNAME = {(64, "pushf"): "pushfw", (64, "popf"): "popfw", (64, "iret"): "iretw"}


HDR = {64: ".x64p", 32: ".686p", 16: ".686p"}
SLOT = 16


class Isa:
    """Assembles lists of statements with UASM and gas."""

    def __init__(self, runner):
        self.r = runner

    def uasm(self, stmts, mode, cpu=None, opts=(), extra=()):
        """list of bytes | None per statement; also the error list"""
        ok = list(range(len(stmts)))
        errs = {}
        hdr = [cpu or HDR[mode]]
        if cpu is None:
            hdr += [".k3d", ".mmx", ".xmm"] if mode != 64 else []
            hdr += ["option evex:1"]
        hdr += list(extra)
        for rnd in range(60):
            o = hdr + ["S segment para public use%d 'CODE'" % mode, "assume ds:S, es:S, ss:S, fs:nothing, gs:nothing", "D0:", "db 90h"]
            for j in range(1, 8):
                o += ["LB%d label byte" % j, "db 90h"]
            line = {}
            for j, i in enumerate(ok):
                o.append("org %d" % ((i + 1) * SLOT))
                o.append(stmts[i])
                line[len(o)] = i
                o.append("E%d:" % j)
            o.append("org %d" % ((len(stmts) + 1) * SLOT))
            for j in range(len(ok)):
                o.append("db (E%d-D0) and 15" % j)
            o += ["S ends", "end"]
            res = self.r.asm("\n".join(o) + "\n", ("-bin", "-e5000") + tuple(opts))
            self.last = res
            bad = set()
            for f, l, sev, code, msg in res.errors():
                if sev != "Warning":
                    if l in line:
                        bad.add(line[l])
                        errs.setdefault(line[l], msg)
            img = res.file("t.BIN")
            if img is not None and not bad:
                out = [None] * len(stmts)
                tab = img[(len(stmts) + 1) * SLOT:]
                if len(tab) != len(ok):
                    raise RuntimeError("image size")
                for j, i in enumerate(ok):
                    l = tab[j] or 16
                    out[i] = img[(i + 1) * SLOT:(i + 1) * SLOT + l]
                return out, errs
            if not bad:
                raise RuntimeError("UASM failed without a line: " + res.text[-500:])
            ok = [i for i in ok if i not in bad]
        raise RuntimeError("errors keep coming: " + res.text[-500:])

    def gas(self, stmts, mode, march=None):
        """list of bytes | None"""
        ok = list(range(len(stmts)))
        errs = {}
        for rnd in range(10):
            o = [".intel_syntax noprefix", ".code%d" % mode, "D0:"]
            line = {}
            for j, i in enumerate(ok):
                o.append(".org %d" % ((i + 1) * SLOT))
                o.append(stmts[i])
                line[len(o)] = i
                o.append("E%d:" % j)
            o.append(".org %d" % ((len(stmts) + 1) * SLOT))
            for j in range(len(ok)):
                o.append(".byte E%d-D0-%d" % (j, (ok[j] + 1) * SLOT))
            self.r.write({"g.s": "\n".join(o) + "\n"})
            try:
                os.unlink(self.r.dir + "/g.o")
            except OSError:
                pass
            a = ["as", "--64" if mode == 64 else "--32", "-o", "g.o", "g.s"]
            if march:
                a.insert(1, "-march=" + march)
            res = self.r.run(a)
            bad = set()
            for m in re.finditer(r"g\.s:(\d+): Error: (.*)", res.text):
                if int(m.group(1)) in line:
                    bad.add(line[int(m.group(1))])
                    errs.setdefault(line[int(m.group(1))], m.group(2))
            obj = res.file("g.o")
            if obj is not None and not bad:
                t = elftext(obj)
                out = [None] * len(stmts)
                tab = t[(len(stmts) + 1) * SLOT:]
                for j, i in enumerate(ok):
                    out[i] = t[(i + 1) * SLOT:(i + 1) * SLOT + tab[j]]
                return out, errs
            if not bad:
                raise RuntimeError("gas failed without a line: " + res.text[-500:])
            ok = [i for i in ok if i not in bad]
        raise RuntimeError("gas errors keep coming: " + res.text[-300:])

    def decode(self, codes, mode):
        """objdump's reading of each byte string: normalised text"""
        img = bytearray()
        for b in codes:
            img += (b + b"\x90" * 32)[:32]
        self.r.write({"d.bin": bytes(img)})
        res = self.r.run(["objdump", "-D", "-b", "binary", "-m", {64: "i386:x86-64", 32: "i386", 16: "i8086"}[mode], "-M",
                          {64: "intel,x86-64", 32: "intel,i386", 16: "intel,i8086"}[mode], "-w", "d.bin"])
        per = {}
        for l in res.text.splitlines():
            m = re.match(r"^\s*([0-9a-f]+):\t([0-9a-f ]+?)\s*\t(.*)$", l) or re.match(r"^\s*([0-9a-f]+):\t([0-9a-f ]+)()$", l)
            if m:
                a = int(m.group(1), 16)
                per.setdefault(a // 32, []).append((a % 32, len(m.group(2).split()), m.group(3)))
        out = []
        for i, b in enumerate(codes):
            t = []
            for a, n, s in per.get(i, []):
                if a < len(b):
                    t.append(norm(s, mode, i * 32 + len(b) - 0, n if a + n <= len(b) else None))
            out.append(" ; ".join(t))
        return out


def elftext(o):
    is64 = o[4] == 2
    if is64:
        shoff, = struct.unpack_from("<Q", o, 0x28)
        esz, n, sx = struct.unpack_from("<HHH", o, 0x3a)
    else:
        shoff, = struct.unpack_from("<I", o, 0x20)
        esz, n, sx = struct.unpack_from("<HHH", o, 0x2e)
    secs = []
    for i in range(n):
        p = shoff + i * esz
        if is64:
            nm, ty, fl, ad, off, sz = struct.unpack_from("<IIQQQQ", o, p)
        else:
            nm, ty, fl, ad, off, sz = struct.unpack_from("<IIIIII", o, p)
        secs.append((nm, off, sz))
    st = secs[sx]
    for nm, off, sz in secs:
        e = o.index(b"\0", st[1] + nm)
        if o[st[1] + nm:e] == b".text":
            return o[off:off + sz]
    return b""


def norm(s, mode, slot, n):
    if n is None:
        return "(runs over) " + s
    s = re.sub(r"\s+", " ", s).strip()
    if "loop" not in s and "cxz" not in s:
        # prefixes that mean nothing here (objdump prints those it did not use)
        s = re.sub(r"^((rex\.?\w*|data16|data32|addr32|addr16) )+", "", s)
    m = re.search(r"#\s*0x([0-9a-f]+)", s)
    if m and "rip" in s:
        s = s[:m.start()]
        s = re.sub(r"\[rip[^\]]*\]", "[T:%s]" % m.group(1), s)
    s = s.split("#")[0].strip()
    s = re.sub(r"^movabs ", "mov ", s)
    m = re.match(r"^((?:xacquire |xrelease |lock )?(?:xchg|test)) ([^,]+),([^,]+)$", s)
    if m and m.group(2) > m.group(3):
        s = "%s %s,%s" % (m.group(1), m.group(3), m.group(2))
    if s.startswith("lea "):
        s = re.sub(r"\b[c-gs]s:", "", s)     # a segment override means nothing here
    m = re.match(r"^mov r(\w+),0x([0-9a-f]{1,8})$", s)
    if m and m.group(1) in "ax cx dx bx sp bp si di 8 9 10 11 12 13 14 15".split():
        r = m.group(1)      # the upper half is zeroed either way
        s = "mov %s,0x%s" % ("r" + r + "d" if r.isdigit() else "e" + r, m.group(2))
    s = re.sub(r"^\{(evex|vex|vex2|vex3|load|store|disp8|disp32)\} ", "", s)

    def fix(m):
        b = m.group(1)
        parts = re.findall(r"[+-]?[^+-]+", b)
        regs, d = [], 0
        for p in parts:
            q = p.lstrip("+")
            if re.match(r"^-?0x[0-9a-f]+$", q):
                d += int(q, 16)
            elif q.endswith("*1") and re.match(r"[re]", q):
                regs.append(q[:-2])
            else:
                regs.append(q)
        mask = {64: 64, 32: 32, 16: 32}[mode]
        regs = [r for r in regs if r not in ("eiz", "riz")]
        plain = [r for r in regs if "*" not in r]
        if len(plain) == 2 and (mode == 64 or "ebp" not in plain):
            regs = sorted(regs)
        if len(regs) == 1 and regs[0].endswith("*2"):
            regs = [regs[0][:-2]] * 2
        d &= (1 << mask) - 1
        if regs and regs[0][:2] in ("bx", "bp", "si", "di"):
            d &= 0xffff
        return "[" + "+".join(regs) + "+%#x" % d + "]"
    s = re.sub(r"\[([^\]T:]+)\]", fix, s)
    return s


def evexdom():
    """EVEX statements: index-only and absolute addresses only with low registers (and [reg*2+disp] not at all),
    labels only without base: the others are listed findings"""
    m = 0
    for ft in range(7 * 3 * 2 * 3):
        rg, sg, dc, mc = ft % 3, ft // 3 % 2, ft // 6 % 3, ft // 18
        if mc in (2, 3) and rg or mc == 2 and dc or mc == 6 and dc:
            continue
        m |= 1 << ft
    return m


EVEXDOM = evexdom()


def forms(simd):
    """[(form, {mode: mask of feature classes})] from data/forms.txt"""
    out = []
    with open(common.VERIF + "/data/forms.txt") as f:
        for l in f:
            name, kinds, deco, evex, grp, masks = l.rstrip("\n").split("|")
            if (grp == "v") != simd:
                continue
            mk = dict(zip((64, 32, 16), (int(x, 16) if x != "-" else None for x in masks.split(","))))
            if evex == "1" or deco:
                mk = {m: v & EVEXDOM or None if v else None for m, v in mk.items()}
            out.append(((name, tuple(x for x in kinds.split(";") if x), tuple(x for x in deco.split(";") if x), evex == "1"), mk))
    return out
