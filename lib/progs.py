"""Whole programs using most of the language, for the metamorphic and
differential checks.  A program is a list of source lines in which every
keyword is lower case and every identifier is in Prog.names; it is meant to
assemble without errors (the checks only use the relation between two runs,
so a refused program costs coverage, not soundness)."""

FMTS = ["bin16", "bin32", "bin64", "omf16", "omf32", "coff32", "coff64", "elf32", "elf64", "macho64", "pe32", "pe64", "mz"]
OPT = {"bin16": ["-bin"], "bin32": ["-bin"], "bin64": ["-bin"], "omf16": ["-omf"], "omf32": ["-omf"], "coff32": ["-coff"], "coff64": ["-win64"],
       "elf32": ["-elf"], "elf64": ["-elf64"], "macho64": ["-macho64"], "pe32": ["-pe"], "pe64": ["-pe"], "mz": ["-mz"]}
OUT = {"bin16": "t.BIN", "bin32": "t.BIN", "bin64": "t.BIN", "pe32": "t.EXE", "pe64": "t.EXE", "mz": "t.EXE"}

R32 = ["eax", "ecx", "edx", "ebx", "esi", "edi"]
R64 = ["rax", "rcx", "rdx", "rbx", "rsi", "rdi", "r8", "r9", "r10", "r15"]
R16 = ["ax", "cx", "dx", "bx", "si", "di"]
R8 = ["al", "cl", "dl", "bl", "ah", "dh"]
CC = ["z", "nz", "e", "ne", "c", "nc", "b", "ae", "a", "be", "s", "ns", "l", "ge", "g", "le", "o", "no", "p", "np"]
CONV = {16: ["c", "pascal", "stdcall"], 32: ["c", "stdcall", "pascal", "fastcall"], 64: []}


class Prog:
    def __init__(self, fmt):
        self.fmt = fmt
        self.opts = list(OPT[fmt])
        self.out = OUT.get(fmt, "t.obj")
        self.lines = []
        self.names = set()
        self.ranges = []          # (i, j): lines that may be moved together
        self.bits = 16 if fmt.endswith("16") or fmt == "mz" else 64 if fmt.endswith("64") else 32

    def text(self, eol="\n"):
        return eol.join(self.lines) + eol


class Gen:
    def __init__(self, c, fmt, feats):
        self.c, self.p = c, Prog(fmt)
        self.bits = self.p.bits
        self.fam = fmt.rstrip("0123456789")
        self.obj = self.fam in ("omf", "coff", "elf", "macho")
        self.k = 0
        self.consts, self.vars, self.structs, self.macros, self.fmacros, self.procs, self.texts, self.externs, self.labels = [], [], [], [], [], [], [], [], []
        self.feats = feats
        self.pend = []       # code labels to be defined later
        self.segs = []

    # -------------------------------------------------------------- helpers
    def name(self, pre="n"):
        self.k += 1
        n = self.c.choice(["%s_%d", "_%s%d_x", "%s@%d", "?%s_%d", "A%s_%d_Long_Name", "$%s_%d"]) % (pre, self.k)
        self.p.names.add(n)
        return n

    def o(self, *ls):
        self.p.lines += ls

    def num(self, n=32):
        c = self.c
        v = c.bits(n)
        return c.choice([str(v), "0%xh" % v, "0x%x" % v, "%so" % oct(v)[2:], "%sb" % bin(v)[2:] if v < 1 << 16 else "%dt" % v, "0%xH" % v])

    def const(self, n=16, depth=0):
        """a constant expression with a value of at most n bits"""
        c = self.c
        k = c.int(0, 7) if depth < 2 else 0
        if k <= 2:
            return self.num(min(n, 30))
        if k == 3 and self.consts:
            return "(%s and 0%xh)" % (c.choice(self.consts), (1 << n) - 1)
        if k == 4:
            return "(%s %s %s) and 0%xh" % (self.const(8, depth + 1), c.choice(["+", "*", "or", "xor", "shl", "-"]), self.num(3), (1 << n) - 1) if depth == 0 else self.num(min(n, 8))
        if k == 5 and self.structs:
            return "sizeof %s" % c.choice(self.structs)[0]
        if k == 6:
            return "'%s'" % c.choice("abcXYZ09")
        return str(c.int(0, (1 << min(n, 7)) - 1))

    def reg(self, n):
        return self.c.choice({8: R8 if self.bits != 64 else R8[:4], 16: R16, 32: R32, 64: R64}[n])

    def size(self):
        return self.c.choice([8, 16, 32] if self.bits != 64 else [8, 16, 32, 64]) if self.bits != 16 else self.c.choice([8, 16])

    PTR = {8: "byte", 16: "word", 32: "dword", 64: "qword"}

    def mem(self, n):
        """a memory operand of n bits"""
        c = self.c
        pre = self.PTR[n] + " ptr "
        if self.vars and c.bool():
            v, s = c.choice(self.vars)[:2]
            return pre + v + (c.choice(["+%d", "[%d]", "-%d"]) % c.int(0, 9) if c.bool(1, 4) else "")
        if self.bits == 16:
            return pre + c.choice(["[bx]", "[bx+si]", "[di+%d]" % c.int(0, 300), "[bp+%d]" % c.int(0, 100), "[si]"])
        r = R64 if self.bits == 64 else R32
        return pre + c.choice(["[%s]" % c.choice(r), "[%s+%d]" % (c.choice(r), c.int(0, 300)), "[%s+%s*%d]" % (c.choice(r), c.choice(r), c.choice([1, 2, 4, 8])),
                               "[%s][%s]" % (c.choice(r), c.choice(r)), "[%s-%d]" % (c.choice(r), c.int(1, 130))])

    # -------------------------------------------------------------- code
    def instr(self):
        c = self.c
        n = self.size()
        k = c.int(0, 15)
        if k == 0:
            return "mov %s, %s" % (self.reg(n), self.const(min(n, 16)))
        if k == 1:
            return "mov %s, %s" % (self.reg(n), self.mem(n))
        if k == 2:
            return "mov %s, %s" % (self.mem(n), self.reg(n))
        if k == 3:
            return "%s %s, %s" % (c.choice(["add", "sub", "xor", "and", "or", "cmp", "adc", "sbb", "test"]), self.reg(n), self.reg(n))
        if k == 4:
            return "%s %s, %s" % (c.choice(["add", "sub", "xor", "and", "or", "cmp"]), self.mem(n), self.const(7))
        if k == 5:
            return "%s %s" % (c.choice(["inc", "dec", "neg", "not"]), c.choice([self.reg(n), self.mem(n)]))
        if k == 6:
            return "%s %s, %s" % (c.choice(["shl", "sal", "shr", "sar", "rol", "ror"]), self.reg(n), c.choice(["1", "cl", str(c.int(2, 7)) if self.bits > 16 else "1"]))
        if k == 7:
            m = self.bits
            return "%s %s" % (c.choice(["push", "pop"]), self.reg(m))
        if k == 8:
            return c.choice(["nop", "cld", "stc", "cbw", "cwd", "movsb", "rep stosb", "repz cmpsb", "lodsw", "xlatb", "std", "cmc"])
        if k == 9 and self.bits > 16:
            return "lea %s, %s" % (self.reg(self.bits), self.mem(32).replace("dword ptr ", ""))
        if k == 10 and self.bits > 16:
            return "%s %s, %s" % (c.choice(["movzx", "movsx"]), self.reg(32), c.choice([self.reg(8), self.mem(8), self.mem(16)]))
        if k == 11 and self.bits > 16 and self.feats["simd"]:
            x = lambda: "xmm%d" % c.int(0, 7)
            return c.choice(["movaps %s, %s" % (x(), x()), "paddd %s, %s" % (x(), x()), "addps %s, %s" % (x(), x()), "vpxor %s, %s, %s" % (x(), x(), x()),
                             "movd %s, %s" % (x(), self.reg(32)), "pshufd %s, %s, %d" % (x(), x(), c.int(0, 255)), "vaddpd ymm1, ymm2, ymm%d" % c.int(0, 7)])
        if k == 12:
            return c.choice(["fld1", "fldz", "fadd st, st(%d)" % c.int(0, 7), "fxch", "fstp st(%d)" % c.int(0, 7), "fninit"])
        if k == 13 and self.vars and self.bits > 16 and not (self.bits == 64 and self.fam in ("macho",)):
            v = c.choice(self.vars)[0]
            if self.bits == 64:
                return "lea %s, %s" % (self.reg(64), v)
            return "mov %s, offset %s" % (self.reg(32), v)
        if k == 14:
            return "xchg %s, %s" % (self.reg(n), self.reg(n))
        return "mov %s, %s" % (self.reg(n), self.reg(n) if n != 8 else "al")

    def branch(self, labs):
        c = self.c
        t = c.choice(labs)
        k = c.int(0, 5)
        if k == 0:
            return "jmp %s" % t
        if k == 1 and self.feats["short"]:
            return "call %s" % t
        return "j%s %s" % (c.choice(CC), t)

    def cond(self, depth=0):
        c = self.c
        n = self.size()
        if depth < 2 and c.bool(1, 3):
            return "%s %s %s" % (self.cond(depth + 1), c.choice(["&&", "||"]), self.cond(depth + 1))
        if depth < 2 and c.bool(1, 8):
            return "!(%s)" % self.cond(depth + 1)
        k = c.int(0, 4)
        if k == 0:
            return c.choice(["zero?", "carry?", "sign?", "!carry?", "overflow?", "parity?"])
        if k == 1:
            return self.reg(n)
        if k == 2:
            return "%s %s %s" % (self.mem(n), c.choice(["==", "!=", "<", ">", "<=", ">="]), c.int(0, 100))
        return "%s %s %s" % (self.reg(n), c.choice(["==", "!=", "<", ">", "<=", ">=", "&"]), c.choice([self.reg(n), str(c.int(0, 100))]))

    def code(self, n, depth, labs):
        """n code items; labs: labels that can be jumped to (all in this procedure)"""
        c = self.c
        for _ in range(n):
            k = c.weighted([(12, "i"), (3, "j"), (2, "lab"), (2 if depth < 3 else 0, "if"), (2 if depth < 3 else 0, "while"), (1 if depth < 2 and self.bits > 16 and self.model else 0, "switch"), (3, "macro"),
                            (2, "invoke"), (1, "cassm"), (1, "rept"), (1, "anon"), (1, "align"), (1, "data")])
            a = len(self.p.lines)
            if k == "i":
                self.o("    " + self.instr())
            elif k == "j" and labs:
                self.o("    " + self.branch(labs))
            elif k == "lab":
                if self.pend and c.bool():
                    l = self.pend.pop(0)
                    self.o("%s:" % l + (" " + self.instr() if c.bool() else ""))
            elif k == "if":
                self.o("    .if %s" % self.cond())
                self.code(c.int(1, 3), depth + 1, labs)
                if c.bool(1, 3):
                    self.o("    .elseif %s" % self.cond())
                    self.code(c.int(0, 2), depth + 1, labs)
                if c.bool(1, 3):
                    self.o("    .else")
                    self.code(c.int(0, 2), depth + 1, labs)
                self.o("    .endif")
            elif k == "while":
                if c.bool():
                    self.o("    .while %s" % self.cond())
                    self.code(c.int(1, 3), depth + 1, labs)
                    if c.bool(1, 3):
                        self.o("    " + c.choice([".break", ".continue", ".break .if %s" % self.cond(1)]))
                    self.o("    .endw")
                else:
                    self.o("    .repeat")
                    self.code(c.int(1, 3), depth + 1, labs)
                    self.o("    .until %s" % self.cond())
            elif k == "switch":
                self.o("    .switch %s" % self.reg(32))
                vs = c.sample(range(40), c.int(1, 4))
                for v in vs:
                    self.o("    .case %d" % v)
                    self.code(c.int(1, 2), depth + 1, labs)
                    self.o("    .break")
                if c.bool():
                    self.o("    .default")
                    self.code(1, depth + 1, labs)
                self.o("    .endswitch")
            elif k == "macro" and self.macros:
                m, np, kind = c.choice(self.macros)
                if kind == "code":
                    self.o("    %s %s" % (m, ", ".join(self.reg(16) for _ in range(np))))
                elif kind == "num":
                    self.o("    %s %s" % (m, ", ".join(str(c.int(1, 9)) for _ in range(np))))
            elif k == "invoke" and self.procs and self.bits > 16:
                pn, args = c.choice(self.procs)
                self.o("    invoke %s%s" % (pn, "".join(", " + self.arg(t) for t in args)))
            elif k == "cassm":
                self.o("    if " + self.const(8))
                self.code(1, depth + 1, labs)
                if c.bool():
                    self.o("    else")
                    self.code(1, depth + 1, labs)
                self.o("    endif")
            elif k == "rept":
                w = c.int(0, 2)
                if w == 0:
                    self.o("    repeat %d" % c.int(1, 3))
                    self.o("    " + self.instr())
                elif w == 1:
                    v = self.name("v")
                    self.o("    for %s, <%s>" % (v, ", ".join(c.sample(R16, c.int(1, 3)))))
                    self.o("    inc %s" % v)
                else:
                    v = self.name("v")
                    self.o("    forc %s, <%s>" % (v, "".join(c.sample("abcd", c.int(1, 3)))))
                    self.o("    xor &%s&l, &%s&l" % (v, v))
                self.o("    endm")
            elif k == "anon":
                self.o("@@:")
                self.o("    " + self.instr())
                self.o("    " + c.choice(["jnz @b", "jmp @f", "je @b"]))
                self.o("    " + self.instr())
                self.o("@@:")
            elif k == "align" and self.calign >= 4 and not self.feats["debug"]:
                self.o("    " + c.choice(["align 4", "align 2", "even"]))
            elif k == "data" and c.bool(1, 3):
                self.o("    db %s" % ", ".join(self.const(8) for _ in range(c.int(1, 4))))
            if depth == 0 or c.bool():
                if len(self.p.lines) > a:
                    self.p.ranges.append((a, len(self.p.lines)))

    def arg(self, t):
        c = self.c
        w = {"byte": 8, "word": 16, "dword": 32, "qword": 64}.get(t)
        if t == "ptr":
            return "addr %s" % c.choice(self.vars)[0] if self.vars else ("0")
        if c.bool() or self.fam in ("elf", "macho") and self.bits == 64:
            return str(c.int(0, 100))
        if w is None:
            return "0"
        return c.choice(["edx", "ebx", "esi"] if w == 32 else ["rbx", "rsi"] if w == 64 else ["bx", "dx"] if w == 16 else ["bl", "dl"]) if self.bits != 64 else \
            c.choice({8: ["bl", "al"], 16: ["bx", "ax"], 32: ["ebx", "eax", "esi"], 64: ["rbx", "rax", "rsi"]}[w])

    # -------------------------------------------------------------- top level chunks
    def ch_equ(self):
        c = self.c
        n = self.name("c")
        k = c.int(0, 3)
        if k == 0:
            self.o("%s equ %s" % (n, self.const()))
        else:
            self.o("%s = %s" % (n, self.const()))
            if c.bool(1, 3):
                self.o("%s = %s + 1" % (n, n))
        self.consts.append(n)

    def ch_text(self):
        c = self.c
        n = self.name("t")
        k = c.int(0, 4)
        if k == 0 or not self.texts:
            self.o("%s %s <%s>" % (n, c.choice(["textequ", "equ"]), c.choice(["12", "%d + 3" % c.int(0, 99), "eax" if 0 else "(7)"])))
        elif k == 1:
            self.o("%s catstr <1>, %s" % (n, "<%d>" % c.int(0, 9)))
        elif k == 2:
            self.o("%s substr <%s>, %d" % (n, "1234567", c.int(1, 7)))
        elif k == 3:
            self.o("%s textequ %%(%s)" % (n, self.const(8)))
        else:
            self.o("%s sizestr <%s>" % (n, "abc def"[: c.int(1, 7)]))
            self.consts.append(n)
            return
        self.texts.append(n)
        if c.bool():
            m = self.name("c")
            self.o("%s = %s" % (m, n))
            self.consts.append(m)

    def ch_struct(self):
        c = self.c
        n = self.name("s")
        k = c.int(0, 3)
        if k == 3:
            fs = [(self.name("f"), c.int(1, 7)) for _ in range(c.int(1, 4))]
            self.o("%s record %s" % (n, ", ".join("%s:%d%s" % (f, w, "=1" if c.bool(1, 3) else "") for f, w in fs)))
            self.structs.append((n, [], "rec"))
            return
        kw = "union" if k == 2 else "struct"
        self.o("%s %s%s" % (n, kw, c.choice(["", "", " 4", " 8", " 2"])))
        fs = []
        for _ in range(c.int(1, 5)):
            f = self.name("f")
            j = c.int(0, 4)
            if j == 4 and self.structs:
                s = c.choice(self.structs)
                self.o("  %s %s <>" % (f, s[0]))
            else:
                t = c.choice(["byte", "word", "dword", "qword", "sdword", "db", "dw", "dd"])
                self.o("  %s %s %s" % (f, t, c.choice(["?", self.num(7), "%d dup (?)" % c.int(1, 5), "%d dup (%d)" % (c.int(1, 5), c.int(0, 100))])))
                fs.append((f, {"byte": 8, "db": 8, "word": 16, "dw": 16, "qword": 64}.get(t, 32)))
        self.o("%s ends" % n)
        self.structs.append((n, fs, kw))

    def ch_macro(self):
        c = self.c
        n = self.name("m")
        np = c.int(0, 3)
        ps = [self.name("p") for _ in range(np)]
        k = c.int(0, 3)
        self.o("%s macro %s" % (n, ", ".join(p + c.choice(["", "", ":req", ":=<%s>" % ("cx" if k != 2 else "3")]) for p in ps)))
        if k in (0, 1):
            if c.bool():
                l = self.name("l")
                self.o("  local %s" % l)
                self.o("  jnz %s" % l)
                for p in ps:
                    self.o("  add %s, %d" % (p, c.int(1, 9)))
                self.o("%s:" % l)
            else:
                for p in ps:
                    self.o("  ifnb <%s>" % p)
                    self.o("  xor ax, %s" % p)
                    self.o("  endif")
                self.o("  nop")
            self.macros.append((n, np, "code"))
        elif k == 2:
            for p in ps:
                self.o("  if %s gt 4" % p)
                self.o("    add al, %s" % p)
                self.o("  else")
                self.o("    repeat %s" % p)
                self.o("      nop")
                self.o("    endm")
                self.o("  endif")
            self.macros.append((n, np, "num"))
        else:
            if np == 0:
                self.o("  exitm <%d>" % c.int(0, 99))
            else:
                self.o("  exitm %%(%s)" % " + ".join(ps))
            self.fmacros.append((n, np))
        self.o("endm")

    def ch_typedef(self):
        c = self.c
        n = self.name("y")
        self.o("%s typedef %s" % (n, c.choice(["byte", "word", "dword", "ptr byte", "qword", "ptr dword", "sword"])))

    def ch_proto(self):
        if not self.obj or self.bits == 16:
            return
        c = self.c
        n = self.name("x")
        if self.bits == 32:
            args = [c.choice(["dword", "dword", "ptr"]) for _ in range(c.int(0, 4))]
            self.o("%s proto %s %s" % (n, c.choice(["c", "stdcall", "syscall"]), ", ".join(":" + ("ptr byte" if a == "ptr" else a) for a in args)))
        else:
            args = [c.choice(["dword", "qword", "qword"]) for _ in range(c.int(0, 5))]
            self.o("%s proto %s" % (n, ", ".join(":" + a for a in args)))
        self.procs.append((n, args))

    def ch_extern(self):
        if not self.obj:
            return
        c = self.c
        n = self.name("e")
        t = c.choice(["byte", "word", "dword"])
        self.o("%s %s:%s" % (c.choice(["extern", "externdef"]), n, t))
        self.externs.append(n)

    def datum(self):
        c = self.c
        n = self.name("d")
        t = c.choice(["byte", "word", "dword", "qword", "db", "dw", "dd", "dq", "real4", "real8", "struct", "sbyte", "fmac", "str", "ptr", "text"])
        w = {"byte": 1, "db": 1, "sbyte": 1, "word": 2, "dw": 2, "dword": 4, "dd": 4, "qword": 8, "dq": 8, "real4": 4, "real8": 8}.get(t, 1)
        if t == "struct":
            ss = [s for s in self.structs]
            if not ss:
                t, w = "byte", 1
            else:
                s = c.choice(ss)
                self.o("%s %s %s" % (n, s[0], c.choice(["<>", "{}", "2 dup (<>)", "<1>" if s[2] == "rec" else "<>"])))
                self.vars.append((n, 8, self.cur))
                return
        if t == "fmac":
            if self.fmacros:
                m, k = c.choice(self.fmacros)
                self.o("%s dword %s(%s)" % (n, m, ", ".join(str(c.int(1, 9)) for _ in range(k))))
                self.vars.append((n, 32, self.cur))
                return
            t = "byte"
        if t == "text":
            if self.texts:
                self.o("%s dword %s" % (n, c.choice(self.texts)))
                self.vars.append((n, 32, self.cur))
                return
            t = "byte"
        if t == "str":
            s = "".join(c.choice("abc XYZ;,<>!&%019") for _ in range(c.int(1, 20)))
            self.o('%s byte %s, 0' % (n, c.choice(["'%s'", '"%s"']) % s))
            self.vars.append((n, 8, self.cur))
            return
        if t == "ptr":
            if self.vars and self.bits != 16 and not (self.bits == 64 and self.fam in ("macho",)):
                self.o("%s %s %s" % (n, "dword" if self.bits == 32 else "qword", c.choice(["offset ", ""]) + c.choice(self.vars)[0]))
                self.vars.append((n, 32, self.cur))
                return
            t = "byte"
        if t.startswith("real"):
            self.o("%s %s %s" % (n, t, ", ".join(c.choice(["1.5", "-2.25", "3.0e5", "0.1", "?"]) for _ in range(c.int(1, 3)))))
        else:
            k = c.int(0, 3)
            if k == 0:
                self.o("%s %s %d dup (%s)" % (n, t, c.int(1, 9), self.const(7)))
            elif k == 1:
                self.o("%s %s %s" % (n, t, ", ".join(self.const(7) for _ in range(c.int(1, 12)))))
            else:
                self.o("%s %s %s" % (n, t, self.const(7)))
        self.vars.append((n, 8 * w, self.cur))

    def seg_data(self):
        c = self.c
        self.cur = None
        k = c.int(0, 3)
        if k == 0 and self.model:
            self.o(".data?")
            for _ in range(c.int(1, 4)):
                n = self.name("u")
                self.o("%s %s %s" % (n, c.choice(["byte", "dword", "word"]), c.choice(["?", "%d dup (?)" % c.int(1, 60)])))
                self.vars.append((n, 8, self.cur))
            return
        end = None
        self.cur = None
        if self.model:
            self.o(c.choice([".data", ".data", ".const"]))
        else:
            s = self.name("g")
            self.o("%s segment%s" % (s, c.choice([" para", " byte", " dword", " word"]) + " public" + c.choice(["", " 'DATA'"])) + (" use16" if self.bits == 16 else ""))
            end = "%s ends" % s
            self.segs.append(s)
            self.cur = s
        for _ in range(c.int(1, 6)):
            a = len(self.p.lines)
            self.datum()
            self.p.ranges.append((a, len(self.p.lines)))
        if end:
            self.o(end)

    def seg_code(self):
        c = self.c
        end = None
        if self.model:
            self.o(".code")
            self.calign = 4 if self.bits > 16 else 2
        else:
            s = self.name("g")
            al = c.choice([" para", " byte", " dword"])
            self.calign = 1 if "byte" in al else 4
            self.o("%s segment%s public 'CODE'%s" % (s, al, {16: " use16", 32: " use32", 64: " use64"}[self.bits]))
            self.o("  assume cs:%s, ds:nothing, es:nothing, ss:nothing" % s)
            d = c.choice(self.segs) if self.segs else None
            if d:
                self.o("  assume ds:%s" % d)
            hold = self.vars
            self.vars = [v for v in hold if v[2] == d]
            end = "%s ends" % s
        for _ in range(c.int(1, 3)):
            if c.bool(2, 3):
                self.proc()
            else:
                self.free(c.int(1, 6))
        if end:
            self.o(end)
            self.vars = hold

    def free(self, n):
        c = self.c
        labs = [self.name("L") for _ in range(c.int(0, 3))]
        self.pend = list(labs)
        self.code(n, 1, labs)
        for l in self.pend:
            self.o("%s: nop" % l)
        self.pend = []
        self.labels += labs

    def proc(self):
        c = self.c
        n = self.name("P")
        if self.entry is None:
            self.entry = n
        if not self.model or self.bits == 16:
            self.o("%s proc%s" % (n, c.choice(["", " near"]) if self.bits == 16 else ""))
            self.body(c.int(1, 8))
            self.o("    ret")
            self.o("%s endp" % n)
            return
        args = []
        l = "%s proc" % n
        if self.bits == 32:
            if c.bool(1, 3):
                l += " " + c.choice(["c", "stdcall"])
        elif self.fauto and c.bool(1, 3):
            l += " frame"
        if c.bool(1, 3):
            l += " uses " + " ".join(c.sample(["ebx", "esi", "edi"] if self.bits == 32 else ["rbx", "rsi", "rdi", "r12"], c.int(1, 3)))
        if c.bool():
            for _ in range(c.int(1, 4)):
                t = c.choice(["dword", "dword", "ptr", "word" if self.bits == 32 else "qword"])
                a = self.name("a")
                args.append((a, t))
            l += ("," if " uses " in l else "") + " " + ", ".join("%s:%s" % (a, "ptr byte" if t == "ptr" else t) for a, t in args)
        self.o(l)
        locs = []
        if c.bool(1, 2):
            for _ in range(c.int(1, 3)):
                v = self.name("v")
                t = c.choice(["dword", "byte", "word", "dword"])
                arr = "[%d]" % c.int(1, 9) if c.bool(1, 4) else ""
                self.o("    local %s%s:%s" % (v, arr, t))
                locs.append((v, {"dword": 32, "byte": 8, "word": 16}[t]))
        for v, w in c.sample(locs, 2):
            self.o("    mov %s, %s" % (self.reg(w), v))
        for a, t in c.sample(args, 2):
            if t != "qword":
                w = {"dword": 32, "ptr": self.bits, "word": 16}[t]
                self.o("    mov %s, %s" % (self.reg(w), a))
        self.body(c.int(1, 8))
        self.o("    ret")
        self.o("%s endp" % n)
        self.procs.append((n, [t for a, t in args]))

    def body(self, n):
        c = self.c
        labs = [self.name("L") for _ in range(c.int(0, 3))]
        self.pend = list(labs)
        self.code(n, 0, labs)
        for l in self.pend:
            self.o("%s: nop" % l)
        self.pend = []

    def program(self):
        c, p = self.c, self.p
        self.model = True
        self.entry = None
        self.fauto = False
        f = p.fmt
        if self.bits == 16:
            self.model = f != "bin16" and c.bool(2, 3)
            self.o(c.choice([".8086", ".286", ".386", ".486"]) if 0 else ".286")
            if self.model:
                self.o(".model %s%s" % (c.choice(["small", "compact", "medium", "large"]) if f != "mz" else "small", c.choice(["", ", c", ", pascal", ", stdcall"])))
                if f == "mz":
                    self.o(".stack 256")
        elif self.bits == 32:
            self.o(c.choice([".386", ".486p", ".586", ".686p"]) if not self.feats["simd"] else ".686p")
            if self.feats["simd"]:
                self.o(".xmm")
            self.model = f != "bin32"
            if self.model:
                self.o(".model flat%s" % (", " + c.choice(["c", "stdcall"])))
        else:
            if f == "pe64":
                self.o(".x64", ".model flat, fastcall")
            elif f == "bin64":
                self.o(".x64")
                self.model = False
            if f == "coff64" and c.bool(1, 3):
                self.o("option win64:%d" % c.choice([0, 1, 2, 3, 7, 11, 15]))
            if f in ("coff64", "pe64") and c.bool():
                self.o("option frame:auto")
                self.fauto = True
        p.casemap = c.choice(["none", "none", "all", ""])
        if p.casemap:
            self.o("option casemap:%s" % p.casemap)
        for _ in range(c.int(2, self.feats["n"])):
            a = len(p.lines)
            k = c.weighted([(3, "equ"), (2, "text"), (3, "struct"), (3, "macro"), (1, "typedef"), (2, "proto"), (2, "extern")])
            getattr(self, "ch_" + k)()
            if len(p.lines) > a:
                p.ranges.append((a, len(p.lines)))
        for i in range(c.int(1, 4)):
            a = len(p.lines)
            if c.bool():
                self.seg_data()
            else:
                self.seg_code()
            p.ranges.append((a, len(p.lines)))
        if self.entry is None:
            self.seg_code()
        if self.obj and self.labels and c.bool():
            pass
        if self.obj and self.vars and c.bool():
            self.o("public %s" % ", ".join(v for v, *_ in c.sample(self.vars, 2)))
        e = ""
        if self.entry and (f in ("pe32", "pe64", "mz", "omf16", "omf32") or (f in ("coff32",) and c.bool(1, 3))):
            e = " " + self.entry
        p.body_end = len(p.lines)
        self.o("end" + e)
        return p


def gen(c, fmts=None, simd=None, n=8, debug=False):
    fmt = c.choice(fmts or FMTS)
    return Gen(c, fmt, {"simd": c.bool() if simd is None else simd, "n": n, "debug": debug, "short": c.bool(1, 3)}).program()
