"""C12: the code of .IF/.WHILE/.REPEAT/.FOR/.SWITCH blocks, executed."""
import struct
from lib import pbt, common, execlib, objload, image

M64 = (1 << 64) - 1
REL = ["==", "!=", "<", "<=", ">", ">="]
TRACE = 0x6000          # bytes of trace room


def parts(mode):
    # register name -> (number, size, shift)
    r = {}
    for n, i in (("a", 0), ("c", 1), ("d", 2), ("b", 3)):
        r["e%sx" % n] = (i, 4, 0)
        r["%sx" % n] = (i, 2, 0)
        r["%sl" % n] = (i, 1, 0)
        r["%sh" % n] = (i, 1, 8)
        if mode == 64:
            r["r%sx" % n] = (i, 8, 0)
    if mode == 64:
        for i in (8, 9, 10, 11, 12):
            r["r%d" % i] = (i, 8, 0)
            r["r%dd" % i] = (i, 4, 0)
            r["r%dw" % i] = (i, 2, 0)
            r["r%db" % i] = (i, 1, 0)
    return r


RG = {m: parts(m) for m in (32, 64)}
VARS = [("vb", "BYTE", 1, False), ("vsb", "SBYTE", 1, True), ("vw", "WORD", 2, False), ("vsw", "SWORD", 2, True), ("vd", "DWORD", 4, False), ("vsd", "SDWORD", 4, True),
        ("vq", "QWORD", 8, False), ("vsq", "SQWORD", 8, True), ("ve", "DWORD", 4, False)]
VOFF = {}
_o = 0
for _n, _t, _s, _g in VARS:
    VOFF[_n] = _o
    _o += 8
VLEN = _o
VT = {n: (s, g) for n, t, s, g in VARS}
FL = ["carry", "zero", "sign", "overflow", "parity", "less", "greater", "above", "equal", "below"]


class Stop(Exception):
    pass


class P(pbt.Prop):
    id = "C12"
    rule = ("one case = one procedure made of nested .IF/.WHILE/.REPEAT/.FOR/.SWITCH blocks, run from 6 initial states; the trace, variables and registers against an interpreter of the blocks; "
            "an evaluation is one run; keys are programs")
    counts = {"quick": 14000, "thorough": 300000}
    assumptions = ["EAX/RAX is undefined after .SWITCH has loaded it", "case values fit a signed 32-bit integer; no sign extended switch operands", "no blank, colon, comma or bracket character constants in .FOR"]

    def setup(self):
        self.ex = execlib.build()

    # ---------------------------------------------------------------- generation
    def gen(self, c):
        self.mode = c.choice([64, 32])
        self.budget = 26
        self.c = c
        self.nfor = 0
        self.trc = 0
        self.sw = c.choice(["cstyle", "asmstyle"])
        body = self.block(c.choice([2, 3, 3, 4]), [])
        st = []
        for _ in range(6):
            st.append([[c.bits(64) for _ in range(8)], [self.small(c) for _ in VARS]])
        return {"mode": self.mode, "body": body, "states": st, "sw": self.sw, "fmt": c.below(2), "case": c.below(2)}

    def small(self, c):
        return c.weighted([(3, c.int(0, 5)), (2, c.bits(64)), (1, -c.int(1, 5) & M64)])

    def regs(self, sizes=None, nolive=True):
        # ecx is kept for loop counters, eax for switch operands
        return [r for r, (i, s, h) in RG[self.mode].items() if i != 1 and (sizes is None or s in sizes)]

    def var(self, sizes=None):
        return [v for v in VT if (self.mode == 64 or VT[v][0] < 8) and (sizes is None or VT[v][0] in sizes)]

    def imm(self, c, size, signed):
        n = 8 * min(size, 4)
        k = c.below(5)
        if size == 8:
            v = c.int(0, 5) if k < 2 else c.below(1 << 31) if k < 4 or not signed else -c.int(1, 1 << 31)
        elif signed:
            v = c.int(-3, 5) if k < 3 else c.int(-(1 << (n - 1)), (1 << (n - 1)) - 1)
        else:
            v = c.int(0, 5) if k < 3 else c.choice([(1 << n) - 1, 1 << (n - 1), (1 << (n - 1)) - 1]) if k == 3 else c.below(1 << n)
        return v

    def itext(self, c, v):
        k = c.below(3)
        if k == 0 and v >= 0:
            return "0%xh" % v
        if k == 1 and 32 < v < 127 and chr(v) not in "'\"<>!&|:,();%":
            return "'%s'" % chr(v)
        return str(v)

    def operand(self, c):
        """[text, kind, arg, size, signed]"""
        k = c.below(6)
        if k < 3:
            r = c.choice(self.regs())
            if c.bool(1, 6):
                s = RG[self.mode][r][1]
                return ["%s ptr %s" % ({1: "sbyte", 2: "sword", 4: "sdword", 8: "sqword"}[s], r), "r", r, s, True]
            return [r, "r", r, RG[self.mode][r][1], False]
        v = c.choice(self.var())
        s, g = VT[v]
        if k == 3:
            t = "%s ptr [%s+%d]" % ({(1, False): "byte", (1, True): "sbyte", (2, False): "word", (2, True): "sword", (4, False): "dword", (4, True): "sdword", (8, False): "qword", (8, True): "sqword"}[s, g],
                                    "esi" if self.mode == 32 else "rsi", VOFF[v])
            return [t, "v", v, s, g]
        return [v, "v", v, s, g]

    def leaf(self, c):
        a = self.operand(c)
        k = c.below(8)
        if k == 0:
            return ["bare", a]
        if k == 1:
            # bit test
            if a[1] == "r" and c.bool():
                b = self.other(c, a)
                return ["and", a, b]
            return ["and", a, self.immop(c, a[3], False)]
        if k == 2 and c.bool(1, 3):
            return ["const", c.below(2)]
        op = c.choice(REL)
        if a[1] == "r" and c.bool(1, 2):
            b = self.other(c, a)
        elif a[1] == "v" and c.bool(1, 4):
            b = self.other(c, a, True)
        else:
            b = self.immop(c, a[3], a[4])
        return ["cmp", op, a, b]

    def immop(self, c, size, signed):
        v = self.imm(c, size, signed)
        return [self.itext(c, v), "i", v, size, False]

    def other(self, c, a, regonly=False):
        s = a[3]
        # a high byte register does not go with a REX one
        ok = [r for r in self.regs([s])]
        if s == 1 and self.mode == 64:
            if a[1] == "r" and a[2].endswith("h"):
                ok = [r for r in ok if r[0] != "r"]
            elif a[1] == "r" and a[2][0] == "r":
                ok = [r for r in ok if not r.endswith("h")]
        if regonly or c.bool():
            r = c.choice(ok)
            return [r, "r", r, s, False]
        v = c.choice(self.var([s]))
        return [v, "v", v, s, VT[v][1]]

    def cond(self, c, d=2):
        k = c.below(10)
        if d and k < 3:
            return [c.choice(["&&", "||"]), [self.cond(c, d - 1) for _ in range(c.int(2, 3))]]
        if d and k == 3:
            return ["!", self.cond(c, d - 1)]
        if d and k == 4:
            return ["()", self.cond(c, d - 1)]
        return self.leaf(c)

    def flagcond(self, c, d=1):
        k = c.below(6)
        if d and k < 2:
            return [c.choice(["&&", "||"]), [self.flagcond(c, d - 1) for _ in range(2)]]
        if k == 2:
            return ["!", self.flagcond(c, 0)]
        return ["flag", c.choice(FL)]

    def tr(self):
        self.trc = (self.trc + 1) & 255
        return ["tr", self.trc]

    def block(self, d, loops, sw=False):
        c = self.c
        out = [self.tr()]
        for _ in range(c.int(0, 3)):
            if self.budget <= 0:
                break
            self.budget -= 1
            k = c.weighted([(3, "set"), (1, "tr"), (5 if d else 0, "if"), (2 if d else 0, "while"), (2 if d else 0, "repeat"), (2 if d else 0, "for"), (2 if d else 0, "switch"), (2 if loops else 0, "brk"), (1 if d else 0, "flagif"), (1, "pad")])
            if k == "tr":
                out.append(self.tr())
            elif k == "pad":
                if c.bool(1, 3):
                    out.append(["pad", c.choice([100, 130, 200])])
            elif k == "set":
                out.append(self.setst(c))
            elif k == "if":
                arms = [[self.cond(c), self.block(d - 1, loops)] for _ in range(c.weighted([(4, 1), (2, 2), (1, 4)]))]
                out.append(["if", arms, self.block(d - 1, loops) if c.bool() else None])
            elif k == "flagif":
                a = self.operand(c)
                b = self.immop(c, a[3], a[4])
                out.append(["flagif", a, b, self.flagcond(c), self.block(d - 1, loops), self.block(d - 1, loops) if c.bool() else None])
            elif k in ("while", "repeat"):
                self.nfor += 1
                n = "n%d" % self.nfor
                cd = self.cond(c, 1) if c.bool(2, 3) else None
                if k == "while":
                    # while (n < k [&& cond])
                    out.append(["while", n, c.int(0, 4), cd, c.below(2), self.block(d - 1, loops + ["w"])])
                elif c.bool(1, 3):
                    e = c.choice([None, [c.choice(["==", "!="]), self.operand(c)]])
                    if e:
                        e.append(self.immop(c, e[1][3], e[1][4]))
                    out.append(["cxz", c.int(1, 4), e, [self.tr(), self.setst(c)]])
                else:
                    out.append(["repeat", n, c.int(1, 4), cd, self.block(d - 1, loops + ["r"])])
            elif k == "for":
                self.nfor += 1
                n = "n%d" % self.nfor
                out.append(["for", n, c.int(0, 2), c.int(0, 5), c.choice(["++", "+=1", "+=2", "-- "]), self.cond(c, 0) if c.bool(1, 3) else None, self.forx(c) if c.bool(1, 2) else None, self.forx(c) if c.bool(1, 2) else None,
                            self.block(d - 1, loops + ["f"])])
            elif k == "switch":
                out.append(self.switch(c, d, loops))
            elif k == "brk":
                # .break ends the innermost loop or switch, .continue belongs to a loop
                w = c.choice(["break", "continue"])
                if w == "continue" and all(x == "s" for x in loops):
                    w = "break"
                if c.bool(1, 3):
                    out.append(["if", [[self.cond(c, 1), [["brk", w, None]]]], None])
                else:
                    out.append(["brk", w, self.cond(c, 1)])
        return out

    def forx(self, c):
        """one more init/step expression: [text parts]"""
        k = c.below(6)
        r = c.choice(["ebx", "edx"])
        if k == 0:
            return ["=", r, c.int(0, 9)]
        if k == 1:
            return [c.choice(["++", "--"]), r, None]
        if k == 2:
            return [c.choice(["+=", "-=", "&=", "|=", "^="]), r, c.int(1, 100)]
        if k == 3:
            return [c.choice(["<<=", ">>="]), r, c.int(1, 7)]
        if k == 4:
            return [c.choice(["++", "--"]), c.choice(["vd", "vw", "ve"]), None]
        return [c.choice(["+=", "-=", "^="]), c.choice(["vd", "ve"]), c.int(1, 100)]

    def setst(self, c):
        if c.bool():
            r = c.choice(self.regs())
            s = RG[self.mode][r][1]
            op = c.choice(["mov", "add", "sub", "xor"])
            return ["set", op, [r, "r", r, s, False], self.imm(c, s, True) if c.bool() else c.int(0, 4)]
        v = c.choice(self.var())
        op = c.choice(["mov", "add", "sub", "inc", "dec"])
        return ["set", op, [v, "v", v, VT[v][0], VT[v][1]], c.int(0, 5)]

    def switch(self, c, d, loops):
        # the operand
        k = c.below(4)
        if k < 3:
            if c.bool():
                n = c.choice([r for r in self.regs() if not (self.mode == 64 and r[-1] == "h")])
                op = [n, "r", n, RG[self.mode][n][1], False]
            else:
                v = c.choice([v for v in self.var() if not VT[v][1]])
                op = [v, "v", v, VT[v][0], False]
        else:
            op = ["eax", "r", "eax", 4, False]
        n = c.weighted([(2, 1), (2, 2), (2, 3), (4, c.int(4, 9)), (1, c.int(10, 30)), (1, c.int(60, 170)), (1, 0 if c.bool(1, 4) else 5)])
        s = op[3]
        style = c.below(5)
        lo = c.choice([0, 1, 5, 0x30]) if s == 1 or c.bool() else c.choice([0, 100, 1000, -3, -50])
        if s < 4 and lo < 0:
            lo = 2
        vals = []
        v = lo
        for _ in range(n):
            vals.append(v)
            v += 1 if style < 2 else c.int(1, 9) if style == 2 else c.int(1, 60) if style == 3 else c.int(1, 5000)
        if s == 1:
            vals = [x & 255 for x in vals]
        if s == 2:
            vals = [x & 0xffff for x in vals]
        vals = list(dict.fromkeys(vals))
        vals = c.shuffle(vals)
        cases = []
        while vals:
            m = c.weighted([(5, 1), (1, 2), (1, 3)])
            g, vals = vals[:m], vals[m:]
            cases.append([g, c.below(2), [self.tr()] if n > 30 else self.block(0 if n > 9 else d - 1, loops + ["s"]), c.bool(1, 4)])
        # preset the operand so that cases are hit
        pre = None
        if c.bool(4, 5) and cases:
            allv = [x for g, _, _, _ in cases for x in g]
            pre = c.choice(allv) + c.weighted([(6, 0), (1, 1), (1, -1)])
            if s == 8 and not -(1 << 31) <= pre < 1 << 31:
                pre = None
        dflt = self.block(0 if n > 9 else d - 1, loops + ["s"]) if c.bool(2, 3) else None
        return ["switch", op, pre, cases, dflt, c.below(2), c.weighted([(3, len(cases)), (1, c.int(0, len(cases)))])]

    # ---------------------------------------------------------------- source
    def ct(self, e, top=True):
        k = e[0]
        if k == "cmp":
            return "%s %s %s" % (e[2][0], e[1], e[3][0])
        if k == "and":
            return "%s & %s" % (e[1][0], e[2][0])
        if k == "bare":
            return e[1][0]
        if k == "const":
            return str(e[1])
        if k == "flag":
            return e[1] + "?"
        if k == "()":
            return "(%s)" % self.ct(e[1])
        if k == "!":
            return "!(%s)" % self.ct(e[1])
        # && binds tighter than ||
        return (" %s " % k).join("(%s)" % self.ct(x) if x[0] == "||" and k == "&&" else self.ct(x) for x in e[1])

    def emit(self, b, o, p=" "):
        ms = self.cs["mode"]
        di = "rdi" if ms == 64 else "edi"
        for n in b:
            k = n[0]
            if k == "tr":
                o += [p + "mov byte ptr [%s], %d" % (di, n[1]), p + "inc %s" % di]
            elif k == "pad":
                o.append(p + "db %d dup (90h)" % n[1])
            elif k == "set":
                if n[1] in ("inc", "dec"):
                    o.append(p + "%s %s" % (n[1], n[2][0]))
                else:
                    o.append(p + "%s %s, %d" % (n[1], n[2][0], n[3]))
            elif k == "if":
                for i, (cd, bb) in enumerate(n[1]):
                    o.append(p + (".if " if i == 0 else ".elseif ") + self.ct(cd))
                    self.emit(bb, o, p + " ")
                if n[2] is not None:
                    o.append(p + ".else")
                    self.emit(n[2], o, p + " ")
                o.append(p + ".endif")
            elif k == "flagif":
                o.append(p + "cmp %s, %s" % (n[1][0], n[2][0]))
                o.append(p + ".if " + self.ct(n[3]))
                self.emit(n[4], o, p + " ")
                if n[5] is not None:
                    o.append(p + ".else")
                    self.emit(n[5], o, p + " ")
                o.append(p + ".endif")
            elif k == "while":
                _, v, cnt, cd, form, bb = n
                o.append(p + "mov %s, 0" % v)
                t = "%s < %d" % (v, cnt)
                if cd is not None:
                    x = self.ct(cd)
                    x = "(%s)" % x if cd[0] == "||" or form else x
                    t = t + " && " + x if form == 0 else x + " && " + t
                o.append(p + ".while " + t)
                o.append(p + " inc %s" % v)
                self.emit(bb, o, p + " ")
                o.append(p + ".endw")
            elif k == "repeat":
                _, v, cnt, cd, bb = n
                o.append(p + "mov %s, 0" % v)
                o.append(p + ".repeat")
                o.append(p + " inc %s" % v)
                self.emit(bb, o, p + " ")
                o.append(p + ".until %s >= %d%s" % (v, cnt, "" if cd is None else " || " + self.ct(cd)))
            elif k == "cxz":
                o.append(p + "mov ecx, %d" % n[1])
                o.append(p + ".repeat")
                self.emit(n[3], o, p + " ")
                o.append(p + ".untilcxz" + ("" if n[2] is None else " %s %s %s" % (n[2][1][0], n[2][0], n[2][2][0])))
            elif k == "for":
                _, v, a, lim, step, cd, x1, x2, bb = n
                ini = "%s = %d" % (v, a) + ("" if x1 is None else ", " + self.fx(x1))
                if step == "-- ":
                    ini = "%s = %d" % (v, lim) + ("" if x1 is None else ", " + self.fx(x1))
                    t, s = "%s > %d" % (v, a), "%s--" % v
                else:
                    t = "%s < %d" % (v, lim)
                    s = "%s++" % v if step == "++" else "%s %s" % (v, step.replace("=", "= "))
                if cd is not None:
                    t += " && " + self.ct(cd)
                o.append(p + ".for (%s : %s : %s%s)" % (ini, t, s, "" if x2 is None else ", " + self.fx(x2)))
                self.emit(bb, o, p + " ")
                o.append(p + ".endfor" if a else p + ".endf")
            elif k == "brk":
                o.append(p + "." + n[1] + ("" if n[2] is None else " .if " + self.ct(n[2])))
            elif k == "switch":
                _, op, pre, cases, dflt, e, dp = n
                if pre is not None:
                    o.append(p + "mov %s, %d" % (op[0], pre))
                o.append(p + ".switch " + op[0])
                arms = self.arms(cases, dflt, dp)
                for i, (g, form, bb, ft, ax) in enumerate(arms):
                    if g is None:
                        o.append(p + ".default")
                    elif form:
                        o.append(p + ".case " + ", ".join(str(x) for x in g))
                    else:
                        o += [p + ".case %d" % x for x in g]
                    o.append(p + " mov eax, %d" % ax)
                    self.emit(bb, o, p + " ")
                    if self.cs["sw"] == "cstyle" and not (ft or i + 1 == len(arms) and e):
                        o.append(p + " .break")
                o.append(p + (".endswitch" if e else ".endsw"))
                if dflt is None:
                    o.append(p + "mov eax, 7")

    def arms(self, cases, dflt, dp):
        r = [x + [1000 + i] for i, x in enumerate(cases)]
        if dflt is not None:
            r.insert(dp, [None, 0, dflt, dp < len(cases) and dp % 2 == 1, 99])
        return r

    def fx(self, x):
        if x[0] in ("++", "--"):
            return x[1] + x[0]
        return "%s %s %d" % (x[1], x[0], x[2])

    # ---------------------------------------------------------------- meaning
    def rget(self, r):
        i, s, h = RG[self.m][r]
        return self.g[i] >> h & ((1 << 8 * s) - 1)

    def rset(self, r, v):
        i, s, h = RG[self.m][r]
        k = (1 << 8 * s) - 1
        if s == 4 and self.m == 64:
            self.g[i] = v & k
        else:
            self.g[i] = self.g[i] & ~(k << h) | (v & k) << h

    def val(self, o):
        if o[1] == "r":
            return self.rget(o[2])
        if o[1] == "v":
            return self.v[o[2]]
        return o[2] & ((1 << 8 * o[3]) - 1)

    def put(self, o, v):
        if o[1] == "r":
            self.rset(o[2], v)
        else:
            self.v[o[2]] = v & ((1 << 8 * o[3]) - 1)

    def ev(self, e):
        k = e[0]
        self.lab.add(k)
        if k == "cmp":
            a, b = self.val(e[2]), self.val(e[3])
            if e[2][4] or e[3][4]:
                s = 1 << (8 * e[2][3] - 1)
                a, b = (a ^ s) - s, (b ^ s) - s
                self.lab.add("signed")
            return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[e[1]]
        if k == "and":
            return self.val(e[1]) & self.val(e[2]) != 0
        if k == "bare":
            return self.val(e[1]) != 0
        if k == "const":
            return bool(e[1])
        if k == "flag":
            return self.fl[e[1]]
        if k == "()":
            return self.ev(e[1])
        if k == "!":
            return not self.ev(e[1])
        if k == "&&":
            return all(self.ev(x) for x in e[1])
        return any(self.ev(x) for x in e[1])

    def arith(self, op, o, x):
        a = self.val(o)
        if op in ("inc", "++", "dec", "--"):
            v = a + 1 if op in ("inc", "++") else a - 1
        elif op in ("<<=", ">>="):
            v = a << x if op == "<<=" else a >> x
        else:
            v = {"mov": x, "=": x, "add": a + x, "+=": a + x, "sub": a - x, "-=": a - x, "xor": a ^ x, "^=": a ^ x, "&=": a & x, "|=": a | x}[op]
        self.put(o, v)

    def fxop(self, x):
        o = [x[1], "r", x[1], 4, False] if x[1] in RG[self.m] else [x[1], "v", x[1], VT[x[1]][0], False]
        self.arith(x[0], o, x[2])

    def go(self, b):
        """None, or "break"/"continue" """
        for n in b:
            k = n[0]
            self.steps += 1
            if self.steps > 4000:
                raise pbt.Discard()
            if k == "tr":
                self.out.append(n[1])
            elif k == "pad":
                pass
            elif k == "set":
                self.arith(n[1], n[2], n[3])
            elif k == "if":
                self.lab.add("if")
                for cd, bb in n[1]:
                    if self.ev(cd):
                        r = self.go(bb)
                        break
                else:
                    r = self.go(n[2]) if n[2] is not None else None
                if r:
                    return r
            elif k == "flagif":
                a, b_ = self.val(n[1]), self.val(n[2])
                w = 8 * n[1][3]
                d = (a - b_) & ((1 << w) - 1)
                s = 1 << (w - 1)
                sa, sb = (a ^ s) - s, (b_ ^ s) - s
                f = {"carry": a < b_, "zero": d == 0, "sign": bool(d & s), "overflow": not -s <= sa - sb < s, "parity": bin(d & 255).count("1") % 2 == 0,
                     "less": sa < sb, "greater": sa > sb, "above": a > b_, "equal": a == b_, "below": a < b_}
                self.fl = f
                r = self.go(n[4]) if self.ev(n[3]) else self.go(n[5]) if n[5] is not None else None
                if r:
                    return r
            elif k == "while":
                self.lab.add("while")
                _, v, cnt, cd, form, bb = n
                self.v[v] = 0
                while self.v[v] < cnt and (cd is None or self.ev(cd)):
                    self.v[v] += 1
                    if self.go(bb) == "break":
                        break
            elif k == "repeat":
                self.lab.add("repeat")
                _, v, cnt, cd, bb = n
                self.v[v] = 0
                while True:
                    self.v[v] += 1
                    if self.go(bb) == "break":
                        break
                    if self.v[v] >= cnt or cd is not None and self.ev(cd):
                        break
            elif k == "cxz":
                self.lab.add("untilcxz")
                self.rset("ecx", n[1])
                while True:
                    self.go(n[3])
                    self.rset("ecx", self.rget("ecx") - 1)
                    if self.rget("ecx") == 0:
                        break
                    if n[2] is not None and self.ev(["cmp"] + n[2]):
                        break
            elif k == "for":
                self.lab.add("for")
                _, v, a, lim, step, cd, x1, x2, bb = n
                self.v[v] = lim if step == "-- " else a
                if x1:
                    self.fxop(x1)
                while (self.v[v] > a if step == "-- " else self.v[v] < lim) and (cd is None or self.ev(cd)):
                    if self.go(bb) == "break":
                        break
                    self.v[v] += {"++": 1, "+=1": 1, "+=2": 2, "-- ": -1}[step]
                    if x2:
                        self.fxop(x2)
            elif k == "brk":
                self.lab.add(n[1])
                if n[2] is None or self.ev(n[2]):
                    return n[1]
            elif k == "switch":
                _, op, pre, cases, dflt, e, dp = n
                self.lab.add("switch%d" % sum(len(x[0]) for x in cases))
                if pre is not None:
                    self.put(op, pre)
                w = 8 * op[3]
                x = self.val(op)
                arms = self.arms(cases, dflt, dp)
                hit = [i for i, a in enumerate(arms) if a[0] is not None and any(y & ((1 << w) - 1) == x for y in a[0])]
                if hit:
                    self.lab.add("case taken")
                else:
                    hit = [i for i, a in enumerate(arms) if a[0] is None]
                r = None
                if hit:
                    for a in arms[hit[0]:]:
                        self.rset("eax", a[4])
                        r = self.go(a[2])
                        if r or not a[3] or self.cs["sw"] != "cstyle":
                            break
                        self.lab.add("fall through")
                if r == "continue":
                    return r
                if dflt is None:
                    self.rset("eax", 7)

    def run(self, case):
        self.cs = case
        m = self.m = case["mode"]
        o = []
        if m == 32:
            o += [".686", ".xmm", ".model flat, c"]
        o += ["option casemap:none", "option switchstyle:" + case["sw"], ".data", "public vars", "align 8", "vars label byte"]
        for n, t, s, g in VARS:
            o.append("align 8")
            o.append("%s %s 0" % (n, t))
        o.append("align 8")
        o.append(".code")
        body = []
        self.emit(case["body"], body)
        nv = sorted({n[1] for n in self.walk(case["body"]) if n[0] in ("while", "repeat", "for")})
        o[o.index(".code"):] = ["%s DWORD 0" % n for n in nv] + [".code"]
        o += ["public go", "option proc:private", "go label near"] if 0 else ["public go", "go::"]
        o += body + [" ret", "end"]
        src = "\n".join(o) + "\n"
        self.lab = set()
        exps = []
        for regs, vs in case["states"]:
            self.g = [0] * 16
            for i, k in enumerate((0, 1, 2, 3, 8, 9, 10, 11)):
                self.g[k] = regs[i] if m == 64 or k < 8 else 0
            self.g[12] = 0x1f1f
            if m == 32:
                self.g = [x & 0xffffffff for x in self.g]
            self.v = {n: vs[i] & ((1 << 8 * VARS[i][2]) - 1) for i, (n, t, s, g) in enumerate(VARS)}
            self.out = []
            self.steps = 0
            g0 = list(self.g)
            v0 = dict(self.v)
            self.go(case["body"])
            if len(self.out) > TRACE - 16:
                raise pbt.Discard()
            exps.append((g0, v0, list(self.g), dict(self.v), bytes(self.out)))
        fmt = (["-elf64", "-win64"] if m == 64 else ["-elf", "-coff"])[case["fmt"]]
        kw = dict(labels=sorted(self.lab) + ["%d-bit" % m], key=src, nontrivial=len(self.lab) > 1, files={"t.asm": src, "opts": fmt}, sample=[l.strip() for l in body[:12]], n=len(exps))
        r = self.r.asm(src, (fmt,))
        ob = r.file("t.obj") or r.file("t.o")
        if r.rc or ob is None or any(e[2] != "Warning" for e in r.errors()):
            e = r.errors()
            return pbt.V("valid blocks are rejected (%s): %s\n%s" % (fmt, [x for x in e if x[2] != "Warning"][:3] or r.text[-300:], src), "error %s" % (e[0][3] if e else r.rc), **kw)
        try:
            obj = objload.read(ob)
            img, size, glob = image.build([obj], room=TRACE * (len(exps) + 1))
        except objload.Bad as e:
            return pbt.V("object cannot be loaded (%s): %s\n%s" % (fmt, e, src), "object", **kw)
        nm = {k.lstrip("_"): v for k, v in glob.items()}
        tests = []
        tb = execlib.IMG + (size & ~0xfff) - TRACE * len(exps)
        img = bytearray(img)
        vo = nm["vars"]
        # each run gets its variables by patching a copy kept behind the image: run in separate processes' stead, one call per state
        recs = []
        try:
            for i, (g0, v0, g1, v1, out) in enumerate(exps):
                im = bytearray(img)
                for n, t, s, g in VARS:
                    q = vo - execlib.IMG + VOFF[n]
                    im[q:q + s] = v0[n].to_bytes(s, "little")
                gp = {k: g0[k] for k in (0, 1, 2, 3, 8, 9, 10, 11, 12)}
                gp.update({6: vo, 7: tb, 5: 0x5555aaaa, 13: 0xd13, 14: 0xd14, 15: 0xd15})
                d0 = min(vo, tb)
                t = execlib.Test(nm["go"], gp, dump=(tb, TRACE))
                t2 = execlib.Test(nm["done"] if 0 else nm["go"], gp, dump=(vo, VLEN))
                rec = execlib.run(self.ex[m], m, im, size, [(0, 0, 0, 0)], [execlib.Test(nm["go"], gp, dump=(vo, tb + TRACE - vo))])[0]
                recs.append(rec)
        except execlib.HarnessError as e:
            return pbt.V("the program does not run to the end: %s\n%s" % (e, src), "runner", **kw)
        for (g0, v0, g1, v1, out), rec in zip(exps, recs):
            st = "state: regs %s vars %s\n" % ({k: hex(v) for k, v in enumerate(g0) if v}, {k: hex(v) for k, v in v0.items()})
            vdump = rec.dump[:VLEN]
            tdump = rec.dump[tb - vo:]
            ln = (rec.gpr[7] & (M64 if m == 64 else 0xffffffff)) - tb
            if rec.status:
                return pbt.V("signal %d (trace so far %s, expected %s)\n%s%s%s" % (rec.status, list(tdump[:60].rstrip(b"\0")), list(out[:60]), st, fmt + "\n", src), "signal", **kw)
            if not 0 <= ln <= TRACE or tdump[:ln] != out:
                return pbt.V("trace    %s\nexpected %s\n%s%s\n%s" % (list(tdump[:max(0, min(ln, 200))]), list(out), st, fmt, src), "trace", **kw)
            if rec.spdelta:
                return pbt.V("stack pointer off by %d\n%s%s" % (rec.spdelta, st, src), "sp", **kw)
            for n, t, s, g in VARS:
                x = int.from_bytes(vdump[VOFF[n]:VOFF[n] + s], "little")
                if x != v1[n]:
                    return pbt.V("%s is %#x, expected %#x\n%s%s\n%s" % (n, x, v1[n], st, fmt, src), "var", **kw)
            mk = M64 if m == 64 else 0xffffffff
            for i in [0, 1, 2, 3] + ([8, 9, 10, 11, 12] if m == 64 else []):
                if rec.gpr[i] & mk != g1[i] & mk:
                    return pbt.V("register %s is %#x, expected %#x\n%s%s\n%s" % (execlib.R[i], rec.gpr[i], g1[i], st, fmt, src), "register", **kw)
            if rec.gpr[6] & mk != vo or rec.gpr[5] & mk != 0x5555aaaa or m == 64 and rec.gpr[13:16] != (0xd13, 0xd14, 0xd15):
                return pbt.V("a register that the program does not use was changed: %s\n%s%s" % ([hex(x) for x in rec.gpr], st, src), "register2", **kw)
        return pbt.V(None, **kw)

    def walk(self, b):
        for n in b:
            if isinstance(n, list):
                if n and isinstance(n[0], str):
                    yield n
                yield from self.walk(n)


PROP = P()
