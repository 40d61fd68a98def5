"""Constant-expression generator with a reference evaluator (64-bit two's complement)."""
M64 = (1 << 64) - 1


def s64(v):
    v &= M64
    return v - (1 << 64) if v >> 63 else v


# MASM precedence levels (smaller binds tighter), Programmer's Guide table 1.3
PREC = {"LOW": 6, "HIGH": 6, "LOWWORD": 6, "HIGHWORD": 6, "LOW32": 6, "HIGH32": 6,
        "neg": 7, "pos": 7, "*": 8, "/": 8, "MOD": 8, "SHL": 8, "SHR": 8, "+": 9, "-": 9,
        "EQ": 10, "NE": 10, "LT": 10, "LE": 10, "GT": 10, "GE": 10, "NOT": 11, "AND": 12, "OR": 13, "XOR": 13}
BIN = ["+", "-", "*", "/", "MOD", "SHL", "SHR", "AND", "OR", "XOR", "EQ", "NE", "LT", "LE", "GT", "GE"]
UN = ["neg", "NOT", "LOW", "HIGH", "LOWWORD", "HIGHWORD", "LOW32", "HIGH32", "pos"]


class Bad(Exception):
    """outside the domain the property speaks about"""


def apply2(op, a, b, use32):
    if op == "+":
        return s64(a + b)
    if op == "-":
        return s64(a - b)
    if op == "*":
        return s64(a * b)
    if op == "/":
        if b == 0 or (b == -1 and a == -(1 << 63)):
            raise Bad()
        q = abs(a) // abs(b)
        return s64(q if (a < 0) == (b < 0) else -q)
    if op == "MOD":
        # the sign convention for negative operands is not specified anywhere: left out
        if b <= 0 or a < 0:
            raise Bad()
        return a % b
    if op in ("SHL", "SHR"):
        if b < 0 or b > 0x7fffffff:
            raise Bad()
        if op == "SHR" and a == -1 and use32:
            raise Bad()      # documented special case (32-bit shift of -1)
        if b >= 64:
            return 0
        return s64(a << b) if op == "SHL" else s64((a & M64) >> b)
    if op == "AND":
        return s64(a & b)
    if op == "OR":
        return s64(a | b)
    if op == "XOR":
        return s64(a ^ b)
    return -1 if {"EQ": a == b, "NE": a != b, "LT": a < b, "LE": a <= b, "GT": a > b, "GE": a >= b}[op] else 0


def apply1(op, a):
    u = a & M64
    return s64({"neg": -a, "pos": a, "NOT": ~a, "LOW": u & 0xff, "HIGH": (u >> 8) & 0xff, "LOWWORD": u & 0xffff,
                "HIGHWORD": (u >> 16) & 0xffff, "LOW32": u & 0xffffffff, "HIGH32": u >> 32}[op])


def digits(v, base):
    s = ""
    while True:
        s = "0123456789abcdef"[v % base] + s
        v //= base
        if not v:
            return s


def number(c, v, radix=10):
    """a spelling of the non-negative number v under the current .RADIX"""
    forms = ["d", "h"]
    if v < 1 << 40:
        forms += ["b", "o"]
    forms += ["x", "plain"]
    f = c.choice(forms)
    if f == "plain":
        t = digits(v, radix)
        if t[0] > "9":
            t = "0" + t
        # under radix > 10 a last digit b/d would be fine; it is a digit then
        return up(c, t)
    if f == "x":
        return "0x" + up(c, digits(v, 16))
    if f == "h":
        t = digits(v, 16)
        if t[0] > "9":
            t = "0" + t
        return up(c, t) + c.choice("hH")
    if f == "b":
        return digits(v, 2) + c.choice("yY" if radix > 10 else "byBY")
    if f == "o":
        return digits(v, 8) + c.choice("oqOQ")
    return digits(v, 10) + c.choice("tT" if radix > 10 else "dtDT")


def up(c, t):
    return t.upper() if c.bool(1, 3) else t


CH = [chr(x) for x in range(0x20, 0x7f) if chr(x) not in "'\"<>!&%;\\"]


class Gen:
    def __init__(self, c, names=(), use32=False, radix=10, chars=True):
        self.c, self.names, self.use32, self.radix, self.chars = c, list(names), use32, radix, chars
        self.ops = set()

    def leaf(self):
        c = self.c
        k = c.weighted([(5, "num"), (3, "big"), (2, "name"), (1, "char")])
        if k == "name" and self.names:
            n, v = c.choice(self.names)
            self.ops.add("name")
            return ("leaf", n, v)
        if k == "char" and self.chars:
            n = c.weighted([(4, 1), (2, 2), (1, 3), (1, 4)])
            t = "".join(c.choice(CH) for _ in range(n))
            v = 0
            for ch in t:
                v = v << 8 | ord(ch)
            q = c.choice("'\"")
            self.ops.add("char")
            return ("leaf", q + t + q, v)
        v = c.int(0, 20) if k == "num" else c.bits(c.choice([8, 16, 32, 63, 64]))
        return ("leaf", number(c, v, self.radix), s64(v))

    def tree(self, depth):
        """returns (kind, ..., value); the value is always element -1"""
        c = self.c
        if depth <= 0 or c.bool(1, 6):
            return self.leaf()
        if c.bool(1, 4):
            op = c.choice(UN)
            a = self.tree(depth - 1)
            self.ops.add(op)
            return ("un", op, a, apply1(op, a[-1]))
        op = c.choice(BIN)
        a = self.tree(depth - 1)
        b = self.tree(depth - 1)
        if op in ("SHL", "SHR") and not 0 <= b[-1] <= 100:
            n = c.int(0, 70) if c.bool(3, 4) else c.choice([0, 1, 31, 32, 33, 63, 64, 65, 100])
            b = ("leaf", number(c, n, self.radix), n)
        if op == "/" and c.bool(1, 2):
            n = c.int(1, 100)
            b = ("leaf", number(c, n, self.radix), n)
        if op in ("/", "MOD") and b[-1] == 0:
            b = ("leaf", number(c, 3, self.radix), 3)
        if op == "MOD":
            m = ("leaf", number(c, 0x7fffffffffffffff, self.radix), 0x7fffffffffffffff)
            if a[-1] < 0:
                a = ("bin", "AND", a, m, a[-1] & 0x7fffffffffffffff)
            if b[-1] < 0:
                b = ("leaf", number(c, 7, self.radix), 7)
        try:
            v = apply2(op, a[-1], b[-1], self.use32)
        except Bad:
            op = "+"
            v = apply2(op, a[-1], b[-1], self.use32)
        self.ops.add(op)
        return ("bin", op, a, b, v)

    def text(self, t, ctx=99, right=False):
        """print with the parentheses that precedence requires, sometimes more"""
        c = self.c
        if t[0] == "leaf":
            s, p = t[1], 0
        elif t[0] == "un":
            op = t[1]
            p = PREC[op]
            inner = self.text(t[2], p if t[2][0] != "un" else p + 0)
            if op in ("neg", "pos"):
                s = ("-" if op == "neg" else "+") + c.choice(["", " "]) + inner
            else:
                s = kw(c, op) + " " + inner
        else:
            op = t[1]
            p = PREC[op]
            l = self.text(t[2], p)
            r = self.text(t[3], p, True)
            sp = "" if op in "+-*/" and c.bool(1, 3) else " "
            s = l + sp + kw(c, op) + sp + r
        need = p > ctx or (p == ctx and right) or (p > 0 and ctx in (6, 7, 11) and t[0] == "un" and PREC[t[1]] >= ctx)
        # a prefix operator as the right operand of a tighter one always needs parentheses
        if not need and right and t[0] == "un" and p > 7:
            need = True
        if need or c.bool(1, 8):
            self.ops.add("paren")
            return "(" + s + ")"
        return s


def kw(c, op):
    return op.lower() if c.bool(1, 2) else op
