"""C07: real constants against exact rational rounding."""
from fractions import Fraction
from lib import pbt

FMT = {4: (24, 128, -125), 8: (53, 1024, -1021), 10: (64, 16384, -16381)}      # precision, emax, emin (of the value m*2^e, 0.5<=m<1)


def nearest(x, size):
    """(mantissa, exponent) of the nearest value with unlimited range, ties to even; x > 0"""
    p = FMT[size][0]
    n, d = x.numerator, x.denominator
    e = n.bit_length() - d.bit_length()
    if e >= 0 and n < d << e or e < 0 and n << -e < d:
        e -= 1
    # 2^e <= x < 2^(e+1)
    sh = p - 1 - e
    y = x * (Fraction(2) ** sh)
    m = y.numerator // y.denominator
    r = y - m
    dist = abs(r - Fraction(1, 2))
    if r > Fraction(1, 2) or r == Fraction(1, 2) and m & 1:
        m += 1
    if m == 1 << p:
        m >>= 1
        e += 1
    return m, e, dist


def encode(neg, m, e, size):
    """m has exactly p bits, value m*2^(e-p+1)"""
    p, emax, emin = FMT[size]
    if size == 10:
        b = (int(neg) << 79) | ((e + 16383) << 64) | m
    elif size == 8:
        b = (int(neg) << 63) | ((e + 1023) << 52) | (m & (1 << 52) - 1)
    else:
        b = (int(neg) << 31) | ((e + 127) << 23) | (m & (1 << 23) - 1)
    return b.to_bytes(size, "little")


def denormal(neg, x, size):
    p, emax, emin = FMT[size]
    y = x * Fraction(2) ** (p - emin)
    m = y.numerator // y.denominator
    r = y - m
    if r > Fraction(1, 2) or r == Fraction(1, 2) and m & 1:
        m += 1
    if m >> (p - 1):
        return encode(neg, m, emin - 1, size)
    sg = {4: 31, 8: 63, 10: 79}[size]
    return ((int(neg) << sg) | m).to_bytes(size, "little")


def outcomes(neg, x, size):
    """set of acceptable results: bytes or None (an error)"""
    s = outcomes1(neg, x, size)
    if size == 10 and x and not (x.denominator == 1 and x < 1 << 96):
        # 96-bit arithmetic: so near the middle either neighbour may come out
        s = s | outcomes1(neg, x + x / (1 << 84), size) | outcomes1(neg, x - x / (1 << 84), size)
    return s


def outcomes1(neg, x, size):
    p, emax, emin = FMT[size]
    if x == 0:
        sg = {4: 31, 8: 63, 10: 79}[size]
        return {(int(neg) << sg).to_bytes(size, "little")}
    m, e, dist = nearest(x, size)
    if e >= emax:
        return {None}
    if e < emin - 1:
        return {None, denormal(neg, x, size)}
    s = {encode(neg, m, e, size)}
    if x < Fraction(2) ** (emin - 1):
        s |= {None, denormal(neg, x, size)}
    return s


def dec(n, pt, exp, c):
    """digit string n (int) with pt digits after the point, exponent written"""
    s = str(n)
    if pt:
        s = s.rjust(pt + 1, "0")
        s = s[:-pt] + "." + s[-pt:]
    else:
        s += c.choice([".", ".0", ".00"])
    if exp or c.bool(1, 6):
        s += c.choice("eE") + (c.choice(["", "+"]) if exp >= 0 else "") + str(exp)
    return s


def exact(x):
    """(n, pt): x = n / 10^pt, for a dyadic rational"""
    pt = 0
    while x.denominator != 1 and pt < 80:
        x *= 10
        pt += 1
    return (x.numerator, pt) if x.denominator == 1 else None


class P(pbt.Prop):
    id = "C07"
    rule = ("one case = a module with up to 40 real constants (decimal near ties, near the range's ends, random, hexadecimal, integers in REAL items) in data and as immediates, compared with exact rational rounding; "
            "keys are the constants with their size; trivial: values exactly representable with few digits")
    counts = {"quick": 16000, "thorough": 600000}
    assumptions = ["numbers below the smallest normal number may be reported or rounded", "REAL10: a non-integral number within 2^-20 ulp of the middle between two values may be rounded either way"]

    def literal(self, c, size):
        """(text without sign, Fraction, kind)"""
        p, emax, emin = FMT[size]
        k = c.weighted([(4, "rand"), (3, "mid"), (2, "exact"), (2, "edge"), (2, "short"), (1, "zero"), (2, "exp")])
        if k == "short":
            n, pt = c.int(0, 99999), c.int(0, 5)
            return dec(n, pt, 0, c), Fraction(n, 10 ** pt), k
        if k == "zero":
            pt, ex = c.int(0, 4), c.choice([0, 0, 5, -300, 4000])
            return dec(0, pt, ex, c), Fraction(0), k
        if k == "rand":
            n = c.below(10 ** c.int(1, 30))
            pt = c.int(0, 34)
            ex = c.int(-25, 25)
            return dec(n, pt, ex, c), Fraction(n, 10 ** pt) * Fraction(10) ** ex, k
        if k == "exp":
            lim = {4: 44, 8: 320, 10: 4960}[size]
            n, pt, ex = c.below(10 ** c.int(1, 20)), c.int(0, 10), c.int(-lim, lim)
            return dec(n, pt, ex, c), Fraction(n, 10 ** pt) * Fraction(10) ** ex, k
        if k in ("mid", "exact"):
            m = (1 << p - 1) | c.bits(p - 1)
            e = c.weighted([(3, c.int(-10, 10)), (3, c.int(0, 90)), (2, c.int(-60, 60))])
            x = Fraction(m) * Fraction(2) ** (e - p + 1)
            if k == "mid":
                x = (Fraction(2 * m + 1)) * Fraction(2) ** (e - p)
            q = exact(x)
            if q and len(str(q[0])) <= 100:
                n, pt = q
                if c.bool(2, 3):
                    z = c.int(0, 3)
                    n, pt = n * 10 ** z * 10 + c.choice([-1, 1, 0]), pt + z + 1
                ex = 0
                if c.bool(1, 3):
                    ex = c.int(-20, 20)
                    pt += ex
                    if pt < 0:
                        n, pt = n * 10 ** -pt, 0
                return dec(n, pt, ex, c), Fraction(n, 10 ** pt) * Fraction(10) ** ex, k
            # cut the decimal expansion: as many digits as fit
            d = c.int(p // 4, 40)
            f = x
            t = 0
            while f < 10 ** (d - 1):
                f *= 10
                t += 1
            n = f.numerator // f.denominator + c.int(-1, 1)
            return dec(n, t, 0, c), Fraction(n, 10 ** t), k
        # the ends of the range
        w = c.choice([Fraction((1 << p) - 1) * Fraction(2) ** (emax - p), Fraction((1 << p + 1) - 1) * Fraction(2) ** (emax - p - 1), Fraction(2) ** (emin - 1), Fraction(2) ** (emin - p), Fraction(2) ** emax])
        d = c.int(6, 40)
        ex = 0
        lo, hi = 10 ** (d - 1), 10 ** d
        # w = n * 10^ex with d digits
        import math
        l2 = w.numerator.bit_length() - w.denominator.bit_length()
        ex = int(l2 * 0.30103) - d
        while w / Fraction(10) ** ex >= hi:
            ex += 1
        while w / Fraction(10) ** ex < lo:
            ex -= 1
        f = w / Fraction(10) ** ex
        n = f.numerator // f.denominator + c.choice([0, 1, -1, 0, 1, 2, -2])
        return dec(n, d - 1, ex + d - 1, c), Fraction(n) * Fraction(10) ** ex, k

    def gen(self, c):
        items = []
        for k in range(c.int(1, 40)):
            ctx = c.weighted([(5, "data"), (1, "list"), (1, "dup"), (1, "equ"), (1, "textequ"), (1, "hex"), (1, "int"), (1, "imm4"), (1, "imm8"), (1, "lohi"), (1, "struct")])
            size = c.choice([4, 8, 10])
            ty = {4: ["REAL4", "REAL4", "DD", "DWORD"], 8: ["REAL8", "REAL8", "DQ", "QWORD"], 10: ["REAL10", "REAL10", "DT", "TBYTE"]}[size]
            d = c.choice(ty)
            if c.bool(1, 4):
                d = d.lower()
            sgn = c.choice(["", "", "-", "+"])
            neg = sgn == "-"
            if ctx == "hex":
                v = c.bits(8 * size)
                h = "%x" % v
                h = h.rjust(2 * size, "0")
                if c.bool() and h[0] not in "0123456789":
                    h = "0" + h
                elif h[0] not in "0123456789":
                    h = "0" + h
                items.append([["%s %s%s" % (d, h, c.choice("rR"))], [v.to_bytes(size, "little").hex()], h + "r", ctx, size])
                continue
            if ctx == "int":
                v = c.choice([c.bits(31), c.bits(40), c.bits(63), c.int(0, 1000), (1 << c.int(20, 62)) + c.int(-2, 2)])
                d = "REAL%d" % size
                items.append([["%s %s%d" % (d, sgn, v)], self.out(neg and v != 0, Fraction(v), size), sgn + str(v), ctx, size])
                continue
            if ctx == "imm4":
                size = 4
            elif ctx in ("imm8", "lohi"):
                size = 8
            d = c.choice(["REAL%d" % size, d]) if ctx not in ("imm4", "imm8", "lohi") else d
            t, x, kind = self.literal(c, size)
            o = self.out(neg, x, size)
            ctx_ = ctx
            if ctx == "data":
                L = ["%s %s%s" % (d, sgn, t)]
            elif ctx == "list":
                t2, x2, _ = self.literal(c, size)
                o2 = self.out(False, x2, size)
                L = ["%s %s%s, %s" % (d, sgn, t, t2)]
                o = [None if a is None or b is None else a + b for a in o for b in o2]
            elif ctx == "dup":
                n = c.int(1, 4)
                L = ["%s %d dup (%s%s)" % (d, n, sgn, t)]
                o = [a and a * n for a in o]
            elif ctx == "equ":
                L = ["q%d equ %s" % (k, t), "%s %sq%d" % (d, sgn, k)]
            elif ctx == "textequ":
                L = ["q%d textequ <%s%s>" % (k, sgn, t), "%s q%d" % (d, k)]
            elif ctx == "struct":
                w = c.bool()
                L = ["s%d struct" % k, "f1 %s %s" % (d, sgn + t if w else c.choice(["1.0", "1", "?"])), "s%d ends" % k, "s%d <%s>" % (k, "" if w else sgn + t)]
            elif ctx == "imm4":
                f = c.choice(["mov ecx, %s", "push %s", "mov dword ptr [rbx], %s", "cmp edx, %s", "mov eax, real4 ptr %s"])
                pre = {"mov ecx": "b9", "push": "68", "mov dword": "c703", "cmp edx": "81fa", "mov eax": "b8"}[" ".join(f.split(",")[0].split()[:2]).replace("push %s", "push")]
                L = [f % (sgn + t)]
                o = [a and pre + a for a in o]
                if pre in ("68", "81fa"):
                    for a in list(o):
                        if a and a[-8:] in ("00000000",):
                            o.append({"68": "6a00", "81fa": "83fa00"}[pre])
            elif ctx == "imm8":
                L = ["mov r8, real8 ptr %s%s" % (sgn, t)]
                o = [a and "49b8" + a for a in o]
            else:
                hi = c.bool()
                L = ["mov ecx, %s(%s%s)" % ("HIGH32" if hi else "LOW32", sgn, t)]
                o = [a and "b9" + (a[8:] if hi else a[:8]) for a in o]
            items.append([L, o, sgn + t, ctx + ":" + kind, size])
        return {"items": items}

    def out(self, neg, x, size):
        return sorted((b.hex() if b is not None else None for b in outcomes(neg, x, size)), key=str)

    def source(self, its):
        o = [".x64", "option casemap:none", "S segment byte public use64 'CODE'"]
        ln = {}
        for i, it in its:
            for l in it[0]:
                o.append(l)
                ln[len(o)] = i
        return "\n".join(o + ["S ends", "end"]) + "\n", ln

    def run(self, cs):
        its = list(enumerate(cs["items"]))
        src0 = None
        kw = dict(labels=[x[3] for x in cs["items"]] + ["size%d" % x[4] for x in cs["items"]], keys=["%d %s" % (x[4], x[2]) for x in cs["items"] if len(x[2]) > 6],
                  n=len(its), sample=[x[0][-1] for x in cs["items"]][:4])
        for rnd in range(3):
            src, ln = self.source(its)
            src0 = src0 or src
            kw["files"] = {"t.asm": src}
            r = self.r.asm(src, ("-bin", "-e5000"))
            er = [e for e in r.errors() if e[2] != "Warning"]
            bad = {ln.get(e[1]) for e in er}
            if None in bad:
                return pbt.V("error elsewhere: %s\n%s" % (er, src), "elsewhere", **kw)
            for i in bad:
                it = cs["items"][i]
                if None not in it[1]:
                    return pbt.V("%s is refused: %s\nexpected %s" % (it[0], [e for e in er if ln[e[1]] == i], it[1]), "refused %d %s" % (it[4], it[3]), **kw)
            if rnd == 0:
                for i, it in its:
                    if it[1] == [None] and i not in bad:
                        return pbt.V("%s is out of range but accepted" % it[0], "accepted %d %s" % (it[4], it[3]), **kw)
            its = [x for x in its if x[0] not in bad]
            if not bad:
                break
        got = r.file("t.BIN") or b""
        if r.rc:
            return pbt.V("exit code %d, no error\n%s" % (r.rc, src), "rc", **kw)
        pos = 0
        for i, it in its:
            for w in it[1]:
                if w is not None and got[pos:pos + len(w) // 2].hex() == w:
                    break
            else:
                n = len([w for w in it[1] if w][0]) // 2
                return pbt.V("%s\nis %s, expected %s" % (it[0], got[pos:pos + n].hex(), it[1]), "value %d %s" % (it[4], it[3]), **kw)
            pos += len(w) // 2
        if pos != len(got):
            return pbt.V("%d bytes, expected %d\n%s" % (len(got), pos, src), "length", **kw)
        return pbt.V(None, **kw)


PROP = P()
