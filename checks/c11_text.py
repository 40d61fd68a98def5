"""C11: text macros and string directives/functions (reference state)."""
from lib import pbt

CH = "abcABCxyz0189 ,.()+-*[]_@?$:=/#^|~"
SPEC = "<>!"


def esc(t):
    return "".join("!" + ch if ch in "<>!" else ch for ch in t)


def radix(v, r):
    if v == 0:
        return "0"
    s = ""
    n = abs(v)
    while n:
        s = "0123456789ABCDEF"[n % r] + s
        n //= r
    if not s[0].isdigit():
        s = "0" + s
    return ("-" if v < 0 else "") + s


class P(pbt.Prop):
    id = "C11"
    rule = ("one case = 3-25 statements defining and redefining text macros and numbers by TEXTEQU/EQU/CATSTR/SUBSTR/SIZESTR/INSTR and @CatStr/@SubStr/@SizeStr/@InStr (nested, with literals, escapes, text macros, %expressions), "
            "with the values emitted as bytes and compared with a reference state; or one out-of-range index that must be an error; keys are programs")
    counts = {"quick": 40000, "thorough": 900000}
    assumptions = ["texts hold printable characters except quotes, &, % and ; (their meaning depends on the place of use)",
                   "text macros are passed to the @ functions with % (without it the argument is the literal name, as for any macro)"]

    def lit(self, c, lo=0, spec=True, hi=8):
        n = c.int(lo, hi)
        cs = CH + (SPEC if spec and c.bool(1, 3) else "")
        t = ""
        for _ in range(n):
            t += c.choice(cs)
        return t

    def gen(self, c):
        T, N = {}, {}
        out = []       # (kind, ...)
        cm = c.choice(["none", "all"])
        rdx = 10
        if c.bool(1, 10):
            rdx = c.choice([16, 8, 2])
        tn = ["t%d" % i for i in range(4)]
        nn = ["n%d" % i for i in range(3)]
        if c.bool(1, 5):
            tn = ["Tx", "tY", "_t", "aQb"]

        def num(v):
            """text of a small number in the radix"""
            return radix(v, rdx)

        def pnum(v):
            """what % makes of a number: no leading zero"""
            t = num(v)
            return t[1:] if len(t) > 1 and t[0] == "0" else t

        def nexpr():
            """(text, value)"""
            k = c.below(4)
            if k == 0 and N:
                n = c.choice(sorted(N))
                return n, N[n]
            if k == 1 and N:
                n = c.choice(sorted(N))
                a = c.int(0, 5)
                return "%s+%s" % (n, num(a)), N[n] + a
            v = c.int(0, 40)
            if k == 2:
                b = c.int(0, 9)
                return "%s*%s" % (num(v), num(b)), v * b
            return num(v), v

        def pick(v):
            """(text, value) of a number that equals v"""
            k = c.below(4)
            if k == 0 and N:
                n = c.choice(sorted(N))
                d = v - N[n]
                if abs(d) < 200:
                    return ("%s+%s" if d >= 0 else "%s-%s") % (n, num(abs(d))), v
            if k == 1 and v >= 2:
                return "%s+%s" % (num(v - 2), num(2)), v
            return num(v), v

        def fitem(d):
            """argument of a @ function: (text, value)"""
            k = c.weighted([(4, "lit"), (3 if T else 0, "t"), (1, "num"), (2 if d else 0, "fn"), (1, "plain")])
            if k == "t":
                t = c.choice(sorted(T))
                return "%" + t, T[t]
            if k == "num":
                e, v = nexpr()
                return "%(" + e + ")" if c.bool(1, 3) else "%" + e, pnum(v)
            if k == "fn":
                r = func(d - 1)
                if r:
                    return r
            if k == "plain":
                t = c.choice(["abc", "x1", "Hello", "q9", "a b"])
                return t, t
            t = self.lit(c)
            return "<%s>" % esc(t), t

        def func(d):
            k = c.choice(["@CatStr", "@SubStr", "@SizeStr", "@InStr"])
            if k == "@CatStr":
                its = [fitem(d) for _ in range(c.int(1, 3))]
                return case(k) + "(" + ", ".join(i[0] for i in its) + ")", "".join(i[1] for i in its)
            if k == "@SizeStr":
                i = fitem(d)
                return case(k) + "(" + i[0] + ")", num(len(i[1]))
            if k == "@SubStr":
                i = fitem(d)
                if not i[1]:
                    return None
                s = c.int(1, len(i[1]))
                if c.bool():
                    return "%s(%s, %s)" % (case(k), i[0], pick(s)[0]), i[1][s - 1:]
                l = c.int(0, len(i[1]) - s + 1)
                return "%s(%s, %s, %s)" % (case(k), i[0], pick(s)[0], pick(l)[0]), i[1][s - 1:s - 1 + l]
            i, j = fitem(d), fitem(d)
            if not i[1]:
                return None
            if c.bool() and len(i[1]) > 1:
                a = c.below(len(i[1]))
                b = c.int(a + 1, len(i[1]))
                j = ("<%s>" % esc(i[1][a:b]), i[1][a:b])
            s = c.choice([None, 1, c.int(1, len(i[1]))])
            p = 0 if not j[1] else i[1].find(j[1], (s or 1) - 1) + 1
            return "%s(%s, %s, %s)" % (case(k), "" if s is None else pick(s)[0], i[0], j[0]), num(p)

        def case(w):
            k = c.below(4)
            if w[0] == "@" and cm == "none":
                return w            # predefined names are symbols: their case matters
            return w.lower() if k == 0 else w.upper() if k == 1 else w

        def item(d=2):
            """text item of a directive: (text, value)"""
            k = c.weighted([(4, "lit"), (4 if T else 0, "t"), (2, "num"), (3 if d else 0, "fn")])
            if k == "t":
                t = c.choice(sorted(T))
                return t, T[t]
            if k == "num":
                e, v = nexpr()
                return "%" + e, pnum(v)
            if k == "fn":
                r = func(d - 1)
                if r:
                    return r
            t = self.lit(c)
            return "<%s>" % esc(t), t

        def safe(t):
            return all(q not in t for q in "<>!(),") and t.strip() == t and t != ""

        n = c.int(3, 25)
        bad = c.bool(1, 12)
        for _ in range(n):
            k = c.weighted([(5, "teq"), (1, "equ"), (2, "sub"), (2, "size"), (2, "instr"), (2, "num"), (5, "emit"), (2, "code"), (2, "fnum"), (1, "forc"), (1, "lazy")])
            if k == "teq":
                its = [item() for _ in range(c.weighted([(4, 1), (2, 2), (1, 3)]))]
                t = c.choice(tn)
                v = "".join(i[1] for i in its)
                if len(v) > 200:
                    continue
                out.append(["%s %s %s" % (t, case(c.choice(["textequ", "catstr"])), ", ".join(i[0] for i in its)), b""])
                T[t] = v
            elif k == "equ":
                t = c.choice(tn)
                v = self.lit(c)
                out.append(["%s %s <%s>" % (t, case("equ"), esc(v)), b""])
                T[t] = v
            elif k == "sub":
                i = item()
                if not i[1]:
                    continue
                s = c.int(1, len(i[1]))
                l = c.int(0, len(i[1]) - s + 1) if c.bool() else None
                t = c.choice(tn)
                out.append(["%s %s %s, %s%s" % (t, case("substr"), i[0], pick(s)[0], "" if l is None else ", " + pick(l)[0]), b""])
                T[t] = i[1][s - 1:] if l is None else i[1][s - 1:s - 1 + l]
            elif k == "size":
                i = item()
                m = c.choice(nn)
                out.append(["%s %s %s" % (m, case("sizestr"), i[0]), b""])
                N[m] = len(i[1])
            elif k == "instr":
                i, j = item(), item()
                if not i[1]:
                    continue
                if c.bool():
                    a = c.below(len(i[1]))
                    b = c.int(a + 1, len(i[1]))
                    j = ("<%s>" % esc(i[1][a:b]), i[1][a:b])
                s = c.choice([None, 1, c.int(1, len(i[1]))])
                m = c.choice(nn)
                out.append(["%s %s %s%s, %s" % (m, case("instr"), "" if s is None else pick(s)[0] + ", ", i[0], j[0]), b""])
                N[m] = 0 if not j[1] else i[1].find(j[1], (s or 1) - 1) + 1
            elif k == "num":
                e, v = nexpr()
                m = c.choice(nn)
                if abs(v) > 5000:
                    continue
                out.append(["%s = %s" % (m, e), b""])
                N[m] = v
            elif k == "emit":
                if N and c.bool(1, 3):
                    m = c.choice(sorted(N))
                    out.append(["dw " + m, (N[m] & 0xffff).to_bytes(2, "little")])
                elif T:
                    t = c.choice(sorted(T))
                    f = c.below(3)
                    if f == 0:
                        out.append(['%% db "k&%s&",%s' % (t, num(0)), b"k" + T[t].encode() + b"\0"])
                    elif f == 1:
                        out.append(["emit %" + t, b"k" + T[t].encode() + b"\0"])
                    else:
                        out.append(["% db 'k&{0}&.&{0}', {1}".format(t, num(0)), b"k" + T[t].encode() + b"." + T[t].encode() + b"\0"])
            elif k == "fnum":
                f = c.choice(["@SizeStr", "@InStr"])
                i = fitem(2)
                if not i[1]:
                    continue
                if f == "@SizeStr":
                    out.append(["dw %s(%s)+%s" % (case(f), i[0], num(1)), (len(i[1]) + 1).to_bytes(2, "little")])
                else:
                    j = fitem(1)
                    p = 0 if not j[1] else i[1].find(j[1]) + 1
                    out.append(["dw %s(,%s,%s)" % (case(f), i[0], j[0]), p.to_bytes(2, "little")])
            elif k == "code":
                # text that stands for code
                t = "Qc%d" % c.below(2)
                f = c.below(3)
                v = c.below(256)
                if f == 0:
                    out.append(["%s textequ <db>" % t, b""])
                    out.append(["%s %s" % (t, num(v)), bytes([v])])
                elif f == 1:
                    out.append(["%s equ <%s, >" % (t, num(v)), b""])
                    out.append(["db %s %s" % (t, num(7)), bytes([v, 7])])
                else:
                    out.append(["%s textequ <%s>" % (t, num(v)), b""])
                    out.append(["dw %s, %s+%s" % (t, t, num(1)), v.to_bytes(2, "little") + (v + 1).to_bytes(2, "little")])
            elif k == "forc":
                if T:
                    t = c.choice(sorted(T))
                    if all(q not in T[t] for q in "<>!"):
                        out.append(["%%forc ch, <%s>\n db '&ch'\nendm" % t, T[t].encode()])
            elif k == "lazy":
                # the inner macro is expanded when the outer one is used
                v, w = c.below(256), c.below(256)
                out.append(["in1 textequ <%s>\nout1 equ <in1>\ndb out1\nin1 textequ <%s>\ndb out1" % (num(v), num(w)), bytes([v, w])])
        if bad:
            t = self.lit(c, 1, False)
            k = c.below(5)
            l = len(t)
            l = ["b1 substr <%s>, %s" % (t, num(l + c.int(2, 9))), "b1 substr <%s>, %s, %s" % (t, num(1), num(l + c.int(1, 5))), "b1 textequ @SubStr(<%s>, %s)" % (t, num(l + c.int(2, 9))),
                 "b1 instr %s, <%s>, <a>" % (num(l + c.int(2, 9)), t), "b1 textequ @SubStr(<%s>, %s, %s)" % (t, num(1), num(l + c.int(1, 4)))][k]
            return {"cm": cm, "rdx": rdx, "out": [[a, b.hex()] for a, b in out[:4]], "bad": l}
        return {"cm": cm, "rdx": rdx, "out": [[a, b.hex()] for a, b in out]}

    def run(self, case):
        o = [".386", "option casemap:" + case["cm"], "S segment byte public use32 'DATA'", "emit macro s:vararg", ' db "k&s&", 0', "endm", "db 90"]
        if case["rdx"] != 10:
            o.append(".radix %d" % case["rdx"])
        exp = b"Z"
        for l, b in case["out"]:
            o.append(l)
            exp += bytes.fromhex(b)
        if "bad" in case:
            o.append(case["bad"])
            line = sum(1 + x.count("\n") for x in o)
        o += ["S ends", "end"]
        src = "\n".join(o) + "\n"
        labs = ["casemap:" + case["cm"], "radix %d" % case["rdx"]]
        kw = dict(labels=labs, key=src, nontrivial=len(exp) > 1, files={"t.asm": src}, sample=o[7:12])
        r = self.r.asm(src, ("-bin",))
        if "bad" in case:
            kw["labels"] = ["reject"]
            kw["nontrivial"] = True
            if not any(e[1] == line for e in r.errors()):
                return pbt.V("no error for `%s'\n%s" % (case["bad"], src), "notrejected", **kw)
            return pbt.V(None, **kw)
        if r.errors() or r.rc:
            return pbt.V("valid text statements are rejected: %s\n%s" % (r.errors()[:3] or r.text[-300:], src), "error %s" % (r.errors()[0][3] if r.errors() else ""), **kw)
        got = r.file("t.BIN") or b""
        if got != exp:
            return pbt.V("emitted  %r\nexpected %r\n%s" % (got, exp, src), "bytes", **kw)
        return pbt.V(None, **kw)


PROP = P()
