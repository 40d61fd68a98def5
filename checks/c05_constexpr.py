"""C05: constant expressions against a reference evaluator, in every context that takes one."""
from lib import pbt
from lib.expr import Gen, s64, M64, number

HDR = {16: "use16", 32: "use32", 64: "use64"}


class P(pbt.Prop):
    id = "C05"
    rule = ("one case = one program of constant expressions, each in one context (data item, equate, immediate, displacement, IF, repeat "
            "count, DUP count, field default, record field ...); non-trivial = at least one expression with two or more operators; keys are expression texts with context")
    counts = {"quick": 60000, "thorough": 1500000}
    assumptions = ["MOD with negative operands, -1 SHR n in 32-bit code and INT64_MIN / -1 are left out: no document fixes their value",
                   "text produced by % is only checked for values below 2^31"]

    def gen(self, c):
        bits = c.choice([64, 32, 16])
        radix = c.weighted([(6, 10), (1, 16), (1, 2), (1, 8), (1, 13)])
        names = []
        lines = []          # (text, kind, expected)
        keys = []
        items = []
        ops = set()
        n = c.many(1, 10)
        for k in range(n):
            g = Gen(c, names, bits == 32, radix)
            t = g.tree(c.weighted([(1, 1), (3, 2), (4, 3), (1, 4)]))
            v = t[-1]
            e = g.text(t)
            ctx = c.weighted([(4, "dq"), (3, "dd"), (2, "dw"), (2, "db"), (2, "="), (2, "equ"), (1, "text"), (2, "if"), (1, "ife"), (1, "elseif"),
                              (1, "repeat"), (1, "while"), (1, "dup"), (2, "imm"), (2, "disp"), (1, "field"), (1, "record"), (1, "errnz"), (1, "macro"), (1, "for"), (1, "range"), (1, "redef"), (1, "fwd")])
            u = v & M64
            L = []
            exp = b""
            par = "(" + e + ")"
            if ctx == "dd" and not -(1 << 31) <= v < 1 << 32:
                ctx = "dq"
            if ctx == "dw" and not -(1 << 15) <= v < 1 << 16:
                ctx = "dd" if -(1 << 31) <= v < 1 << 32 else "dq"
            if ctx == "db" and not -(1 << 7) <= v < 1 << 8:
                ctx = "dq"
            if ctx in ("repeat", "while", "dup") and not 0 <= v <= 40:
                e = number(c, 15, radix) + " AND (" + e + ")"
                v = v & 15
                u = v
                par = "(" + e + ")"
            if ctx in ("text", "macro", "for") and not 0 <= v < 1 << 31:
                ctx = "equ"
            if ctx in ("=", "fwd") and t[0] == "leaf" and bits < 64:
                e = par          # "name = number" is limited to 32 bits there, an expression is not
            if t[0] == "leaf" and t[1][0] in "'\"":
                # a lone string is a string for data items, not a number
                e = "0+" + e
                par = "(" + e + ")"
            if ctx in ("dq", "dd", "dw", "db"):
                w = {"dq": 8, "dd": 4, "dw": 2, "db": 1}[ctx]
                L.append("%s %s" % (c.choice({"dq": ["dq", "QWORD", "SQWORD"], "dd": ["dd", "DWORD", "SDWORD"], "dw": ["dw", "WORD"], "db": ["db", "BYTE"]}[ctx]) if 0 <= v < 1 << 8 * w - 1 else ctx, e))
                exp = (u & ((1 << 8 * w) - 1)).to_bytes(w, "little")
            elif ctx in ("=", "equ"):
                nm = "v%d" % k
                L.append("%s %s %s" % (nm, "=" if ctx == "=" else "EQU", e if ctx == "=" else par))
                names.append((nm, v))
                L.append("dq %s" % nm)
                exp = u.to_bytes(8, "little")
            elif ctx == "redef":
                nm = "rv%d" % k
                L.append("%s = %s" % (nm, number(c, 5, radix)))
                L.append("db %s" % nm)
                L.append("%s = %s + %s" % (nm, nm, par))
                L.append("dq %s" % nm)
                exp = b"\5" + ((u + 5) & M64).to_bytes(8, "little")
            elif ctx == "fwd":
                nm = "f%d" % k
                if -(1 << 31) <= v < (1 << 31) and bits > 16:
                    L += ["mov eax, %s" % nm, "%s = %s" % (nm, e)]
                    exp = b"\xb8" + (u & 0xffffffff).to_bytes(4, "little")
                else:
                    L += ["%s = %s" % (nm, e), "dq %s" % nm]
                    exp = u.to_bytes(8, "little")
            elif ctx == "text":
                nm = "t%d" % k
                L.append("%s TEXTEQU %%%s" % (nm, par))
                L.append("dq %s" % nm)
                L.append("z%d SIZESTR %s" % (k, nm))
                L.append("db z%d" % k)
                from lib.expr import digits
                dg = digits(v, radix)
                exp = u.to_bytes(8, "little") + bytes([len(dg)])
                if dg[0] > "9":    # a text like AB: not a number literal
                    L.pop(1)
                    exp = exp[8:]
            elif ctx in ("if", "ife", "elseif"):
                L.append({"if": "IF %s", "ife": "IFE %s", "elseif": "IF 0\ndb 77h\nELSEIF %s"}[ctx] % e)
                L += ["db 11h" if radix != 16 else "db 11h", "ELSE", "db 22h", "ENDIF"]
                exp = b"\x11" if (v != 0) != (ctx == "ife") else b"\x22"
            elif ctx == "repeat":
                L += ["REPEAT %s" % e, "db 0cch", "ENDM"]
                exp = b"\xcc" * v
            elif ctx == "while":
                nm = "w%d" % k
                L += ["%s = 0" % nm, "WHILE %s LT %s" % (nm, par), "db %s" % nm, "%s = %s + 1" % (nm, nm), "ENDM"]
                exp = bytes(range(v))
            elif ctx == "dup":
                L += ["db %s dup (0ddh)" % par]
                if v == 0:
                    L, exp = ["dq %s" % par], bytes(8)
                else:
                    exp = b"\xdd" * v
            elif ctx == "imm":
                if bits == 64 and c.bool(1, 2):
                    L.append("mov rcx, %s" % e)
                    exp = ("imm64", u)
                elif bits == 16:
                    w = par if -(1 << 15) <= v < (1 << 16) else "LOWWORD " + par
                    L.append("mov cx, %s" % w)
                    exp = b"\xb9" + (u & 0xffff).to_bytes(2, "little")
                else:
                    w = e if -(1 << 31) <= v < (1 << 32) else "LOW32 " + par
                    L.append("mov ecx, %s" % w)
                    exp = b"\xb9" + (u & 0xffffffff).to_bytes(4, "little")
            elif ctx == "disp":
                if bits == 16:
                    d = v if -(1 << 15) <= v < (1 << 15) else v & 0x7fff
                    e2 = e if d == v else "7fffh AND " + par
                    L.append("mov al, [bx+si+%s]" % ("(" + e2 + ")"))
                    # mod encodes the displacement size
                    if d == 0:
                        exp = b"\x8a\x00"
                    elif -128 <= d < 128:
                        exp = b"\x8a\x40" + (d & 0xff).to_bytes(1, "little")
                    else:
                        exp = b"\x8a\x80" + (d & 0xffff).to_bytes(2, "little")
                else:
                    d = v if -(1 << 31) <= v < (1 << 31) else v & 0x7fffffff
                    e2 = e if d == v else "7fffffffh AND " + par
                    L.append(("mov al, [rbx+%s]" if bits == 64 else "mov al, [ebx+%s]") % ("(" + e2 + ")"))
                    if d == 0:
                        exp = b"\x8a\x03"
                    elif -128 <= d < 128:
                        exp = b"\x8a\x43" + (d & 0xff).to_bytes(1, "little")
                    else:
                        exp = b"\x8a\x83" + (d & 0xffffffff).to_bytes(4, "little")
            elif ctx == "field":
                st = "ST%d" % k
                if any(x in e for x in ("%",)):
                    L, exp = ["dq %s" % par], u.to_bytes(8, "little")
                else:
                    L += ["%s STRUCT" % st, "a dq %s" % e, "%s ENDS" % st, "%s <>" % st]
                    exp = u.to_bytes(8, "little")
            elif ctx == "record":
                r = "RC%d" % k
                L += ["%s RECORD %sa:3t,%sb:5t" % (r, r, r), "%s <%s, %s>" % (r, number(c, 2, radix), "1fh AND " + par)]
                exp = bytes([2 << 5 | (v & 31)])
            elif ctx == "errnz":
                sv = number(c, u, radix)
                L += [".ERRNZ %s - %s" % (par, sv), ".ERRE %s EQ %s" % (par, sv), "db 0eeh"]
                exp = b"\xee"
            elif ctx == "macro":
                m = "M%d" % k
                L += ["%s MACRO p" % m, "dd p", "ENDM", "%s %%%s" % (m, par)]
                from lib.expr import digits
                exp = u.to_bytes(8, "little")[:4]
                if radix > 10 and digits(v, radix)[0] > "9":
                    L, exp = ["dd %s" % par], exp
            elif ctx == "for":
                L += ["FOR p, <%s, %s>" % (number(c, 3, radix), number(c, u, radix)), "dd p + %s" % par, "ENDM"]
                exp = ((u + 3) & 0xffffffff).to_bytes(4, "little") + ((2 * u) & 0xffffffff).to_bytes(4, "little")
                if 2 * u >= 1 << 32 or u + 3 >= 1 << 32:
                    L, exp = ["dq %s" % par], u.to_bytes(8, "little")
            elif ctx == "range":
                # placed as the bound between an accepted and a rejected value
                L.append("dq %s, -%s" % (par, par))
                exp = u.to_bytes(8, "little") + ((-v) & M64).to_bytes(8, "little")
            ops |= g.ops
            items.append((L, exp, ctx, e))
        return {"bits": bits, "radix": radix, "items": items, "ops": sorted(ops)}

    def source(self, case):
        o = [".x64" if case["bits"] == 64 else ".686", "option casemap:none"]
        o.append("S segment byte public %s 'CODE'" % HDR[case["bits"]])
        if case["radix"] != 10:
            o.append(".radix 0%dt" % case["radix"])
        for L, exp, ctx, e in case["items"]:
            o += L
        o += ["S ends", "end"]
        return "\n".join(o) + "\n"

    def run(self, case):
        src = self.source(case)
        r = self.r.asm(src, ("-bin",))
        labels = ["ctx:" + i[2] for i in case["items"]] + ["op:" + o for o in case["ops"]] + ["use%d" % case["bits"]]
        keys = [i[2] + " " + i[3] for i in case["items"] if any(ch in i[3] for ch in " +-*/(")]
        kw = dict(labels=labels, keys=keys, n=len(case["items"]), files={"t.asm": src},
                  sample={"expr": [(i[2], i[3]) for i in case["items"]][:3], "radix": case["radix"]})
        if r.errors() or r.rc:
            bad = [e for e in r.errors()]
            return pbt.V("UASM reports %s (exit %d) for valid constant expressions:\n%s" % (bad[:3], r.rc, src), "error", **kw)
        got = r.file("t.BIN") or b""
        pos = 0
        for L, exp, ctx, e in case["items"]:
            if isinstance(exp, (tuple, list)):
                # mov rcx, imm: any of the three encodings with the right value
                u = exp[1]
                g = got[pos:]
                if g[:3] == b"\x48\xc7\xc1":
                    val, ln = int.from_bytes(g[3:7], "little", signed=True) & M64, 7
                elif g[:2] == b"\x48\xb9":
                    val, ln = int.from_bytes(g[2:10], "little"), 10
                elif g[:1] == b"\xb9":
                    val, ln = int.from_bytes(g[1:5], "little"), 5
                else:
                    val, ln = None, 10
                if val != u:
                    return pbt.V("%s\nassembled to %s, expected the value %x" % ("\n".join(L), g[:10].hex(), u), "value:" + ctx, **kw)
                pos += ln
                continue
            g = got[pos:pos + len(exp)]
            if g != exp:
                return pbt.V("%s\nemitted %s, the expression's value requires %s" % ("\n".join(L), g.hex(), exp.hex()), "value:" + ctx, **kw)
            pos += len(exp)
        if pos != len(got):
            return pbt.V("%d bytes emitted, %d expected" % (len(got), pos), "length", **kw)
        return pbt.V(None, **kw)


PROP = P()
