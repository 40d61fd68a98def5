"""C06: data directives emit exactly the values written (reference layout)."""
from lib import pbt
from lib.expr import number, Gen, kw, M64

SIZES = {"db": 1, "BYTE": 1, "SBYTE": 1, "dw": 2, "WORD": 2, "SWORD": 2, "dd": 4, "DWORD": 4, "SDWORD": 4, "df": 6, "FWORD": 6, "dp": 6,
         "dq": 8, "QWORD": 8, "SQWORD": 8, "dt": 10, "TBYTE": 10, "OWORD": 16, "XMMWORD": 16, "YMMWORD": 32, "ZMMWORD": 64, "MMWORD": 8}
# "dp" is a synonym of df in MASM; kept only if the assembler knows it
NAMES = [n for n in SIZES if n not in ("dp",)]
W = [(6, "db"), (3, "BYTE"), (1, "SBYTE"), (5, "dw"), (2, "WORD"), (1, "SWORD"), (5, "dd"), (2, "DWORD"), (1, "SDWORD"), (2, "df"), (1, "FWORD"),
     (4, "dq"), (1, "QWORD"), (1, "SQWORD"), (2, "dt"), (1, "TBYTE"), (2, "OWORD"), (1, "XMMWORD"), (1, "YMMWORD"), (1, "ZMMWORD"), (1, "MMWORD")]
STRCH = [chr(x) for x in range(0x20, 0x7f)]


def quote(c, t):
    q = c.choice("'\"")
    return q + t.replace(q, q + q) + q


class P(pbt.Prop):
    id = "C06"
    rule = ("one case = a program of data definitions (named or not, nested DUP, strings, ?, label offsets forward and backward, typedefs) "
            "followed by their SIZEOF/LENGTHOF/TYPE, or a program with one value just outside its item; keys are the definition lines")
    counts = {"quick": 50000, "thorough": 1200000}
    assumptions = ["negative 16-byte and 10-byte integers are generated with magnitude up to 2^63 or of 2^64 and above (the band between is a listed finding)",
                   "OPTION LITERALS:ON only with plain ASCII strings"]

    def value(self, c, sz):
        """(text, integer) that fits an item of sz bytes"""
        n = sz * 8
        if sz <= 8:
            k = c.below(4)
            if k == 3:
                m = min(c.bits(n - 1), (1 << (n - 1)) - 1)
                m = m if m else 1
                if c.bool(1, 6):
                    m = 1 << (n - 1)
                return "-" + number(c, m), -m
            if k == 2 and c.bool(1, 2):
                g = Gen(c, use32=self.use32, chars=False)
                t = g.tree(2)
                if -(1 << (n - 1)) <= t[-1] < (1 << (n - 1)):
                    return g.text(t), t[-1]
            v = c.bits(n)
            return number(c, v), v
        n = min(n, 127 if n > 128 else 128)      # wider items extend the sign of bit 127
        if c.bool(1, 4):
            m = c.bits(63) if c.bool(1, 2) or n == 80 else (1 << 64) + c.below(1 << 100)
            return "-" + self.big(c, m), -m
        v = c.bits(n) if c.bool(1, 2) else c.bits(64)
        return self.big(c, v), v

    def big(self, c, v):
        k = c.below(3)
        if k == 0:
            return "%dt" % v if c.bool(1, 2) else "%d" % v
        if k == 1:
            return "0%xh" % v
        return "0x%x" % v

    def init(self, c, sz, depth, labels, bits):
        """list of (text, items, count); an item is int | None | ('lab', name, add) | bytes"""
        k = c.weighted([(8, "val"), (3, "str"), (2, "q"), (3 if depth > 0 else 0, "dup"), (2 if labels else 0, "lab")])
        if k == "str":
            if sz == 1:
                t = "".join(c.choice(STRCH) for _ in range(c.int(1, 12)))
                return quote(c, t), [t.encode()], len(t)
            if sz <= 8 or sz == 10:
                t = "".join(c.choice(STRCH) for _ in range(c.int(1, min(sz, 8))))
                v = 0
                for ch in t:
                    v = v << 8 | ord(ch)
                return quote(c, t), [v], 1
            k = "val"
        if k == "lab":
            ok = {16: (2,), 32: (4,), 64: (8, 4)}[bits]
            if sz in ok:
                n = c.choice(labels)
                a = c.choice([0, 0, 1, 4, 1000, -1])
                if n == "L0" and a < 0:
                    a = 2            # an address below the start of the image means nothing
                tx = ("OFFSET " if c.bool(1, 2) else "") + n + ("" if a == 0 else "%+d" % a)
                return tx, [("lab", n, a)], 1
            k = "val"
        if k == "q":
            return "?", [None], 1
        if k == "dup":
            n = c.weighted([(6, c.int(1, 5)), (1, 0), (1, c.int(6, 70))])
            m = c.int(1, 3)
            parts = [self.init(c, sz, depth - 1, labels, bits) for _ in range(m)]
            items = [i for p in parts for i in p[1]] * n
            cnt = sum(p[2] for p in parts) * n
            return "%s %s (%s)" % (number(c, n), kw(c, "DUP"), ", ".join(p[0] for p in parts)), items, cnt
        t, v = self.value(c, sz)
        return t, [v], 1

    def gen(self, c):
        bits = c.choice([64, 32, 16])
        self.use32 = bits == 32
        if c.bool(1, 6):
            d = c.weighted([x for x in W if SIZES[x[1]] <= 10])
            sz = SIZES[d]
            n = sz * 8
            k = c.below(5)
            if k == 0 and n < 64:
                v = (1 << n) + c.below(1 << 6)
                t = number(c, v)
            elif k == 1:
                v = (1 << n) + c.below(1 << min(n, 100))
                t = self.big(c, v)
            elif k == 2 and n < 64:
                v = -(1 << n) - c.int(1, 100)
                t = "-" + number(c, -v)
            elif k == 3 and 1 < sz < 10:
                t = quote(c, "".join(c.choice(STRCH) for _ in range(c.int(sz + 1, sz + 6))))
            else:
                v = 1 << max(n, 100)
                t = self.big(c, v)
            w = c.below(3)
            if w == 1:
                t = "2 dup (%s)" % t
            elif w == 2:
                t = "1, " + t
            pre = ["db 1"] * c.int(0, 4)
            return {"bits": bits, "bad": pre + ["x " * c.below(2) + d + " " + t], "line": len(pre)}
        nvars = c.many(1, 8)
        lab = ["L%d" % i for i in range(nvars) if c.bool(2, 3)]
        tds = []
        lines = []
        lits = c.bool(1, 8)
        lines.append(("db 5ah", (None, 1, [0x5a], 1)))
        for i in range(c.weighted([(4, 0), (1, 1), (1, 2)])):
            if c.bool(1, 3):
                base = c.choice(["BYTE", "WORD"])
                tds.append(("TD%d" % i, {16: 2, 32: 4, 64: 8}[bits]))
                lines.append(("TD%d TYPEDEF PTR %s" % (i, base), None))
            else:
                base = c.choice(["BYTE", "WORD", "DWORD", "QWORD", "SWORD", "FWORD"])
                tds.append(("TD%d" % i, SIZES[base]))
                lines.append(("TD%d TYPEDEF %s" % (i, base), None))
        vs = []
        for i in range(nvars):
            if tds and c.bool(1, 5):
                d, sz = c.choice(tds)
            else:
                d = c.weighted(W)
                sz = SIZES[d]
            nm = "L%d" % i if "L%d" % i in lab else None
            # ':' after the name makes it a code label: used now and then
            parts = [self.init(c, sz, 2, lab, bits) for _ in range(c.weighted([(3, 1), (2, 2), (2, 3), (1, 6)]))]
            items = [x for p in parts for x in p[1]]
            cnt = sum(p[2] for p in parts)
            body = [p[0] for p in parts]
            wide = False
            if lits and d in ("dw", "WORD") and c.bool(1, 2):
                t = "".join(chr(c.int(0x61, 0x7a)) for _ in range(c.int(2, 9)))
                wide = True
                body, items, cnt = ["'%s'" % t], [("wide", t)], len(t)
            if len(", ".join(body)) > 700:
                body, items, cnt = ["1"], [1], 1
            txt = ""
            for j, b in enumerate(body):
                txt += b
                if j + 1 < len(body):
                    # a list may go on in the next line after a comma
                    txt += c.weighted([(6, ", "), (1, ",\n\t"), (1, " , \\\n"), (1, ",")])
            dd = d if len(d) > 2 and d[:2] == "TD" else (d.lower() if c.bool(1, 2) else d.upper())
            if lits and sz == 2 and not wide and any(isinstance(x, int) and x > 255 for x in items) and any(q in "".join(body) for q in "'\""):
                txt, items, cnt = "1", [1], 1         # strings in WORD items are wide then
            lines.append(("%s%s %s" % (nm + " " if nm else "", dd, txt), (nm, sz, items, cnt)))
        return {"bits": bits, "lines": lines, "lits": lits}

    def run(self, case):
        hdr = [".x64" if case["bits"] == 64 else ".686", "option casemap:none"]
        if case.get("lits"):
            hdr.append("option literals:on")
        hdr.append("S segment byte public use%d 'DATA'" % case["bits"])
        if "bad" in case:
            src = "\n".join(hdr + case["bad"] + ["S ends", "end"]) + "\n"
            r = self.r.asm(src, ("-bin",))
            want = len(hdr) + case["line"] + 1
            kwa = dict(labels=["reject"], keys=[case["bad"][-1]], files={"t.asm": src}, sample={"rejected": case["bad"][-1]})
            if not any(e[1] == want and e[2] == "Error" for e in r.errors()):
                return pbt.V("no error for a value that does not fit its item: %s" % case["bad"][-1], "notrejected", **kwa)
            return pbt.V(None, **kwa)
        o = list(hdr)
        pos = 0
        addr = {}
        names = []
        for t, x in case["lines"]:
            o.append(t)
            if x:
                nm, sz, items, cnt = x
                if nm:
                    addr[nm] = pos
                    names.append((nm, sz, cnt))
                for it in items:
                    pos += len(it) if isinstance(it, (bytes, str)) else 2 * len(it[1]) if isinstance(it, (tuple, list)) and it[0] == "wide" else sz
        exp = bytearray()
        spans = []
        for t, x in case["lines"]:
            if not x:
                continue
            nm, sz, items, cnt = x
            st = len(exp)
            for it in items:
                if isinstance(it, bytes):
                    exp += it
                elif it is None:
                    exp += bytes(sz)
                elif isinstance(it, (tuple, list)):
                    if it[0] == "wide":
                        exp += b"".join(bytes([ord(ch), 0]) for ch in it[1])
                    else:
                        exp += ((addr[it[1]] + it[2]) & ((1 << 8 * sz) - 1)).to_bytes(sz, "little")
                else:
                    exp += (it & ((1 << 8 * sz) - 1)).to_bytes(sz, "little")
            spans.append((st, len(exp), t))
        st = len(exp)
        for nm, sz, cnt in names:
            o.append("dd SIZEOF %s, LENGTHOF %s, TYPE %s" % (nm, nm, nm))
            for v in (cnt * sz, cnt, sz):
                exp += v.to_bytes(4, "little")
            spans.append((st, len(exp), o[-1]))
            st = len(exp)
        if case["bits"] == 16 and len(exp) >= 65535:
            raise pbt.Discard()          # wraps around; UASM warns
        o += ["db 0c3h", "S ends", "end"]
        exp += b"\xc3"
        spans.append((st, len(exp), "db 0c3h"))
        src = "\n".join(o) + "\n"
        r = self.r.asm(src, ("-bin",))
        labels = ["use%d" % case["bits"]] + ["item:" + x[0].split()[0 if not x[1][0] else 1].lower() for x in case["lines"] if x[1]]
        kwa = dict(labels=labels, keys=[x[0] for x in case["lines"] if x[1] and ("," in x[0] or "(" in x[0])], n=len(case["lines"]),
                   files={"t.asm": src}, sample=[x[0] for x in case["lines"]][:3])
        if r.errors() or r.rc:
            return pbt.V("UASM rejects valid data definitions: %s\n%s" % (r.errors()[:3] or r.text[-300:], src), "error", **kwa)
        got = r.file("t.BIN") or b""
        if got != bytes(exp):
            for a, b, t in spans:
                if got[a:b] != exp[a:b]:
                    return pbt.V("%s\nemitted  %s\nexpected %s" % (t, got[a:b][:80].hex(), exp[a:b][:80].hex()), "data", **kwa)
            return pbt.V("%d bytes, expected %d" % (len(got), len(exp)), "length", **kwa)
        return pbt.V(None, **kwa)


PROP = P()
