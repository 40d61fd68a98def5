"""C08: STRUCT, UNION and RECORD against a layout model."""
import struct as st
from lib import pbt

SC = [("BYTE", 1), ("SBYTE", 1), ("WORD", 2), ("SWORD", 2), ("DWORD", 4), ("SDWORD", 4), ("QWORD", 8), ("SQWORD", 8), ("db", 1), ("dw", 2), ("dd", 4), ("dq", 8),
      ("REAL4", 4), ("REAL8", 8), ("OWORD", 16), ("FWORD", 6), ("TBYTE", 10)]
ODD = {6: 8, 10: 16}      # sizes without alignment rule above this


def up(x, a):
    return (x + a - 1) // a * a


class T:
    """kind: s (scalar), struct, union, record"""

    def __init__(self, kind, name, size, align=1):
        self.kind, self.name, self.size, self.align = kind, name, size, align
        self.fields = []
        self.maxm = size


class F:
    """field: name (None: anonymous), type, count (None: single), default bytes, offset, inline definition?, quoted default"""

    def __init__(self, name, t, count, default, inline=False, quoted=False):
        self.name, self.t, self.count, self.default, self.inline, self.quoted = name, t, count, default, inline, quoted
        self.off = 0
        self.size = t.size * (count or 1)


class P(pbt.Prop):
    id = "C08"
    rule = ("one case = up to 5 STRUCT/UNION/RECORD types (nested, inline, anonymous, aligned, with defaults) with instances, operators and field accesses, compared with a layout model; keys are the type definitions; "
            "trivial: a single field")
    counts = {"quick": 50000, "thorough": 1500000}
    assumptions = ["FWORD and TBYTE members only where the alignment does not exceed 4 and 8", "a nested type is not aligned less than its members unless the outer type is too"]

    # ------------------------------------------------------------ values
    def scalar(self, c, t):
        n = t.size
        if t.name.startswith("REAL"):
            v = c.choice(["1.0", "-2.5", "0.0", "1.0e5", "?", "3.25"])
            b = bytes(n) if v == "?" else st.pack("<f" if n == 4 else "<d", float(v))
            return v, b
        k = c.int(0, 5)
        if k == 0:
            return "?", bytes(n)
        if k == 1 and n >= 1:
            return "'a'", b"a" + bytes(n - 1)
        v = c.bits(8 * n if n <= 8 else 60)
        if k == 2 and n <= 8:
            v = c.bits(8 * n - 1)
            return "-%d" % v, (-v & (1 << 8 * n) - 1).to_bytes(n, "little")
        if k == 3:
            return "0%xh" % v, v.to_bytes(n, "little")
        if k == 4:
            w = c.int(0, 9)
            v = min(v, (1 << 8 * n) - 1 - w)
            v = max(0, v & 0xffffffff)
            return "%d+%d" % (v, w), (v + w).to_bytes(n, "little")
        return str(v), v.to_bytes(n, "little")

    def elems(self, c, t, count, depth):
        """an initialiser list of at most count elements: (text, bytes) without brackets"""
        out, b, n = [], b"", 0
        m = c.int(1, count)
        while n < m:
            k = c.int(1, m - n) if c.bool(1, 4) else 1
            x, y = self.value(c, t, depth)
            if k > 1 or c.bool(1, 8):
                out.append("%d %s (%s)" % (k, c.choice(["dup", "DUP"]), x))
            else:
                out.append(x)
            b += y * k
            n += k
        return ", ".join(out), b

    def value(self, c, t, depth=0):
        """an initialiser of one item of the type"""
        if t.kind == "s":
            return self.scalar(c, t)
        o, cl = c.choice(["<>", "<>", "{}"])
        s, b = self.inits(c, t, depth)
        return o + s + cl, b

    def inits(self, c, t, depth):
        """the inside of < > and the bytes"""
        if t.kind == "record":
            parts, v = [], 0
            m = c.int(0, len(t.fields))
            for i, (nm, w, sh, d) in enumerate(t.fields):
                if i < m and c.bool(3, 4):
                    x = c.bits(w)
                    parts.append(str(x) if c.bool() or x > 1 << 31 else "0%xh" % x)
                    v |= x << sh
                else:
                    parts.append("")
                    v |= (d or 0) << sh
            while parts and parts[-1] == "" and c.bool(4, 5):
                parts.pop()
            return ", ".join(parts), v.to_bytes(t.size, "little")
        img = bytearray(t.size)
        parts = []
        fs = t.fields[:1] if t.kind == "union" else t.fields
        m = c.int(0, len(fs))
        for i, f in enumerate(fs):
            if i >= m or c.bool(1, 4):
                parts.append("")
                img[f.off:f.off + f.size] = f.default
                continue
            x, b = self.finit(c, f, depth + 1)
            parts.append(x)
            img[f.off:f.off + f.size] = b
        while parts and parts[-1] == "" and c.bool(4, 5):
            parts.pop()
        return ", ".join(parts), bytes(img)

    def finit(self, c, f, depth):
        """an initialiser of a field (text, bytes)"""
        if not f.count:
            return self.value(c, f.t, depth)
        fill = b" " if f.quoted else b"\0"
        if f.t.kind == "s" and f.t.size == 1 and c.bool(1, 3):
            x = "".join(c.choice("abcXYZ019 ") for _ in range(c.int(1, f.count)))
            q = c.choice("'\"")
            return q + x + q, x.encode().ljust(f.size, fill)
        if c.bool(1, 4):
            n = c.int(1, f.count)
            x, b = self.value(c, f.t, depth)
            return "%d dup (%s)" % (n, x), (b * n).ljust(f.size, fill)
        if c.bool(1, 8):
            return "<>", f.default
        s, b = self.elems(c, f.t, f.count, depth)
        o, cl = c.choice(["<>", "{}"])
        return o + s + cl, b.ljust(f.size, fill)

    # ------------------------------------------------------------ definitions
    def field(self, c, nm, types, al):
        """(definition, F)"""
        while True:
            t = c.choice(types) if types and c.bool(1, 3) else c.choice(self.scalars)
            if ODD.get(t.size, 99) <= al and t.kind == "s":
                continue
            if t.kind in ("struct", "union") and (t.maxm > t.align and t.align < al or any(x <= al for x in t.odd)):
                continue
            break
        n = c.weighted([(3, None), (2, c.int(2, 6))])
        if n is None:
            x, b = self.value(c, t)
            return "%s %s %s" % (nm or "", t.name, x), F(nm, t, None, b)
        if t.kind == "s" and t.size == 1 and c.bool(1, 4):
            x = "".join(c.choice("abcXYZ019 ") for _ in range(n))
            return '%s %s "%s"' % (nm or "", t.name, x), F(nm, t, n, x.encode(), quoted=True)
        if t.kind == "s" and c.bool(1, 3):
            xs = [self.value(c, t) for _ in range(n)]
            if xs[0][0].startswith("'") and t.size == 1:
                xs[0] = ("5", b"\5")
            q = xs[0][0].startswith("'") and t.size == 1
            return "%s %s %s" % (nm or "", t.name, ", ".join(x for x, b in xs)), F(nm, t, n, b"".join(b for x, b in xs))
        x, b = self.value(c, t)
        return "%s %s %d dup (%s)" % (nm or "", t.name, n, x), F(nm, t, n, b * n)

    def body(self, c, t, o, types, depth, ind):
        cur = 0
        t.odd = set()
        for i in range(c.int(1, 6)):
            k = "f" if i == 0 else c.weighted([(8, "f"), (2 if depth < 2 else 0, "inline"), (1 if t.kind == "struct" else 0, "align")])
            if k == "align":
                a = c.choice([2, 4, 8])
                if cur:
                    o.append(ind + ("even" if a == 2 and c.bool() else "align %d" % a))
                    cur = up(cur, a)
                    t.size = max(t.size, cur)
                continue
            self.n += 1
            nm = "m%d" % self.n if c.bool(7, 8) or k == "f" else None
            if k == "f":
                if c.bool(1, 10):
                    nm = None
                d, f = self.field(c, nm, types, t.align)
                if nm is None and f.t.kind in ("struct", "union"):
                    nm = "m%d" % self.n
                    d = nm + d
                    f.name = nm
                o.append(ind + d)
            else:
                u = T(c.choice(["struct", "union"]), None, 0, t.align)
                u.maxm = 0
                o.append(ind + u.kind.upper() + (" " + nm if nm else ""))
                self.body(c, u, o, types, depth + 1, ind + "  ")
                o.append(ind + c.choice(["ends", "ENDS"]))
                img = bytearray(u.size)
                for g in u.fields[:1] if u.kind == "union" else u.fields:
                    img[g.off:g.off + g.size] = g.default
                f = F(nm, u, None, bytes(img), True)
            ft = f.t
            m = ft.maxm if ft.kind in ("struct", "union") else ft.size
            t.odd |= ft.odd if ft.kind in ("struct", "union") else {ODD[ft.size]} if ft.size in ODD and ft.kind == "s" else set()
            t.maxm = max(t.maxm, m)
            a = min(m, t.align)
            if t.kind == "union":
                f.off = 0
                t.size = max(t.size, f.size)
            else:
                if t.align > 1:
                    cur = up(cur, max(a, 1))
                f.off = cur
                cur += f.size
                t.size = max(t.size, cur)
            t.fields.append(f)
        if t.align > 1:
            t.size = up(t.size, max(1, min(t.maxm, t.align)))

    def gen(self, c):
        self.n = 0
        self.scalars = [T("s", n, k) for n, k in SC]
        zp = c.choice([0, 0, 1, 2, 4, 8])
        o, q, types, keys = [], [], [], []
        q_exp = []
        if c.bool(1, 3):
            o.append("myw typedef WORD")
            self.scalars.append(T("s", "myw", 2))
        exp = []
        data, code = [], []
        for k in range(c.int(1, 5)):
            n0 = len(o)
            kind = c.weighted([(5, "struct"), (2, "union"), (2, "record")])
            if kind == "record":
                t = self.record(c, "R%d" % k, o)
            else:
                al = zp or 1
                arg = ""
                if c.bool(1, 3):
                    al = c.choice([1, 2, 4, 8, 16])
                    arg = " %d" % al
                t = T(kind, "S%d" % k, 0, al)
                t.maxm = 0
                o.append("%s %s%s" % (t.name, {"struct": c.choice(["STRUCT", "struc", "Struct"]), "union": c.choice(["UNION", "union"])}[kind], arg))
                self.body(c, t, o, types, 0, "  ")
                o.append("%s %s" % (t.name, c.choice(["ends", "ENDS"])))
            types.append(t)
            keys.append("\n".join(o[n0:]))
            self.queries(c, t, data)
        self.instances(c, types, data)
        return {"zp": zp, "defs": o, "data": data, "keys": keys}

    def record(self, c, name, o):
        t = T("record", name, 0)
        tot = 0
        fs = []
        lim = c.choice([8, 16, 32, 64, 128])
        while True:
            w = c.int(1, min(lim, 64)) if c.bool(1, 3) else c.int(1, min(8, lim))
            if tot + w > lim or len(fs) > 12:
                break
            self.n += 1
            d = c.bits(w) if c.bool(1, 3) else None
            if d is not None and w > 32 and c.bool():
                d &= 0x7fffffff
            fs.append(["m%d" % self.n, w, d])
            tot += w
            if c.bool(1, 6):
                break
        if not fs:
            self.n += 1
            fs, tot = [["m%d" % self.n, 3, None]], 3
        t.size = next(s for s in (1, 2, 4, 8, 16) if tot <= 8 * s)
        t.maxm = t.size
        t.tot = tot
        sh = tot
        for nm, w, d in fs:
            sh -= w
            t.fields.append((nm, w, sh, d))
        o.append("%s %s %s" % (name, c.choice(["RECORD", "record"]), ", ".join("%s:%d%s" % (n, w, "" if d is None else "=%d" % d) for n, w, d in fs)))
        return t

    def flat(self, t, off=0, pre=""):
        """(path, offset, element type, count, size) of every named field"""
        r = []
        for f in t.fields:
            p = pre
            if f.name:
                p = pre + "." + f.name
                r.append((p, off + f.off, f.t, f.count, f.size))
            if f.t.kind in ("struct", "union") and (f.inline or not f.count) and (f.name or f.inline):
                r += self.flat(f.t, off + f.off, p)
        return r

    def queries(self, c, t, data):
        d = lambda e, v: data.append(["dd " + e, (v & 0xffffffff).to_bytes(4, "little").hex()])
        if t.kind == "record":
            d("SIZEOF " + t.name, t.size)
            if t.tot <= 32:
                d("MASK " + t.name, (1 << t.tot) - 1)
            d("WIDTH " + t.name, t.tot)
            for nm, w, sh, df in t.fields:
                d("WIDTH " + nm, w)
                d(nm, sh)
                if sh + w <= 64:
                    data.append(["dq MASK " + nm, ((((1 << w) - 1) << sh) & (1 << 64) - 1).to_bytes(8, "little").hex()])
            s, b = self.inits(c, t, 1)
            if t.size <= 4 and s.strip():
                data.append(["mov ebx, %s <%s>" % (t.name, s), "bb" + b.ljust(4, b"\0").hex()])
            return
        d(c.choice(["SIZEOF ", "size ", "TYPE "]) + t.name, t.size)
        for p, off, ft, n, sz in self.flat(t):
            k = c.int(0, 5)
            d(t.name + p, off)
            if k == 0:
                d("SIZEOF " + t.name + p, sz)
            elif k == 1:
                d("TYPE " + t.name + p, ft.size)
            elif k == 2 and n:
                d("LENGTHOF " + t.name + p, n)
            if ft.kind == "s" and ft.size in (1, 2, 4) and not ft.name.startswith("REAL") and c.bool(1, 2):
                op, r = {1: ("8a", "al"), 2: ("668b", "ax"), 4: ("8b", "eax")}[ft.size]
                w = c.choice(["[ebx].%s%s" % (t.name, p), "(%s ptr [ebx])%s" % (t.name, p), "%s%s[ebx]" % (t.name, p), "[ebx+%s%s]" % (t.name, p), "[ebx]%s" % p])
                if w == "[ebx]%s" % p:
                    data.append(["assume ebx:ptr %s" % t.name, ""])
                if w.startswith("[ebx+"):
                    w = {1: "byte", 2: "word", 4: "dword"}[ft.size] + " ptr " + w
                # the immediate form shows the size the field implies
                m = "03" if off == 0 else "43%02x" % off if off < 128 else "83" + off.to_bytes(4, "little").hex()
                if c.bool(1, 3):
                    i = {1: "c6%s07", 2: "66c7%s0700", 4: "c7%s07000000"}[ft.size]
                    data.append(["mov %s, 7" % w, i % m])
                else:
                    data.append(["mov %s, %s" % (r, w), op + m])
                if w == "[ebx]%s" % p:
                    data.append(["assume ebx:nothing", ""])

    def instances(self, c, types, data):
        for k in range(c.int(1, 6)):
            t = c.choice(types)
            nm = "v%d" % k
            f = c.int(0, 3)
            n = 1
            if f == 0:
                s, b = self.value(c, t)
            elif f == 1:
                n = c.int(1, 4)
                s, b = self.value(c, t)
                s, b = "%d dup (%s)" % (n, s), b * n
            elif f == 2:
                n = c.int(2, 3)
                xs = [self.value(c, t) for _ in range(n)]
                s, b = ", ".join(x for x, y in xs), b"".join(y for x, y in xs)
            else:
                s, b = c.choice(["<>", "{}"]), None
                if t.kind == "record":
                    b = sum((d or 0) << sh for _, w, sh, d in t.fields).to_bytes(t.size, "little")
                else:
                    img = bytearray(t.size)
                    for g in t.fields[:1] if t.kind == "union" else t.fields:
                        img[g.off:g.off + g.size] = g.default
                    b = bytes(img)
            data.append(["%s %s %s" % (nm, t.name, s), b.hex()])
            data.append(["dd SIZEOF %s, LENGTHOF %s, TYPE %s" % (nm, nm, nm), b"".join(x.to_bytes(4, "little") for x in (t.size * n, n, t.size)).hex()])
            if t.kind == "record":
                continue
            for p, off, ft, cnt, sz in self.flat(t):
                if c.bool(1, 2):
                    continue
                data.append(["dd offset %s%s - offset %s" % (nm, p, nm), off.to_bytes(4, "little").hex()])
                if c.bool(1, 2):
                    data.append(["dd SIZEOF %s%s, TYPE %s%s" % (nm, p, nm, p), b"".join(x.to_bytes(4, "little") for x in (sz, ft.size)).hex()])
                if ft.kind == "s" and ft.size in (1, 2, 4) and not ft.name.startswith("REAL") and c.bool():
                    op, r = {1: ("8a15", "dl"), 2: ("668b15", "dx"), 4: ("8b15", "edx")}[ft.size]
                    data.append(["mov %s, %s%s" % (r, nm, p), op, nm, off])

    def run(self, cs):
        o = [".686", "option casemap:none"] + cs["defs"] + ["SEG1 segment byte public use32 'CODE'", "assume ds:SEG1, ss:SEG1"]
        want = []
        at = {}
        pos = 0
        for it in cs["data"]:
            o.append(it[0])
            h = bytes.fromhex(it[1])
            if len(it) == 4:
                h += (at[it[2]] + it[3]).to_bytes(4, "little")
            elif it[0][0] == "v":
                at[it[0].split()[0]] = pos
            want.append((it[0], h))
            pos += len(h)
        src = "\n".join(o + ["SEG1 ends", "end"]) + "\n"
        kw = dict(labels=[k.split()[1].upper() if " " in k.split("\n")[0] else "" for k in cs["keys"]] + ["Zp%d" % cs["zp"]], keys=[k for k in cs["keys"] if k.count("\n") > 2 or "," in k],
                  n=len(want), sample=cs["keys"][-1][:200], files={"t.asm": src})
        r = self.r.asm(src, ("-bin",) + (("-Zp%d" % cs["zp"],) if cs["zp"] else ()))
        if r.errors() or r.rc:
            return pbt.V("valid source refused: %s\n%s" % (r.errors()[:3] or r.text[-300:], src), "refused %s" % (r.errors() or [(0, 0, 0, r.rc)])[0][3], **kw)
        got = r.file("t.BIN") or b""
        pos = 0
        for l, h in want:
            g = got[pos:pos + len(h)]
            if g != h:
                return pbt.V("-Zp%d: %s\nis %s\nexpected %s\n%s" % (cs["zp"], l, g.hex(), h.hex(), src), "value %s" % " ".join(l.split()[:2] if l.startswith("dd") else [l.split()[0][:1]]), **kw)
            pos += len(h)
        if pos != len(got):
            return pbt.V("length %d, expected %d\n%s" % (len(got), pos, src), "length", **kw)
        return pbt.V(None, **kw)


PROP = P()
