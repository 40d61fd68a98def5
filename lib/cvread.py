"""Reads the COFF line tables and the CodeView symbols, types and lines of a COFF object (C7 = -Zi, C13 = -Zi8)."""
import struct


class Bad(Exception):
    pass


def need(c, m):
    if not c:
        raise Bad(m)


class Coff:
    def __init__(self, d):
        need(len(d) >= 20, "header")
        self.mach, n, ts, sp, ns, oh, ch = struct.unpack_from("<HHIIIHH", d, 0)
        strs = d[sp + 18 * ns:]
        self.syms = []
        i = 0
        while i < ns:
            nm, val, sec, typ, cls, aux = struct.unpack_from("<8sIhHBB", d, sp + 18 * i)
            if nm[:4] == b"\0\0\0\0":
                o = struct.unpack("<I", nm[4:])[0]
                need(o < len(strs), "symbol name")
                nm = strs[o:strs.index(b"\0", o)]
            else:
                nm = nm.split(b"\0")[0]
            a = d[sp + 18 * (i + 1):sp + 18 * (i + 1 + aux)]
            self.syms += [(nm.decode("latin1"), val, sec, typ, cls, a)] + [None] * aux
            i += 1 + aux
        need(i == ns, "symbol count")
        self.secs = []
        for k in range(n):
            nm, vs, va, rs, rp, lp, lp2, nr, nl, ch = struct.unpack_from("<8sIIIIIIHHI", d, 20 + oh + 40 * k)
            nm = nm.split(b"\0")[0].decode("latin1")
            if nm.startswith("/"):
                o = int(nm[1:])
                nm = strs[o:strs.index(b"\0", o)].decode("latin1")
            raw = d[rp:rp + rs] if rp else b""
            first = 0
            if ch & 0x01000000:
                nr = struct.unpack_from("<I", d, lp)[0]
                first = 1
            rel = [struct.unpack_from("<IIH", d, lp + 10 * q) for q in range(first, nr)]
            lines = [struct.unpack_from("<IH", d, lp2 + 6 * q) for q in range(nl)]
            self.secs.append((nm, raw, rel, lines, ch))

    def sec(self, name):
        return next((s for s in self.secs if s[0] == name), None)


PRIM = {0x10: 1, 0x11: 2, 0x12: 4, 0x13: 8, 0x20: 1, 0x21: 2, 0x22: 4, 0x23: 8, 0x40: 4, 0x41: 8, 0x42: 10, 0x44: 6, 0x68: 1, 0x69: 1, 0x70: 1,
        0x71: 2, 0x72: 2, 0x73: 2, 0x74: 4, 0x75: 4, 0x76: 8, 0x77: 8, 0x7a: 2, 0x7b: 4}


def num(b, o):
    v = struct.unpack_from("<H", b, o)[0]
    if v < 0x8000:
        return v, o + 2
    f = {0x8000: "<b", 0x8001: "<h", 0x8002: "<H", 0x8003: "<i", 0x8004: "<I", 0x8009: "<q", 0x800a: "<Q"}.get(v)
    need(f, "numeric leaf %x" % v)
    return struct.unpack_from(f, b, o + 2)[0], o + 2 + struct.calcsize(f)


class Cv:
    def __init__(self, o):
        self.o = o
        t, s = o.sec(".debug$T"), o.sec(".debug$S")
        need(t and s, "no .debug$T or .debug$S section")
        self.sig = struct.unpack_from("<I", s[1], 0)[0]
        need(self.sig in (1, 2, 4), "signature %d" % self.sig)
        need(struct.unpack_from("<I", t[1], 0)[0] == self.sig, "signature of the types")
        self.c13 = self.sig == 4
        self.c7 = self.sig == 1
        self.types = {}
        self.readtypes(t[1])
        self.syms = []
        self.linetabs = []         # (symbol, [(file, [(offset, line)])])
        self.rel = {r[0]: r for r in s[2]}
        self.b = s[1]
        if self.c13:
            p = 4
            parts = []
            while p < len(self.b):
                k, n = struct.unpack_from("<II", self.b, p)
                need(p + 8 + n <= len(self.b), "subsection %x of %d bytes" % (k, n))
                parts.append((k, p + 8, n))
                p = (p + 8 + n + 3) & ~3
            self.strs = b""
            self.chk = None
            for k, a, n in parts:
                if k == 0xf3:
                    self.strs = self.b[a:a + n]
                elif k == 0xf4:
                    self.chk = self.b[a:a + n]
            for k, a, n in parts:
                if k == 0xf1:
                    self.readsyms(a, a + n)
                elif k == 0xf2:
                    self.readlines(a, n)
        else:
            self.readsyms(4, len(self.b))

    def name(self, b, o):
        if self.c13:
            e = b.index(b"\0", o)
            return b[o:e].decode("latin1"), e + 1
        n = b[o]
        need(o + 1 + n <= len(b), "name beyond the record")
        return b[o + 1:o + 1 + n].decode("latin1"), o + 1 + n

    def addr(self, p):
        """place a SECREL/SECTION pair at p refers to: (section number, offset)"""
        r, q = self.rel.get(p), self.rel.get(p + 4)
        need(r and q, "no address relocations at %x" % p)
        need(r[1] == q[1], "section and offset name different symbols")
        want = (0xb, 0xa)
        need((r[2], q[2]) == want, "relocation types %x, %x" % (r[2], q[2]))
        s = self.o.syms[r[1]]
        need(s, "relocation against an auxiliary record")
        return s[2], (s[1] + struct.unpack_from("<I", self.b, p)[0]) & 0xffffffff, s[0]

    def readsyms(self, p, end):
        b = self.b
        st = None
        while p < end:
            n, k = struct.unpack_from("<HH", b, p)
            need(n >= 2 and p + 2 + n <= end, "symbol record of %d bytes at %x of %x" % (n, p, end))
            r = b[:p + 2 + n]
            ti = 2 if self.c7 else 4
            gt = (lambda o: struct.unpack_from("<H" if self.c7 else "<I", b, o)[0])
            if k in (0x1110, 0x110f, 0x205, 0x204, 0x100a, 0x100b):
                need(st is None, "procedure within a procedure")
                ln, ds, de = struct.unpack_from("<III", b, p + 16)
                if self.c7:
                    a, t, o = self.addr(p + 28), gt(p + 34), p + 37
                else:
                    a, t, o = self.addr(p + 32), gt(p + 28), p + 39
                nm, o = self.name(r, o)
                st = dict(k="proc", name=nm, glob=k in (0x1110, 0x205, 0x100b), len=ln, dbg=(ds, de), addr=a, type=t, vars=[])
                self.syms.append(st)
            elif k in (0x110d, 0x110c, 0x202, 0x201, 0x1007, 0x1008):
                if self.c7:
                    a, t, o = self.addr(p + 4), gt(p + 10), p + 12
                else:
                    a, t, o = self.addr(p + 8), gt(p + 4), p + 14
                nm, o = self.name(r, o)
                self.syms.append(dict(k="data", name=nm, glob=k in (0x110d, 0x202, 0x1008), addr=a, type=t))
            elif k in (0x1105, 0x209):
                nm, o = self.name(r, p + 11)
                self.syms.append(dict(k="label", name=nm, addr=self.addr(p + 4)))
            elif k in (0x1108, 0x4, 0x1003):
                nm, o = self.name(r, p + 4 + ti)
                self.syms.append(dict(k="udt", name=nm, type=gt(p + 4)))
            elif k in (0x110b, 0x200, 0x1006):
                need(st is not None, "variable outside a procedure")
                nm, o = self.name(r, p + 8 + ti)
                st["vars"].append((nm, "bp", struct.unpack_from("<i", b, p + 4)[0], gt(p + 8)))
            elif k in (0x1111, 0x20c, 0x100d):
                need(st is not None, "variable outside a procedure")
                off = struct.unpack_from("<i", b, p + 4)[0]
                t, rg = (gt(p + 10), gt(p + 8)) if self.c7 else (gt(p + 8), struct.unpack_from("<H", b, p + 12)[0])
                nm, o = self.name(r, p + 10 + ti)
                st["vars"].append((nm, rg, off, t))
            elif k == 6:
                need(st is not None, "end without a procedure")
                st = None
                o = p + 4
            elif k in (0x1107, 0x3, 0x1002):
                v, o = num(r, p + 4 + ti)
                nm, o = self.name(r, o)
                self.syms.append(dict(k="const", name=nm, value=v))
            else:
                self.syms.append(dict(k="?%x" % k))
                o = p + 2 + n
            need(0 <= p + 2 + n - o <= 3, "symbol record %x at %x: %d bytes left over" % (k, p, p + 2 + n - o))
            p += 2 + n
        need(st is None, "procedure without an end")

    def readtypes(self, b):
        p, i = 4, 0x1000
        while p < len(b):
            n = struct.unpack_from("<H", b, p)[0]
            need(n >= 2 and p + 2 + n <= len(b), "type record of %d bytes at %x of %x" % (n, p, len(b)))
            self.types[i] = b[p + 2:p + 2 + n]
            i += 1
            p += 2 + n
        need(p == len(b), "types end")

    def ty(self, i):
        """(kind, size, ...) of a type index"""
        if i < 0x1000:
            if i == 0:
                return ("none", 0)
            m = i >> 8 & 15
            if m:
                return ("ptr", {1: 2, 2: 4, 3: 4, 4: 4, 5: 6, 6: 8}[m])
            need(i in PRIM, "primitive type %x" % i)
            return ("prim", PRIM[i])
        need(i in self.types, "type %x does not exist" % i)
        r = self.types[i]
        k = struct.unpack_from("<H", r, 0)[0]
        if k in (0x1505, 0x1506, 5, 6):
            if k >= 0x1000:
                cnt, pr, fl = struct.unpack_from("<HHI", r, 2)
                o = 18 if k == 0x1505 else 10
            else:
                cnt, fl, pr = struct.unpack_from("<HHH", r, 2)
                o = 12 if k == 5 else 8
            sz, o = num(r, o)
            nm, o = self.name(r, o)
            self.tail(r, o)
            return ("union" if k in (6, 0x1506) else "struct", sz, nm, cnt, fl)
        if k in (0x1503, 3):
            el, ix = struct.unpack_from("<II" if k == 0x1503 else "<HH", r, 2)
            sz, o = num(r, 10 if k == 0x1503 else 6)
            nm, o = self.name(r, o)
            self.tail(r, o)
            return ("array", sz, el)
        if k == 0x1205:
            t, n, ps = struct.unpack_from("<IBB", r, 2)
            return ("bits", n, ps, t)
        if k == 0x206:
            n, ps, t = struct.unpack_from("<BBH", r, 2)
            return ("bits", n, ps, t)
        if k in (0x1002, 2):
            return ("ptr", None)
        return ("?%x" % k, None)

    def tail(self, r, o):
        need(all(x >= 0xf0 for x in r[o:]) and len(r) - o <= 3, "type record with %d bytes left over" % (len(r) - o))

    def fields(self, i):
        need(i in self.types, "field list %x does not exist" % i)
        r = self.types[i]
        k = struct.unpack_from("<H", r, 0)[0]
        need(k in (0x1203, 0x204), "field list of kind %x" % k)
        p, out = 2, []
        while p < len(r):
            if r[p] >= 0xf0:
                p += 1
                continue
            k = struct.unpack_from("<H", r, p)[0]
            if k == 0x150d:
                at, t = struct.unpack_from("<HI", r, p + 2)
                v, p = num(r, p + 8)
            elif k == 0x406:
                t, at = struct.unpack_from("<HH", r, p + 2)
                v, p = num(r, p + 6)
            else:
                raise Bad("field of kind %x" % k)
            nm, p = self.name(r, p)
            out.append((nm, v, t))
        return out

    def readlines(self, a, n):
        b, e = self.b, a + n
        sec, off, nm = self.addr(a)
        fl, ln = struct.unpack_from("<HI", b, a + 6)
        p = a + 12
        files = []
        while p < e:
            fid, cnt, sz = struct.unpack_from("<III", b, p)
            need(p + sz <= e and sz == 12 + cnt * (12 if fl & 1 else 8), "line block of %d bytes for %d lines" % (sz, cnt))
            need(self.chk is not None and fid + 6 <= len(self.chk), "file id %x" % fid)
            so, cl, ct = struct.unpack_from("<IBB", self.chk, fid)
            need(so < len(self.strs), "file name offset %x" % so)
            f = self.strs[so:self.strs.index(b"\0", so)].decode("latin1")
            files.append((f, [(x, y & 0xffffff) for x, y in (struct.unpack_from("<II", b, p + 12 + 8 * q) for q in range(cnt))]))
            p += sz
        self.linetabs.append((sec, off, ln, files))
