"""Reader and linker for OMF objects, written from the TIS OMF 1.1 specification."""
import struct


class Bad(Exception):
    pass


class Seg:
    def __init__(self):
        self.fix = []

    def __repr__(self):
        return "<%s %s align %s combine %d %s len %#x>" % (self.name, self.cls, self.align, self.combine, "use32" if self.use32 else "use16", self.size)


class Omf:
    pass


class R:
    def __init__(self, b, t):
        self.b, self.p, self.t = b, 0, t

    def left(self):
        return len(self.b) - self.p

    def u8(self):
        if self.p >= len(self.b):
            raise Bad("record %02X too short" % self.t)
        self.p += 1
        return self.b[self.p - 1]

    def u16(self):
        return self.u8() | self.u8() << 8

    def u32(self):
        return self.u16() | self.u16() << 16

    def idx(self):
        a = self.u8()
        return (a & 0x7f) << 8 | self.u8() if a & 0x80 else a

    def name(self):
        n = self.u8()
        s = bytes(self.u8() for _ in range(n))
        return s.decode("latin1")


KNOWN = {0x80, 0x88, 0x96, 0x98, 0x99, 0x9a, 0x90, 0x91, 0xb6, 0xb7, 0x8c, 0xb4, 0xb0, 0xb8, 0xa0, 0xa1, 0x9c, 0x9d, 0x8a, 0x8b, 0x94, 0x95, 0xa2, 0xa3}
ALIGN = {0: None, 1: 1, 2: 2, 3: 16, 4: 256, 5: 4, 6: 4096}
LOC = {0: 1, 1: 2, 2: 2, 3: 4, 4: 1, 5: 2, 9: 4, 11: 6, 13: 4}


def read(d):
    o = Omf()
    o.names, o.segs, o.grps, o.exts, o.pubs, o.coments, o.lines, o.recs = [""], [None], [None], [None], [], [], [], []
    o.start, o.main, o.theadr = None, False, None
    p = 0
    ended = False
    last = None             # the segment, offset and bytes of the last data record
    while p < len(d):
        if ended:
            raise Bad("bytes after MODEND")
        if p + 3 > len(d):
            raise Bad("truncated record header")
        t, n = struct.unpack_from("<BH", d, p)
        if t not in KNOWN:
            raise Bad("record type %02X at %#x" % (t, p))
        if n < 1 or p + 3 + n > len(d):
            raise Bad("record %02X at %#x has length %d beyond the file" % (t, p, n))
        rec = d[p:p + 3 + n]
        if rec[-1] and sum(rec) & 0xff:
            raise Bad("checksum of record %02X at %#x" % (t, p))
        if n > 1024 + 16:
            raise Bad("record %02X has %d bytes" % (t, n))
        r = R(rec[3:-1], t)
        if not o.recs and t != 0x80:
            raise Bad("first record is %02X" % t)
        o.recs.append((t, p, n))
        p += 3 + n
        off = r.u32 if t & 1 else r.u16

        def seg(i):
            if not 0 < i < len(o.segs):
                raise Bad("segment index %d of %d in record %02X" % (i, len(o.segs) - 1, t))
            return i

        def grp(i):
            if not 0 < i < len(o.grps):
                raise Bad("group index %d of %d in record %02X" % (i, len(o.grps) - 1, t))
            return i

        def ext(i):
            if not 0 < i < len(o.exts):
                raise Bad("external index %d of %d in record %02X" % (i, len(o.exts) - 1, t))
            return i

        def lname(i):
            if not 0 < i < len(o.names):
                raise Bad("name index %d of %d in record %02X" % (i, len(o.names) - 1, t))
            return o.names[i]

        def fixdat():
            b = r.u8()
            if b & 0x88:
                raise Bad("fixup thread used but none defined")
            fm, tm = b >> 4 & 7, b & 7
            fd = None
            if fm == 0:
                fd = seg(r.idx())
            elif fm == 1:
                fd = grp(r.idx())
            elif fm == 2:
                fd = ext(r.idx())
            elif fm not in (4, 5):
                raise Bad("frame method %d" % fm)
            td = (seg, grp, ext, None)[tm & 3]
            if td is None:
                raise Bad("target method %d" % tm)
            td = td(r.idx())
            disp = 0 if tm & 4 else off()
            return fm, fd, tm & 3, td, disp
        if t == 0x80:
            o.theadr = r.name()
        elif t == 0x88:
            a, c = r.u8(), r.u8()
            o.coments.append((a, c, bytes(r.b[2:])))
            r.p = len(r.b)
        elif t == 0x96:
            while r.left():
                o.names.append(r.name())
        elif t in (0x98, 0x99):
            s = Seg()
            a = r.u8()
            s.combine, s.use32 = a >> 2 & 7, bool(a & 1)
            s.abs = None
            if a >> 5 not in ALIGN:
                raise Bad("segment alignment %d" % (a >> 5))
            s.align = ALIGN[a >> 5]
            if s.align is None:
                s.abs = r.u16(), r.u8()
            s.size = off()
            if a & 2:
                if s.size:
                    raise Bad("big segment with length")
                s.size = 1 << 32 if t & 1 else 65536
            s.name, s.cls, s.ovl = lname(r.idx()), lname(r.idx()), lname(r.idx())
            if s.size > 1 << 24:
                raise Bad("segment of %#x bytes" % s.size)
            s.data, s.mask = bytearray(s.size), bytearray(s.size)
            s.index = len(o.segs)
            o.segs.append(s)
        elif t == 0x9a:
            g = Seg()
            g.name, g.segs = lname(r.idx()), []
            while r.left():
                if r.u8() != 0xff:
                    raise Bad("group component")
                g.segs.append(seg(r.idx()))
            g.index = len(o.grps)
            o.grps.append(g)
        elif t in (0x90, 0x91, 0xb6, 0xb7):
            gi, si = r.idx(), r.idx()
            if gi:
                grp(gi)
            fr = None
            if si:
                seg(si)
            else:
                fr = r.u16()
            if not r.left():
                raise Bad("empty PUBDEF")
            while r.left():
                nm = r.name()
                v = off()
                ty = r.idx()
                o.pubs.append((nm, gi, si, fr, v, t >= 0xb0))
        elif t in (0x8c, 0xb4):
            while r.left():
                nm = r.name()
                r.idx()
                o.exts.append((nm, t == 0xb4, None))
        elif t in (0xb0, 0xb8):
            while r.left():
                nm = r.name()
                r.idx()
                k = r.u8()

                def num():
                    a = r.u8()
                    if a <= 0x80:
                        return a
                    return {0x81: r.u16, 0x84: lambda: r.u16() | r.u8() << 16, 0x88: r.u32}[a]()
                if k == 0x61:
                    n_ = num()
                    o.exts.append((nm, t == 0xb8, ("far", n_, num())))
                elif k == 0x62:
                    o.exts.append((nm, t == 0xb8, ("near", num(), 1)))
                else:
                    raise Bad("communal type %02X" % k)
        elif t in (0xa0, 0xa1):
            s = o.segs[seg(r.idx())]
            at = off()
            b = bytes(r.b[r.p:])
            r.p = len(r.b)
            if not b:
                raise Bad("empty LEDATA")
            if len(b) > 1024:
                raise Bad("LEDATA of %d bytes" % len(b))
            if at + len(b) > s.size:
                raise Bad("LEDATA beyond the end of segment %s" % s.name)
            s.data[at:at + len(b)] = b
            s.mask[at:at + len(b)] = b"\1" * len(b)
            # data written again replaces what was fixed up there
            s.fix = [f for f in s.fix if f[0] + LOC[f[1]] <= at or f[0] >= at + len(b)]
            last = s, at, len(b)
        elif t in (0xa2, 0xa3):
            s = o.segs[seg(r.idx())]
            at = off()

            def block():
                k = r.u32() if t & 1 else r.u16()
                n_ = r.u16()
                if n_ == 0:
                    m_ = r.u8()
                    return bytes(r.u8() for _ in range(m_)) * k
                return b"".join(block() for _ in range(n_)) * k
            b = b""
            while r.left():
                b += block()
            if at + len(b) > s.size:
                raise Bad("LIDATA beyond the end of segment")
            s.data[at:at + len(b)] = b
            s.mask[at:at + len(b)] = b"\1" * len(b)
            last = None
        elif t in (0x9c, 0x9d):
            if last is None:
                raise Bad("FIXUPP without data record")
            s, at, ln = last
            while r.left():
                a = r.u8()
                if not a & 0x80:
                    raise Bad("THREAD subrecord")
                pos = (a & 3) << 8 | r.u8()
                loc = a >> 2 & 15
                if loc not in LOC:
                    raise Bad("fixup location type %d" % loc)
                if pos + LOC[loc] > ln:
                    raise Bad("fixup at %d (%d bytes) beyond its data record of %d bytes" % (pos, LOC[loc], ln))
                s.fix.append((at + pos, loc, bool(a & 0x40), fixdat()))
        elif t in (0x94, 0x95):
            gi, si = r.idx(), r.idx()
            seg(si)
            while r.left():
                ln = r.u16()
                o.lines.append((si, ln, off(), o.theadr))
        elif t in (0x8a, 0x8b):
            b = r.u8()
            o.main = bool(b & 0x80)
            if b & 0x40:
                if not b & 1:
                    raise Bad("MODEND start address not relocatable")
                o.start = fixdat()
            ended = True
        if r.left():
            raise Bad("%d bytes left over in record %02X" % (r.left(), t))
    if not ended:
        raise Bad("no MODEND")
    for s in o.segs[1:]:
        for i, f in enumerate(s.fix):
            for g in s.fix[i + 1:]:
                if max(f[0], g[0]) < min(f[0] + LOC[f[1]], g[0] + LOC[g[1]]):
                    raise Bad("overlapping fixups in %s at %#x" % (s.name, f[0]))
    return o


def link(o, place, extpos, flat=None):
    """place: {segment index: linear address}; extpos: {name: (frame linear, linear)}.
    The FLAT group has frame 0; with flat (a set of segment indices that are in FLAT by
    their definition) the other segments have frame 0 as well. Sets out of every segment."""
    def sframe(i):
        if flat is not None and i not in flat:
            return 0
        s = o.segs[i]
        return s.abs[0] * 16 if s.abs else place[i] & ~15

    def saddr(i):
        s = o.segs[i]
        return s.abs[0] * 16 + s.abs[1] if s.abs else place[i]

    def gframe(i):
        g = o.grps[i]
        if g.name == "FLAT":
            return 0
        return min(sframe(x) for x in g.segs)

    def resolve(fx, here):
        fm, fd, tm, td, disp = fx
        if tm == 0:
            tgt, tf = saddr(td), sframe(td)
        elif tm == 1:
            tgt = tf = gframe(td)
        else:
            tf, tgt = extpos[o.exts[td][0]]
        fr = sframe(fd) if fm == 0 else gframe(fd) if fm == 1 else extpos[o.exts[fd][0]][0] if fm == 2 else sframe(here) if fm == 4 else tf
        return fr, tgt + disp
    o.resolve = resolve
    for s in o.segs[1:]:
        b = bytearray(s.data)
        for at, loc, segrel, fx in s.fix:
            fr, tgt = resolve(fx, s.index)
            n = LOC[loc]
            old = int.from_bytes(b[at:at + n], "little")
            if not segrel:
                if loc not in (0, 1, 9):
                    raise Bad("self-relative fixup of type %d" % loc)
                v = old + tgt - (saddr(s.index) + at + n)
            elif loc in (0, 1, 5, 9, 13):
                v = old + tgt - fr
            elif loc == 4:
                v = old + ((tgt - fr) >> 8)
            elif loc == 2:
                v = old + (fr >> 4)
            else:
                k = 2 if loc == 3 else 4
                o_ = (old + tgt - fr) & (1 << 8 * k) - 1
                s_ = ((old >> 8 * k) + (fr >> 4)) & 0xffff
                v = o_ | s_ << 8 * k
            b[at:at + n] = (v & (1 << 8 * n) - 1).to_bytes(n, "little")
        s.out = bytes(b)
