"""C19: flat (-bin), MZ (-mz) and PE (-pe) images: read by an independent loader
and compared with a layout computed from the order, alignment, grouping and
sizes of the segments the generator declared."""
import struct
from lib import omfgen, modgen, peimp
from lib.pbt import Prop, V


def up(x, a):
    return (x + a - 1) // a * a


class Bad(Exception):
    pass


def need(ok, sig, msg=""):
    if not ok:
        raise Bad(sig, msg)


class P(Prop):
    id = "C19"
    counts = {"quick": 20000, "thorough": 300000}
    rule = "modules with at least one reference to an address"
    assumptions = ["segments of a group are declared next to each other (apart from AT segments)"]

    def gen(self, c):
        k = c.choice(["mz", "mz", "bin16", "pe32", "pe64", "pe32", "pe64", "bin32", "bin64"])
        if c.bool(1, 10):
            return "peimp", peimp.gen(c), 0
        if k in ("mz", "bin16"):
            m = omfgen.gen(c, "mz" if k == "mz" else "bin")
        else:
            m = modgen.gen(c, k)
        return k, m, c.choice([0, 0x10, 0x1234])

    def run(self, case):
        k, m, load = case
        if k == "peimp":
            return self.run_imp(m)
        r = self.r.asm(m.text, m.opts)
        self.labels = {k}
        files = {"t.asm": m.text}

        def bad(sig, msg):
            return V(fail="%s\n%s" % (msg, m.text), sig=k + " " + sig, labels=self.labels, files=files)
        e = [e for e in r.errors() if e[2] in ("Error", "Fatal Error")]
        if r.rc or e:
            return bad("rejected %s" % (e[0][3] if e else ""), "rejected: %s" % (e or r.text)[:3])
        d = r.file("t.BIN" if k.startswith("bin") else "t.EXE")
        if d is None:
            return bad("no image", "no image file")
        try:
            getattr(self, "chk_" + k.rstrip("1234656"))(m, d, load)
        except Bad as e:
            return bad(e.args[0], "%s: %s" % e.args)
        segs = m.segs if k in ("mz", "bin16") else m.secs
        n = sum(1 for s in segs for p in s.parts if p[0] == "ref")
        key = (k, m.text) if n else None
        return V(nontrivial=key, labels=self.labels, sample={"kind": k, "segments": len(segs), "references": n, "size": len(d)})

    def run_imp(self, m):
        r = self.r.asm(m.text, m.opts, files={"out/keep": b""})
        kw = dict(labels={"peimp64" if m.six else "peimp32"}, files={"t.asm": m.text}, key=(m.text, m.opts), nontrivial=bool(m.exports or m.calls),
                  sample={"kind": "imports and exports", "text": m.text[:300]})

        def bad(sig, msg):
            return V(fail="%s\n%s\n%s" % (msg, m.opts, m.text), sig="peimp " + sig, **kw)
        e = [e for e in r.errors() if e[2] in ("Error", "Fatal Error")]
        if r.rc or e:
            return bad("rejected", "rejected: %s" % (e or r.text)[:3])
        d = r.file(m.out)
        if d is None:
            return bad("no image", "no image file")
        try:
            peimp.check(m, d)
        except peimp.Bad as e:
            return bad(e.args[0], "%s: %s" % e.args)
        return V(**kw)

    # ---------------------------------------------------------------- 16-bit
    def contents16(self, m, lin, frame, org0):
        def symaddr(y):
            return lin[y.seg] + y.off
        exp, rel = {}, []
        for s in m.segs:
            b, k = bytearray(), bytearray()
            o = org0 if s is m.segs[0] else 0
            for p in s.parts:
                if p[0] == "raw":
                    b += p[1]
                    k += (b"\1" if p[2] else b"\0") * len(p[1])
                    continue
                _, n, kind, y, a, fr = p
                if kind == "rel":
                    v = symaddr(y) + a - (lin[s] + o + len(b) + n)
                elif kind == "seg":
                    v = frame[fr] >> 4
                elif kind in ("off", "lo"):
                    v = symaddr(y) + a - frame[fr]
                elif kind == "hi":
                    v = (symaddr(y) + a - frame[fr]) >> 8
                else:
                    v = (symaddr(y) + a - frame[fr]) & (1 << 8 * (n - 2)) - 1 | frame[fr] >> 4 << 8 * (n - 2)
                if kind in ("seg", "ptr") and y.seg.at is None:
                    rel.append(lin[s] + o + len(b) + (0 if kind == "seg" else n - 2))
                b += (v & (1 << 8 * n) - 1).to_bytes(n, "little")
                k += b"\1" * n
            exp[s] = bytes(b), bytes(k)
        return exp, rel

    def layout16(self, m):
        """position of every segment in the load image, frames"""
        pos, at = {}, 0
        for i, s in enumerate(m.segs):
            if s.at is not None:
                continue
            at = up(at, s.align)
            pos[s] = at
            at += s.size - (m.org if i == 0 else 0)
        lin = {s: s.at * 16 if s.at is not None else pos[s] - (m.org if s is m.segs[0] else 0) for s in m.segs}
        if m.org and m.segs[0].group:       # the image is at its origin in the frame of the group
            lin = {s: x + m.org if s.at is None else x for s, x in lin.items()}
        frame = {s.name: lin[s] & ~15 for s in m.segs}
        if m.org and not m.segs[0].group:
            frame[m.segs[0].name] = lin[m.segs[0]]
        for n, l in m.groups.items():
            frame[n] = min(lin[s] for s in l) & ~15
        return pos, lin, frame, at

    def cmp16(self, m, img, pos, exp, name):
        for s in m.segs:
            if s.at is not None:
                continue
            e, k = exp[s]
            for j in range(len(e)):
                g = img[pos[s] + j] if pos[s] + j < len(img) else None
                if k[j]:
                    a = max(0, j - 8)
                    need(g == e[j], "contents", "segment %s (at image offset %#x) differs at offset %#x: %s, expected %s (from %#x)" % (s.name, pos[s], j, img[pos[s] + a:pos[s] + j + 8].hex(), e[a:j + 8].hex(), a))

    def chk_bin(self, m, d, load):
        if hasattr(m, "secs"):
            return self.chk_flat(m, d)
        pos, lin, frame, end = self.layout16(m)
        exp, rel = self.contents16(m, lin, frame, m.org)
        self.cmp16(m, d, pos, exp, "bin")
        need(len(d) <= end, "size", "file has %d bytes, the segments end at %d" % (len(d), end))

    def chk_mz(self, m, d, load):
        need(len(d) >= 28 and d[:2] == b"MZ", "header", "no MZ header")
        (_, cblp, cp, crlc, cparhdr, minalloc, maxalloc, ss, sp, csum, ip, cs, lfarlc, ovno) = struct.unpack_from("<14H", d)
        size = cp * 512 - (512 - cblp if cblp else 0)
        need(cp and cblp < 512, "page count", "e_cblp=%d e_cp=%d" % (cblp, cp))
        need(lfarlc >= 28 and lfarlc + 4 * crlc <= cparhdr * 16, "relocation table", "table at %#x with %d entries, header has %#x bytes" % (lfarlc, crlc, cparhdr * 16))
        need(size == len(d), "file size", "header says %d bytes, file has %d" % (size, len(d)))
        img = bytearray(d[cparhdr * 16:size])
        # page alignment: of the file, not of the image
        h = cparhdr * 16
        pos, at = {}, 0
        for s in m.segs:
            if s.at is None:
                at = up(at + h, s.align) - h
                pos[s] = at
                at += s.size
        lin = {s: s.at * 16 if s.at is not None else pos[s] for s in m.segs}
        frame = {s.name: lin[s] & ~15 for s in m.segs}
        for n, l in m.groups.items():
            frame[n] = min(lin[s] for s in l) & ~15
        exp, rel = self.contents16(m, lin, frame, 0)
        self.cmp16(m, img, pos, exp, "mz")
        got = []
        for i in range(crlc):
            o, s = struct.unpack_from("<HH", d, lfarlc + 4 * i)
            got.append(s * 16 + o)
        need(sorted(got) == sorted(rel), "relocations", "relocation entries for %s, expected %s" % (sorted(set(got) - set(rel)), sorted(set(rel) - set(got))))
        need(len(img) + minalloc * 16 >= at, "minalloc", "image has %d bytes and minalloc %d paragraphs, the segments need %d bytes" % (len(img), minalloc, at))
        need(minalloc * 16 < max(0, at - len(img)) + 16, "minalloc", "minalloc %d paragraphs, image %d bytes, segments need %d bytes" % (minalloc, len(img), at))
        need(maxalloc >= minalloc, "maxalloc", "%d" % maxalloc)
        st = [s for s in m.segs if s.combine == 5]
        if st:
            s = st[0]
            need(sp == s.size & 0xffff and ss == up(lin[s], 16) >> 4, "stack", "SS:SP is %04x:%04x, the stack segment is at %#x with %#x bytes" % (ss, sp, lin[s], s.size))
        else:
            need(ss == 0 and sp == 0, "stack", "SS:SP is %04x:%04x" % (ss, sp))
        if m.start:
            f = frame[m.start.seg.group or m.start.seg.name]
            need(cs == f >> 4 and ip == (lin[m.start.seg] + m.start.off - f) & 0xffff, "entry", "CS:IP is %04x:%04x, the start label is at %#x in frame %#x" % (cs, ip, lin[m.start.seg] + m.start.off, f))
        else:
            need(cs == 0 and ip == 0, "entry", "CS:IP is %04x:%04x" % (cs, ip))

    # ---------------------------------------------------------------- flat
    def order(self, m):
        first = [s for s in m.secs if s.src in (".code", ".data")]
        return first + [s for s in m.order if s not in first]

    def al(self, m, s):
        return s.align or 16

    def cmpflat(self, m, base, get, exp):
        """exp: modgen.expected; get(section) -> bytes"""
        alt = None
        for s in m.secs:
            e, k = exp[s]
            g = get(s)
            if s.kind == "bss":
                need(not any(g[:len(e)]), "contents", "uninitialized %s" % s.name)
                continue
            for j in range(len(e)):
                if k[j] and (j >= len(g) or g[j] != e[j]):
                    at = 0
                    for p in s.parts:
                        n = len(p[1]) if p[0] == "raw" else p[1]
                        if at <= j < at + n:
                            break
                        at += n
                    if p[0] == "ref" and p[2] == "rel" and p[4] and g[at:at + 4] == ((int.from_bytes(e[at:at + 4], "little") + p[4]) & 0xffffffff).to_bytes(4, "little"):
                        need(False, "displacement of a RIP-relative operand added twice", "%s at %#x" % (s.name, j))
                    a = max(0, j - 8)
                    need(False, "contents", "%s (at %#x) differs at offset %#x: %s, expected %s (from %#x)" % (s.name, base[s], j, g[a:j + 8].hex(), e[a:j + 8].hex(), a))

    def chk_flat(self, m, d):
        at, base = 0, {}
        for s in self.order(m):
            at = up(at, self.al(m, s))
            base[s] = at
            at += s.size
        for s in m.secs:
            base.setdefault(s, at)
        exp = modgen.expected(m, base, lambda y: base[y.sec] + y.off, 0)
        self.cmpflat(m, base, lambda s: d[base[s]:base[s] + s.size], exp)
        need(len(d) <= at, "size", "file has %d bytes, the segments end at %d" % (len(d), at))

    def chk_pe(self, m, d, load):
        need(d[:2] == b"MZ", "MZ header", "")
        pe = struct.unpack_from("<I", d, 0x3c)[0]
        need(d[pe:pe + 4] == b"PE\0\0", "PE header", "e_lfanew %#x" % pe)
        mach, nsec, tm, psym, nsym, opt, ch = struct.unpack_from("<HHIIIHH", d, pe + 4)
        need(mach == (0x8664 if m.six else 0x14c) and psym == 0 and nsym == 0 and opt == (240 if m.six else 224), "file header", "machine %#x, optional header %d" % (mach, opt))
        need(bool(ch & 1) == (not m.relocs) and ch & 2, "characteristics", "%#x" % ch)
        o = pe + 24
        need(struct.unpack_from("<H", d, o)[0] == (0x20b if m.six else 0x10b), "magic")
        szcode, szinit, szuninit, entry, bcode = struct.unpack_from("<IIIII", d, o + 4)
        if m.six:
            ib, = struct.unpack_from("<Q", d, o + 24)
        else:
            bdata, ib = struct.unpack_from("<II", d, o + 24)
        need(ib == 0x400000, "image base", "%#x" % ib)
        sal, fal = struct.unpack_from("<II", d, o + 32)
        szimg, szhdr, csum = struct.unpack_from("<III", d, o + 56)
        need((sal, fal) == (0x1000, 0x200), "alignments", "%#x %#x" % (sal, fal))
        nd, = struct.unpack_from("<I", d, o + (108 if m.six else 92))
        dd = o + (112 if m.six else 96)
        dirs = [struct.unpack_from("<II", d, dd + 8 * i) for i in range(nd)]
        need(nd == 16, "directories", "%d" % nd)
        secs = []
        st = pe + 24 + opt
        for i in range(nsec):
            n, vs, va, rs, rp, rl, ln, nr, nl, c = struct.unpack_from("<8sIIIIIIHHI", d, st + 40 * i)
            secs.append((n.rstrip(b"\0").decode("latin1"), vs, va, rs, rp, c))
        need(st + 40 * nsec <= szhdr, "headers size", "section table ends at %#x, SizeOfHeaders is %#x" % (st + 40 * nsec, szhdr))
        # the image as the loader maps it
        at = 0x1000
        img = bytearray(szimg + 0x1000)
        for n, vs, va, rs, rp, c in secs:
            need(va == up(at, 0x1000), "section address", "section %s at %#x, expected %#x" % (n, va, up(at, 0x1000)))
            need(vs > 0, "section size", "section %s is empty" % n)
            if rs:
                need(rp % 512 == 0 and rs % 512 == 0 and rp >= szhdr, "raw data", "section %s: raw data of %#x bytes at %#x" % (n, rs, rp))
                need(rp + rs <= len(d), "raw data", "section %s: raw data of %#x bytes at %#x, file has %#x" % (n, rs, rp, len(d)))
                for p, q in self.ranges:
                    need(rp >= q or rp + rs <= p, "raw data overlaps", n) if 0 else None
                img[va:va + min(vs, rs)] = d[rp:rp + min(vs, rs)]
            at = va + vs
        rr = sorted((rp, rp + rs, n) for n, vs, va, rs, rp, c in secs if rs)
        for a, b in zip(rr, rr[1:]):
            need(a[1] <= b[0], "raw data overlaps", "%s and %s" % (a, b))
        need(szimg == up(at, 0x1000), "image size", "SizeOfImage is %#x, the sections end at %#x" % (szimg, at))
        # which segment is in which section
        want, base = [], {}
        ordr = self.order(m)
        va = 0x1000
        for kind in ("text", "const", "data", "bss"):
            l = sorted([s for s in ordr if s.kind == kind], key=lambda s: s.name.lower())
            if not any(s.size for s in l):
                continue
            va = up(va, 0x1000)
            w = [kind, None, 0]
            for s in l:
                va = up(va, self.al(m, s))
                if s.size:
                    base[s] = va
                    w[1] = w[1] or va
                va += s.size
                if s.size:
                    w[2] = va - w[1]
            want.append(w)
        rl = [s for s in secs if s[0] == ".reloc"]
        need(len(rl) == (1 if m.relocs else 0), "reloc section", "%d .reloc sections" % len(rl))
        body = [s for s in secs if s[0] != ".reloc"]
        need([s[2] for s in body] == [w[1] for w in want], "sections", "sections %s, expected %s" % (body, want))
        C = {"text": 0x60000020, "const": 0x40000040, "data": 0xc0000040, "bss": 0xc0000080}
        for s, w in zip(body, want):
            need(s[1] == w[2], "section size", "section %s has virtual size %#x, expected %#x" % (s[0], s[1], w[2]))
            need(s[5] == C[w[0]], "section flags", "section %s has flags %#x, expected %#x" % (s[0], s[5], C[w[0]]))
            need((s[3] == 0) == (w[0] == "bss"), "section raw size", "section %s (%s) has raw size %#x" % (s[0], w[0], s[3]))
            need(w[0] == "bss" or s[3] >= s[1], "section raw size", "section %s has raw size %#x, virtual size %#x" % (s[0], s[3], s[1]))
        for s in m.secs:
            base.setdefault(s, None)
        ok = {s: ib + (b or 0) for s, b in base.items()}
        lost = [y.name for y in m.syms if base[y.sec] is None]
        if not lost:
            exp = modgen.expected(m, ok, lambda y: ok[y.sec] + y.off, ib)
            self.cmpflat(m, ok, lambda s: bytes(img[(base[s] or 0):(base[s] or 0) + s.size]), exp)
        # entry, sizes
        if m.start and base[m.start.sec] is None:
            pass
        elif m.start:
            need(entry == base[m.start.sec] + m.start.off, "entry", "entry point %#x, the start label is at %#x" % (entry, base[m.start.sec] + m.start.off))
        else:
            need(entry == 0, "entry", "%#x" % entry)
        tx = [s for s in body if s[5] & 0x20000000]
        need(szcode == sum(s[3] for s in tx) and bcode == (tx[0][2] if tx else 0), "code size", "SizeOfCode %#x BaseOfCode %#x" % (szcode, bcode))
        if not m.six:
            need(szinit == sum(s[3] for s in secs if s[5] & 0x40), "data size", "SizeOfInitializedData %#x" % szinit)
        # base relocations
        got = []
        if m.relocs:
            va, n = dirs[5]
            need(rl[0][2] == va and rl[0][1] >= n, "reloc directory", "directory %#x/%#x, section at %#x" % (va, n, rl[0][2]))
            b = img[va:va + n]
            i = 0
            while i < len(b):
                need(i + 8 <= len(b), "reloc block", "truncated")
                pg, sz = struct.unpack_from("<II", b, i)
                if pg == 0 and sz == 0 and i + 8 >= len(b) and i == 0:
                    break
                need(sz >= 8 and i + sz <= len(b) and i % 4 == 0, "reloc block", "block at %#x (page %#x) has size %#x of %#x" % (i, pg, sz, len(b)))
                for j in range(i + 8, i + sz, 2):
                    w, = struct.unpack_from("<H", b, j)
                    if w >> 12:
                        got.append((pg + (w & 0xfff), w >> 12))
                i += sz
            for i, v in enumerate(dirs):
                need(i == 5 or v == (0, 0), "directory", "%d: %s" % (i, v))
        else:
            need(not any(x for v in dirs for x in v), "directory", "%s" % dirs)
        if m.relocs and not lost:
            w = []
            for s in m.secs:
                p0 = base[s] or 0
                for p in s.parts:
                    n = len(p[1]) if p[0] == "raw" else p[1]
                    if p[0] == "ref" and p[2] == "abs":
                        w.append((p0, 10 if n == 8 else 3))
                    p0 += n
            need(sorted(got) == sorted(w), "relocations", "base relocations %s, expected %s" % (sorted(set(got) - set(w)), sorted(set(w) - set(got))))
    ranges = ()


PROP = P()
