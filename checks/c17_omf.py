"""C17: OMF objects, read and linked by lib/omf.py and compared with the generator's model."""
from lib import omf, omfgen, modgen
from lib.pbt import Prop, V


class P(Prop):
    id = "C17"
    counts = {"quick": 10000, "thorough": 400000}
    rule = "modules with at least one reference to a symbol or address"

    def gen(self, c):
        flat = c.bool(1, 3)
        if flat:
            m = modgen.gen(c, "omf32")
            segs = m.secs
        else:
            m = omfgen.gen(c)
            segs = m.segs
        m.flat = flat
        at = c.choice([0x10000, 0x400000, 0x20f0]) if flat else c.choice([0x10000, 0x1230])
        addr = {}
        for i in c.shuffle(list(range(len(segs)))) if flat else range(len(segs)):
            s = segs[i]
            al = s.align or 16
            at = (at + al - 1) // al * al + al * c.below(3)
            addr[i] = at
            at += s.size
        exts = {}
        for y in m.syms:
            if flat:
                if y.vis in ("ext", "com"):
                    exts[y.name] = (0, at + c.int(0, 100000))
            elif y.ext:
                exts[y.name] = (c.below(60000), c.below(3000))
        return m, addr, exts

    def run(self, case):
        m, addr, exts = case
        r = self.r.asm(m.text, m.opts)
        files = {"t.asm": m.text}
        labels = {"flat" if m.flat else "segmented"}
        segs = m.secs if m.flat else m.segs

        def bad(sig, msg):
            return V(fail="%s\n%s" % (msg, m.text), sig=sig, labels=labels, files=files)
        e = [e for e in r.errors() if e[2] in ("Error", "Fatal Error")]
        if r.rc or e:
            return bad("rejected %s" % (e[0][3] if e else ""), "rejected: %s" % (e or r.text)[:3])
        d = r.file("t.obj")
        if d is None:
            return bad("no object", "no object")
        try:
            o = omf.read(d)
        except omf.Bad as e:
            return bad("malformed: " + str(e)[:30], "malformed object: %s" % e)
        refs = sum(1 for s in segs for p in s.parts if p[0] == "ref")
        # ---- segments
        bn = {}
        for s in o.segs[1:]:
            if s.name in bn:
                return bad("segment twice", "segment %s twice" % s.name)
            bn[s.name] = s
        if not m.flat and [s.name for s in o.segs[1:]] != [s.name for s in m.segs] and not m.groups:
            return bad("segment order", "segments in order %s" % [s.name for s in o.segs[1:]])
        om = {}
        for i, s in enumerate(segs):
            q = bn.pop(s.name, None)
            if q is None:
                if m.flat and s.size == 0:
                    continue
                return bad("segment missing", "no segment %s" % s.name)
            om[i] = q
            if q.size != s.size:
                return bad("segment size", "segment %s has %d bytes, expected %d" % (s.name, q.size, s.size))
            if m.flat:
                w = (s.align or 16, 2 if s.align is None else 0, True, {"text": "CODE", "data": "DATA", "bss": "BSS", "const": "CONST"}[s.kind], None)
            else:
                w = (s.align, s.combine, s.use32, s.cls, None if s.at is None else (s.at, 0))
            g = (q.align, 2 if q.combine in (4, 7) else q.combine, q.use32, q.cls, q.abs)
            if g != w:
                return bad("segment attributes", "segment %s has alignment/combine/use32/class/frame %r, expected %r" % (s.name, g, w))
        if bn:
            return bad("segment stray", "segment %s was not declared" % list(bn))
        # ---- groups
        gm = {g.name: [o.segs[x].name for x in g.segs] for g in o.grps[1:]}
        gw = {} if m.flat else {n: [s.name for s in l] for n, l in m.groups.items()}
        if m.flat:
            if gm.pop("FLAT", None):
                return bad("FLAT group", "group FLAT has segments")
        if gm != gw:
            return bad("groups", "groups %r, expected %r" % (gm, gw))
        idx = {s.name: s.index for s in o.segs[1:]}
        place = {om[i].index: addr[i] for i in om}
        frame = {}
        for i, s in enumerate(segs):
            frame[s.name] = s.at * 16 if not m.flat and s.at is not None else addr[i] & ~15
        lin = {s: (s.at * 16 if not m.flat and s.at is not None else addr[i]) for i, s in enumerate(segs)}
        ext = {}
        if not m.flat:
            for n, l in m.groups.items():
                frame[n] = min(frame[s.name] for s in l)
            for y in m.syms:
                if y.ext:
                    f, x = exts[y.name]
                    if y.seg is not None:
                        fr = frame[y.seg.group or y.seg.name]
                    else:
                        fr = f * 16
                        frame["@" + y.name] = fr
                    ext[y.name] = (fr, fr + x)
        else:
            ext = exts
        known = {n for n in ext}
        alts = {y.alt.name for y in m.syms if getattr(y, "alt", None) is not None}      # listed once more, as default of a weak external
        for n, l, k in o.exts[1:]:
            if n not in known and n != "never_used" and n not in alts:
                return bad("external stray", "external %s was not declared" % n)
        names = [x[0] for x in o.exts[1:]]
        if any(names.count(n) > 1 + (n in alts) for n in names):
            return bad("external twice", "externals %s" % names)
        if "never_used" in names:
            return bad("external unused", "EXTERNDEF symbol that is not used is an external")
        try:
            omf.link(o, place, ext, {om[i].index for i, s in enumerate(segs) if i in om and (s.align is None or " flat" in s.open)} if m.flat else None)
        except omf.Bad as e:
            return bad("link: " + str(e)[:20], str(e))

        def symaddr(y):
            sec = y.sec if m.flat else (None if y.ext else y.seg)
            return lin[sec] + y.off if sec is not None else ext[y.name][1]
        if m.flat:
            exp = modgen.expected(m, lin, symaddr, 0)
        else:
            exp = {}
            for s in segs:
                b, k = bytearray(), bytearray()
                for p in s.parts:
                    if p[0] == "raw":
                        b += p[1]
                        k += (b"\1" if p[2] else b"\0") * len(p[1])
                        continue
                    _, n, kind, y, a, fr = p
                    if kind == "rel":
                        v = symaddr(y) + a - (lin[s] + len(b) + n)
                    elif kind == "seg":
                        v = frame[fr] >> 4
                    elif kind in ("off", "lo"):
                        v = symaddr(y) + a - frame[fr]
                    elif kind == "hi":
                        v = (symaddr(y) + a - frame[fr]) >> 8
                    else:
                        v = (symaddr(y) + a - frame[fr]) & (1 << 8 * (n - 2)) - 1 | frame[fr] >> 4 << 8 * (n - 2)
                    b += (v & (1 << 8 * n) - 1).to_bytes(n, "little")
                    k += b"\1" * n
                exp[s] = bytes(b), bytes(k)
        for i, q in om.items():
            s = segs[i]
            e, k = exp[s]
            for j in range(len(e)):
                if k[j] and (e[j] != q.out[j] or (not q.mask[j] and not (m.flat and s.kind == "bss"))):
                    a = max(0, j - 8)
                    return bad("contents", "linked segment %s (at %#x) differs at offset %#x: %s, expected %s (from %#x)%s" % (s.name, lin[s], j, q.out[a:j + 8].hex(), e[a:j + 8].hex(), a, "" if q.mask[j] else ": no data there"))
        # ---- symbols
        want = {}
        for y in m.syms:
            if m.flat:
                if y.vis == "public" or getattr(y, "procpub", False):
                    want[y.name] = (idx[y.sec.name], y.off)
            elif y.public and not y.ext:
                want[y.name] = (idx[y.seg.name], y.off)
        for n, v in m.consts.items():
            want[n] = (0, v)
        got = {}
        for n, gi, si, fr, v, loc in o.pubs:
            if loc:
                continue
            if n in got:
                return bad("public twice", "public %s twice" % n)
            got[n] = (si, v)
            if si and gi:
                if si not in o.grps[gi].segs and o.grps[gi].name != "FLAT":
                    return bad("public group", "public %s in group %s which does not contain its segment" % (n, o.grps[gi].name))
            if si and not gi and not m.flat and [s for s in m.segs if s.name == o.segs[si].name][0].group:
                return bad("public group", "public %s has no group though its segment is in one" % n)
        if got != want:
            return bad("publics", "publics %r, expected %r" % ({k: v for k, v in got.items() if want.get(k) != v}, {k: v for k, v in want.items() if got.get(k) != v}))
        com = {n: k for n, l, k in o.exts[1:] if k}
        if m.flat:
            cw = {y.name: y.size for y in m.syms if y.vis == "com"}
            cg = {n: k[1] * k[2] for n, k in com.items()}
        else:
            cw = {y.name: ("far", y.count, y.esize) if y.comfar else ("near", y.count * y.esize, 1) for y in m.syms if y.ext == "com"}
            cg = com
        if cg != cw:
            return bad("communals", "communals %r, expected %r" % (cg, cw))
        miss = [y.name for y in m.syms if not m.flat and y.ext == "ext" and y.name not in names]
        if miss:
            return bad("external missing", "externals %s missing" % miss)
        # ---- exports and weak externals
        ge = sorted(d for a, cl, d in o.coments if cl == 0xa0 and d[:1] == b"\2")
        we = sorted(b"\2\0" + bytes([len(y.name)]) + y.name.encode() + b"\0" for y in m.syms if getattr(y, "export", False))
        if ge != we:
            return bad("exports", "export records %r, expected %r" % (ge, we))
        gw = []
        for a, cl, d in o.coments:
            if cl == 0xa8:
                q = []
                while d:
                    n = 2 if d[0] & 0x80 else 1
                    q.append((d[0] & 0x7f) << 8 | d[1] if n == 2 else d[0])
                    d = d[n:]
                if len(q) % 2 or not all(0 < i < len(o.exts) for i in q):
                    return bad("weak record", "weak external record %r of %d externals" % (q, len(o.exts) - 1))
                gw += [(o.exts[x][0], o.exts[y][0]) for x, y in zip(q[::2], q[1::2])]
        ww = sorted((y.name, y.alt.name) for y in m.syms if getattr(y, "alt", None) is not None)
        if sorted(gw) != ww:
            return bad("weak externals", "weak externals %r, expected %r" % (gw, ww))
        # ---- start address
        if not m.flat:
            if (o.start is not None) != (m.start is not None) or o.main != (m.start is not None):
                return bad("start", "start address %r, main %r" % (o.start, o.main))
            if m.start:
                fr, t = o.resolve(o.start, 0)
                wf = frame[m.start.seg.name], frame.get(m.start.seg.group)
                if t != symaddr(m.start) or fr not in wf:
                    return bad("start", "start address %x:%x, expected %r:%x" % (fr, t, wf, symaddr(m.start)))
        return V(labels=labels, n=1, nontrivial=refs > 0, key=m.text[:4000], sample={"kind": list(labels), "refs": refs, "segments": len(segs), "text": m.text[:400]}, files=files)


PROP = P()
