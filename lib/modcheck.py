"""C15/C16/C18: generated modules, linked by objload.py at random addresses (and by
GNU ld for a part of the cases), compared with the generator's own model."""
import os, subprocess, struct
from . import modgen, objload, common
from .pbt import Prop, V, Discard


class ModProp(Prop):
    fmts = ()
    ldpart = 12
    ldexe = {}

    def gen(self, c):
        fmt = c.choice(self.fmts)
        m = modgen.gen(c, fmt)
        p = 0x400000 if not m.low or not m.six else 0x400000
        base = []
        order = c.shuffle(list(range(len(m.secs))))
        at = p if m.low or not m.six else 0x7fff12000000
        addr = {}
        for i in order:
            s = m.secs[i]
            al = max(s.align or 64, 4096 if c.bool(1, 3) else 1)
            at = (at + al - 1) // al * al + al * c.below(3)
            addr[i] = at
            at += s.size
        ext = {}
        for y in m.syms:
            if y.vis == "ext" and (y.alt is None or y.defined):
                ext[y.name] = at + c.int(0, 100000)
        com = at + 200000
        ld = c.below(self.ldpart) == 0
        return m, addr, ext, com, ld

    # the case is the model itself: everything is regenerated from the choices
    def run_fixed(self, case):
        """a listed finding: {"text", "opts", "place": {section: address}, "ext": {}, "sec", "want": hex}"""
        r = self.r.asm(case["text"], case["opts"])
        d = r.file("t.obj")
        if r.rc or d is None:
            return V(fail="rejected", sig="kf rejected", key="kf")
        o = objload.read(d)
        if "align" in case:
            a = o.bysec(case["sec"])[0].align
            return V(fail=None if a >= case["align"] else "%s has alignment %d, needs %d" % (case["sec"], a, case["align"]), sig="kf", key="kf")
        objload.link([o], lambda oi, s: case["place"].get(s.name), case.get("ext", {}), 0x400000, 0x700000, strict=True)
        g = bytes(o.bysec(case["sec"])[0].out).hex()
        return V(fail=None if g == case["want"] else "%s: %s, expected %s" % (case["sec"], g, case["want"]), sig="kf", key="kf")

    def run(self, case):
        if isinstance(case, dict):
            return self.run_fixed(case)
        m, addr, ext, com, ld = case
        r = self.r.asm(m.text, m.opts)
        files = {"t.asm": m.text}
        labels = {m.fmt}

        def bad(sig, msg):
            return V(fail="%s: %s\n%s" % (m.fmt, msg, m.text), sig="%s %s" % (m.fmt, sig), labels=labels, files=files)
        if r.rc or [e for e in r.errors() if e[2] == "Error"]:
            return bad("rejected", "rejected: %s" % (r.errors() or r.text)[:3])
        d = r.file("t.obj") or r.file("t.o")
        if d is None:
            return bad("no object", "no object")
        try:
            o = objload.read(d)
        except (objload.Bad, struct.error) as e:
            return bad("malformed: " + str(e)[:40], "malformed object: %s" % e)
        refs = sum(1 for s in m.secs for p in s.parts if p[0] == "ref")
        # ---- sections
        omap = {}
        for i, s in enumerate(m.secs):
            l = o.bysec(s.name)
            if not l:
                if s.size == 0:
                    continue
                return bad("section missing", "no section %s" % s.name)
            if len(l) > 1:
                return bad("section twice", "section %s twice" % s.name)
            q = l[0]
            omap[i] = q
            e = self.attrs(m, s, q)
            if e:
                return bad("attributes " + e[0], "section %s: %s" % (s.name, e[1]))
            if q.size != s.size:
                return bad("size", "section %s has %d bytes, expected %d" % (s.name, q.size, s.size))
        place = {id(q): addr[i] for i, q in omap.items()}
        # ---- link
        try:
            glob = objload.link([o], lambda oi, s: place.get(id(s)), ext, 0x400000, com)
        except objload.Bad as e:
            return bad("link: " + str(e).split(":")[0][:30], "linking: %s" % e)
        back = {id(s): i for i, s in enumerate(m.secs)}
        base = {s: addr[i] for i, s in enumerate(m.secs)}

        def symaddr(y):
            if y.sec is not None:
                return base[y.sec] + y.off
            if y.vis == "ext":
                return ext[y.name] if y.name in ext else symaddr(y.alt)
            return glob[y.name]
        exp = modgen.expected(m, base, symaddr, 0x400000)
        for i, s in enumerate(m.secs):
            if i not in omap:
                continue
            e, k = exp[s]
            g = bytes(omap[i].out)
            if s.kind == "bss":
                continue
            for j in range(len(e)):
                if k[j] and e[j] != g[j]:
                    a = max(0, j - 8)
                    return bad("contents " + s.kind, "linked section %s (at %#x) differs at offset %#x: %s, expected %s (from %#x)" % (s.name, addr[i], j, g[a:j + 8].hex(), e[a:j + 8].hex(), a))
        # ---- symbols
        e = self.symbols(m, o, omap)
        if e:
            return bad("symbols " + e[0], e[1])
        if ld:
            e = self.realld(m, d, omap, addr, ext, com, exp, base)
            if e:
                return bad("ld " + e[0], e[1])
            labels.add("linked by ld")
        return V(labels=labels, n=1, nontrivial=refs > 0, key=m.text, sample={"fmt": m.fmt, "refs": refs, "sections": len(m.secs), "text": m.text[:400]}, files=files)

    def want(self, m):
        w = {}
        for y in m.syms:
            if y.vis == "public" or getattr(y, "procpub", False):
                w[y.name] = ("def", y)
            elif y.cls == "c" and y.sec is not None and y.vis == "local":
                pass
        for n, v in m.consts.items():
            w[n] = ("abs", v)
        return w

    def symbols(self, m, o, omap):
        w = self.want(m)
        used = {p[3].name for s in m.secs for p in s.parts if p[0] == "ref"}
        glob = {}
        for y in o.syms.values():
            if y.bind == "global":
                if y.name in glob:
                    return "twice", "global symbol %s twice" % y.name
                glob[y.name] = y
        for n, (k, y) in w.items():
            if n not in glob:
                return "missing", "public %s is not in the symbol table" % n
            g = glob[n]
            if k == "abs":
                if g.sec != "abs" or g.value & 0xffffffff != y:
                    return "constant", "public constant %s is %r" % (n, g)
            else:
                q = omap[m.secs.index(y.sec)]
                if g.sec != q.index or g.value != y.off:
                    return "value", "public %s is %r, expected offset %#x of section %d" % (n, g, y.off, q.index)
        for y in m.syms:
            if y.alt is not None:
                l = [g for g in o.syms.values() if g.name == y.name]
                if (l or y.name in used) and (len(l) != 1 or l[0].bind != "weak" or l[0].sec != "und"):
                    return "weak", "weak external %s is %r" % (y.name, l)
                if l and m.fam == "coff":
                    t, ch = struct.unpack_from("<II", l[0].extra, 0) if l[0].extra else (-1, 0)
                    if t not in o.syms or o.syms[t].name != y.alt.name or ch != 2:
                        return "weak", "weak external %s has alternate %r, characteristics %d, expected %s, 2" % (y.name, o.syms.get(t), ch, y.alt.name)
            elif y.vis in ("ext", "com") and y.name in used:
                g = glob.get(y.name)
                if g is None or g.sec != ("und" if y.vis == "ext" else "com"):
                    return "external", "%s %s is %r" % (y.vis, y.name, g)
            if y.vis == "com":
                g = glob.get(y.name)
                if g is None or g.sec != "com":
                    return "communal", "communal %s is %r" % (y.name, g)
                sz = g.size if m.fam == "elf" else g.value
                if sz != y.size:
                    return "communal size", "communal %s has size %d, expected %d" % (y.name, sz, y.size)
        known = set(w) | {y.name for y in m.syms if y.vis in ("ext", "com")}
        for n, g in glob.items():
            if n not in known:
                return "stray", "symbol %s is global but was not declared so (%r)" % (n, g)
        loc = {y.name: y for y in m.syms if y.sec is not None and y.name not in w}
        for g in o.syms.values():
            if g.bind == "local" and g.name in loc and isinstance(g.sec, int) and g.type != "section":
                y = loc[g.name]
                if g.sec != omap[m.secs.index(y.sec)].index or g.value != y.off:
                    return "local value", "local symbol %s is %r, expected offset %#x" % (g.name, g, y.off)
        return None

    def realld(self, m, d, omap, addr, ext, com, exp, base):
        return None


def elfsections(d):
    six = d[4] == 2
    shoff, = struct.unpack_from("<Q", d, 40) if six else struct.unpack_from("<I", d, 32)
    she, shn, shs = struct.unpack_from("<HHH", d, 58 if six else 46)
    hs = [struct.unpack_from("<IIQQQQIIQQ" if six else "<IIIIIIIIII", d, shoff + i * she) for i in range(shn)]
    st = d[hs[shs][4]:hs[shs][4] + hs[shs][5]]
    return {st[h[0]:st.index(b"\0", h[0])].decode(): (h[3], h[5], d[h[4]:h[4] + h[5]] if h[1] != 8 else b"") for h in hs}


def pesections(d):
    pe, = struct.unpack_from("<I", d, 0x3c)
    n, = struct.unpack_from("<H", d, pe + 6)
    oh, = struct.unpack_from("<H", d, pe + 20)
    magic, = struct.unpack_from("<H", d, pe + 24)
    ib, = struct.unpack_from("<Q", d, pe + 48) if magic == 0x20b else struct.unpack_from("<I", d, pe + 52)
    symp, nsym = struct.unpack_from("<II", d, pe + 12)
    r = {}
    for i in range(n):
        nm, vs, va, rs, rp = struct.unpack_from("<8sIIII", d, pe + 24 + oh + 40 * i)
        nm = nm.rstrip(b"\0").decode()
        if nm.startswith("/") and symp:
            o = symp + 18 * nsym + int(nm[1:])
            nm = d[o:d.index(b"\0", o)].decode()
        r[nm] = (ib + va, vs, d[rp:rp + min(rs, vs)])
    return r
