"""Independent readers for ELF, COFF and Mach-O objects, and a small linker.

read(data) checks that the object is well formed (every offset, index and
length in range; anything else raises Bad) and returns an Obj.  link() places
the sections of one or more objects at given addresses and applies the
relocations by the rules of the format."""
import struct


class Bad(Exception):
    pass


def need(c, msg):
    if not c:
        raise Bad(msg)


class Sec:
    def __init__(self, name, data, size, align, flags, kind, index):
        self.name, self.data, self.size, self.align, self.flags, self.kind, self.index = name, data, size, align, flags, kind, index
        self.relocs = []        # (offset, type, symbol index, addend or None)
        self.addr = None
        self.out = None


class Sym:
    def __init__(self, name, sec, value, bind, typ, size=0, extra=None):
        # sec: index of the section, "und", "abs", "com", "dbg"
        self.name, self.sec, self.value, self.bind, self.type, self.size, self.extra = name, sec, value, bind, typ, size, extra
        self.addr = None

    def __repr__(self):
        return "Sym(%r,%r,%#x,%s,%s)" % (self.name, self.sec, self.value, self.bind, self.type)


class Obj:
    def __init__(self, fmt):
        self.fmt = fmt
        self.secs = {}      # index -> Sec
        self.syms = {}      # index -> Sym
        self.data = None

    def bysec(self, name):
        return [s for s in self.secs.values() if s.name == name]


def cstr(b, off, what):
    need(0 <= off < len(b), "%s: string offset %d outside the table (%d)" % (what, off, len(b)))
    e = b.find(b"\0", off)
    need(e >= 0, "%s: string not terminated" % what)
    return b[off:e].decode("latin1")


def read(d):
    if d[:4] == b"\x7fELF":
        return elf(d)
    if d[:4] in (b"\xcf\xfa\xed\xfe", b"\xce\xfa\xed\xfe"):
        return macho(d)
    return coff(d)


# ------------------------------------------------------------------ ELF
R64 = {1: ("abs", 8), 2: ("rel", 4), 4: ("rel", 4), 10: ("absu", 4), 11: ("abss", 4), 12: ("abs", 2), 13: ("rel", 2), 14: ("abs", 1), 15: ("rel", 1), 24: ("rel", 8)}
R32 = {1: ("abs", 4), 2: ("rel", 4), 20: ("abs", 2), 21: ("rel", 2), 22: ("abs", 1), 23: ("rel", 1)}


def elf(d):
    need(len(d) >= 52, "short ELF header")
    cls = d[4]
    need(cls in (1, 2) and d[5] == 1 and d[6] == 1, "e_ident")
    six = cls == 2
    o = Obj("elf64" if six else "elf32")
    o.data = d
    if six:
        (ty, mach, ver, entry, phoff, shoff, flags, ehs, phe, phn, she, shn, shstr) = struct.unpack_from("<HHIQQQIHHHHHH", d, 16)
    else:
        (ty, mach, ver, entry, phoff, shoff, flags, ehs, phe, phn, she, shn, shstr) = struct.unpack_from("<HHIIIIIHHHHHH", d, 16)
    need(ty == 1 and ver == 1, "e_type/e_version")
    need(mach == (62 if six else 3), "e_machine %d" % mach)
    need(ehs == (64 if six else 52) and phn == 0 and she == (64 if six else 40), "header sizes")
    need(shoff + shn * she <= len(d) and shoff >= ehs, "section table outside the file")
    need(shstr < shn, "e_shstrndx")
    hs = []
    for i in range(shn):
        if six:
            h = struct.unpack_from("<IIQQQQIIQQ", d, shoff + i * she)
        else:
            h = struct.unpack_from("<IIIIIIIIII", d, shoff + i * she)
        hs.append(h)
    need(hs[0] == (0,) * 10, "section 0 is not null")
    def body(h, i):
        if h[1] == 8:
            return b""
        need(h[4] + h[5] <= len(d), "section %d outside the file" % i)
        return d[h[4]:h[4] + h[5]]
    names = body(hs[shstr], shstr)
    need(hs[shstr][1] == 3, "shstrtab type")
    spans = []
    symtab = None
    for i, h in enumerate(hs):
        if i == 0:
            continue
        nm = cstr(names, h[0], "section name")
        s = Sec(nm, body(h, i), h[5], max(1, h[8]), h[2], h[1], i)
        need(h[8] & (h[8] - 1) == 0, "alignment of %s" % nm)
        need(h[3] == 0, "sh_addr of %s" % nm)
        o.secs[i] = s
        if h[1] != 8 and h[5]:
            spans.append((h[4], h[4] + h[5], nm))
        if h[1] == 2:
            need(symtab is None, "two symbol tables")
            symtab = i
    spans.append((0, ehs, "header"))
    spans.append((shoff, shoff + shn * she, "section table"))
    spans.sort()
    for a, b in zip(spans, spans[1:]):
        need(a[1] <= b[0], "%s overlaps %s in the file" % (a[2], b[2]))
    o.spans = spans
    if symtab is not None:
        h = hs[symtab]
        es = 24 if six else 16
        need(h[9] == es and h[5] % es == 0, "symtab entry size")
        need(h[6] < shn and hs[h[6]][1] == 3, "symtab string table")
        st = body(hs[h[6]], h[6])
        need(st[:1] == b"\0" and st[-1:] == b"\0", "strtab ends")
        b = body(h, symtab)
        n = h[5] // es
        need(h[7] <= n, "sh_info of symtab")
        for k in range(n):
            if six:
                nm, info, oth, shx, val, sz = struct.unpack_from("<IBBHQQ", b, k * es)
            else:
                nm, val, sz, info, oth, shx = struct.unpack_from("<IIIBBH", b, k * es)
            if k == 0:
                need((nm, val, sz, info, shx) == (0, 0, 0, 0, 0), "symbol 0 not null")
            name = cstr(st, nm, "symbol") if nm else ""
            bind, typ = info >> 4, info & 15
            need(bind in (0, 1, 2) and typ in (0, 1, 2, 3, 4, 5, 6), "symbol %s: info %#x" % (name, info))
            need((bind == 0) == (k < h[7]), "symbol %d (%s): binding %d against sh_info %d" % (k, name, bind, h[7]))
            if shx == 0:
                sec = "und"
            elif shx == 0xfff1:
                sec = "abs"
            elif shx == 0xfff2:
                sec = "com"
            else:
                need(shx < shn, "symbol %s: section %d" % (name, shx))
                sec = shx
            if typ == 3:
                need(isinstance(sec, int) and val == 0, "section symbol")
            elif isinstance(sec, int) and typ not in (4,):
                need(val <= o.secs[sec].size, "symbol %s: value %#x beyond its section" % (name, val))
            o.syms[k] = Sym(name, sec, val, {0: "local", 1: "global", 2: "weak"}[bind], {0: "notype", 1: "object", 2: "func", 3: "section", 4: "file", 5: "common", 6: "tls"}[typ], sz, oth)
    for i, h in enumerate(hs):
        if h[1] in (4, 9):
            rela = h[1] == 4
            need(h[6] == symtab, "relocation section %d: link" % i)
            need(0 < h[7] < shn and hs[h[7]][1] == 1, "relocation section %d: info %d" % (i, h[7]))
            es = (24 if rela else 16) if six else (12 if rela else 8)
            need(h[9] == es and h[5] % es == 0, "relocation entry size")
            need(rela == six, "REL in ELF64 or RELA in ELF32")
            tgt = o.secs[h[7]]
            b = body(h, i)
            for k in range(0, h[5], es):
                if six:
                    off, info, add = struct.unpack_from("<QQq", b, k)
                    sy, ty = info >> 32, info & 0xffffffff
                else:
                    off, info = struct.unpack_from("<II", b, k)
                    sy, ty, add = info >> 8, info & 255, None
                T = R64 if six else R32
                need(ty in T, "relocation type %d" % ty)
                need(off + T[ty][1] <= tgt.size, "relocation at %#x outside %s" % (off, tgt.name))
                need(sy in o.syms and sy, "relocation symbol %d" % sy)
                tgt.relocs.append((off, ty, sy, add))
    return o


# ------------------------------------------------------------------ COFF
C64 = {1: ("abs", 8), 2: ("absu", 4), 3: ("rva", 4), 4: ("rel", 4, 0), 5: ("rel", 4, 1), 6: ("rel", 4, 2), 7: ("rel", 4, 3), 8: ("rel", 4, 4), 9: ("rel", 4, 5), 10: ("section", 2), 11: ("secrel", 4)}
C32 = {1: ("abs", 2), 2: ("rel", 2, 0), 6: ("abs", 4), 7: ("rva", 4), 20: ("rel", 4, 0), 10: ("section", 2), 11: ("secrel", 4)}


def coff(d):
    need(len(d) >= 20, "short COFF header")
    mach, ns, tim, sp, nsym, oh, ch = struct.unpack_from("<HHIIIHH", d, 0)
    need(mach in (0x14c, 0x8664), "machine %#x" % mach)
    six = mach == 0x8664
    o = Obj("coff64" if six else "coff32")
    o.data = d
    o.timestamp = tim
    need(oh == 0, "optional header")
    need(20 + 40 * ns <= len(d), "section headers outside the file")
    spans = [(0, 20 + 40 * ns, "headers")]
    strs = b""
    if sp:
        need(sp + 18 * nsym + 4 <= len(d), "symbol table outside the file")
        sl, = struct.unpack_from("<I", d, sp + 18 * nsym)
        need(sl >= 4 and sp + 18 * nsym + sl <= len(d), "string table outside the file (%d)" % sl)
        strs = d[sp + 18 * nsym:sp + 18 * nsym + sl]
        spans.append((sp, sp + 18 * nsym + sl, "symbols"))
    else:
        need(nsym == 0, "symbols without table")
    for i in range(1, ns + 1):
        nm, vs, va, rs, rp, relp, lnp, nrel, nln, fl = struct.unpack_from("<8sIIIIIIHHI", d, 20 + 40 * (i - 1))
        name = nm.rstrip(b"\0").decode("latin1")
        if name.startswith("/"):
            need(name[1:].isdigit(), "section name %s" % name)
            name = cstr(strs, int(name[1:]), "section name")
            need(len(name) >= 8, "long section name %r is short" % name)
        need(va == 0, "virtual address of %s" % name)
        a = fl >> 20 & 15
        need(a <= 14, "alignment of %s" % name)
        if rp == 0 or fl & 0x80:
            data = b""
        else:
            need(rp + rs <= len(d), "section %s outside the file" % name)
            data = d[rp:rp + rs]
            if rs:
                spans.append((rp, rp + rs, name))
        s = Sec(name, data, rs, 1 << (a - 1) if a else 16, fl, fl & 0xe0, i)
        s.linkinfo = bool(fl & 0x200)
        s.vsize = vs
        o.secs[i] = s
        if nrel:
            n = nrel
            first = 0
            if nrel == 0xffff and fl & 0x01000000:
                n, = struct.unpack_from("<I", d, relp)
                first = 1
            need(relp + 10 * n <= len(d), "relocations of %s outside the file" % name)
            spans.append((relp, relp + 10 * n, name + " relocations"))
            for k in range(first, n):
                off, sy, ty = struct.unpack_from("<IIH", d, relp + 10 * k)
                T = C64 if six else C32
                need(ty in T, "relocation type %d in %s" % (ty, name))
                need(off + T[ty][1] <= rs, "relocation at %#x outside %s" % (off, name))
                s.relocs.append((off, ty, sy, None))
        s.lines = []
        if nln:
            need(lnp + 6 * nln <= len(d), "line numbers of %s outside the file" % name)
            spans.append((lnp, lnp + 6 * nln, name + " lines"))
            for k in range(nln):
                s.lines.append(struct.unpack_from("<IH", d, lnp + 6 * k))
    spans.sort()
    for a, b in zip(spans, spans[1:]):
        need(a[1] <= b[0], "%s overlaps %s in the file" % (a[2], b[2]))
    need(spans[-1][1] == len(d) or len(d) - spans[-1][1] < 16, "%d stray bytes at the end" % (len(d) - spans[-1][1]))
    o.spans = spans
    k = 0
    while k < nsym:
        nm, val, sec, ty, cl, na = struct.unpack_from("<8sIhHBB", d, sp + 18 * k)
        if nm[:4] == b"\0\0\0\0":
            name = cstr(strs, struct.unpack("<I", nm[4:])[0], "symbol name")
        else:
            name = nm.rstrip(b"\0").decode("latin1")
            need("\0" not in name, "symbol name %r" % name)
        need(k + na < nsym, "aux records of %s" % name)
        aux = d[sp + 18 * (k + 1):sp + 18 * (k + 1 + na)]
        need(-2 <= sec <= ns, "section %d of %s" % (sec, name))
        sx = {0: "und", -1: "abs", -2: "dbg"}.get(sec, sec)
        if cl == 2 and sec == 0 and val:
            sx = "com"
        if sec > 0 and cl in (2, 3, 6):
            need(val <= o.secs[sec].size, "symbol %s: value %#x beyond its section" % (name, val))
        o.syms[k] = Sym(name, sx, val, {2: "global", 3: "local", 6: "local", 103: "file", 105: "weak", 101: "local"}.get(cl, "class%d" % cl), {3: "static", 6: "label"}.get(cl, "func" if ty == 0x20 else "notype"), 0, aux)
        o.syms[k].cl, o.syms[k].ctype = cl, ty
        if cl == 3 and na and isinstance(sx, int) and val == 0 and name == o.secs[sx].name:
            ln, nr, nl, ck, nu, sel = struct.unpack_from("<IHHIHB", aux, 0)
            s = o.secs[sx]
            need(ln == s.size, "section aux length of %s: %d, not %d" % (name, ln, s.size))
            need(nr == min(len(s.relocs), 0xffff), "section aux relocation count of %s" % name)
            need(nl == len(s.lines), "section aux line count of %s" % name)
            o.syms[k].type = "section"
            s.aux = (ln, nr, nl, ck, nu, sel)
        k += 1 + na
    for s in o.secs.values():
        for off, ty, sy, add in s.relocs:
            need(sy in o.syms, "relocation in %s: symbol index %d is not a symbol" % (s.name, sy))
    return o


# ------------------------------------------------------------------ Mach-O 64
def macho(d):
    need(d[:4] == b"\xcf\xfa\xed\xfe", "magic")
    o = Obj("macho64")
    o.data = d
    cpu, sub, ft, nc, sz, fl, rsv = struct.unpack_from("<IIIIIII", d, 4)
    need(cpu == 0x01000007 and ft == 1, "cpu/filetype")
    need(32 + sz <= len(d), "commands outside the file")
    p = 32
    spans = [(0, 32 + sz, "header")]
    st = None
    n = 0
    rel = []
    o.dysym = None
    for _ in range(nc):
        need(p + 8 <= 32 + sz, "load commands")
        cmd, cs = struct.unpack_from("<II", d, p)
        need(cs >= 8 and p + cs <= 32 + sz and cs % 8 == 0, "command size")
        if cmd == 0x19:
            sn, va, vs, fo, fs, mp, ip, nse, sf = struct.unpack_from("<16sQQQQIIII", d, p + 8)
            need(cs == 72 + 80 * nse, "segment command size")
            need(fo + fs <= len(d), "segment outside the file")
            o.seg = (va, vs, fo, fs)
            for k in range(nse):
                q = p + 72 + 80 * k
                a, b, ad, size, off, al, ro, nr, f1, r1, r2, r3 = struct.unpack_from("<16s16sQQIIIIIIII", d, q)
                n += 1
                zero = f1 & 255 == 1
                need(al < 16, "alignment 2^%d" % al)
                if not zero and size:
                    need(off + size <= len(d), "section outside the file")
                    need(fo <= off and off + size <= fo + fs, "section outside its segment in the file")
                    spans.append((off, off + size, "section %d" % n))
                need(va <= ad and ad + size <= va + vs, "section outside its segment")
                s = Sec(a.rstrip(b"\0").decode("latin1"), b"" if zero else d[off:off + size], size, 1 << al, f1, f1 & 255, n)
                s.seg = b.rstrip(b"\0").decode("latin1")
                s.vaddr = ad
                need(ad % s.align == 0, "address of section %d not aligned" % n)
                o.secs[n] = s
                if nr:
                    need(ro + 8 * nr <= len(d), "relocations outside the file")
                    spans.append((ro, ro + 8 * nr, "relocs %d" % n))
                    for j in range(nr):
                        rel.append((s,) + struct.unpack_from("<iI", d, ro + 8 * j))
        elif cmd == 2:
            need(st is None, "two symbol tables")
            st = struct.unpack_from("<IIII", d, p + 8)
        elif cmd == 0xb:
            o.dysym = struct.unpack_from("<18I", d, p + 8)
        p += cs
    need(p == 32 + sz, "load command sizes")
    need(st is not None, "no symbol table")
    so, nsy, sto, sts = st
    need(so + 16 * nsy <= len(d) and sto + sts <= len(d), "symbol table outside the file")
    if nsy:
        spans.append((so, so + 16 * nsy, "symbols"))
    if sts:
        spans.append((sto, sto + sts, "strings"))
    spans.sort()
    for a, b in zip(spans, spans[1:]):
        need(a[1] <= b[0], "%s overlaps %s in the file" % (a[2], b[2]))
    va = sorted((s.vaddr, s.vaddr + s.size) for s in o.secs.values() if s.size)
    for a, b in zip(va, va[1:]):
        need(a[1] <= b[0], "sections overlap in memory")
    strs = d[sto:sto + sts]
    for k in range(nsy):
        nx, ty, se, de, va_ = struct.unpack_from("<IBBHQ", d, so + 16 * k)
        name = cstr(strs, nx, "symbol") if nx else ""
        t = ty & 0xe
        need(ty & 0xe0 == 0, "stab")
        if t == 0:
            sec = "com" if va_ else "und"
            need(ty & 1, "undefined symbol %s not external" % name)
        elif t == 2:
            sec = "abs"
        elif t == 0xe:
            need(se in o.secs, "symbol %s: section %d" % (name, se))
            sec = se
            s = o.secs[se]
            need(s.vaddr <= va_ <= s.vaddr + s.size, "symbol %s outside its section" % name)
            va_ -= s.vaddr
        else:
            raise Bad("symbol type %#x" % ty)
        o.syms[k] = Sym(name, sec, va_, "global" if ty & 1 else "local", "notype", 0, (ty, de))
    if o.dysym:
        il, nl, ie, ne, iu, nu = o.dysym[:6]
        need(il + nl <= nsy and ie + ne <= nsy and iu + nu <= nsy, "dysymtab ranges")
        for k, s in o.syms.items():
            c = "local" if s.bind == "local" else "und" if s.sec in ("und", "com") else "ext"
            r = "local" if il <= k < il + nl else "ext" if ie <= k < ie + ne else "und" if iu <= k < iu + nu else None
            need(c == r, "symbol %s is in the %s group of the dysymtab" % (s.name, r))
    for s, a, b in rel:
        need(a >= 0, "scattered relocation")
        sy, pc, ln, ext, ty = b & 0xffffff, b >> 24 & 1, b >> 25 & 3, b >> 27 & 1, b >> 28
        need(a + (1 << ln) <= s.size, "relocation at %#x outside its section" % a)
        if ext:
            need(sy in o.syms, "relocation symbol %d" % sy)
        else:
            need(sy in o.secs or sy == 0, "relocation section %d" % sy)
        s.relocs.append((a, (ty, pc, 1 << ln, ext), sy, None))
    return o


# ------------------------------------------------------------------ linking
def link(objs, place, ext=None, imagebase=0, common_base=None, strict=False):
    """place(obj index, Sec) -> address or None (not loaded).  ext: name -> address for
    symbols no object defines.  Fills Sec.addr, Sec.out and Sym.addr."""
    glob = {}
    ext = ext or {}
    com = {}
    for oi, o in enumerate(objs):
        for s in o.secs.values():
            s.addr = place(oi, s)
            s.out = bytearray(s.data if s.data else bytes(s.size) if s.addr is not None else b"")
        for y in o.syms.values():
            if isinstance(y.sec, int):
                a = o.secs[y.sec].addr
                y.addr = None if a is None else a + y.value
            elif y.sec == "abs":
                y.addr = y.value
            if y.bind == "global" and y.addr is not None:
                need(y.name not in glob, "symbol %s defined twice" % y.name)
                glob[y.name] = y.addr
            if y.sec == "com":
                com[y.name] = max(com.get(y.name, 0), y.size if o.fmt.startswith("elf") else y.value)
    for n in sorted(com):
        if n not in glob:
            need(common_base is not None, "no room for commons")
            glob[n] = common_base
            common_base += (com[n] + 63) // 64 * 64
    for o in objs:
        for y in o.syms.values():
            if y.addr is None and y.sec in ("und", "com") and y.name:
                y.addr = glob.get(y.name, ext.get(y.name))
        for y in o.syms.values():
            if y.addr is None and y.bind == "weak" and y.sec == "und" and o.fmt.startswith("coff") and y.extra:
                t = o.syms.get(struct.unpack_from("<I", y.extra, 0)[0])
                y.addr = t.addr if t is not None else None
    for o in objs:
        for s in o.secs.values():
            if s.addr is None:
                continue
            for r in s.relocs:
                apply(o, s, r, imagebase, strict)
    return glob


def get(b, off, n, signed=True):
    return int.from_bytes(b[off:off + n], "little", signed=signed)


def put(b, off, n, v, kind, what):
    if kind == "abss" or kind == "rel":
        need(-(1 << (8 * n - 1)) <= v < 1 << (8 * n - 1), "%s: relocation overflow (%#x)" % (what, v))
    elif kind == "absu":
        need(0 <= v < 1 << (8 * n), "%s: relocation overflow (%#x)" % (what, v))
    b[off:off + n] = (v & ((1 << (8 * n)) - 1)).to_bytes(n, "little")


def apply(o, s, r, imagebase, strict=False):
    off, ty, sy, add = r
    P = s.addr + off
    if o.fmt == "macho64":
        t, pc, n, ext = ty
        v = get(s.out, off, n)
        if ext:
            a = o.syms[sy].addr
            need(a is not None, "unresolved %s" % o.syms[sy].name)
            if pc:
                need(t in (1, 2, 3, 4, 6, 7, 8), "pc-relative relocation type %d" % t)
                # the stored addend is relative to the end of the field (type SIGNED_n: to n bytes later)
                v = v + a - (P + n)
                put(s.out, off, n, v, "rel", s.name)
            else:
                need(t == 0, "absolute relocation type %d" % t)
                put(s.out, off, n, v + a, "abs", s.name)
        else:
            t2 = o.secs[sy]
            need(t2.addr is not None, "section not loaded")
            d = t2.addr - t2.vaddr
            if pc:
                # stored: target - next instruction in the object's own layout
                put(s.out, off, n, v + d - (s.addr - s.vaddr), "rel", s.name)
            else:
                put(s.out, off, n, v + d, "abs", s.name)
        return
    y = o.syms[sy]
    if o.fmt.startswith("elf"):
        k, n = (R64 if o.fmt == "elf64" else R32)[ty]
        need(y.addr is not None, "unresolved symbol %s" % y.name)
        if add is None:
            add = get(s.out, off, n)
        elif not strict:
            add += get(s.out, off, n)   # listed finding of C15: the addend stays in the contents
        v = y.addr + add - (P if k == "rel" else 0)
        if o.fmt == "elf32" and n == 4:
            v &= 0xffffffff
            k = "abs"
        put(s.out, off, n, v, k, s.name)
        return
    x = (C64 if o.fmt == "coff64" else C32)[ty]
    k, n = x[0], x[1]
    add = get(s.out, off, n)
    if k == "section":
        need(isinstance(y.sec, int), "SECTION relocation of %s" % y.name)
        put(s.out, off, 2, y.sec + add, "abs", s.name)
        return
    if k == "secrel":
        need(isinstance(y.sec, int), "SECREL relocation of %s" % y.name)
        put(s.out, off, 4, y.value + add, "abs", s.name)
        return
    need(y.addr is not None, "unresolved symbol %s" % y.name)
    if k == "rva":
        v, k = y.addr + add - imagebase, "abs"
    elif k == "rel":
        v = y.addr + add - (P + 4 + x[2])
        if o.fmt == "coff32":
            v, k = v & 0xffffffff, "abs"
    else:
        v = y.addr + add
        if n == 4 and o.fmt == "coff32":
            k = "abs"
        elif k == "absu":
            v = y.addr + (add & 0xffffffff if add >= 0 else add)
    put(s.out, off, n, v, k, s.name)
