"""Generates segmented (non-flat) modules for OMF with an exact model: segments in groups,
16- and 32-bit, far pointers, segment values, ASSUMEs, absolute segments, big data."""


class Seg:
    pass


class Sym:
    pass


class Mod:
    pass


# 16-bit offset size code: (text, bytes, kind, trailing, need)   {P} is the segment override
C16 = [
    ("mov ax, word ptr {S}{A}", "a1", "ds", "", "d"), ("mov al, byte ptr {S}{A}", "a0", "ds", "", "d"), ("mov byte ptr {S}{A}, al", "a2", "ds", "", "d"),
    ("mov cl, byte ptr {S}{A}", "8a0e", "ds", "", "d"), ("mov word ptr {S}{A}, 1234h", "c706", "ds", "3412", "d"), ("inc byte ptr {S}{A}", "fe06", "ds", "", "d"),
    ("push word ptr {S}{A}", "ff36", "ds", "", "d"), ("les di, dword ptr {S}{A}", "c43e", "ds", "", "d"), ("cmp word ptr {S}{A}, 3", "833e", "ds", "03", "d"),
    ("mov ax, word ptr {S}[bx{A}]", "8b87", "ds", "", "d"), ("add word ptr {S}[si{A}], 1000h", "8184", "ds", "0010", "d"),
    ("lea si, {S}{A}", "8d36", "ds-", "", "e"), ("test byte ptr {S}{A}, 7", "f606", "ds", "07", "d"), ("jmp dword ptr {S}{A}", "ff2e", "ds", "", "d"),
    ("mov eax, dword ptr {S}{A}", "66a1", "ds", "", "d"), ("mov dword ptr {S}{A}, 12345678h", "66c706", "ds", "78563412", "d"),
    ("mov ax, offset {S}{A}", "b8", "off", "", "*16"), ("mov bx, offset {S}{A}", "bb", "off", "", "*16"), ("push offset {S}{A}", "68", "off", "", "*16"),
    ("add dx, offset {S}{A}", "81c2", "off", "", "*16"), ("mov word ptr [bx], offset {S}{A}", "c707", "off", "", "*16"),
    ("mov ax, seg {S}", "b8", "seg", "", "*"), ("mov dx, seg {S}", "ba", "seg", "", "*"), ("push seg {S}", "68", "seg", "", "*"),
    ("call {S}", "e8", "rel", "", "n"), ("jmp {S}", "e9", "rel", "", "n"),
    ("call far ptr {S}", "9a", "ptr", "", "f16"), ("jmp far ptr {S}", "ea", "ptr", "", "f16"), ("call {S}", "9a", "ptr", "", "F16"),
]
C32 = [
    ("mov eax, dword ptr {S}{A}", "a1", "ds", "", "d"), ("mov byte ptr {S}{A}, al", "a2", "ds", "", "d"), ("mov cl, byte ptr {S}{A}", "8a0d", "ds", "", "d"),
    ("mov dword ptr {S}{A}, 12345678h", "c705", "ds", "78563412", "d"), ("cmp word ptr {S}{A}, 3", "66833d", "ds", "03", "d"), ("mov eax, dword ptr {S}[ebx*4{A}]", "8b049d", "ds", "", "d"),
    ("lea esi, {S}{A}", "8d35", "ds-", "", "e"), ("les edi, fword ptr {S}{A}", "c43d", "ds", "", "d"), ("mov ax, word ptr {S}{A}", "66a1", "ds", "", "d"),
    ("push dword ptr {S}{A}", "ff35", "ds", "", "d"), ("test byte ptr {S}{A}, 7", "f605", "ds", "07", "d"),
    ("mov eax, offset {S}{A}", "b8", "off", "", "*"), ("push offset {S}{A}", "68", "off", "", "*32"), ("add edx, offset {S}{A}", "81c2", "off", "", "*"),
    ("mov dword ptr [ebx], offset {S}{A}", "c703", "off", "", "*"),
    ("mov ax, seg {S}", "66b8", "seg", "", "*"),
    ("call {S}", "e8", "rel", "", "n"), ("jmp {S}", "e9", "rel", "", "n"), ("jz {S}", "0f84", "rel", "", "n"),
    ("call far ptr {S}", "9a", "ptr", "", "f32"), ("jmp far ptr {S}", "ea", "ptr", "", "f32"), ("call {S}", "9a", "ptr", "", "F32"),
]
D16 = [("dw {S}{A}", "off", 2, "*16"), ("dw offset {S}{A}", "off", 2, "*16"), ("dw seg {S}", "seg", 2, "*"), ("dd {S}{A}", "ptr", 4, "*16"), ("dd {S}", "ptr", 4, "*16"), ("word offset {S}{A}", "off", 2, "*16"),
       ("db low offset {S}", "lo", 1, "*16"), ("db high offset {S}", "hi", 1, "*16"), ("df {S}{A}", "ptr", 6, "*32")]
D32 = [("dd {S}{A}", "off", 4, "*"), ("dd offset {S}{A}", "off", 4, "*"), ("dw seg {S}", "seg", 2, "*"), ("df {S}{A}", "ptr", 6, "*32"), ("dw offset {S}{A}", "off", 2, "*16"), ("dd offset {S}", "off", 4, "*")]


def gen(c, fmt="omf"):
    m = Mod()
    has32 = c.bool(2, 5)
    m.has32 = has32
    segs = []
    nseg = c.choice([2, 3, 3, 4, 5, 7])
    many = c.bool(1, 25)
    if many:
        nseg = c.choice([126, 127, 128, 129, 140, 300])
    npre = c.choice(["_SEG", "S", "a_long_segment_name_", "seg"])
    used = []
    for i in range(nseg):
        s = Seg()
        s.name = "%s%d" % (npre, i)
        s.code = i == 0 or c.bool(1, 4)
        s.use32 = has32 and c.bool()
        s.aname, s.align = c.choice([("byte", 1), ("word", 2), ("dword", 4), ("para", 16), ("page", 256), ("", 16), ("word", 2)])
        s.cname, s.combine = c.choice([("", 0), ("private", 0), ("public", 2), ("public", 2), ("stack", 5), ("common", 6), ("memory", 2)]) if i else c.choice([("public", 2), ("", 0)])
        s.cls = "CODE" if s.code else c.choice(["DATA", "FAR_DATA", "MyClass", "A_LONGER_CLASS_NAME_THAN_USUAL"]) if c.bool(4, 5) else ""
        if s.code and not s.cls:
            s.cls = "CODE"
        s.at = None
        if i and not s.code and c.bool(1, 10):
            s.at = c.choice([0x40, 0, 0xb800, 0x1234, 0xf000])
            s.cname, s.combine, s.aname, s.align, s.use32 = "at 0%xh" % s.at, 0, "", None, False
        s.parts, s.size, s.group = [], 0, None
        s.opened = False
        segs.append(s)
    m.segs = segs
    m.groups = {}
    m.fmt = fmt
    for g in range(c.below(3)):
        u = c.choice([True, False]) if has32 else False
        l = [s for s in segs if s.group is None and s.at is None and s.use32 == u and not (s.code and c.bool(2, 3))]
        l = c.sample(l, min(len(l), c.choice([1, 2, 2, 3, 200])))
        if fmt != "omf":
            l.sort(key=lambda s: segs.index(s))     # in the order of the image
            while any(x.at is None for x in segs[segs.index(l[0]):segs.index(l[-1]) + 1] if x not in l) if l else False:
                l.pop()
        if not l:
            continue
        n = c.choice(["DGROUP", "MYGRP%d"]) if not m.groups else "MYGRP%d"
        n = n % g if "%" in n else n
        m.groups[n] = l
        for s in l:
            s.group = n
    # ---- symbols
    syms = []
    pre = c.choice(["L", "lab_", "A_rather_long_label_name_", "x@y"])
    for k in range(c.choice([2, 4, 7, 10]) if not many else 60):
        y = Sym()
        y.name, y.seg, y.off = "%s%d" % (pre, k), c.choice(segs), None
        y.cls = "c" if y.seg.code and c.bool(2, 3) else "d"
        y.public = c.bool(1, 3)
        y.ext = None
        y.far = y.export = False
        y.proc = y.cls == "c" and c.bool(1, 2)
        if y.proc:
            y.far = c.bool()
            y.export = fmt == "omf" and y.public and y.far and c.bool(1, 2)
        syms.append(y)
    next_ = c.choice([0, 1, 2, 4]) if fmt == "omf" else 0
    if fmt == "omf" and c.bool(1, 25):
        next_ = c.choice([126, 127, 128, 130, 200])
    for k in range(next_):
        y = Sym()
        y.name, y.off, y.public = c.choice(["ext%d", "an_external_%d"]) % k, None, False
        y.cls = c.choice("cd")
        y.far = y.cls == "c" and c.bool()
        y.seg = c.choice(segs) if c.bool() or (y.cls == "c" and not y.far) else None
        if y.seg is not None and (y.seg.at is not None):
            y.seg = segs[0]
        y.inside = y.seg is not None
        y.ext = "ext"
        y.typ = c.choice(["byte", "word", "dword"])
        syms.append(y)
    for k in range(c.below(3) if fmt == "omf" else 0):
        y = Sym()
        t = c.choice([("byte", 1), ("word", 2), ("dword", 4)])
        n = c.choice([1, 1, 3, 100, 127, 128, 129, 300, 40000, 70000])
        y.name, y.cls, y.seg, y.off, y.public, y.far = "common%d" % k, "d", None, None, False, False
        y.ext, y.comfar, y.esize, y.count, y.typ = "com", c.bool(), t[1], n, t[0]
        y.inside = False
        syms.append(y)
    m.syms = syms
    # without a segment: the default size of the CPU
    use32 = lambda y: y.seg.use32 if y.seg else has32

    def cand(need, s):
        w = need[0]
        l = syms
        if need.endswith("16"):
            l = [y for y in l if not use32(y)]
        if need.endswith("32"):
            l = [y for y in l if use32(y)]
        if w == "d":
            l = [y for y in l if y.cls == "d" and assumed(y) is not None]
        elif w == "e":
            l = [y for y in l if y.cls == "d"]
        elif w == "n":      # near: a label of this segment or a near external of it
            l = [y for y in l if y.cls == "c" and y.seg is s and not y.far]
        elif w == "f":      # forced far: other segments or far externals
            l = [y for y in l if y.cls == "c" and (y.seg is not s) and not (y.seg and y.seg.group and y.seg.group == s.group)]
        elif w == "F":
            l = [y for y in l if y.cls == "c" and y.far and (y.seg is not s) and not (y.seg and y.seg.group and y.seg.group == s.group) and (y.ext or y.off is not None)]
        return l
    head, out = [], []
    head.append(".386" if True else "")
    state = {"cur": None, "ds": None, "es": None}

    def enter(s):
        if state["cur"] is s:
            return
        if state["cur"] is not None:
            out.append("%s ends" % state["cur"].name)
        if s.opened:
            out.append("%s segment" % s.name)
        else:
            a = ["%s segment" % s.name, s.aname if s.at is None else "", s.cname, ("use32" if s.use32 else "use16") if has32 else c.choice(["", ""]), "'%s'" % s.cls if s.cls else ""]
            out.append(" ".join(x for x in a if x))
            s.opened = True
            for y in syms:
                if y.ext == "ext" and y.seg is s:
                    out.append("extrn %s:%s" % (y.name, ("far" if y.far else "near") if y.cls == "c" else y.typ))
        state["csg"] = None
        if s.code:
            t = s.name
            if s.group and c.bool():
                t = s.group
            out.append("assume cs:%s" % t)
            state["csg"] = t
        state["cur"] = s

    def covers(t, y):
        """does the assumed thing t give access to symbol y?"""
        if t is None or y.seg is None:
            return False
        return t == y.seg.name or t == y.seg.group

    def assumed(y):
        """(prefix, frame name) or None when not addressable without knowing more"""
        if y.seg is None or (y.ext == "com"):
            if y.ext == "com" and not y.comfar:
                return None
            return None if state["ds"] is None else None
        if covers(state["ds"], y):
            return "", state["ds"]
        rest = (("es", "26"), ("csg", "2e"))
        for r, p in rest:
            if state.get(r) == y.seg.name:
                return p, state[r]
        for r, p in rest:
            if covers(state.get(r), y):
                return p, state[r]
        return None

    def raw(s, b, known=True):
        s.parts.append(("raw", bytes(b), known))
        s.size += len(b)

    def frame(y):
        """the frame name of a symbol's own address"""
        if y.seg is None:
            return "@" + y.name
        return y.seg.group or y.seg.name

    def ref(s, kind, size, y, a, fr):
        s.parts.append(("ref", size, kind, y, a, fr))
        s.size += size

    def place(y, s):
        y.off = s.size
        if y.cls == "c":
            if y.proc:
                out.append("%s proc %s" % (y.name, "far" if y.far else "near") + (" export" if y.export else "" if y.public else " private"))
                out.append("  nop")
                raw(s, b"\x90")
                out.append("%s endp" % y.name)
            else:
                out.append("%s:" % y.name)
            return
        n = c.choice([("db", 1), ("dw", 2), ("dd", 4)])
        if s.at is not None:
            out.append("%s %s ?" % (y.name, n[0]))
            raw(s, bytes(n[1]), False)
        elif c.bool(1, 6):
            out.append("%s label %s" % (y.name, c.choice(["byte", "word"])))
        else:
            v = c.below(250)
            out.append("%s %s %d" % (y.name, n[0], v))
            raw(s, v.to_bytes(n[1], "little"))
    pending = [y for y in syms if not y.ext]
    order = segs if many else None
    m.org = 0
    # open the segments once in order so that groups and frames are known
    for s in segs:
        enter(s)
        if s is segs[0] and fmt == "bin" and c.bool(1, 3):
            m.org = c.choice([0x100, 0x7c00, 0x100 if s.group else 1])
            out.append("  org %d" % m.org)
            s.size = m.org
        if many or c.bool() or fmt != "omf" and (s.group or s is segs[0]):
            raw(s, b"\x11") if s.at is None else None
            if s.at is None:
                out.append("  db 11h")
        if c.bool():
            mine = [y for y in pending if y.seg is s]
            if mine:
                pending.remove(mine[0])
                place(mine[0], s)
    for step in range(c.int(4, 40)):
        if c.bool(1, 6):
            r = c.choice(["ds", "es"])
            t = c.choice([None] + [s.name for s in segs[:10]] + list(m.groups) * 2)
            state[r] = t
            out.append("assume %s:%s" % (r, t or "nothing"))
            continue
        s = c.choice(segs) if c.bool(1, 4) else state["cur"]
        enter(s)
        mine = [y for y in pending if y.seg is s]
        if mine and c.bool(1, 2):
            pending.remove(mine[0])
            place(mine[0], s)
            continue
        k = c.below(10)
        osz = 4 if s.use32 else 2
        if s.at is not None:
            n = c.choice([1, 2, 7])
            if c.bool():
                out.append("  db %d dup (?)" % n)
            else:
                out.append("  org $+%d" % n)
            raw(s, bytes(n), False)
        elif s.code and k < 7:
            for _ in range(6):
                t = c.choice(C32 if s.use32 else C16)
                l = cand(t[4], s)
                if not l:
                    continue
                y = c.choice(l)
                a = c.choice([0, 0, 0, 1, 8, 100, -1, -8, 0x1234]) if "{A}" in t[0] else 0
                pb = bytes.fromhex(t[1])
                fr = frame(y)
                kind = t[2]
                if fmt == "bin" and kind in ("seg", "ptr"):
                    continue
                if pb[:1] == b"\x66" and not has32:
                    continue
                if kind.startswith("ds"):
                    p, fr = assumed(y) if kind == "ds" else ("", frame(y))
                    w = osz
                    if use32(y) != s.use32:
                        continue
                    if kind == "ds":
                        pb = bytes.fromhex(p) + pb
                    kind = "off"
                    tx = t[0].format(S=y.name, A="%+d" % a if a else "")
                elif kind == "off":
                    w = osz
                    if "{A}" in t[0] and y.seg and y.seg.group and c.bool(1, 5):
                        fr = y.seg.name
                        tx = t[0].format(S=fr + ":" + y.name, A="%+d" % a if a else "")
                    else:
                        tx = t[0].format(S=y.name, A="%+d" % a if a else "")
                elif kind == "seg":
                    w = 2
                    tx = t[0].format(S=y.name)
                elif kind == "rel":
                    if y.ext != "ext" and (y.off is not None and "jmp" in t[0] or "jz" in t[0]):
                        continue
                    if y.ext != "ext" and "call" not in t[0]:
                        continue
                    w = osz
                    tx = t[0].format(S=y.name)
                else:
                    w = osz + 2
                    if use32(y) != s.use32:
                        continue
                    tx = t[0].format(S=y.name)
                if kind == "seg" and c.bool(1, 4) and y.seg:
                    # the segment or group by its own name
                    fr = c.choice([y.seg.name] + ([y.seg.group] if y.seg.group else []))
                    tx = t[0].replace("seg ", "").format(S=fr)
                out.append("  " + tx)
                # 66h comes before the segment override in UASM's order; accept that order
                if pb[:1] in b"\x26\x2e" and pb[1:2] == b"\x66":
                    pb = b"\x66" + pb[:1] + pb[2:]
                raw(s, pb)
                ref(s, kind, w, y, a, fr)
                if t[3]:
                    raw(s, bytes.fromhex(t[3]))
                break
        elif not s.code and k < 6:
            for _ in range(6):
                t = c.choice(D32 if s.use32 else D16)
                l = cand(t[3], s)
                if not l:
                    continue
                y = c.choice(l)
                a = c.choice([0, 0, 1, 8, 100, -1, -8, 0x1234]) if "{A}" in t[0] else 0
                fr = frame(y)
                if fmt == "bin" and t[1] in ("seg", "ptr"):
                    continue
                if y.ext == "com" and t[1] == "seg":
                    pass
                e = y.name + ("%+d" % a if a else "")
                tx = t[0].format(S=y.name, A="%+d" % a if a else "")
                n = 1
                if c.bool(1, 6):
                    d, x = tx.split(" ", 1)
                    n = c.choice([2, 3, 400])
                    tx = "%s %d dup (%s)" % (d, n, x)
                out.append("  " + tx)
                for _ in range(n):
                    if t[1] == "off" and t[2] == 4 and not use32(y):
                        # a 16-bit offset: the upper half is left open
                        ref(s, "off", 2, y, a, fr)
                        raw(s, bytes(2), False)
                        continue
                    ref(s, t[1], t[2], y, a, fr)
                break
        elif k == 7:
            n = c.choice([2, 4, 8])
            if n <= s.align and (s.align % n == 0):
                out.append("  align %d" % n)
                raw(s, bytes(-s.size % n), False)
        elif k == 8 and not s.code:
            n = c.choice([1, 5, 100, 1017, 1020, 1024, 2000])
            if c.bool() or fmt != "omf" and not any(p[0] == "ref" or p[2] for p in s.parts):
                out.append("  db %d dup (?)" % n)
                raw(s, bytes(n), False)
            else:
                out.append("  org $+%d" % n)
                raw(s, bytes(n), False)
                out.append("  db 77h")
                raw(s, b"\x77")
        elif k == 9 and c.bool():
            n = c.choice([1000, 1015, 1016, 1017, 1018, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 2047, 3000])
            v = c.below(256)
            out.append("  db %d dup (%d)" % (n, v))
            raw(s, bytes([v]) * n)
        else:
            b = [c.below(256) for _ in range(c.int(1, 9))]
            out.append("  db " + ",".join(map(str, b)))
            raw(s, b)
    for y in pending:
        enter(y.seg)
        place(y, y.seg)
    s = c.choice(segs)
    m.fill = None
    if not s.at and c.bool(1, 20):
        # a segment that is exactly 64 kB, or just below
        n = c.choice([65536, 65535, 65536]) - s.size
        if n > 0:
            enter(s)
            out.append("  db %d dup (?)" % n)
            raw(s, bytes(n), False)
    if state["cur"] is not None:
        out.append("%s ends" % state["cur"].name)
    for n, l in m.groups.items():
        for s in l:
            pass
    # the segments must be known in this order: declare the groups first
    for y in syms:
        if y.public and not y.proc:
            head.append("public %s" % y.name)
        elif y.ext == "ext" and y.seg is None:
            head.append("%s %s:%s" % (c.choice(["extrn", "externdef"]) if False else "extrn", y.name, ("far" if y.far else "near") if y.cls == "c" else y.typ))
        elif y.ext == "com":
            head.append("comm %s %s:%s%s" % ("far" if y.comfar else "near", y.name, y.typ, ":%d" % y.count if y.count > 1 else ""))
        elif y.public and c.bool():
            head.append("public %s" % y.name)
    for n, l in m.groups.items():
        if len(l) > 8:
            for i in range(0, len(l), 8):
                head.append("%s group %s" % (n, ", ".join(s.name for s in l[i:i + 8])))
        else:
            head.append("%s group %s" % (n, ", ".join(s.name for s in l)))
    m.consts = {}
    tail = []
    if c.bool(1, 4):
        v = c.choice([0, 1, 5, 0x1234])
        tail.append("public aconst")
        tail.append("aconst equ %d" % v)
        m.consts["aconst"] = v
    m.start = None
    l = [y for y in syms if y.cls == "c" and y.ext is None]
    if fmt == "bin":
        l = []
    if l and (c.bool() or fmt == "mz"):
        m.start = c.choice(l)
    m.head = head
    m.text = (".386" if has32 else ".286") + "\noption casemap:none\n" + "\n".join(head[1:] + out + tail) + "\nend%s\n" % (" " + m.start.name if m.start else "")
    m.opts = ["-q", "-" + fmt] + (c.choice([[], [], ["-zlc"], ["-zld"]]) if fmt == "omf" else [])
    return m
