"""PE programs with imported and exported procedures: generator and reader of the import and export directories."""
import struct


class Bad(Exception):
    pass


def need(ok, sig, msg=""):
    if not ok:
        raise Bad(sig, msg)


class Mod:
    pass


def gen(c):
    m = Mod()
    m.six = six = c.bool()
    langs = ["stdcall", "c"] if not six else ["fastcall"]
    dl = c.choice(langs)
    o = [".x64" if six else ".686p", ".model flat, %s" % dl, "option casemap:none"] + ["option prologue:none", "option epilogue:none"] * (not six)
    if six:
        o.append(c.choice(["option win64:0", "option win64:3", "option win64:2"]))
    zze = c.bool(1, 4)
    names = ["Alpha", "alpha2", "Zed", "zed1", "_und", "B", "bb", "Middle_of_the_road", "mid", "A1", "a", "Q9", "x_y_z", "Close"]
    names = c.shuffle(names)
    m.imports, m.exports = [], []
    dlls = c.sample(["kernel32.dll", "USER32.DLL", "nodot", "my_lib.drv", "ws2_32.dll"], c.below(4))
    for d in dlls:
        o.append("option dllimport:<%s>" % d)
        for _ in range(c.int(1, 3)):
            f = "Imp" + names[0] + str(len(m.imports))
            names = names[1:] + names[:1]
            n = c.below(3)
            lang = c.choice(["", ""] + langs)
            o.append("%s proto %s %s" % (f, lang, ", ".join([":qword" if six else ":dword"] * n)))
            m.imports.append(dict(name=f, dll=d, n=n, used=False))
    if dlls:
        o.append("option dllimport:none")
    calls = []
    m.calls = []
    procs = []
    k = 0
    for i in range(c.int(1, 6)):
        nm = names[i]
        exp = c.bool(2, 3)
        lang = c.choice(["", ""] + (["stdcall", "c", "pascal", "syscall"] if not six else ["fastcall"]))
        n = c.below(3)
        b = ["%s proc %s %s %s" % (nm, lang, "export" if exp else "", ", ".join("a%d:%s" % (j, "qword" if six else "dword") for j in range(n))), "  mov eax, %d" % (0x5a110000 + i)]
        for _ in range(c.below(4)):
            if m.imports:
                f = c.choice(m.imports)
                f["used"] = True
                b += ["  mov eax, %d" % (0x5a220000 + k), "  invoke " + ", ".join([f["name"]] + [str(c.below(100)) for _ in range(f["n"])])]
                m.calls.append((0x5a220000 + k, f))
                k += 1
        b += ["  ret", "%s endp" % nm]
        procs.append(b)
        if exp:
            lg = lang or dl
            dec = {"stdcall": "_%s@%d" % (nm, 4 * n), "c": "_" + nm, "pascal": nm.upper(), "syscall": nm, "fastcall": nm}[lg]
            m.exports.append((nm if zze else dec, 0x5a110000 + i))
    data = c.bool()
    o += [".data", "d1 dd 5"] if data else []
    o.append(".code")
    for b in c.shuffle(procs):
        o += b
    o.append("start:")
    o.append("  ret")
    m.text = "\n".join(o) + "\nend start\n"
    m.out = c.choice(["t.EXE", "t.EXE", "out/u.exe", "some.dll"])
    m.opts = ["-q", "-pe"] + (["-zze"] if zze else []) + (["-Fo" + m.out] if m.out != "t.EXE" else [])
    return m


def cstr(b, p, what):
    need(0 < p < len(b), what, "address %#x" % p)
    e = b.find(b"\0", p)
    need(e >= 0, what, "unterminated")
    return b[p:e].decode("latin1")


def image(d):
    pe, = struct.unpack_from("<I", d, 0x3c)
    need(d[pe:pe + 4] == b"PE\0\0", "signature")
    ns, = struct.unpack_from("<H", d, pe + 6)
    oh, = struct.unpack_from("<H", d, pe + 20)
    six = struct.unpack_from("<H", d, pe + 24)[0] == 0x20b
    sz, = struct.unpack_from("<I", d, pe + 24 + 56)
    dd = pe + 24 + (112 if six else 96)
    dirs = [struct.unpack_from("<II", d, dd + 8 * i) for i in range(16)]
    img = bytearray(sz)
    code = []
    for i in range(ns):
        n, vs, va, rs, rp, _, _, _, _, fl = struct.unpack_from("<8sIIIIIIHHI", d, pe + 24 + oh + 40 * i)
        need(va + vs <= sz and rp + rs <= len(d), "section outside", "%r" % n)
        img[va:va + min(vs, rs)] = d[rp:rp + min(vs, rs)]
        if fl & 0x20000000:
            code.append((va, va + vs))
    return bytes(img), dirs, code, six


def check(m, d):
    img, dirs, code, six = image(d)
    need(six == m.six, "magic")
    ib = 0x400000
    # ---- exports
    va, sz = dirs[0]
    if not m.exports:
        need((va, sz) == (0, 0), "export directory", "%#x %#x without exports" % (va, sz))
    else:
        need(va and va + 40 <= len(img), "export directory", "%#x" % va)
        fl, ts, ver, nm, base, nf, nn, pf, pn, po = struct.unpack_from("<IIIIIIIIII", img, va)
        need(nf == nn == len(m.exports) and base == 1, "export counts", "%d functions, %d names, base %d; %d are exported" % (nf, nn, base, len(m.exports)))
        n = cstr(img, nm, "module name")
        need(n == m.out.split("/")[-1], "module name", "%r, the file is %s" % (n, m.out))
        need(va + sz > nm >= va, "export directory size", "%#x bytes at %#x, the name is at %#x" % (sz, va, nm))
        got = []
        seen = set()
        for i in range(nn):
            a, = struct.unpack_from("<I", img, pn + 4 * i)
            q, = struct.unpack_from("<H", img, po + 2 * i)
            need(q < nf and q not in seen, "export ordinal", "%d" % q)
            seen.add(q)
            f, = struct.unpack_from("<I", img, pf + 4 * q)
            s = cstr(img, a, "export name")
            need(any(x <= f < y for x, y in code), "export address", "%s at %#x" % (s, f))
            j = img.find(b"\xb8", f)
            # the marker is the first instruction after the prologue
            got.append((s, struct.unpack_from("<I", img, next(j for j in range(f, f + 40) if img[j] == 0xb8 and img[j + 3:j + 5] == b"\x11\x5a") + 1)[0]))
        need([s for s, _ in got] == sorted(s for s, _ in got), "export names unsorted", "%s" % got)
        need(sorted(got) == sorted(m.exports), "exports", "%s, expected %s" % (got, sorted(m.exports)))
    # ---- imports
    used = [f for f in m.imports if f["used"]]
    va, sz = dirs[1]
    slots = {}
    w = 8 if six else 4
    if not used:
        need((va, sz) == (0, 0) and dirs[12] == (0, 0), "import directory", "%#x %#x without imports" % (va, sz))
    else:
        tab = {}
        p = va
        while True:
            need(p + 20 <= len(img), "import directory", "no end")
            ilt, ts, fc, nm, iat = struct.unpack_from("<IIIII", img, p)
            p += 20
            if not (ilt or ts or fc or nm or iat):
                break
            need(ts == 0 and fc == 0, "import entry", "%#x %#x" % (ts, fc))
            n = cstr(img, nm, "dll name")
            need(n not in tab, "dll twice", n)
            tab[n] = []
            i = 0
            while True:
                a = int.from_bytes(img[ilt + w * i:ilt + w * i + w], "little")
                b = int.from_bytes(img[iat + w * i:iat + w * i + w], "little")
                need(a == b, "lookup table", "%s entry %d: lookup table %#x, address table %#x" % (n, i, a, b))
                if not a:
                    break
                need(a % 2 == 0 and a >> 31 == 0, "hint", "%#x" % a)
                s = cstr(img, a + 2, "import name")
                tab[n].append(s)
                slots[iat + w * i] = s
                x, y = dirs[12]
                need(x <= iat + w * i < x + y, "address table directory", "slot %#x outside %#x+%#x" % (iat + w * i, x, y))
                i += 1
        need(p - va == sz or sz >= p - va, "import directory size", "%#x, the entries take %#x" % (sz, p - va))
        want = {}
        for f in used:
            want.setdefault(f["dll"], []).append(f["name"])
        need({k: sorted(v) for k, v in tab.items()} == {k: sorted(v) for k, v in want.items()}, "imports", "%s, expected %s" % (tab, want))
    # ---- calls
    for mk, f in m.calls:
        b = b"\xb8" + struct.pack("<I", mk)
        l = [i for x, y in code for i in range(x, y) if img[i:i + 5] == b]
        need(len(l) == 1, "marker", "%#x" % mk)
        q = img.find(b"\xff\x15", l[0] + 5)
        need(0 < q < l[0] + 60, "call", "no call of %s" % f["name"])
        a = struct.unpack_from("<i", img, q + 2)[0]
        a = a + q + 6 if six else a - ib
        need(slots.get(a) == f["name"], "called slot", "call of %s goes through %#x (%s)" % (f["name"], a, slots.get(a)))
