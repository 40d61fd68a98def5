"""C16: COFF32 and COFF64 objects link to the image the source describes."""
import re, subprocess
from lib import modcheck
from lib.modcheck import ModProp


class P(ModProp):
    id = "C16"
    rule = "distinct modules with at least one reference that had to be relocated or resolved"
    counts = {"quick": 20000, "thorough": 300000}
    fmts = ("coff64", "coff32", "coff64")
    assumptions = ["lib/objload.py reads and relocates COFF by the PE/COFF specification; every 12th module is linked by GNU ld (i386pep/i386pe) as well"]

    def attrs(self, m, s, q):
        fl = {"text": 0x60000020, "data": 0xc0000040, "bss": 0xc0000080, "const": 0x40000040}[s.kind]
        if len(q.relocs) > 0xffff:
            fl |= 0x01000000
        if q.flags & 0xff0000ff & ~8 != fl:
            return "flags", "characteristics %#x, expected %#x" % (q.flags, fl)
        if s.align is not None and q.align != s.align:
            return "alignment", "alignment %d, expected %d" % (q.align, s.align)

    def symbols(self, m, o, omap):
        e = ModProp.symbols(self, m, o, omap)
        if e:
            return e
        l = list(o.syms.values())
        for y in m.syms:
            if getattr(y, "procpriv", False) and y.vis == "local" and "-zlp" not in m.opts:
                if not [g for g in l if g.name == y.name and g.cl == 3 and g.ctype == 0x20]:
                    return "static", "no static symbol for the private procedure %s" % y.name
        if [g for g in l if g.name == ".file"] != l[:1] if "-zlf" not in m.opts else any(g.name == ".file" for g in l):
            return "file", "options %s, .file symbols: %r" % (m.opts, [g for g in l if g.name == ".file"])
        dr = b" ".join(bytes(q.data) for q in o.bysec(".drectve")).decode("latin1")
        dr = re.findall(r'(?:[^\s"]|"[^"]*")+', dr)
        w = ["-export:%s" % y.name + ("=" + y.name if "-zze" in m.opts else "") for y in m.syms if y.export]
        w += ["-defaultlib:%s" % ('"%s"' % x if " " in x else x) for x in m.libs]
        if m.entry:
            w.append("-entry:" + m.entry.name)
        if sorted(dr) != sorted(w):
            return "directives", "directives %s, expected %s" % (dr, w)
        for i, q in omap.items():
            n = [g for g in l if g.sec == q.index and g.name == q.name and g.cl == 3]
            if len(n) != 1 or bool(n[0].extra) != ("-zls" not in m.opts):
                return "section symbol", "options %s: section symbols of %s: %r" % (m.opts, q.name, n)

    def realld(self, m, d, omap, addr, ext, com, exp, base):
        ib = 0x400000
        if any(y.export for y in m.syms) or any(p[0] == "ref" and p[2] == "secrel" for s in m.secs for p in s.parts):
            return None         # exports need the name decorated; offsets in ld's output sections start at its own section
        dir = self.r.dir
        with open(dir + "/ldin.o", "wb") as f:
            f.write(d)
        sc = ["SECTIONS {"]
        # sections one after another at page boundaries
        at = ib + 0x1000
        plc = {}
        used = [i for i in omap if m.secs[i].size and m.secs[i].kind != "bss"]
        bss = [i for i in omap if i not in used]
        for i in used + bss:
            plc[i] = at
            sc.append("  .o%d 0x%x : { *(%s) }" % (i, at, m.secs[i].name))
            at += (m.secs[i].size + 0xfff) // 0x1000 * 0x1000 + 0x1000
        sc.append("  .cmn 0x%x : { *(COMMON) }" % at)
        sc.append("  /DISCARD/ : { *(.drectve) *(.debug*) } }")
        at += 0x10000
        e2 = {n: at + 64 * k for k, n in enumerate(ext)}
        # undefined externals of a PE link are resolved by definitions in the script
        for n, a in e2.items():
            sc.append("%s = 0x%x;" % (n, a))
        with open(dir + "/ld.x", "w") as f:
            f.write("\n".join(sc) + "\n")
        p = subprocess.run(["x86_64-w64-mingw32-ld", "-m", "i386pep" if m.six else "i386pe", "-e", "0", "--image-base", "0x%x" % ib, "--file-alignment", "512", "--section-alignment", "4096",
                            "-T", "ld.x", "-o", "ldout", "--disable-dynamicbase", "--disable-reloc-section", "--no-insert-timestamp", "ldin.o"], cwd=dir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
        if p.returncode:
            return "failed", "ld: " + p.stdout.decode("latin1")[:500]
        out = modcheck.pesections(open(dir + "/ldout", "rb").read())
        nb = {m.secs[i]: a for i, a in plc.items()}
        from lib import modgen
        for s in m.secs:
            nb.setdefault(s, 0)

        def symaddr(y):
            if y.alt is not None and y.name not in e2:
                return symaddr(y.alt)
            return nb[y.sec] + y.off if y.sec is not None else e2.get(y.name, 0)
        exp = modgen.expected(m, nb, symaddr, ib)
        for i in used:
            s = m.secs[i]
            if ".o%d" % i not in out:
                return "lost", "ld has no section %s" % s.name
            a, z, b = out[".o%d" % i]
            e, k = exp[s]
            k = bytearray(k)
            pos = 0
            for q in s.parts:
                n = len(q[1]) if q[0] == "raw" else q[1]
                if q[0] == "ref" and q[3].vis == "com":
                    k[pos:pos + n] = bytes(n)
                pos += n
            if a != plc[i]:
                return "place", "ld places %s at %#x, expected %#x" % (s.name, a, plc[i])
            for j in range(len(e)):
                if k[j] and (j >= len(b) or e[j] != b[j]):
                    return "contents", "section %s as linked by ld differs at %#x: %s, expected %s" % (s.name, j, b[j:j + 8].hex(), e[j:j + 8].hex())


PROP = P()
