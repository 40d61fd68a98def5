"""C15: ELF32 and ELF64 objects link to the image the source describes."""
import os, subprocess
from lib import modcheck, modgen
from lib.modcheck import ModProp


class P(ModProp):
    id = "C15"
    rule = "distinct modules with at least one reference that had to be relocated or resolved"
    counts = {"quick": 40000, "thorough": 300000}
    fmts = ("elf64", "elf32", "elf64")
    assumptions = ["ELF64: the addend of a relocation is taken as r_addend plus the bytes in place (listed finding: UASM leaves it in place)",
                   "lib/objload.py reads and relocates ELF by the gABI and psABI; every 12th module is linked by GNU ld as well"]

    def gen(self, c):
        g = super().gen(c)
        return g

    def attrs(self, m, s, q):
        fl = {"text": 6, "data": 3, "bss": 3, "const": 2}[s.kind]
        if q.flags & 7 != fl:
            return "flags", "flags %#x, expected %#x" % (q.flags, fl)
        if q.kind != (8 if s.kind == "bss" else 1):
            return "type", "sh_type %d" % q.kind
        if s.align is not None and q.align != s.align:
            return "alignment", "alignment %d, expected %d" % (q.align, s.align)

    def realld(self, m, d, omap, addr, ext, com, exp, base):
        if m.six and any(p[0] == "ref" and p[4] for s in m.secs for p in s.parts):
            return None         # the listed finding
        dir = self.r.dir
        with open(dir + "/ldin.o", "wb") as f:
            f.write(d)
        sc = ["SECTIONS {"]
        for i in sorted(omap, key=lambda i: addr[i]):
            sc.append("  %s 0x%x : { *(%s) }" % (("osec%d" % i), addr[i], m.secs[i].name))
        sc.append("  cmn 0x%x : { *(COMMON) }" % com)
        sc.append("  /DISCARD/ : { *(.note*) } }")
        for n, a in ext.items():
            sc.append("%s = 0x%x;" % (n, a))
        with open(dir + "/ld.x", "w") as f:
            f.write("\n".join(sc) + "\n")
        p = subprocess.run(["ld", "-m", "elf_x86_64" if m.six else "elf_i386", "-e", "0", "-T", "ld.x", "-o", "ldout", "--no-relax", "-z", "noexecstack", "--no-warn-rwx-segments", "ldin.o"], cwd=dir,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
        if p.returncode:
            return "failed", "ld: " + p.stdout.decode("latin1")[:500]
        out = modcheck.elfsections(open(dir + "/ldout", "rb").read())
        cm = any(y.vis == "com" for y in m.syms)
        for i in omap:
            s = m.secs[i]
            if not s.size or s.kind == "bss":
                continue
            a, z, b = out["osec%d" % i]
            e, k = exp[s]
            if a != addr[i] or z != s.size:
                return "place", "ld places %s at %#x (size %d), expected %#x (%d)" % (s.name, a, z, addr[i], s.size)
            if cm:
                # communals may be placed elsewhere by ld
                k = bytearray(k)
                at = 0
                for p in s.parts:
                    n = len(p[1]) if p[0] == "raw" else p[1]
                    if p[0] == "ref" and p[3].vis == "com":
                        k[at:at + n] = bytes(n)
                    at += n
            for j in range(len(e)):
                if k[j] and e[j] != b[j]:
                    return "contents", "section %s as linked by ld differs at %#x: %s, expected %s" % (s.name, j, b[j:j + 8].hex(), e[j:j + 8].hex())


PROP = P()
