"""C22: no input crashes, hangs or corrupts the assembler (sanitizer builds as oracle)."""
import os, re
from lib import pbt, progs, corpus, common

SPECIAL = ["(" * 30, ")" * 3, "<" * 20, ">" * 3, "!" * 5, "&&", "%%", "[[", "]]", "''", '"', "'", "\\", "\x01", "\x80", "\xff", "\t", ".", "..", "::", "$", "@@:", "@F", "@B", "@Line", "@FileCur", "?", "{", "}", "{k1}{z}", "{rn-sae}",
           "1e9999", "1.e", "0x", "0ffffffffffffffffffffffffh", "3F800000r", "0c", "-" * 40 + "1", "+" * 30, "not " * 20, "x" * 300, "1" * 300, "dup (", "1 dup (2 dup (3))", "<1,2,3>", "<<1>,<2>>", "proc", "endp", "macro", "endm",
           "struct", "ends", "union", "record a:3,b:5", "typedef ptr", "local", "uses", "frame", "invoke", "addr", "proto", "vararg", "label", "equ", "textequ", "catstr", "substr", "sizestr", "instr", "forc", "for", "repeat", "while",
           "exitm", "goto", "purge", "if", "else", "endif", "ifb", "ifdif", ".if", ".else", ".endif", ".while", ".endw", ".repeat", ".until", ".break", ".continue", ".switch", ".case", ".endswitch", ".for", ".endfor", "org", "align",
           "even", "assume", "group", "segment", "end", "comm", "extern", "public", "externdef", "option", "pushcontext", "popcontext", ".code", ".data", ".stack", ".const", ".model", "flat", "high", "low", "lroffset", "imagerel",
           "sectionrel", "offset", "seg", "type", "this", "short", "ptr", "near", "far", "mask", "width", "length", "lengthof", "size", "sizeof", "opattr", ".type", "highword", "lowword", "eq", "ne", "shl", "shr", "mod", "and", "or", "xor",
           "real4", "real10", "tbyte", "oword", "ymmword", "zmmword", "fword", "sdword", "@catstr(", "@instr(", "@substr(", "@sizestr(", "@environ(", "dotname", "casemap:none", "language:c", "prologue:none", "epilogue:none",
           ".radix 16", "include", "incbin", "echo", "title", ".err", ".errnz", ".listall", ".xlist", ".cref", ".startup", ".exit", "rip", "bcst", "xmm31", "k7", "bnd0", "cr8", "dr7", "tr3", "st", "st(7)", "mm0", "zmm0", "r8b", "sil", "ah"]
OPTS = [["-bin"], ["-mz"], ["-omf"], ["-coff"], ["-win64"], ["-elf"], ["-elf64"], ["-macho64"], ["-pe"]]
EXTRA = ["-Zd", "-Zi", "-Zi8", "-Zi3", "-Fl", "-Sa", "-Sg", "-Sn", "-Zm", "-Zne", "-Zg", "-Cp", "-Cu", "-Cx", "-Zp1", "-Zp8", "-Zp16", "-W4", "-Zf", "-EP", "-safeseh", "-zcw", "-zt0", "-zt2", "-zze", "-archAVX", "-Zs", "-3p", "-8", "-0", "-mf", "-ms",
         "-ml", "-mt", "-Gd", "-Gr", "-Gz", "-Gv", "-Gy", "-Ge", "-FPi", "-e5000", "-nomlib", "-less", "-eh" , "-Zv8", "-DX=1", "-DY", "-D_a=<b c>", "-Fd=t.def", "-pp", "-X"]
EXTRA = [e for e in EXTRA if e not in ("-X", "-pp", "-eh", "-less")]


# the sanitizers report signals; the program's own handler would hide the place
SAN = {k: common.ENV[k].replace("handle_segv=0:allow_user_segv_handler=1", "handle_segv=2:allow_user_segv_handler=0") for k in ("ASAN_OPTIONS", "MSAN_OPTIONS")}


def rawmut(c, s, n):
    """edits that take no account of the syntax"""
    for _ in range(n):
        if not s:
            return s
        i = c.below(len(s))
        k = c.int(0, 6)
        if k == 0:
            s = s[:i] + c.choice(SPECIAL) + s[i:]
        elif k == 1:
            s = s[:i] + s[i + c.int(1, 8):]
        elif k == 2:
            j = c.below(len(s))
            s = s[:i] + s[j:j + c.int(1, 40)] + s[i:]
        elif k == 3:
            s = s[:i] + chr(c.below(256)) + s[i + 1:]
        elif k == 4:
            m = re.search(r"\w+", s[i:])
            if m:
                s = s[:i + m.start()] + c.choice(SPECIAL) + s[i + m.end():]
        elif k == 5:
            e = s.find("\n", i)
            if e > 0:
                s = s[:i] + s[e:]
        else:
            m = re.search(r"\w+", s[i:])
            if m:
                s = s[:i + m.start()] + m.group(0) * c.choice([2, 3, 40, 130, 260]) + s[i + m.end():]
    return s


def site(out):
    """what failed and where: stable under line shifts"""
    m = re.search(r"(AddressSanitizer|MemorySanitizer): ([\w-]+)", out)
    fr = [f for f in re.findall(r"#\d+ \S+ in (\w+) /repo/", out)]
    if m:
        return "%s in %s" % (m.group(2), " < ".join(fr[:2]))
    return None


class P(pbt.Prop):
    id = "C22"
    rule = ("one case = a generated program, an example program or a splice of two, damaged by 0-12 token, line or byte edits, assembled with a random output format and options by the AddressSanitizer and the MemorySanitizer build; "
            "trivial: under 5 lines")
    kinds = ("o1", "asan", "msan")
    counts = {"quick": 12000, "thorough": 400000}
    assumptions = ["a run that takes more than 20 s counts as a hang unless the program asks for it (large repeat counts are not generated)"]

    def setup(self):
        self.cor = corpus.load(20000)

    def gen(self, c):
        k = c.int(0, 5)
        if k <= 1:
            p = progs.gen(c, None)
            opts, s = list(p.opts), p.text()
        else:
            n, o, s = c.choice(self.cor)
            opts = list(o)
            if k == 5:
                n2, o2, s2 = c.choice(self.cor)
                a, b = s.split("\n"), s2.split("\n")
                i, j = c.below(len(a)), c.below(len(b))
                s = "\n".join(a[:i] + b[j:j + c.int(1, 40)] + a[i:])
        if c.bool(1, 4):
            opts = list(c.choice(OPTS))
        if c.bool(1, 2):
            opts += c.sample(EXTRA, c.int(1, 3))
        s = corpus.mutate(c, s, c.choice([0, 0, 1, 1, 2, 3, 6]))
        s = rawmut(c, s, c.choice([0, 0, 0, 1, 2, 6]))
        return {"opts": opts, "src": s}

    def run(self, cs):
        s = cs["src"]
        kw = dict(labels=[cs["opts"][0]], key=cs, nontrivial=s.count("\n") >= 4, sample=(" ".join(cs["opts"]) + "\n" + s)[:500], files={"t.asm": s}, n=2)
        # the product as built, to see hangs
        if big(s):
            return pbt.V(None, labels=["asks for a long run"], nontrivial=False)
        for kind in ("asan", "msan"):
            r = self.r.asm(s, cs["opts"], timeout=20, exe=self.exe[kind], env=SAN)
            t = r.out.decode("latin1")
            w = site(t)
            if r.timeout:
                return pbt.V("%s: hang\n%s" % (cs["opts"], s), "hang", **kw)
            if w or "General Failure" in t or r.rc < 0 or r.rc in (98, 99):
                i = t.find("==ERROR")
                if i < 0:
                    i = t.find("==WARN")
                return pbt.V("%s %s: %s\n%s\n=====\n%s" % (kind, cs["opts"], w or "crash, status %d" % r.rc, t[max(i, 0):][:900], s), w or "crash", **kw)
            kw["labels"] = [cs["opts"][0], "ok" if r.rc == 0 else "errors"]
        return pbt.V(None, **kw)


def big(s):
    """loops and data whose size the program itself asks for"""
    for m in re.finditer(r"(?i)\b(repeat|rept|dup|while|goto|org|align|incbin|resv\w*|comm)\b[^\n]*", s):
        if re.search(r"(?i)\b[0-9][0-9a-f]{5,}|\b(while|goto)\b", m.group(0)):
            return True
    for m in re.finditer(r"(?i)\b([0-9a-f]{5,}h?)\s+dup\b", s):
        return True
    return False


PROP = P()
