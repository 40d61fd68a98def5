"""The repository's example sources with the options they are meant for, and line-level mutations of sources."""
import os, re
from . import common

DIRS = {"plain_bin": ["-bin"], "win64": ["-win64", "-Zp8"], "flat": ["-bin"], "coff": ["-coff"], "coffdbg": ["-coff", "-Zi"], "literals": ["-win64", "-Zp8"],
        "linux64": ["-elf64"], "macho64": ["-macho64"], "cinvoke": ["-coff"], "mz": ["-mz"], "flat16": ["-bin"], "avxerr": ["-bin"], "invoke64err": ["-win64", "-Zp8"],
        "CodeGenV2": ["-bin"], "CodeGenV2Error": ["-bin"], "codeview8_32": ["-coff", "-Zi8", "-Zd", "-Zf"], "codeview8_64": ["-win64", "-Zi8", "-Zd", "-Zf"],
        "vcall": ["-win64", "-Zp8"], "omf": ["-omf"], "omf2": ["-omf"], "omfcu": ["-omf"], "zd": ["-omf", "-Zd"], "zg": ["-omf", "-Zg"], "zne": ["-omf", "-Zne"], "elf": ["-elf"],
        "elf64": ["-elf64"], "systemv": ["-elf64"], "safeseh": ["-coff", "-safeseh"], "extern": ["-omf"], "ifdef": ["-bin"], "Xc": ["-omf"], "borland_register": ["-coff"],
        "crossplatform": ["-win64"], "directx": ["-win64"], "dllimp": ["-coff"], "oo": ["-win64", "-Zp8"]}
OUT = {"-bin": "t.BIN", "-mz": "t.EXE", "-pe": "t.EXE"}


def load(maxsize=1 << 20):
    r = []
    base = common.REPO + "/regress/src"
    if os.path.isdir(base):
        for d in sorted(os.listdir(base)):
            if d not in DIRS:
                continue
            for f in sorted(os.listdir(base + "/" + d)):
                if f.lower().endswith(".asm"):
                    t = open("%s/%s/%s" % (base, d, f), "rb").read().decode("latin1").replace("\r\n", "\n")
                    if len(t) <= maxsize and not re.search(r"(?im)^\s*(include|includelib|incbin)\b", t):
                        r.append((d + "/" + f, DIRS[d], t))
    return r


def outname(opts):
    return next((OUT[o] for o in opts if o in OUT), "t.obj")


def mutate(c, src, n):
    """n random line edits of a source"""
    L = src.split("\n")
    for _ in range(n):
        if not L:
            break
        i = c.below(len(L))
        k = c.int(0, 7)
        if k == 0:
            del L[i]
        elif k == 1:
            L.insert(c.below(len(L) + 1), L[i])
        elif k == 2:
            j = c.below(len(L))
            L[i], L[j] = L[j], L[i]
        else:
            t = re.findall(r"\w+|\s+|[^\w\s]", L[i])
            if not t:
                continue
            j = c.below(len(t))
            if k == 3:
                del t[j]
            elif k == 4:
                t.insert(j, t[c.below(len(t))])
            elif k == 5:
                o = re.findall(r"\w+|\s+|[^\w\s]", L[c.below(len(L))])
                if o:
                    t[j] = c.choice(o)
            elif k == 6:
                t[j] = c.choice(["0", "-1", "255", "0ffffh", "80000000h", "eax", "rax", "al", "[", "]", "(", ")", ",", ":", "<", ">", "&", "%", "!", "'", '"', ".", "$", "?", "dup", "ptr", "offset",
                                 "xmm31", "k1", "{k1}", "{z}", "st(1)", "cs:", "byte", "dword", "=", "equ", "end", "ends", "endp", "endm", "macro", "proc", "segment", "if", "endif", "db", ";"])
            elif k == 7:
                t = t[:j]
            L[i] = "".join(t)
    return "\n".join(L)
