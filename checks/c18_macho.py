"""C18: Mach-O 64 objects link to the image the source describes."""
from lib.modcheck import ModProp


class P(ModProp):
    id = "C18"
    rule = "distinct modules with at least one reference that had to be relocated or resolved"
    counts = {"quick": 40000, "thorough": 300000}
    fmts = ("macho64",)
    assumptions = ["lib/objload.py reads and relocates Mach-O by Apple's loader.h and reloc.h"]

    def attrs(self, m, s, q):
        return None


PROP = P()
