"""From an assembled object to an image the runner can execute."""
from . import objload, execlib


def build(objs, base=execlib.IMG, ext=None, room=0x4000, order=None):
    """places every allocated section one after the other; returns (image, mapsize, globals)"""
    at = [base]

    def loaded(o, s):
        if o.fmt.startswith("elf"):
            return bool(s.flags & 2)
        if o.fmt.startswith("coff"):
            return not s.linkinfo and not s.flags & 0x800 and s.name != ".drectve" and not s.name.startswith(".debug")
        return True
    addr = {}
    for oi, o in enumerate(objs):
        for i in sorted(o.secs):
            s = o.secs[i]
            if loaded(o, s):
                at[0] = (at[0] + s.align - 1) // s.align * s.align
                addr[oi, i] = at[0]
                at[0] += s.size
    end = at[0]
    cb = (end + 4095) & ~63
    glob = objload.link(objs, lambda oi, s: addr.get((oi, s.index)), ext, base, cb)
    img = bytearray(end - base)
    for oi, o in enumerate(objs):
        for s in o.secs.values():
            if s.addr is not None and s.size:
                img[s.addr - base:s.addr - base + s.size] = s.out
    return img, (cb - base) + 0x10000 + room, glob
