"""Runs generated machine code natively (exec/runner.c) and reads the record."""
import hashlib, os, struct, subprocess
from . import common

HOOKS = 0x1F000000
STACK = 0x1E000000
STKLEN = 0x40000
IMG = 0x20000000
R = "ax cx dx bx sp bp si di r8 r9 r10 r11 r12 r13 r14 r15".split()
RN = {n: i for i, n in enumerate(R)}
SYSV, WIN64, C32, KEEP = 0, 1, 2, 9


def build():
    src = common.VERIF + "/exec/runner.c"
    key = hashlib.sha1(open(src, "rb").read()).hexdigest()[:12]
    d = common.VERIF + "/.build"
    os.makedirs(d, exist_ok=True)
    r = {}
    for m in (64, 32):
        out = "%s/run%d-%s" % (d, m, key)
        if not os.path.exists(out):
            tmp = out + ".%d" % os.getpid()
            subprocess.run(["gcc", "-m%d" % m, "-O1", "-w", "-nostdlib", "-static", "-no-pie", "-fno-pie", "-ffreestanding", "-fno-stack-protector", "-mno-red-zone",
                            "-msse2", "-fno-builtin", "-fcf-protection=none", "-o", tmp, src], check=True)
            os.rename(tmp, out)
        r[m] = out
    return r


class Test:
    def __init__(self, entry, gpr=None, xmm=None, stack=(), dump=(0, 0), misalign=0):
        self.entry, self.gpr, self.xmm, self.stack, self.dump, self.misalign = entry, gpr or {}, xmm or {}, list(stack), dump, misalign


class Call:
    __slots__ = ("id", "flags", "gpr", "xmm", "stack", "sp")


class Rec:
    __slots__ = ("status", "calls", "gpr", "xmm", "flags", "above", "dump", "spdelta")


DEFGPR = [0x1111111111110000 + i * 0x0101010101010101 for i in range(16)]
DEFXMM = [bytes([0xA0 + i]) * 16 for i in range(16)]


class HarnessError(Exception):
    pass


def run(exe, bits, image, mapsize, hooks, tests, base=IMG, maxcalls=1000, timeout=60):
    """hooks: (pop, clob, ret, ret2).  Returns a Rec per test."""
    M = (1 << 64) - 1
    b = [struct.pack("<IIQQQII", 0x55415352, len(tests), base, mapsize, len(image), len(hooks), maxcalls)]
    for h in hooks:
        b.append(struct.pack("<IIQQ", h[0], h[1], h[2] & M, h[3] & M))
    for t in tests:
        g = list(DEFGPR)
        for k, v in t.gpr.items():
            g[RN[k] if isinstance(k, str) else k] = v & M
        g[4] = t.misalign
        x = list(DEFXMM)
        for k, v in t.xmm.items():
            x[k] = v
        st = [v & M for v in t.stack] + [0] * (64 - len(t.stack))
        b.append(struct.pack("<Q16Q", t.entry, *g) + b"".join(x) + struct.pack("<IIQ", len(t.stack), t.dump[1], t.dump[0]) + struct.pack("<64Q", *st))
    b.append(bytes(image))
    try:
        p = subprocess.run([exe], input=b"".join(b), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise HarnessError("runner timed out")
    if p.returncode:
        raise HarnessError("runner: exit %d" % p.returncode)
    o = p.stdout
    pos = 0
    res = []
    for t in tests:
        r = Rec()
        r.status, n = struct.unpack_from("<II", o, pos)
        pos += 8
        r.calls = []
        for _ in range(n):
            c = Call()
            c.id, c.flags = struct.unpack_from("<II", o, pos)
            c.gpr = struct.unpack_from("<16Q", o, pos + 8)
            c.xmm = [o[pos + 136 + 16 * i:pos + 152 + 16 * i] for i in range(16)]
            c.stack = struct.unpack_from("<40Q", o, pos + 392)
            c.sp = c.gpr[4]
            pos += 8 + 384 + 320
            r.calls.append(c)
        r.gpr = struct.unpack_from("<16Q", o, pos)
        r.xmm = [o[pos + 128 + 16 * i:pos + 144 + 16 * i] for i in range(16)]
        r.flags, = struct.unpack_from("<Q", o, pos + 384)
        r.above = struct.unpack_from("<64Q", o, pos + 392)
        pos += 392 + 512
        r.dump = o[pos:pos + t.dump[1]]
        pos += t.dump[1]
        r.spdelta = r.gpr[4]
        res.append(r)
    if pos != len(o):
        raise HarnessError("runner output of %d bytes, %d read" % (len(o), pos))
    return res
