"""C31: the unwind data of FRAME procedures against a simulation of their prologues."""
import re, struct
from lib import objload
from lib.pbt import Prop, V

R = "rax rcx rdx rbx rsp rbp rsi rdi r8 r9 r10 r11 r12 r13 r14 r15".split()
MARK = bytes.fromhex("0f1f84ca11223344")         # nop [..]: first instruction of every body
CALLEE = [3, 5, 6, 7, 12, 13, 14, 15]


class Bad(Exception):
    pass


def need(ok, sig, msg=""):
    if not ok:
        raise Bad(sig, msg)


# ------------------------------------------------------------ prologue simulation
class Sim:
    """registers and stack relative to rsp at the entry (0 = address of the return address)"""

    def __init__(self):
        self.rsp = 0
        self.gp = {i: ("gp", i) for i in range(16)}
        self.xmm = {i: ("xmm", i) for i in range(32)}
        self.mem = {}
        self.chk = None

    def addr(self, r):
        return self.rsp if r == 4 else self.gp[r][1] if self.gp[r][0] == "addr" else None

    def step(self, b, i):
        """executes the instruction at b[i:]; returns the next offset or None when it is not one of a prologue"""
        s = i
        p66 = pf3 = pf2 = False
        while b[i] in (0x66, 0xf3, 0xf2):
            p66, pf3, pf2 = p66 or b[i] == 0x66, pf3 or b[i] == 0xf3, pf2 or b[i] == 0xf2
            i += 1
        rex = 0
        vex = False
        if b[i] & 0xf0 == 0x40:
            rex = b[i]
            i += 1
        w, rr, x, bb = rex >> 3 & 1, (rex >> 2 & 1) * 8, (rex >> 1 & 1) * 8, (rex & 1) * 8
        op = b[i]
        i += 1
        if op == 0xc5:
            rr = 0 if b[i] & 0x80 else 8
            i += 1
            op, vex = 0x0f, True
        elif op == 0xc4:
            rr, x, bb, m = (0 if b[i] & 0x80 else 8), (0 if b[i] & 0x40 else 8), (0 if b[i] & 0x20 else 8), b[i] & 31
            if m != 1:
                return None
            i += 2
            op, vex = 0x0f, True
        if 0x50 <= op <= 0x57:
            self.rsp -= 8
            self.mem[self.rsp] = self.gp[op - 0x50 + bb]
            return i
        if op == 0x9c:
            self.rsp -= 8
            self.mem[self.rsp] = None
            return i
        if op == 0xfc:
            return i
        if op == 0xb8 + 0 and not bb:           # mov eax, imm32
            n = 8 if w else 4
            self.gp[0] = ("const", int.from_bytes(b[i:i + n], "little"))
            return i + n
        if op == 0xe8:                          # __chkstk: keeps rax
            return i + 4
        two = op == 0x0f
        if two:
            op = b[i]
            i += 1
        modrm = b[i]
        i += 1
        mod, reg, rm = modrm >> 6, (modrm >> 3 & 7) + rr, modrm & 7
        a = None
        if mod == 3:
            rm += bb
        else:
            if rm == 4:
                sib = b[i]
                i += 1
                if (sib >> 3 & 7) + x != 4:
                    return None
                base = (sib & 7) + bb
                if mod == 0 and sib & 7 == 5:
                    return None
            else:
                base = rm + bb
                if mod == 0 and rm == 5:
                    return None
            d = 0
            if mod == 1:
                d = struct.unpack_from("<b", b, i)[0]
                i += 1
            elif mod == 2:
                d = struct.unpack_from("<i", b, i)[0]
                i += 4
            a = self.addr(base)
            if a is None:
                return None
            a += d
        if two:
            if op in (0x29, 0x11, 0x7f, 0xe7) and mod != 3:
                sz = 4 if pf3 and op == 0x11 else 8 if pf2 else 16
                self.mem[a] = self.xmm[reg] if sz == 16 else None
                return i
            if op in (0xd6, 0x7e) and mod != 3:
                self.mem[a] = None
                return i
            return None
        if op in (0x88, 0x89) and mod != 3:
            self.mem[a] = self.gp[reg] if op == 0x89 and w else None
            return i
        if op == 0x8d and mod != 3 and w:
            if reg == 4:
                self.rsp = a
            else:
                self.gp[reg] = ("addr", a)
            return i
        if op in (0x8b, 0x89) and mod == 3 and w:
            d, q = (reg, rm) if op == 0x8b else (rm, reg)
            v = ("addr", self.rsp) if q == 4 else self.gp[q]
            if d == 4:
                if v[0] != "addr":
                    return None
                self.rsp = v[1]
            else:
                self.gp[d] = v
            return i
        if op in (0x2b, 0x29) and mod == 3 and w:
            d, q = (reg, rm) if op == 0x2b else (rm, reg)
            if d != 4 or self.gp[q][0] != "const":
                return None
            self.rsp -= self.gp[q][1]
            return i
        if op in (0x83, 0x81) and mod == 3 and w and rm == 4:
            n = 1 if op == 0x83 else 4
            v = int.from_bytes(b[i:i + n], "little", signed=True)
            k = modrm >> 3 & 7
            if k == 5:
                self.rsp -= v
            elif k == 0:
                self.rsp += v
            else:
                return None
            return i + n
        return None


# ------------------------------------------------------------ unwinder
def codes(b):
    """[(offset, op, info, value)] of the slots; order as stored"""
    r, i = [], 0
    need(len(b) % 2 == 0, "codes")
    w = [struct.unpack_from("<H", b, k)[0] for k in range(0, len(b), 2)]
    while i < len(w):
        ofs, op, info = w[i] & 0xff, w[i] >> 8 & 15, w[i] >> 12
        n = {0: 1, 1: 2 + (info == 1), 2: 1, 3: 1, 4: 2, 5: 3, 8: 2, 9: 3, 10: 1}.get(op)
        need(n, "unknown unwind code", "%d" % op)
        need(i + n <= len(w), "unwind code truncated", "operation %d at slot %d of %d" % (op, i, len(w)))
        v = None
        if op == 1:
            need(info < 2, "alloc info", "%d" % info)
            v = w[i + 1] * 8 if info == 0 else w[i + 1] | w[i + 2] << 16
        elif op == 2:
            v = info * 8 + 8
        elif op == 4:
            v = w[i + 1] * 8
        elif op == 8:
            v = w[i + 1] * 16
        elif op in (5, 9):
            v = w[i + 1] | w[i + 2] << 16
        r.append((ofs, op, info, v))
        i += n
    return r


def unwind(sim, cs, freg, fofs, szp, at):
    """returns (rsp, {register: slot}) as a system unwinder would compute them at offset 'at'"""
    rsp = sim.rsp
    done = at >= szp or any(op == 3 and o <= at for o, op, i, v in cs)
    base = rsp
    if freg and done:
        a = sim.addr(freg)
        need(a is not None, "frame register", "%s is no stack address at offset %d" % (R[freg], at))
        base = a - fofs * 16
    got = {}
    for o, op, info, v in cs:
        if o > at:
            continue
        if op == 0:
            got["gp", info] = rsp
            rsp += 8
        elif op in (1, 2):
            rsp += v
        elif op == 3:
            rsp = base
        elif op in (4, 5):
            got["gp", info] = base + v
        elif op in (8, 9):
            got["xmm", info] = base + v
        elif op == 10:
            rsp += 40 + 8 * info
    return rsp, got


class P(Prop):
    id = "C31"
    counts = {"quick": 8000, "thorough": 200000}
    rule = "modules with at least one frame procedure whose prologue has an effect"
    assumptions = ["prologues consist of the usual instructions (push, sub rsp, lea/mov frame register, mov/movaps saves, parameter homes, __chkstk)"]

    # -------------------------------------------------------- generation
    def manual(self, c, k):
        o, saved = [], []
        free = c.shuffle([0, 3, 5, 6, 7, 12, 13, 14, 15])
        mf = c.below(2) if c.bool(1, 8) else None
        if mf is not None:
            o.append(".pushframe" + " code" * mf)
        elif c.bool(1, 4):
            o.append("mov [rsp+8], rcx")
        push = [free.pop() for _ in range(c.choice([0, 1, 1, 2, 4, 6]))]
        for r in push:
            o += ["push " + R[r], ".pushreg " + R[r]]
            saved.append(("gp", r))
        if c.bool(5, 6):
            n = 8 * c.choice([1, 2, 3, 5, 9, 15, 16, 17, 18, 100, 511, 512, 8192, 65535, 65536, 65537, 100000, 300000])
            o += ["sub rsp, %d" % n, ".allocstack %d" % n]
        else:
            n = 0
        fr = None
        if push and n and c.bool():
            fr = c.choice([x for x in push if x] or [0])
        if fr:
            x = 16 * c.choice([0, 0, 1, 2, 8, 15])
            if x >= n:
                x = 0
            o += ["lea %s, [rsp+%d]" % (R[fr], x) if x or c.bool() else "mov %s, rsp" % R[fr], ".setframe %s, %d" % (R[fr], x)]
        regs = [r for r in free if r]
        xr = c.shuffle(list(range(6, 16)))
        used = set()
        for _ in range(c.choice([0, 0, 1, 2, 3, 5])):
            gp = c.bool() and regs
            w = 8 if gp else 16
            m = (n - w) // w
            if m < 0:
                continue
            off = w * c.choice([0, m, m // 2, c.int(0, m), min(m, 65534), min(m, 65535), min(m, 65536)])
            if used & set(range(off, off + w, 8)):
                continue
            used |= set(range(off, off + w, 8))
            if gp:
                r = regs.pop()
                o += ["mov [rsp+%d], %s" % (off, R[r]), ".savereg %s, %d" % (R[r], off)]
                saved.append(("gp", r))
            else:
                r = xr.pop()
                o += ["%s [rsp+%d], xmm%d" % (c.choice(["movaps", "movups", "movdqa", "vmovaps"]), off, r), ".savexmm128 xmm%d, %d" % (r, off)]
                saved.append(("xmm", r))
        return o, saved, mf

    def gen(self, c):
        auto = c.bool(3, 5)
        base = c.choice(["rbp", "rbp", "rsp"])
        w64 = c.choice([0, 1, 2, 3, 4, 5, 6, 7]) if base == "rbp" else c.choice([11, 15, 3, 7, 9])
        o = ["option casemap:none"]
        if auto:
            o += ["option stackbase:" + base, "option win64:%d" % w64, "option frame:auto"]
            if c.bool(1, 6):
                o.append("option framepreserveflags:on")
        if c.bool(1, 8):
            o.append("option dotname")
        procs, seg = [], None
        two = c.bool(1, 3)
        if c.bool():
            o.append("callee proto :qword, :qword, :qword, :qword, :qword")
        else:
            o += ["callee proto :qword"]
        handler = False
        for k in range(c.int(1, 4)):
            s = c.choice([".code", "_TEXT2"]) if two else ".code"
            if s != seg:
                if seg == "_TEXT2":
                    o.append("_TEXT2 ends")
                o.append(".code" if s == ".code" else "_TEXT2 segment para 'CODE'")
                seg = s
            if c.bool(1, 3):
                o.append("db %d dup (90h)" % c.int(1, 20))
            p = {"name": c.choice(["f%d", "AFunction%d"]) % k, "handler": c.bool(1, 4), "saved": [], "auto": auto, "mf": None}
            h = " frame:ehandler" if p["handler"] else " frame"
            handler = handler or p["handler"]
            if auto:
                us = c.shuffle([3, 5, 6, 7, 12, 13, 14, 15] if base == "rsp" else [3, 6, 7, 12, 13, 14, 15])[:c.choice([0, 1, 2, 4, 8])]
                xs = c.shuffle(list(range(6, 16)))[:c.choice([0, 0, 0, 1, 2, 5, 10])]
                p["saved"] = [("gp", r) for r in us] + [("xmm", r) for r in xs]
                ul = [R[r] for r in us] + ["xmm%d" % r for r in xs]
                ps = ["a%d:%s" % (i, c.choice(["qword", "dword", "real8", "byte", "ptr", "real4"])) for i in range(c.choice([0, 0, 1, 2, 4, 5, 7]))]
                o.append("%s proc%s%s%s" % (p["name"], h, " uses " + " ".join(ul) if ul else "", (", " if ul else " ") + ", ".join(ps) if ps else ""))
                for i in range(c.choice([0, 0, 1, 2, 3])):
                    o.append(" local l%d%s:%s" % (i, c.choice(["", "[3]", "[100]", "[5000]" if c.bool(1, 3) else "[20]"]), c.choice(["qword", "dword", "byte", "xmmword", "real10"])))
            else:
                o.append("%s proc%s" % (p["name"], h))
                t, p["saved"], p["mf"] = self.manual(c, k)
                o += [" " + x for x in t]
                o.append(" .endprolog")
            o.append(" db " + ",".join("0%02xh" % x for x in MARK))
            if auto:
                if c.bool():
                    n = 5 if ":qword, :qword" in "\n".join(o) else 1
                    o.append(" invoke callee" + ", 1" * n)
                for i in range(c.below(4)):
                    o.append(" mov eax, %d" % i)
            else:
                o.append(" db %d dup (90h)" % c.choice([0, 1, 100, 300]))
            o.append(" ret")
            o.append("%s endp" % p["name"])
            o.append("e_%s label byte" % p["name"])
            o.append("public e_%s" % p["name"])
            procs.append(p)
        if handler:
            if seg == "_TEXT2":
                o += ["_TEXT2 ends", ".code"]
                seg = ".code"
            o += ["ehandler proc", " ret", "ehandler endp"]
        if seg == "_TEXT2":
            o.append("_TEXT2 ends")
        return "\n".join(o) + "\nend\n", procs

    # -------------------------------------------------------- oracle
    def run(self, case):
        src, procs = case
        files = {"t.asm": src}
        labels = {"auto" if procs[0]["auto"] else "explicit"}

        def bad(sig, msg):
            return V(fail="%s\n%s" % (msg, src), sig=sig, labels=labels, files=files)
        r = self.r.asm(src, ["-q", "-win64"])
        e = [e for e in r.errors() if e[2] in ("Error", "Fatal Error")]
        ob = r.file("t.obj")
        if r.rc or e or ob is None:
            return bad("rejected %s" % (e[0][3] if e else ""), "rejected: %s" % (e or r.text)[:3])
        try:
            n = self.check(ob, procs)
        except objload.Bad as x:
            return bad("object", str(x))
        except Bad as x:
            return bad(re.sub(r"\d+", "9", x.args[0]), "%s: %s" % x.args)
        return V(nontrivial=src if n else None, labels=labels, sample={"procedures": len(procs), "prologue instructions": n})

    def check(self, ob, procs):
        o = objload.read(ob)
        addr, at = {}, 0x10000
        for i in sorted(o.secs):
            s = o.secs[i]
            at = (at + 15) // 16 * 16
            if not s.flags & 0x200 and s.name != ".drectve":
                addr[i] = at
                at += s.size
        glob = objload.link([o], lambda oi, s: addr.get(s.index), {"callee": 0x8000, "__chkstk": 0x8100}, 0)

        def mem(a, n):
            for i, s in o.secs.items():
                if s.addr is not None and s.addr <= a and a + n <= s.addr + len(s.out):
                    return bytes(s.out[a - s.addr:a - s.addr + n]), s
            raise Bad("reference outside the sections", "%#x" % a)
        rf = []
        for s in o.secs.values():
            if s.name == ".pdata" or s.name.startswith(".pdata$"):
                need(s.align >= 4, ".pdata alignment", "%d" % s.align)
                need(len(s.out) % 12 == 0, ".pdata size", "%d" % len(s.out))
                rf += [struct.unpack_from("<III", s.out, k) for k in range(0, len(s.out), 12)]
        if procs[0]["auto"]:        # then every procedure is one with a frame
            rf = [x for x in rf if x[0] != glob.get("ehandler")]
        need(len(rf) == len(procs), "number of .pdata entries", "%d entries for %d procedures" % (len(rf), len(procs)))
        by = {}
        for b, e, u in rf:
            need(b not in by, "procedure described twice")
            by[b] = e, u
        total = 0
        for p in procs:
            a, end = glob.get(p["name"]), glob.get("e_" + p["name"])
            need(a is not None and end is not None, "symbols", p["name"])
            need(a in by, "procedure without entry", "%s at %#x; entries at %s" % (p["name"], a, [hex(x) for x in by]))
            e, u = by[a]
            need(e == end, "end of the procedure", "%s: entry covers %#x-%#x, the procedure ends at %#x" % (p["name"], a, e, end))
            need(u % 4 == 0, "xdata alignment", "%#x" % u)
            h, xs = mem(u, 4)
            need(xs.name == ".xdata", "unwind info in " + xs.name)
            ver, flags, szp, cnt, freg, fofs = h[0] & 7, h[0] >> 3, h[1], h[2], h[3] & 15, h[3] >> 4
            need(ver == 1, "version", "%d" % ver)
            need((flags & 3 != 0) == p["handler"] and flags < 4, "flags", "%d" % flags)
            cs = codes(mem(u + 4, 2 * cnt)[0])
            if p["handler"]:
                ha = struct.unpack("<I", mem(u + 4 + (cnt + 1 & ~1) * 2, 4)[0])[0]
                need(ha == glob.get("ehandler"), "handler", "%#x, expected %#x" % (ha, glob.get("ehandler", 0)))
            need(all(x[0] >= y[0] for x, y in zip(cs, cs[1:])), "order of the codes", "%s" % cs)
            need(all(x[0] <= szp for x in cs), "code behind the prologue", "%s, prologue has %d bytes" % (cs, szp))
            code, _ = mem(a, end - a)
            m = code.find(MARK)
            need(m >= 0, "marker")
            need(szp <= m, "size of the prologue", "%s: %d bytes, the body begins at %d" % (p["name"], szp, m))
            sim = Sim()
            i, ends = 0, {0}
            while True:
                if i == m or i in {x[0] for x in cs} or True:
                    self.at(p, sim, cs, freg, fofs, szp, i, code, last=i == m)
                if i == m:
                    break
                n = sim.step(code + bytes(16), i)
                need(n is not None and n <= m, "prologue instruction", "%s: cannot follow %s at offset %d" % (p["name"], code[i:i + 12].hex(), i))
                i = n
                ends.add(i)
                total += 1
            need(all(x[0] in ends for x in cs) and szp in ends, "code offset inside an instruction", "%s: codes %s, prologue size %d, instructions end at %s" % (p["name"], cs, szp, sorted(ends)))
        return total

    def at(self, p, sim, cs, freg, fofs, szp, i, code, last):
        w = "%s at offset %d (prologue %s, codes %s, frame register %s offset %d)" % (p["name"], i, code[:i].hex(), cs, R[freg] if freg else None, fofs * 16)
        rsp, got = unwind(sim, cs, freg, fofs, szp, i)
        need(rsp == (0 if p["mf"] is None else 40 + 8 * p["mf"]), "stack pointer after the unwinding", "%s: off by %d" % (w, rsp))
        for r, a in got.items():
            need(sim.mem.get(a) == r, "restored register", "%s: %s would be restored from entry rsp%+d, which holds %s" % (w, self.nm(r), a, sim.mem.get(a)))
        for k in CALLEE:
            if sim.gp[k] != ("gp", k):
                need(("gp", k) in got, "changed register not restored", "%s: %s" % (w, R[k]))
        if last:
            for r in p["saved"]:
                if r != ("gp", 0) or not p["auto"]:
                    need(r in got, "saved register not restored", "%s: %s" % (w, self.nm(r)))
            if not p["auto"]:
                need(set(got) == set(p["saved"]), "register restored", "%s: %s" % (w, [self.nm(r) for r in set(got) - set(p["saved"])]))

    def nm(self, r):
        return R[r[1]] if r[0] == "gp" else "xmm%d" % r[1]


PROP = P()
