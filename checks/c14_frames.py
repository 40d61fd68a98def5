"""C14: PROC frames, executed: parameters, locals, saved registers and the stack."""
import re, struct
from lib import pbt, execlib, objload, image
from checks import c13_invoke as inv

GP, INT, FLT, tsize = inv.GP, inv.INT, inv.FLT, inv.tsize
M64 = (1 << 64) - 1
PTYPES = ["BYTE", "SBYTE", "WORD", "SWORD", "DWORD", "SDWORD", "QWORD", "SQWORD", "REAL4", "REAL8", "PTR", "PTR DWORD"]
LT = {"BYTE": 1, "SBYTE": 1, "WORD": 2, "DWORD": 4, "SDWORD": 4, "QWORD": 8, "REAL4": 4, "REAL8": 8, "FWORD": 6, "TBYTE": 10, "REAL10": 10, "OWORD": 16, "XMMWORD": 16, "S3": 3, "S12": 12, "SN": 28, "U8": 8}
TYPES = """S3 struct
a1 byte ?
a2 word ?
S3 ends
S12 struct 4
b1 byte ?
b2 dword ?
b3 word ?
S12 ends
U8 union
c1 qword ?
c2 dword ?
U8 ends
SN struct 4
d1 word ?
d2 S12 <>
d3 S12 <>
SN ends"""
OB = 4096
LANGS = ["c", "stdcall", "pascal", "syscall"]


class P(pbt.Prop):
    id = "C14"
    rule = ("one case = a module with 3 procedures (parameters, locals, USES, return paths), called from independent code with arguments where the ABI puts them; the values read, the addresses of locals, "
            "the registers and stack after the return; an evaluation is one procedure; trivial: no parameter, local or USES")
    counts = {"quick": 12000, "thorough": 300000}
    assumptions = ["a register parameter is read before the first call", "WIN64 procedures without the save option store register parameters into their home places themselves"]

    def setup(self):
        self.ex = execlib.build()
        self.lay = inv.P.layout

    # ------------------------------------------------------------ generation
    def gen(self, c):
        conv = c.weighted([(6, "w64"), (4, "sysv"), (2, "c"), (2, "stdcall"), (1, "pascal"), (1, "syscall"), (2, "fast")])
        m = 64 if conv in ("w64", "sysv") else 32
        base = c.choice(["rbp", "rbp", "rsp"]) if conv == "w64" else None
        cs = {"conv": conv, "fmt": c.int(0, 1), "base": base, "w64": c.choice([1, 3, 5, 7, 0, 2, 4, 6] if base == "rbp" else [11, 15, 11, 15, 9, 13, 7, 3]) if base else None,
              "frame": c.bool() if conv == "w64" else False, "xlang": c.bool(1, 4), "procs": [self.proc(c, conv, m, base) for _ in range(3)], "fpf": c.bool(1, 5),
              "esp": m == 32 and conv != "fast" and c.bool(1, 5), "red": conv == "sysv" and c.bool(1, 5), "palign": c.weighted([(5, 0), (1, c.choice([4, 16, 32]))])}
        return cs

    def proc(self, c, conv, m, base):
        n = c.weighted([(2, 0), (6, c.int(1, 4)), (3, c.int(4, 8)), (1, c.int(8, 14))])
        va = [c.bits(m) for _ in range(c.int(1, 6))] if conv in ("w64", "c", "syscall") and c.bool(1, 8) else None
        if va:
            n = min(n, 7)
        ps = [c.choice(PTYPES) for _ in range(n)]
        vals = []
        for p in ps:
            s = tsize(p, m)
            vals.append(c.bits(8 * s))
        loc = []
        for _ in range(c.weighted([(2, 0), (4, c.int(1, 3)), (2, c.int(4, 8))])):
            t = c.choice(list(LT) + ["PTR"])
            k = c.weighted([(5, 0), (2, c.int(1, 6)), (1, c.int(7, 40)), (c.bool(1, 3), c.int(100, 600))])
            loc.append([t, k])
        if m == 64:
            us = [3, 6, 7, 12, 13, 14, 15] if conv == "w64" else [3, 12, 13, 14, 15]
            if base == "rsp":
                us.append(5)
            if c.bool(1, 6):
                us += [10, 11]
        else:
            us = [3, 6, 7] + ([] if conv == "fast" else [1, 2])
        uses = c.shuffle(us)[:c.weighted([(3, 0), (4, c.int(1, 3)), (1, len(us))])]
        xu = []
        if conv == "w64" and c.bool(1, 4):
            xu = c.shuffle(list(range(6, 16)))[:c.weighted([(3, 1), (2, c.int(1, 3)), (1, c.int(3, 8))])]
        call = c.weighted([(2, None), (3, c.int(0, 4)), (3, c.int(4, 9))])
        return {"va": va, "ps": ps, "vals": vals, "loc": loc, "uses": uses, "xu": xu, "call": call, "early": c.weighted([(3, None), (1, 0), (1, 1)]), "ret": c.bits(31), "seed": c.int(0, 1 << 30),
                "twice": c.bool(1, 4), "unused": [i for i in range(n) if c.bool(1, 5)], "pub": c.choice(["", "public ", "near ", "near public "] if m == 32 else ["", "public "]), "sep": c.bool(1, 3)}

    # ------------------------------------------------------------ source
    def lsize(self, l, m):
        s = LT.get(l[0], m // 8)
        return s * max(1, l[1])

    def source(self, cs):
        conv = cs["conv"]
        m = 64 if conv in ("w64", "sysv") else 32
        mx = cs["w64"]
        o = []
        if m == 32:
            o += [".686", ".xmm", ".model flat, " + {"fast": "fastcall"}.get(conv, conv)]
        o.append("option casemap:none")
        if conv == "w64":
            o += ["option stackbase:" + cs["base"], "option win64:%d" % mx, "option frame:auto"]
        if cs["fpf"]:
            o.append("option framepreserveflags:on")
        if cs["esp"]:
            o.append("option stackbase:esp")
        if cs["red"]:
            o.append("option redzone:yes")
        if cs["palign"]:
            o.append("option procalign:%d" % cs["palign"])
        o.append(TYPES)
        o += [".data", "align 16", "public blk", "blk label byte", "ob byte %d dup (0EEh)" % OB, "xk byte 10h,11h,12h,13h,14h,15h,16h,17h,18h,19h,1Ah,1Bh,1Ch,1Dh,1Eh,1Fh", "flg byte 4 dup (0)"]
        nat = m // 8
        acc = GP[nat][0]
        for i, p in enumerate(cs["procs"]):
            if p["call"] is not None:
                o.append("f%d PROTO %s" % (i, ", ".join([":" + ("QWORD" if m == 64 else "DWORD")] * p["call"])))
        o.append(".code")
        pos = 0
        plan = []
        for i, p in enumerate(cs["procs"]):
            lay = self.lay(self, conv, m, {"ps": p["ps"], "va": [("QWORD" if m == 64 else "DWORD", None) for _ in p["va"]] if p["va"] else None})
            va = p["va"] if p["va"] and (conv != "w64" or mx & 9) else None
            want = []          # (offset, bytes, what)
            adr = []           # (offset, size, what)
            us = [GP[nat][k] for k in p["uses"]] + ["xmm%d" % k for k in p["xu"]]
            head = "p%d PROC %s%s" % (i, p["pub"] if not cs["frame"] else "", "FRAME " if cs["frame"] else "")
            par = ", ".join("a%d:%s" % (k, t) for k, t in enumerate(p["ps"])) + (", " if p["ps"] and va else "") + "va:VARARG" * bool(va)
            head += ("USES " + " ".join(us) if us else "") + (", " if us and par and (p["sep"] or 1) else " ") + par
            o.append(head)
            for k, (t, n) in enumerate(p["loc"]):
                o.append(" LOCAL l%d%s:%s" % (k, "[%d]" % n if n else "", t))
            inreg = lambda k: lay[k][0] != "s" and conv in ("sysv", "fast")
            home = lambda k: lay[k][0] != "s" and conv == "w64"
            if conv == "w64" and not mx & 1 and not mx & 8:
                for k, t in enumerate(p["ps"]):
                    if home(k) and k not in p["unused"]:
                        s = tsize(t, m)
                        if lay[k][0] == "x":
                            o.append(" %s a%d, xmm%d" % ("movss" if s == 4 else "movsd", k, lay[k][1]))
                        else:
                            o.append(" mov a%d, %s" % (k, GP[s][lay[k][1]]))

            def rd(k, phase):
                nonlocal pos
                t, v = p["ps"][k], p["vals"][k]
                s = tsize(t, m)
                if inreg(k):
                    if phase:
                        return
                    if t in FLT:
                        o.append(" %s %s ptr ob+%d, a%d" % ("movss" if s == 4 else "movsd", "dword" if s == 4 else "qword", pos, k))
                    else:
                        o.append(" mov %s, a%d" % (GP[s][0], k))
                        o.append(" mov %s ptr ob+%d, %s" % ({1: "byte", 2: "word", 4: "dword", 8: "qword"}[s], pos, GP[s][0]))
                elif s == 8 and m == 32:
                    for h in (0, 4):
                        o.append(" mov eax, dword ptr a%d%s" % (k, "+4" if h else ""))
                        o.append(" mov dword ptr ob+%d, eax" % (pos + h))
                else:
                    z = {1: "byte", 2: "word", 4: "dword", 8: "qword"}[s]
                    o.append(" mov %s, %sa%d" % (GP[s][0], z + " ptr " if t in FLT else "", k))
                    o.append(" mov %s ptr ob+%d, %s" % (z, pos, GP[s][0]))
                want.append((pos, v.to_bytes(s, "little"), "parameter a%d%s" % (k, " after the call" if phase else "")))
                pos += s
            rnd = pbt.Src(seed=p["seed"])
            rp = [k for k in range(len(p["ps"])) if k not in p["unused"]]
            for k in rnd.shuffle(rp):
                rd(k, 0)
            for k, v in enumerate(va or []):
                if k == 0 or rnd.bool():
                    o.append(" mov %s, %s ptr va%s" % (acc, "qword" if m == 64 else "dword", "[%d]" % (nat * k) if k else ""))
                else:
                    o.append(" lea %s, va" % acc)
                    o.append(" mov %s, [%s+%d]" % (acc, acc, nat * k))
                o.append(" mov %s ptr ob+%d, %s" % ("qword" if m == 64 else "dword", pos, acc))
                want.append((pos, v.to_bytes(nat, "little"), "vararg %d" % k))
                pos += nat
            # addresses
            for k in rp:
                if not inreg(k) and rnd.bool(1, 3):
                    o.append(" lea %s, a%d" % (acc, k))
                    o.append(" mov %s ptr ob+%d, %s" % ("qword" if m == 64 else "dword", pos, acc))
                    adr.append((pos, k, "p"))
                    pos += nat
            cont = []
            for k, l in enumerate(p["loc"]):
                S = self.lsize(l, m)
                o.append(" lea %s, l%d" % (acc, k))
                o.append(" mov %s ptr ob+%d, %s" % ("qword" if m == 64 else "dword", pos, acc))
                adr.append((pos, k, "l"))
                pos += nat
                at = 0
                first = True
                while at < S:
                    if S > 40 and 12 <= at < S - 12 and rnd.bool(15, 16):
                        at += 8
                        continue
                    z = rnd.choice([x for x in ([1, 2, 4, 8, 16] if m == 64 else [1, 2, 4, 16]) if x <= S - at])
                    z = min(z, 8) if rnd.bool() and m == 64 else z
                    if z == 16 and conv == "fast":
                        z = 4
                    v = rnd.bits(8 * z)
                    nm = "l%d[%d]" % (k, at) if rnd.bool() or at == 0 and 0 else "l%d%s" % (k, "+%d" % at if at else "")
                    ref = "%s ptr %s" % ({1: "byte", 2: "word", 4: "dword", 8: "qword", 16: "xmmword"}[z], nm)
                    if z == 16:
                        x = "xmm9" if conv == "sysv" else "xmm5" if m == 64 else "xmm0"
                        o.append(" movups %s, xmmword ptr xk" % x)
                        o.append(" movups %s, %s" % (ref, x))
                        vb = bytes(range(16, 32))
                    elif z == 8 or rnd.bool(1, 4):
                        o.append(" mov %s, %d" % (GP[z][0], v))
                        o.append(" mov %s, %s" % (ref, GP[z][0]))
                        vb = v.to_bytes(z, "little")
                    else:
                        if z == 4 and v >= 1 << 31 and rnd.bool():
                            v -= 1 << 32
                        o.append(" mov %s, %d" % (ref, v))
                        vb = (v & (1 << 8 * z) - 1).to_bytes(z, "little")
                    cont.append((k, at, z, ref, vb))
                    at += z
            if p["early"] is not None:
                o += [" .if flg[%d] == 0" % i, " mov eax, %d" % p["ret"], " stc" if p["seed"] & 1 else " clc", " ret", " .endif"]
            part = len(want)
            for r in p["uses"]:
                o.append(" mov %s, %d" % (GP[nat][r], rnd.bits(30)))
            for r in p["xu"]:
                o.append(" movups xmm%d, xmmword ptr xk" % r)
            if p["call"] is not None:
                for _ in range(2 if p["twice"] else 1):
                    o.append(" invoke " + ", ".join(["f%d" % i] + [str(rnd.bits(20)) for _ in range(p["call"])]))
            for k in rnd.shuffle(rp):
                rd(k, 1)
            for k, at, z, ref, vb in rnd.shuffle(cont):
                if z == 16:
                    x = "xmm9" if conv == "sysv" else "xmm5" if m == 64 else "xmm0"
                    o.append(" movups %s, %s" % (x, ref))
                    o.append(" movups xmmword ptr ob+%d, %s" % (pos, x))
                else:
                    o.append(" mov %s, %s" % (GP[z][0], ref))
                    o.append(" mov %s ptr ob+%d, %s" % (ref.split()[0], pos, GP[z][0]))
                want.append((pos, vb, "local l%d+%d" % (k, at)))
                pos += z
            o.append(" mov eax, %d" % p["ret"])
            o.append(" stc" if p["seed"] & 1 else " clc")
            o.append(" ret")
            o.append("p%d ENDP" % i)
            plan.append((want, adr, part, lay))
        o.append("end")
        return "\n".join(o) + "\n", plan, pos

    def run(self, cs):
        conv = cs["conv"]
        m = 64 if conv in ("w64", "sysv") else 32
        nat = m // 8
        mk = (1 << m) - 1
        src, plan, pos = self.source(cs)
        if pos > OB:
            raise pbt.Discard()
        opt = {"w64": "-win64", "sysv": "-elf64"}.get(conv) or ["-elf", "-coff"][cs["fmt"]]
        nt = any(p["ps"] or p["loc"] or p["uses"] or p["xu"] for p in cs["procs"])
        desc = [l.strip() for l in src.split("\n") if " PROC" in l or " LOCAL" in l]
        cfg = conv + (" %s:%d%s" % (cs["base"], cs["w64"], " frame" if cs["frame"] else "") if conv == "w64" else "") + " fpf" * cs["fpf"] + " esp" * cs["esp"] + " redzone" * cs["red"]
        kw = dict(labels=[conv, cfg], key=src, files={"t.asm": src, "opts": opt}, n=len(plan), nontrivial=nt, sample=[cfg] + desc[:8])
        r = self.r.asm(src, (opt, "-e5000"))
        ob = r.file("t.obj") or r.file("t.o")
        er = [e for e in r.errors() if e[2] != "Warning"]
        if er or r.rc or ob is None:
            ln = src.split("\n")[er[0][1] - 1] if er and er[0][1] else ""
            return pbt.V("refused (%s): %s\n%s\n%s" % (cfg, er[:3] or r.text[-300:], ln, src), "refused %s %s %s" % (conv, er[0][3] if er else r.rc, re.sub(r"\d+", "9", ln)[:30]), **kw)
        try:
            obj = objload.read(ob)
            names = {s.name for s in (obj.syms.values() if isinstance(obj.syms, dict) else obj.syms) if s}
            e = {}
            for n in names:
                q = re.fullmatch(r"[_@]?f(\d+)(@+\d+)?|F(\d+)", n or "")
                if q:
                    e[n] = execlib.HOOKS + 16 * int(q.group(1) or q.group(3))
            img, size, glob = image.build([obj], ext=e)
        except objload.Bad as x:
            return pbt.V("object cannot be loaded (%s): %s\n%s" % (opt, x, src), "object", **kw)
        nm = {}
        for k, v in glob.items():
            nm[re.sub(r"^[_@]|@+\d+$", "", k).lower()] = v
        base = nm["blk"]
        hooks, tests = [], []
        for i, p in enumerate(cs["procs"]):
            pop = nat * (p["call"] or 0) if conv in ("stdcall", "pascal") else max(0, nat * ((p["call"] or 0) - 2)) if conv == "fast" else 0
            hooks.append((pop, execlib.C32 if m == 32 else execlib.SYSV if conv == "sysv" else execlib.WIN64, 0x77, 0))
        for i, (p, (want, adr, part, lay)) in enumerate(zip(cs["procs"], plan)):
            g, x = {}, {}
            st = [0xA5A5A5A5A5A5A5A5 - k for k in range(60)]
            sb = bytearray(b"".join((v & mk).to_bytes(nat, "little") for v in st))
            rg = pbt.Src(seed=p["seed"] ^ 1)
            for k in range(16 if m == 64 else 8):
                if k != 4:
                    g[k] = rg.bits(m)
            for t, v, l in zip(p["ps"] + ["QWORD" if m == 64 else "DWORD"] * len(p["va"] or []), p["vals"] + (p["va"] or []), lay):
                s = tsize(t, m)
                b = v.to_bytes(s, "little")
                if l[0] == "s":
                    sb[l[1] - nat:l[1] - nat + s] = b
                elif l[0] == "g":
                    g[l[1]] = g[l[1]] & ~((1 << 8 * s) - 1) & mk | v
                else:
                    x[l[1]] = b + bytes([0x5A]) * (16 - s)
            st = [int.from_bytes(sb[k * nat:k * nat + nat], "little") for k in range(60)]
            if p["early"] == 1:
                img[nm["blk"] - execlib.IMG + OB + 16 + i] = 1
            tests.append(execlib.Test(nm["p%d" % i], g, x, st, (base, OB)))
        try:
            recs = execlib.run(self.ex[m], m, img, size, hooks, tests)
        except execlib.HarnessError as x:
            return pbt.V("the program does not run to the end: %s\n%s" % (x, src), "runner", **kw)
        for i, (p, t, rec, (want, adr, part, lay)) in enumerate(zip(cs["procs"], tests, recs, plan)):
            where = "p%d, %s\nregisters %s\n%s" % (i, cfg, {GP[nat][k]: hex(v) for k, v in t.gpr.items()}, src)
            V = lambda what, sig: pbt.V(what + "\n" + where, "%s %s" % (sig, cfg), **kw)
            if rec.status:
                return V("signal %d" % rec.status, "signal")
            early = p["early"] == 0
            nc = 0 if early or p["call"] is None else 2 if p["twice"] else 1
            if [x.id for x in rec.calls] != [i] * nc:
                return V("calls made: %s" % [x.id for x in rec.calls], "calls")
            sizes = [(tsize(q, m) + nat - 1) // nat * nat for q in p["ps"]]
            pop = sum(s for s, l in zip(sizes, lay) if l[0] == "s") if conv in ("stdcall", "pascal", "fast") and not p["va"] else 0
            d = rec.spdelta if rec.spdelta < 1 << (m - 1) else rec.spdelta - (1 << m)
            if d != pop:
                return V("%d bytes popped, expected %d" % (d, pop), "pop")
            if rec.gpr[0] & 0xffffffff != p["ret"]:
                return V("eax is %x at the return, expected %x" % (rec.gpr[0], p["ret"]), "eax")
            if cs["fpf"] and (rec.flags ^ p["seed"]) & 1:
                return V("the carry flag is not kept (FRAMEPRESERVEFLAGS)", "flags")
            if cs["palign"] and nm["p%d" % i] % cs["palign"]:
                return V("the procedure is not aligned to %d" % cs["palign"], "palign")
            for off, b, what in want[:part] if early else want:
                if rec.dump[off:off + len(b)] != b:
                    return V("%s is %s, expected %s" % (what, rec.dump[off:off + len(b)].hex(), b.hex()), "value " + what.split()[0])
            for k in set(inv.PRES.get(conv, [3, 5, 6, 7])) | set(p["uses"]):
                if rec.gpr[k] & mk != t.gpr[k]:
                    return V("register %s is %x at the return, was %x" % (GP[nat][k], rec.gpr[k] & mk, t.gpr[k]), "preserved")
            for k in p["xu"] if conv != "w64" else range(6, 16):
                w = t.xmm.get(k, execlib.DEFXMM[k])
                if rec.xmm[k] != w:
                    return V("xmm%d is %s at the return, was %s" % (k, rec.xmm[k].hex(), w.hex()), "xmm")
            rng = []
            hi = None
            for off, k, kind in adr:
                a = int.from_bytes(rec.dump[off:off + nat], "little")
                if kind == "l":
                    rng.append((a, a + self.lsize(p["loc"][k], m), "l%d" % k))
                elif lay[k][0] == "s":
                    hi = a - lay[k][1]
                elif conv == "w64":
                    hi = a - 8 - 8 * k
            q = sorted(rng)
            for (a, b, n1), (c_, d_, n2) in zip(q, q[1:]):
                if b > c_:
                    return V("locals %s and %s overlap: %x-%x, %x-%x" % (n1, n2, a, b, c_, d_), "overlap")
                if cs["w64"] and cs["w64"] & 4 and cs["w64"] != 13 and cs["frame"] and p["loc"][int(n2[1:])] == ["XMMWORD", 0] and c_ % 16:
                    return V("XMMWORD local %s is not aligned" % n2, "xmmalign")
            if hi is not None and q and q[-1][1] > hi:
                return V("local %s reaches the return address" % q[-1][2], "frame")
            for cl in rec.calls:
                if m == 64 and (cl.sp + 8) % 16:
                    return V("stack misaligned at a call", "align")
                args = p["call"]
                low = cl.sp + nat
                if conv == "w64":
                    low += 8 * max(4, args)
                elif conv == "sysv":
                    low += 8 * max(0, args - 6)
                else:
                    low += max(0, args - (2 if conv == "fast" else 0)) * 4
                if q and q[0][0] < low:
                    return V("local %s at %x lies in the outgoing arguments (below %x)" % (q[0][2], q[0][0], low), "outgoing")
            # the caller's frame
            free = 4 if conv == "w64" else 0
            for k in range(free + pop // nat, 40):
                if k < free:
                    continue
                w = t.stack[k]
                lo = k * nat + nat
                mine = any(l[0] == "s" and l[1] <= lo < l[1] + s for l, s in zip(lay, sizes))
                if not mine and rec.above[k] & mk != w & mk:
                    return V("the caller's stack was changed at +%d: %x, was %x" % (lo, rec.above[k], w), "caller")
        return pbt.V(None, **kw)


PROP = P()
