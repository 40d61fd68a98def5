#!/usr/bin/env python3
"""Calibrates the domain of C01/C02: for every operand form gas knows, and
every feature class of its operands, UASM (of the tree at hand) and gas are
compared on many random instances; data/forms.txt keeps the classes on which
every instance was accepted and meant the same.
usage: calib_isa.py FORMS.pkl ROUNDS STATE.pkl [SEED]   (accumulates into STATE)
       calib_isa.py --write STATE.pkl"""
import sys, pickle, collections, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from concurrent.futures import ProcessPoolExecutor
from lib import common, isa, pbt

I = None
STR = {"movs": ("d", "s"), "stos": ("d",), "lods": ("s",), "scas": ("d",), "cmps": ("s", "d"), "ins": ("d",), "outs": ("s",)}


BMI = set("andn bextr blsi blsmsk blsr bzhi mulx pdep pext rorx sarx shlx shrx emms femms vzeroall vzeroupper".split())


def opsize(name, kinds):
    for k in kinds:
        if k in ("al", "r8", "m8"):
            return 8
        if k in ("ax", "r16", "m16"):
            return 16
        if k in ("eax", "r32", "m32"):
            return 32
        if k in ("rax", "r64", "m64"):
            return 64
        if k in ("x", "y", "z", "mm", "k", "m128", "m256", "m512"):
            return 0
    return None


def keep(name, kinds):
    if name.startswith(("j", "loop")) and len(kinds) == 1 and kinds[0][0] == "i":
        return False
    if name in ("call", "jmp", "xbegin") and kinds and kinds[0][0] == "i":
        return False
    if name.rstrip("bwdq") in STR and len(kinds) and any(isa.ismem(k) for k in kinds):
        return False
    n = opsize(name, kinds)
    for k in kinds:
        if k in ("i16", "i32", "i64"):
            b = int(k[1:])
            if n == 0 or (n and b > n) or (n == 64 and b == 16) or (n == 32 and b == 16):
                return False
    if "i64" in kinds and name != "mov":
        return False
    if "m" in kinds:
        # typeless memory: only where no size could be meant
        if any(k in isa.MEM for k in kinds):
            return False
        if n is None or n == 0:
            return name in ("lea", "invlpg", "fxsave", "fxrstor", "lgdt", "lidt", "sgdt", "sidt", "prefetcht0", "prefetcht1", "prefetcht2", "prefetchnta", "fldenv", "fstenv", "fnstenv", "frstor", "fsave", "fnsave", "clflush", "xsave", "xrstor", "bndmk") or name.startswith(("prefetch", "fx", "xsave", "xrstor"))
    return True


def extra():
    out = []
    for op in "add or adc sbb and sub xor".split():
        for m, r in (("m8", "r8"), ("m16", "r16"), ("m32", "r32"), ("m64", "r64")):
            out.append((("lock_" + op, (m, r), ()), (64, 32, 16) if m != "m64" else (64,)))
            out.append((("lock_" + op, (m, "i8"), ()), (64, 32, 16) if m != "m64" else (64,)))
    for op in "inc dec not neg".split():
        for m in ("m8", "m16", "m32", "m64"):
            out.append((("lock_" + op, (m,), ()), (64, 32, 16) if m != "m64" else (64,)))
    for op in "btc bts btr xadd cmpxchg xchg".split():
        for m, r in (("m16", "r16"), ("m32", "r32"), ("m64", "r64")):
            out.append((("lock_" + op, (m, r), ()), (64, 32, 16) if m != "m64" else (64,)))
    for s in "bwdq":
        for op in STR:
            ms = (64, 32, 16) if s != "q" else (64,)
            if op in ("ins", "outs") and s == "q":
                continue
            for p in ("rep", "repe", "repne", "repz", "repnz"):
                out.append((("%s_%s%s" % (p, op, s), (), ()), ms))
    sz = {"b": "byte", "w": "word", "d": "dword", "q": "qword"}
    for mode in (64, 32, 16):
        r = {64: ("rsi", "rdi"), 32: ("esi", "edi"), 16: ("si", "di")}[mode]
        for op, o in STR.items():
            if op in ("ins", "outs"):
                continue
            for s in "bwdq":
                if s == "q" and mode != 64:
                    continue
                S = "=%s ptr [%s]" % (sz[s], r[0])
                D = "=%s ptr %s[%s]" % (sz[s], "" if mode == 64 else "es:", r[1])
                out.append(((op, tuple(S if x == "s" else D for x in o), ()), (mode,)))
                for seg in ("fs", "gs", "cs", "ss", "es"):
                    if mode == 64 and seg not in ("fs", "gs") or "s" not in o:
                        continue
                    S2 = "=%s ptr %s:[%s]" % (sz[s], seg, r[0])
                    out.append(((op, tuple(S2 if x == "s" else D for x in o), ()), (mode,)))
    return out


def work(job):
    global I
    if I is None:
        I = isa.Isa(common.Runner(common.build("o1"), "c"))
    seed, mode, fs = job
    src = pbt.Src(seed=seed)
    st = [isa.instance(src, f, mode) for f in fs]
    try:
        g, ge = I.gas([s[1] for s in st], mode)
    except Exception as e:
        return ("gas", str(e)[:200], fs)
    idx = [i for i in range(len(fs)) if g[i] is not None]
    try:
        u, ue = I.uasm([st[i][0] if g[i] is not None else "" for i in range(len(fs))], mode)
    except Exception as e:
        return ("uasm", str(e)[-200:], [st[i][0] for i in idx])
    dif, r = [], []
    for i in idx:
        j = i
        if u[j] is None:
            r.append((i, st[i][2], 0, st[i][0], "rejected"))
        elif u[j] == g[i]:
            r.append((i, st[i][2], 1, None, None))
        else:
            dif.append((i, j))
    if dif:
        du = I.decode([u[j] for i, j in dif], mode)
        dg = I.decode([g[i] for i, j in dif], mode)
        for (i, j), a, b in zip(dif, du, dg):
            r.append((i, st[i][2], 1, None, None) if a == b else (i, st[i][2], 2, st[i][0], "%s | %s" % (a, b)))
    return ("ok", fs, mode, r)


def main():
    if sys.argv[1] == "--write":
        return write(pickle.load(open(sys.argv[2], "rb")))
    out, ev = pickle.load(open(sys.argv[1], "rb"))
    rounds = int(sys.argv[2])
    try:
        state = pickle.load(open(sys.argv[3], "rb"))
    except FileNotFoundError:
        state = {}
    seed0 = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    allf = [((f[0], f[1], f[2], f in ev), m) for f, ms in list(out.items()) + extra() for m in ms if keep(f[0], f[1])]
    print(len(allf), "form/mode pairs")

    def jobs():
        k = 0
        for rnd in range(rounds):
            for mode in (64, 32, 16):
                fs = [f for f, m in allf if m == mode]
                for i in range(0, len(fs), 250):
                    yield (seed0 * 10**6 + k, mode, fs[i:i + 250])
                    k += 1
    fails = collections.Counter()
    common.build("o1")
    import itertools
    it = jobs()
    with ProcessPoolExecutor(8) as ex:
        while True:
            ch = list(itertools.islice(it, 800))
            if not ch:
                break
            for r in ex.map(work, ch):
                if r[0] != "ok":
                    fails[r[0]] += 1
                    print(r[0], r[1][-150:])
                    continue
                _, fs, mode, l = r
                for i, ft, v, t, why in l:
                    s = state.setdefault((fs[i], mode), [{}, {}, {}, {}])     # ok, rejected, wrong: feature -> count; examples
                    d = s[{1: 0, 0: 1, 2: 2}[v]]
                    d[ft] = d.get(ft, 0) + 1
                    if v != 1 and (v, ft) not in s[3]:
                        s[3][(v, ft)] = (t, why)
    pickle.dump(state, open(sys.argv[3], "wb"))
    print(fails, sum(sum(s[0].values()) for s in state.values()), sum(sum(s[1].values()) for s in state.values()), sum(sum(s[2].values()) for s in state.values()))


def write(state):
    forms = {}
    for (f, mode), s in state.items():
        m = 0
        for ft, n in s[0].items():
            if n >= (3 if f[1] == () else 6) and ft not in s[1] and ft not in s[2]:
                m |= 1 << ft
        if m:
            forms.setdefault(f, {})[mode] = m
    n = 0
    with open(common.VERIF + "/data/forms.txt", "w") as fh:
        for f in sorted(forms):
            name, kinds, deco, evex = f
            simd = any(k in ("x", "y", "z", "mm", "k") or k[:2] == "vm" for k in kinds) or name in BMI
            mk = ",".join("%x" % forms[f][m] if m in forms[f] else "-" for m in (64, 32, 16))
            fh.write("|".join([name, ";".join(kinds), ";".join(deco), "1" if evex else "0", "v" if simd else "g", mk]) + "\n")
            n += 1
    print(n, "forms written")


main()
