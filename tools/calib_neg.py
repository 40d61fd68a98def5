#!/usr/bin/env python3
"""Calibrates the domain of C03: which operand kind lists gas and UASM (of the
tree at hand) both reject.  usage: calib_neg.py ROUNDS; writes data/neg2.txt,
data/neg3.txt, data/negt.txt and prints what UASM accepts and gas does not."""
import sys, os, itertools, pickle
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from concurrent.futures import ProcessPoolExecutor
from lib import common, isa, pbt, neg

I = None
NAMES = [l.strip() for l in open(common.VERIF + "/tools/isa_enum/names.txt") if l.strip()]


def work(job):
    global I
    if I is None:
        I = isa.Isa(common.Runner(common.build("o1"), "c"))
    seed, mode, what, items = job
    c = pbt.Src(seed=seed)
    st = []
    for it in items:
        if what == "t":
            tw, form = it
            st.append(neg.twist(c, tw, form, mode))
        else:
            name, kinds = it
            st.append(isa.instance(c, (name, kinds, (), False), mode)[:2])
    live = [i for i in range(len(items)) if st[i]]
    try:
        g, ge = I.gas([st[i][1] if st[i] else "" for i in range(len(items))], mode)
    except RuntimeError as e:
        return "gas " + str(e)[-150:], what, mode, items, [], []
    rej = [i for i in live if g[i] is None]
    try:
        u, ue = I.uasm([st[i][0] if i in set(rej) else "" for i in range(len(items))], mode)
    except RuntimeError as e:
        return "uasm " + str(e)[-150:], what, mode, items, [], []
    gacc = [i for i in live if g[i] is not None]
    return None, what, mode, items, gacc, [(i, u[i], st[i][0]) for i in rej]


def known_names():
    """mnemonics that UASM knows at all"""
    I = isa.Isa(common.Runner(common.build("o1"), "c"))
    out = []
    for n in NAMES:
        out.append(n)
    return out


def main():
    rounds = int(sys.argv[1])
    names = known_names()
    valid = [(f, mk) for s in (False, True) for f, mk in isa.forms(s) if not f[0].startswith(("rep", "lock_"))]
    v3 = sorted({f[1] and (f[0], f[1]) for f, mk in valid if len(f[1]) >= 3 and not f[2] and not any(k[0] == "=" for k in f[1])})
    print(len(names), "names", len(v3), "long forms")
    d2, d3, dt = {}, {}, {}     # key -> [seen mask, bad mask]
    exa = {}

    def jobs():
        k = 0
        for rnd in range(rounds):
            for mode in (64, 32, 16):
                l = [(n, cb) for n in names for cb in neg.COMBOS]
                for i in range(0, len(l), 700):
                    yield (k, mode, "2", l[i:i + 700])
                    k += 1
                l = [(n, ks[:p] + (q,) + ks[p + 1:]) for n, ks in v3 for p in range(len(ks)) for q in neg.KINDS if q != ks[p]]
                for i in range(0, len(l), 700):
                    yield (k, mode, "3", l[i:i + 700])
                    k += 1
                for rr in range(6):
                    l = [(tw, f) for f, mk in valid if mk[mode] and not any(q[0] == "=" for q in f[1]) for tw in neg.TWISTS]
                    for i in range(0, len(l), 700):
                        yield (k, mode, "t", l[i:i + 700])
                        k += 1
    common.build("o1")
    it = jobs()
    ci = {cb: i for i, cb in enumerate(neg.COMBOS)}
    nf = 0
    with ProcessPoolExecutor(8) as ex:
        while True:
            ch = list(itertools.islice(it, 400))
            if not ch:
                break
            for err, what, mode, items, gacc, rej in ex.map(work, ch):
                if err:
                    nf += 1
                    if nf < 20:
                        print(err)
                    # nothing is known about these
                    continue
                for i in gacc:
                    if what == "2":
                        d2.setdefault((items[i][0], mode), [0, 0])[1] |= 1 << ci[items[i][1]]
                    elif what == "3":
                        d3.setdefault((items[i], mode), [0, 0])[1] += 1
                for i, u, t in rej:
                    if what == "2":
                        e = d2.setdefault((items[i][0], mode), [0, 0])
                        e[0] |= 1 << ci[items[i][1]]
                        if u is not None:
                            e[1] |= 1 << ci[items[i][1]]
                    elif what == "3":
                        e = d3.setdefault((items[i], mode), [0, 0])
                        e[0] += 1
                        e[1] += u is not None
                    else:
                        e = dt.setdefault((items[i][1][0], items[i][0], mode), [0, 0])
                        e[0] += 1
                        e[1] += u is not None
                    if u is not None:
                        exa.setdefault((what, items[i][0], mode), []).append((t, u.hex()))
    print("failed jobs", nf)
    pickle.dump((d2, d3, dt, exa), open("/tmp/isa/neg.pkl", "wb"))
    with open(common.VERIF + "/data/neg2.txt", "w") as f:
        for n in names:
            m = [d2.get((n, mode), [0, 0]) for mode in (64, 32, 16)]
            m = [a & ~b for a, b in m]
            if any(m):
                f.write("%s %x %x %x\n" % ((n,) + tuple(m)))
    bits = {64: 1, 32: 2, 16: 4}
    l3 = {}
    for (it, mode), (a, b) in d3.items():
        if a and not b:
            l3[it] = l3.get(it, 0) | bits[mode]
    with open(common.VERIF + "/data/neg3.txt", "w") as f:
        for n, ks in v3:
            m = []
            for p in range(len(ks)):
                s = ""
                for q in neg.KINDS:
                    s += "%x" % (l3.get((n, ks[:p] + (q,) + ks[p + 1:]), 0) if q != ks[p] else 0)
                m.append(s)
            f.write("%s|%s|%s\n" % (n, ";".join(ks), ",".join(m)))
    with open(common.VERIF + "/data/negt.txt", "w") as f:
        for (n, tw, mode), (a, b) in sorted(dt.items()):
            if a >= 3 and not b:
                f.write("%s %s %d\n" % (n, tw, mode))


main()
