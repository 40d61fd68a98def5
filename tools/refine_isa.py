#!/usr/bin/env python3
"""Runs the generator of C01/C02 on the tree at hand and removes feature
classes that fail from data/forms.txt.  usage: refine_isa.py CASES [SEED]"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from concurrent.futures import ProcessPoolExecutor
from lib import common, isa, pbt, isacheck

cases, seed = int(sys.argv[1]), int(sys.argv[2]) if len(sys.argv) > 2 else 1
FN = common.VERIF + "/data/forms.txt"
exe = common.build("o1")


class Q(isacheck.IsaProp):
    batch = 120

    def __init__(self, simd):
        self.simd = simd
        self.exe = {"o1": exe}
        self.setup()


P = {}


def work(job):
    simd, k = job
    if simd not in P:
        P[simd] = Q(simd)
        P[simd].worker_init(k)
    p = P[simd]
    c = pbt.Src(seed="r%d/%d/%d" % (seed, simd, k))
    bad, n = [], 0
    for _ in range(20):
        mode = c.weighted([(6, 64), (4, 32), (2, 16)])
        plain, deco = p.by[mode]
        st = []
        for _ in range(120):
            g = deco if deco and c.bool(1, 3) else plain
            f, mk = c.choice(c.choice(g))
            u, t, feat = isa.instance(c, f, mode)
            if mk >> feat & 1:
                st.append((u, t, f, feat))
        if not st:
            continue
        try:
            g, ge = p.I.gas([s[1] for s in st], mode)
            u, ue = p.I.uasm([st[i][0] if g[i] is not None else "" for i in range(len(st))], mode)
        except RuntimeError as e:
            print("!", str(e)[:200])
            continue
        idx = [i for i in range(len(st)) if g[i] is not None]
        n += len(idx)
        dif = []
        for i in idx:
            if u[i] is None:
                bad.append((st[i][2], mode, st[i][3], st[i][0], "rejected: %s" % ue.get(i)))
            elif u[i] != g[i]:
                dif.append(i)
        if dif:
            du = p.I.decode([u[i] for i in dif], mode)
            dg = p.I.decode([g[i] for i in dif], mode)
            for i, a, b in zip(dif, du, dg):
                if a != b:
                    bad.append((st[i][2], mode, st[i][3], st[i][0], a + " | " + b))
    return simd, n, bad


tot, drop = {False: 0, True: 0}, {}
with ProcessPoolExecutor(8) as ex:
    for simd, n, bad in ex.map(work, [(s, k) for k in range(cases // 40) for s in (False, True)]):
        tot[simd] += n
        for f, mode, ft, t, why in bad:
            drop.setdefault((f, mode), {})[ft] = (t, why)
print(tot, "failing forms", len(drop))
for (f, mode), d in list(drop.items())[:40]:
    t, why = list(d.values())[0]
    print(mode, t, "=>", why[:150])
lines = []
for l in open(FN):
    name, kinds, deco, evex, grp, masks = l.rstrip("\n").split("|")
    key = (name, tuple(x for x in kinds.split(";") if x), tuple(x for x in deco.split(";") if x), evex == "1")
    mk = masks.split(",")
    for i, mode in enumerate((64, 32, 16)):
        d = drop.get((key, mode))
        if d and mk[i] != "-":
            m = int(mk[i], 16)
            for ft in d:
                rg, memc = ft % 3, ft // 18
                for dc in range(3):
                    for sg in range(2):
                        m &= ~(1 << (((memc * 3 + dc) * 2 + sg) * 3 + rg))
            mk[i] = "%x" % m if m else "-"
    if mk != ["-"] * 3:
        lines.append("|".join([name, kinds, deco, evex, grp, ",".join(mk)]) + "\n")
open(FN, "w").writelines(lines)
