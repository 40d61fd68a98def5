"""C01/C02: random statements of calibrated forms, UASM against GNU as."""
from . import common, isa
from .pbt import Prop, V, Discard


class IsaProp(Prop):
    simd = False
    batch = 60

    def setup(self):
        self.table = isa.forms(self.simd)
        self.by = {}
        for m in (64, 32, 16):
            plain = [(f, mk[m]) for f, mk in self.table if mk[m] and not f[2]]
            deco = [(f, mk[m]) for f, mk in self.table if mk[m] and f[2]]
            # the mnemonic first, then one of its forms: rare mnemonics get their share
            self.by[m] = [self.group(plain), self.group(deco)]

    @staticmethod
    def group(l):
        d = {}
        for f, mk in l:
            d.setdefault(f[0], []).append((f, mk))
        return [d[n] for n in sorted(d)]

    def worker_init(self, wid):
        super().worker_init(wid)
        self.I = isa.Isa(self.r)

    def gen(self, c):
        mode = c.weighted([(6, 64), (4, 32), (2, 16)])
        plain, deco = self.by[mode]
        n = c.int(1, self.batch)
        out = []
        for _ in range(n):
            for attempt in range(6):
                g = deco if deco and c.bool(1, 3) else plain
                f, mk = c.choice(c.choice(g))
                u, t, feat = isa.instance(c, f, mode)
                if mk >> feat & 1:
                    out.append([u, t, "%s %s%s" % (f[0], ",".join(f[1]), " {%s}" % ",".join(f[2]) if f[2] else "")])
                    break
        if not out:
            raise Discard()
        return {"mode": mode, "st": out}

    def run(self, case):
        mode, st = case["mode"], case["st"]
        g, ge = self.I.gas([s[1] for s in st], mode)
        idx = [i for i in range(len(st)) if g[i] is not None]
        if not idx:
            return V(nontrivial=False, n=0, keys=[])
        try:
            u, ue = self.I.uasm([st[i][0] if g[i] is not None else "" for i in range(len(st))], mode)
        except RuntimeError as e:
            # some statement makes the whole run fail
            return V(fail="mode %d: %s\n%s" % (mode, e, "\n".join(st[i][0] for i in idx)), sig="run fails: " + str(e)[:60], files={"t.asm": "\n".join(s[0] for s in st)})
        fails, dif = [], []
        for i in idx:
            if u[i] is None:
                fails.append((st[i][2] + " rejected", "%d-bit: `%s' is rejected: %s" % (mode, st[i][0], ue.get(i))))
            elif u[i] != g[i]:
                dif.append(i)
        if dif:
            du = self.I.decode([u[i] for i in dif], mode)
            dg = self.I.decode([g[i] for i in dif], mode)
            for i, a, b in zip(dif, du, dg):
                if a != b:
                    fails.append((st[i][2] + " wrong", "%d-bit: `%s' is assembled to %s, which means `%s'; expected a code that means `%s' (like %s)" % (
                        mode, st[i][0], u[i].hex(), a, b, g[i].hex())))
        labels = {"%d-bit" % mode}
        s0 = st[idx[0]]
        smp = {"mode": mode, "statement": s0[0], "code": u[idx[0]].hex() if u[idx[0]] else None}
        keys = ["%d %s" % (mode, st[i][0]) for i in idx]
        if fails:
            return V(fail=fails[0][1], sig=fails[0][0], labels=labels, n=len(idx), keys=keys, sample=smp,
                     files={"statements": "\n".join(st[i][0] for i in idx)})
        return V(labels=labels, n=len(idx), keys=keys, sample=smp)
