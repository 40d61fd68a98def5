"""C04: branches reach their target (image re-read item by item)."""
from lib import pbt
from lib.layout import *


class P(pbt.Prop):
    id = "C04"
    rule = ("one case = a program of up to 40 branches, labels, fillers and paddings in a 16-, 32- or 64-bit segment, read back from the image item by item; "
            "or one branch at a distance around its limit, which must be accepted or rejected; keys are programs")
    counts = {"quick": 25000, "thorough": 600000}
    assumptions = ["branches into other segments and far branches are left to the object-format checks"]

    def hdr(self, c, bits):
        if bits == 64:
            return ".x64"
        if bits == 32:
            return c.choice([".386", ".686p"])
        return c.choice([".8086", ".286", ".386", ".686"])

    def mns(self, bits, cpu):
        l = list(LOOPS[bits])
        if bits == 16 and cpu in (".8086", ".286"):
            l = [x for x in l if x not in ("jecxz", "loopd")]
        return l

    def gen(self, c):
        bits = c.weighted([(3, 32), (3, 16), (2, 64)])
        cpu = self.hdr(c, bits)
        if c.bool(1, 4):
            return self.limit(c, bits, cpu)
        big = c.weighted([(5, 0), (3, 1), (1, 2)])
        n = c.many(2, 40)
        labs = ["A%d" % i for i in range(c.int(1, 10))]
        items = []
        for _ in range(n):
            k = c.weighted([(6, "br"), (4, "fill"), (1, "align"), (1, "nop")])
            if k == "br":
                mn = c.weighted([(6, c.choice(JN)), (4, "jmp"), (2, "call"), (1 if big == 0 and n < 12 else 0, c.choice(self.mns(bits, cpu)))])
                ov = ""
                if mn == "jmp" or (mn in JCC):
                    ov = c.weighted([(10, ""), (1, "near ptr " if mn == "jmp" or cpu not in (".8086", ".286") else "")])
                sp = c.weighted([(12, c.choice(labs)), (1, "$")])
                add = 0
                if sp == "$" or c.bool(1, 12):
                    add = c.choice([0, 2, 3, 5, -1, 16])
                items.append(["br", mn, ov, sp, add, c.choice(["lower", "upper"])])
            elif k == "fill":
                m = c.weighted([(4, c.int(0, 8)), (3, c.int(10, 40)), (3 if big else 1, c.int(100, 140)), (1 if big else 0, c.int(200, 2000)), (1 if big > 1 else 0, c.int(2000, 9000))])
                items.append(["fill", m])
            elif k == "nop":
                items.append(["fill", 1])
            else:
                items.append(["align", c.choice([2, 4, 8, 16])])
        # place the labels
        for l in labs:
            items.insert(c.below(len(items) + 1), ["lab", l])
        anon = c.bool(1, 4)
        if anon:
            # anonymous labels: @F / @B resolve to the next / previous @@
            for _ in range(c.int(1, 4)):
                items.insert(c.below(len(items) + 1), ["lab", "@@"])
            for it in items:
                if it[0] == "br" and it[3] != "$" and c.bool(1, 3):
                    it[3] = c.choice(["@F", "@B"])
        return {"bits": bits, "cpu": cpu, "items": items}

    def limit(self, c, bits, cpu):
        kind = c.choice(["short", "loop", "noljmp"])
        if kind == "noljmp" and (cpu not in (".8086", ".286")):
            kind = "short"
        mn = c.choice(self.mns(bits, cpu)) if kind == "loop" else c.choice(JN) if kind == "noljmp" else c.choice(["jmp", c.choice(JN)])
        fwd = c.bool()
        n = c.weighted([(6, c.int(118, 134)), (1, c.int(0, 117)), (1, c.int(135, 400))])
        return {"bits": bits, "cpu": cpu, "limit": kind, "mn": mn, "fwd": fwd, "n": n, "pre": c.int(0, 3)}

    def run_limit(self, k):
        bits, mn = k["bits"], k["mn"]
        ov = "short " if k["limit"] == "short" else ""
        br = "%s %sT" % (mn, ov)
        fill = "db %d dup (90h)" % k["n"] if k["n"] else ""
        o = [k["cpu"], "option casemap:none"]
        if k["limit"] == "noljmp":
            o.append("option noljmp")
        o += ["S segment byte use%d 'CODE'" % bits, "db %d dup (90h)" % (k["pre"] + 1)]
        if k["fwd"]:
            o += [br, fill, "T:", "db 90h"]
            line = len(o) - 3
        else:
            o += ["T:", fill, br, "db 90h"]
            line = len(o) - 1
        o += ["S ends", "end"]
        size = 3 if mn in LOOPS[bits] and LOOPS[bits][mn][1] else 2
        ok = k["n"] <= 127 if k["fwd"] else k["n"] + size <= 128
        src = "\n".join(o) + "\n"
        r = self.r.asm(src, ("-bin",))
        kw = dict(labels=["limit:" + k["limit"]], key=[bits, br, k["n"], k["fwd"], k["pre"]], files={"t.asm": src}, sample=None)
        errs = [e for e in r.errors() if e[2] != "Warning"]
        if ok:
            if errs or r.rc:
                return pbt.V("a branch that is in range is rejected: %s (%d bytes between)\n%s" % (br, k["n"], errs[:2]), "reject", **kw)
            img = r.file("t.BIN")
            p = k["pre"] + 1
            t = p + 2 + k["n"] if k["fwd"] else p
            if not k["fwd"]:
                p += k["n"]
            try:
                e, tg, f = branch(img, p, bits, mn)
                if k["fwd"]:
                    t = e + k["n"]
            except Bad as x:
                return pbt.V(str(x), "decode", **kw)
            if tg != t:
                return pbt.V("%s reaches %x, its label is at %x\n%s" % (br, tg, t, src), "target", **kw)
            return pbt.V(None, **kw)
        if not any(e[1] == line for e in errs):
            return pbt.V("%s is %d bytes away and no error is reported\n%s" % (br, k["n"], errs[:2] or r.text[-200:]), "noerror", **kw)
        return pbt.V(None, **kw)

    def run(self, case):
        if "limit" in case:
            return self.run_limit(case)
        bits, items = case["bits"], case["items"]
        o = [case["cpu"], "option casemap:none", "S segment para use%d 'CODE'" % bits, "db 5ah"]
        prog = []          # what follows the first byte
        nb = 0
        at = [i for i, it in enumerate(items) if it[0] == "lab" and it[1] == "@@"]
        for i, it in enumerate(items):
            if it[0] == "br":
                _, mn, ov, tgt, add, cs = it
                if tgt == "@F" and not any(a > i for a in at) or tgt == "@B" and not any(a < i for a in at):
                    continue
                if add < 0 and tgt == "$":
                    add = 0
                t = "%s %s%s%s" % (mn if cs == "lower" else mn.upper(), ov, tgt, "%+d" % add if add else "")
                o.append(t)
                prog.append(("br", mn, ov, tgt, add, i, t))
            elif it[0] == "fill":
                if it[1]:
                    o.append("db %d dup (0cch)" % it[1])
                    prog.append(("data", b"\xcc" * it[1]))
            elif it[0] == "align":
                o.append("align %d" % it[1])
                prog.append(("align", it[1]))
            else:
                o.append(it[1] + ":")
                nb += 1
                o.append("db 0f1h, %d" % nb)
                prog.append(("lab", it[1], i))
                prog.append(("data", bytes([0xf1, nb])))
        o += ["db 0c3h", "S ends", "end"]
        prog.append(("data", b"\xc3"))
        src = "\n".join(o) + "\n"
        nbr = sum(1 for p in prog if p[0] == "br")
        kw = dict(labels=["use%d %s" % (bits, case["cpu"])], key=src, nontrivial=nbr > 0, files={"t.asm": src}, sample=[p[6] for p in prog if p[0] == "br"][:5], n=max(1, nbr))
        r = self.r.asm(src, ("-bin",))
        errs = [e for e in r.errors() if e[2] != "Warning"]
        img = r.file("t.BIN")
        lines = src.split("\n")
        if errs:
            # only range errors of loops (they have one form) are legitimate; checked in run_limit
            if all(e[1] and lines[e[1] - 1].lower().split()[0] in LOOPS[bits] and e[3] == 2053 for e in errs):
                raise pbt.Discard()
            return pbt.V("valid branches are rejected: %s\n%s" % (errs[:3], lines[(errs[0][1] or 1) - 1]), "reject", **kw)
        if img is None:
            return pbt.V("no image: " + r.text[-300:], "noimage", **kw)
        pos, labs, brs, anon = 1, {}, [], []
        try:
            for p in prog:
                if p[0] == "data":
                    if img[pos:pos + len(p[1])] != p[1]:
                        raise Bad("data expected at %x, found %s" % (pos, img[pos:pos + 8].hex()))
                    pos += len(p[1])
                elif p[0] == "align":
                    pos = -(-pos // p[1]) * p[1]
                elif p[0] == "lab":
                    if p[1] == "@@":
                        anon.append((p[2], pos))
                    else:
                        labs[p[1]] = pos
                else:
                    e, t, f = branch(img, pos, bits, p[1])
                    brs.append((p, pos, e, t, f))
                    pos = e
            if pos != len(img):
                raise Bad("image has %d bytes, expected %d" % (len(img), pos))
        except (Bad, IndexError) as x:
            return pbt.V("%s\n%s\n%s" % (x, src, img.hex()[:400]), "walk", **kw)
        for p, s, e, t, f in brs:
            if p[3] == "$":
                w = s
            elif p[3] == "@F":
                w = min(a for a in anon if a[0] > p[5])[1]
            elif p[3] == "@B":
                w = max(a for a in anon if a[0] < p[5])[1]
            else:
                w = labs[p[3]]
            w += p[4]
            if (t ^ w) & M[bits]:
                return pbt.V("`%s' at %x reaches %x, its target is at %x\n%s" % (p[6], s, t, w, src), "target", **kw)
            if not p[2] and p[1] not in ("call",) and f != "short":
                # backward and in range: must be short
                if w <= s and s + 2 - w <= 128 and not (p[4] and p[3] not in ("$",)):
                    return pbt.V("`%s' at %x has the long form though its target %x is in short range\n%s" % (p[6], s, w, src), "notshort", **kw)
            if p[2].startswith("near") and f == "short":
                return pbt.V("`%s' has the short form in spite of NEAR PTR\n%s" % (p[6], src), "near", **kw)
        kw["labels"] = kw["labels"] + sorted({f for *_, f in brs})
        return pbt.V(None, **kw)


PROP = P()
