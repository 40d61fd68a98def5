"""C20: labels, $, ORG, ALIGN and distances denote final locations (image re-read item by item)."""
from lib import pbt
from lib.layout import *

DSZ = {"db": 1, "dw": 2, "dd": 4, "dq": 8}


class P(pbt.Prop):
    id = "C20"
    rule = ("one case = a program mixing code labels, data labels, LABEL, PROC, equates, $, ORG, ALIGN/EVEN, branches of variable size and data and instructions "
            "whose operands are labels, distances and equates (before and after the definition); image read back item by item; keys are programs")
    counts = {"quick": 25000, "thorough": 600000}
    assumptions = ["distances used where the operand has several sizes are accepted in any encoding that holds the value"]

    def gen(self, c):
        bits = c.weighted([(3, 32), (2, 16), (2, 64)])
        n = c.many(2, 26)
        labs = ["A%d" % i for i in range(c.int(1, 8))]
        items = []
        k2 = c.weighted([(2, 0), (1, 1)])      # larger gaps
        for _ in range(n):
            k = c.weighted([(5, "br"), (4, "fill"), (2, "align"), (1, "org"), (6, "ref"), (4, "ins"), (1, "dist2"), (1, "dup"), (1, "str"), (1, "patch")])
            if k == "br":
                items.append(["br", c.choice(["jmp", "jz", "jnb", "call"]), c.choice(labs)])
            elif k == "fill":
                items.append(["fill", c.weighted([(4, c.int(0, 8)), (2, c.int(100, 140)), (k2, c.int(200, 900))])])
            elif k == "align":
                items.append(["align", c.choice(["even", 1, 2, 4, 8, 16])])
            elif k == "org":
                items.append(["org", c.choice(["$+", "lab"]), c.int(0, 12)])
            elif k == "ref":
                items.append(["ref", self.exprs(c, labs), c.choice({16: ["dw", "dw", "dd"], 32: ["dd", "dd", "dw"], 64: ["dd", "dq"]}[bits]), c.int(0, 2)])
            elif k == "ins":
                items.append(["ins", c.below(len(INS[bits])), self.dist(c, labs)])
            elif k == "dist2":
                items.append(["sz", c.choice(["BYTE", "WORD", "DWORD", "QWORD"]), c.int(1, 5)])
            elif k == "if":
                items.append(["if", c.choice(["EQ", "NE", "GT", "LT", "GE", "LE"]), c.choice(labs), c.choice(labs), c.int(-10, 200)])
            elif k == "dup":
                items.append(["dup", c.choice(labs), c.choice(labs)])
            elif k == "str":
                items.append(["str", c.choice(["label", "proc", "equ$", "this", "=$"])])
            else:
                items.append(["patch", c.int(1, 6), c.int(0, 6), c.int(1, 6)])
        for l in labs:
            items.insert(c.below(len(items) + 1), ["lab", l, c.choice(["code", "code", "data", "label", "far"])])
        for it in items:
            if it[0] == "ref" and it[1][0] in ("l", "$"):
                it[2] = {16: "dw", 32: "dd"}.get(bits, it[2])
        tg = {it[2] for it in items if it[0] == "br"}
        for it in items:
            if it[0] == "lab" and it[1] in tg and it[2] == "data":
                it[2] = "code"      # a branch to a data label is another statement
        # equates of distances, defined anywhere, used anywhere
        eqs = []
        for i in range(c.below(4)):
            e = ["equ", "Q%d" % i, self.dist(c, labs), c.choice(["equ", "="])]
            eqs.append(e[1])
            items.insert(c.below(len(items) + 1), e)
        for it in items:
            if it[0] in ("ref", "ins") and eqs and c.bool(1, 5):
                it[1 if it[0] == "ref" else 2] = ["eq", c.choice(eqs), c.choice([0, 0, 1, -1])]
        return {"bits": bits, "items": items}

    def dist(self, c, labs):
        return ["d", c.choice(labs), c.choice(labs), c.choice([0, 0, 0, 1, -1, 3, 128, -128])]

    def exprs(self, c, labs):
        k = c.below(6)
        if k < 2:
            return ["l", c.choice(labs), c.choice([0, 0, 1, 5])]
        if k == 2:
            return ["$", c.choice([0, 1, 2, 7])]
        if k == 3:
            return ["l$", c.choice(labs)]
        if k == 4:
            return ["$l", c.choice(labs)]
        return self.dist(c, labs)

    def etext(self, e):
        add = lambda n: "%+d" % n if n else ""
        if e[0] == "l":
            return e[1] + add(e[2])
        if e[0] == "$":
            return "$" + add(e[1])
        if e[0] == "l$":
            return e[1] + "-$"
        if e[0] == "$l":
            return "$-" + e[1]
        if e[0] == "d":
            return "%s-%s%s" % (e[1], e[2], add(e[3]))
        return e[1] + add(e[2])

    def run(self, case):
        bits, items = case["bits"], case["items"]
        o = [{16: ".286", 32: ".386", 64: ".x64"}[bits], "option casemap:none", "S segment para use%d 'CODE'" % bits, "db 5ah"]
        prog, nb, seen, ns = [], 0, set(), 0
        eqdef = {it[1]: it for it in items if it[0] == "equ"}
        eqseen = set()
        used = set()
        for it in items:
            k = it[0]
            e = it[1] if k == "ref" else it[2] if k == "ins" else None
            if e and e[0] == "eq":
                used.add(e[1])
            if k == "br":
                if it[2] in seen or True:
                    o.append("%s %s" % (it[1], it[2]))
                    prog.append(("br", it[1], it[2], o[-1]))
            elif k == "fill":
                if it[1]:
                    o.append("db %d dup (0cch)" % it[1])
                    prog.append(("data", b"\xcc" * it[1]))
            elif k == "align":
                if it[1] == "even":
                    o.append("even")
                    prog.append(("align", 2))
                else:
                    o.append("align %d" % it[1])
                    prog.append(("align", it[1]))
            elif k == "org":
                if it[1] == "$+":
                    o.append("org $+%d" % it[2])
                    prog.append(("skip", it[2]))
                else:
                    ns += 1
                    o.append("O%d label byte" % ns)
                    o.append("org O%d+%d" % (ns, it[2]))
                    prog.append(("skip", it[2]))
            elif k == "ref":
                d, cnt = it[2], it[3]
                # $ is the address of the item's line; further items follow
                o.append("%s %s" % (d, ", ".join([self.etext(it[1])] + ["%d" % (7 + j) for j in range(cnt)])))
                prog.append(("ref", it[1], DSZ[d], o[-1]))
                for j in range(cnt):
                    prog.append(("data", (7 + j).to_bytes(DSZ[d], "little")))
            elif k == "ins":
                o.append(INS[bits][it[1]][0] % (("(%s)" if it[1] in (3, 4, 5) else "%s") % self.etext(it[2])))
                prog.append(("ins", it[1], it[2], o[-1]))
            elif k == "sz":
                nb += 1
                nm = "Z%d" % nb
                sz = {"BYTE": 1, "WORD": 2, "DWORD": 4, "QWORD": 8}[it[1]]
                o.append("%s %s %d dup (5)" % (nm, it[1], it[2]))
                prog.append(("data", (5).to_bytes(sz, "little") * it[2]))
                o.append("dw $-%s, sizeof %s, lengthof %s, type %s, $-%s" % (nm, nm, nm, nm, nm))
                prog.append(("data", b"".join(x.to_bytes(2, "little") for x in (sz * it[2], sz * it[2], it[2], sz, sz * it[2] + 8))))
            elif k == "if":
                if it[2] in seen and it[3] in seen:
                    o += ["if (%s-%s) %s %d" % (it[2], it[3], it[1], it[4]), "db 1", "else", "db 0", "endif"]
                    prog.append(("cond", it[1], it[2], it[3], it[4], o[-5]))
            elif k == "dup":
                if it[1] in seen and it[2] in seen and it[1] != it[2]:
                    # count = distance of two earlier labels, kept small and non-negative
                    o.append("db ((%s-%s) and 15) dup (0ddh)" % (it[1], it[2]))
                    prog.append(("dup", it[1], it[2], o[-1]))
            elif k == "str":
                ns += 1
                nm = "N%d" % ns
                if it[1] == "label":
                    o += [nm + " label word"]
                    prog.append(("name", nm))
                elif it[1] == "proc":
                    o += [nm + " proc", nm + " endp"]
                    prog.append(("name", nm))
                elif it[1] == "this":
                    o += [nm + " equ this byte"]
                    prog.append(("name", nm))
                else:
                    o += [nm + (" equ $" if it[1] == "equ$" else " = $")]
                    prog.append(("name", nm))
                o.append("%s %s" % ({16: "dw"}.get(bits, "dd"), nm))
                prog.append(("named", nm, 2 if bits == 16 else 4, o[-1]))
            elif k == "patch":
                ns += 1
                n, off, m = it[1] + it[2] + it[3], it[2], it[3]
                o += ["P%d label byte" % ns, "db %d dup (33h)" % n, "PE%d label byte" % ns, "org P%d+%d" % (ns, off), "db %d dup (44h)" % m, "org PE%d" % ns]
                b = bytearray(b"\x33" * n)
                b[off:off + m] = b"\x44" * m
                prog.append(("data", bytes(b)))
            elif k == "equ":
                # a "=" symbol is known from its line on only
                o.append("%s %s %s" % (it[1], "equ" if it[1] in used else it[3], self.etext(it[2])))
            else:
                nb += 1
                seen.add(it[1])
                body = bytes([0xf1, nb & 255])
                if it[2] == "data":
                    o.append("%s db 0f1h, %d" % (it[1], nb & 255))
                elif it[2] == "label":
                    o += ["%s label near" % it[1], "db 0f1h, %d" % (nb & 255)]
                elif it[2] == "far":
                    o += ["%s proc near" % it[1], "db 0f1h, %d" % (nb & 255), "%s endp" % it[1]]
                else:
                    o += [it[1] + ":", "db 0f1h, %d" % (nb & 255)]
                prog.append(("lab", it[1]))
                prog.append(("data", body))
        o += ["db 0c3h", "S ends", "end"]
        prog.append(("data", b"\xc3"))
        # a branch to a data label is not a branch to code: its type decides; leave them to near labels
        dl = {it[1] for it in items if it[0] == "lab" and it[2] == "data"}
        for i, p in enumerate(prog):
            if p[0] == "br" and p[2] in dl:
                raise pbt.Discard()
        src = "\n".join(o) + "\n"
        nref = sum(p[0] in ("ref", "ins", "br", "named", "cond", "dup") for p in prog)
        kw = dict(labels=["use%d" % bits], key=src, nontrivial=nref > 0, files={"t.asm": src}, sample=[p[3] for p in prog if p[0] in ("ref", "ins")][:5], n=max(nref, 1))
        r = self.r.asm(src, ("-bin",))
        errs = [e for e in r.errors() if e[2] != "Warning"]
        lines = src.split("\n")
        if any(e[3] in (2242, 4242) or "passes reached" in e[4] for e in errs):
            raise pbt.Discard()       # sizes that depend on each other without a solution UASM finds; reported
        if errs:
            return pbt.V("valid program rejected: %s\n%s\n%s" % (errs[:3], lines[(errs[0][1] or 1) - 1], src), "reject %d" % errs[0][3], **kw)
        img = r.file("t.BIN")
        if img is None:
            return pbt.V("no image: " + r.text[-300:], "noimage", **kw)
        pos, labs, chk, names = 1, {}, [], {}
        try:
            for p in prog:
                if p[0] == "data":
                    if img[pos:pos + len(p[1])] != p[1]:
                        raise Bad("data %s expected at %x, found %s" % (p[1][:8].hex(), pos, img[pos:pos + 8].hex()))
                    pos += len(p[1])
                elif p[0] == "align":
                    pos = -(-pos // p[1]) * p[1]
                elif p[0] == "skip":
                    pos += p[1]
                elif p[0] == "lab":
                    labs[p[1]] = pos
                elif p[0] == "name":
                    names[p[1]] = pos
                elif p[0] == "br":
                    e, t, f = branch(img, pos, bits, p[1])
                    chk.append((p, pos, t, None))
                    pos = e
                elif p[0] == "ref" or p[0] == "named":
                    v = sx(img[pos:pos + p[2]])
                    chk.append((p, pos, v, p[2]))
                    pos += p[2]
                elif p[0] == "ins":
                    e, v = ins(img, pos, bits, p[1])
                    chk.append((p, pos, v, None))
                    pos = e
                elif p[0] == "cond":
                    a, b = labs[p[2]] - labs[p[3]], p[4]
                    w = {"EQ": a == b, "NE": a != b, "GT": a > b, "LT": a < b, "GE": a >= b, "LE": a <= b}[p[1]]
                    if img[pos] != int(w):
                        raise Bad("`%s' at %x took the wrong branch (distance %d)" % (p[5], pos, a))
                    pos += 1
                elif p[0] == "dup":
                    n = (labs[p[1]] - labs[p[2]]) & 15
                    if img[pos:pos + n] != b"\xdd" * n:
                        raise Bad("%d bytes of `%s' expected at %x, found %s" % (n, p[3], pos, img[pos:pos + 18].hex()))
                    pos += n
            if pos != len(img):
                raise Bad("image has %d bytes, expected %d" % (len(img), pos))
        except (Bad, IndexError) as x:
            return pbt.V("%s\n%s\n%s" % (x, src, img.hex()[:600]), "walk", **kw)

        def ev(e, at):
            if e[0] == "l":
                return labs[e[1]] + e[2]
            if e[0] == "$":
                return at + e[1]
            if e[0] == "l$":
                return labs[e[1]] - at
            if e[0] == "$l":
                return at - labs[e[1]]
            if e[0] == "d":
                return labs[e[1]] - labs[e[2]] + e[3]
            return ev(eqdef[e[1]][2], at) + e[2]
        for p, s, v, sz in chk:
            if p[0] == "br":
                w = labs[p[2]]
            elif p[0] == "named":
                w = names[p[1]]
            else:
                w = ev(p[1] if p[0] == "ref" else p[2], s)
            m = M[bits] if sz is None else (1 << 8 * sz) - 1
            if sz is None and bits == 64:
                m = M[32] if p[0] != "br" else m
            if (v ^ w) & m:
                return pbt.V("`%s' at %x holds %x, expected %x\n%s" % (p[3], s, v & m, w & m, src), p[0], **kw)
        return pbt.V(None, **kw)


PROP = P()
