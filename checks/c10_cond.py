"""C10: conditional and repeat blocks (interpreter of generated block trees)."""
from lib import pbt

JUNK = ["this is not a statement", ".err <must not be seen>", "mov eax, nosuchthing", "undefmacro 1, 2", "db 300", "xyz = ", "foo db bar dup", "db 'abc", "ifdef_ foo", "include nosuch.inc",
        "jmp nowhere", "x macro_ y", ") ] }", "%notdef", "dw ((1)", "st1 struct_"]
TXT = ["", "a", "A", "ab", "Ab", "aB", "x y", "1", "12", "a,b", " a", "a b c", "(1)", "[q]"]


class End(Exception):
    pass


class P(pbt.Prop):
    id = "C10"
    rule = ("one case = a tree of IF*/ELSEIF*/ELSE and REPEAT/WHILE/FOR/FORC blocks (in and out of macros, EXITM, GOTO) over numeric and text variables, with junk in lines that must be skipped; "
            "expected bytes from an interpreter of the tree; keys are programs")
    counts = {"quick": 40000, "thorough": 900000}

    # ---------- generation: nodes are lists
    def gen(self, c):
        self.budget = 60
        nv = c.int(1, 3)
        self.names = ["v%d" % i for i in range(nv)]
        self.depth = 0
        init = [["set", n, c.int(-3, 9)] for n in self.names]
        for i in range(c.int(0, 2)):
            init.append(["text", "t%d" % i, c.choice(TXT)])
        self.nt = sum(1 for x in init if x[0] == "text")
        self.uid = 0
        body = self.block(c, 4, loops=[], inmac=False)
        if c.bool(1, 10):
            # deep nesting
            d = c.int(5, 15)
            for i in range(d):
                arms = [[self.cond(c, []) if c.bool(1, 6) else ["if", c.int(1, 3)], body]]
                els = [self.leaf(c, [])] if c.bool(2, 3) else None
                if c.bool(1, 3):
                    arms.insert(c.below(2), [self.cond(c, []) if c.bool(1, 3) else ["if", 0], [self.leaf(c, [])]])
                body = ([self.leaf(c, [])] if c.bool() else []) + [["if", arms, els]] + ([self.leaf(c, [])] if c.bool() else [])
        return {"body": init + body, "case": c.below(3)}

    def block(self, c, d, loops, inmac, lo=0):
        out = []
        for _ in range(c.int(max(lo, 1), 4)):
            if self.budget <= 0:
                break
            self.budget -= 1
            k = c.weighted([(5, "leaf"), (2, "set"), (6 if d else 0, "if"), (2 if d > 1 else 0, "rep"), (2 if d > 1 else 0, "for"), (2 if d > 1 else 0, "forc"), (1 if d > 1 else 0, "while"),
                            (1 if loops else 0, "exitm"), (1 if d > 2 and not loops and not inmac else 0, "mac"), (1, "def"), (1 if self.nt else 0, "text")])
            if k == "leaf":
                out.append(self.leaf(c, loops))
            elif k == "set":
                out.append(["set", c.choice(self.names), self.expr(c, loops)])
            elif k == "text":
                out.append(["text", "t%d" % c.below(self.nt), c.choice(TXT)])
            elif k == "def":
                out.append(["def", "d%d" % c.below(3)])
            elif k == "exitm":
                out.append(["if", [[self.cond(c, loops), [["exitm"]]]], None])
            elif k == "if":
                arms = []
                for i in range(c.weighted([(4, 1), (2, 2), (1, 3)])):
                    arms.append([self.cond(c, loops), self.block(c, d - 1, loops, inmac)])
                els = self.block(c, d - 1, loops, inmac) if c.bool() else None
                out.append(["if", arms, els])
            elif k == "rep":
                out.append(["rep", c.choice(["repeat", "rept"]), c.weighted([(6, c.int(0, 4)), (1, ["v", c.choice(self.names)])]), self.block(c, d - 2, loops + [None], inmac)])
            elif k == "while":
                w = "w%d" % self.uid
                self.uid += 1
                self.names.append(w)
                b = self.block(c, d - 2, loops + [None], inmac)
                self.names.remove(w)
                out += [["set", w, c.int(0, 4)], ["while", w, c.choice(["GT", "NE"]), b]]
            elif k == "for":
                x = "x%d" % self.uid
                self.uid += 1
                n = c.int(0, 4)
                kind = c.choice(["num", "str", "mix"])
                items = []
                for _ in range(n):
                    j = c.below(5)
                    if kind == "num" or kind == "mix" and j < 2:
                        items.append(["n", c.int(0, 255)])
                    elif j < 4:
                        items.append(["s", c.choice(["ab", "q", "a,b", "x y", "<z>", "k=l", "Ab", "(b,c)"])])
                    else:
                        items.append(["e"])
                dflt = c.choice([None, None, ["n", 77]])
                if any(i[0] == "e" for i in items) and dflt is None and c.bool(1, 3):
                    items = [i for i in items if i[0] != "e"]
                if items and items[-1][0] == "e":
                    items.append(["n", 5])      # a trailing comma is another matter
                b = self.block(c, d - 2, loops + [["for", x]], inmac)
                out.append(["for", c.choice(["for", "irp"]), x, dflt, items, b])
            elif k == "forc":
                x = "y%d" % self.uid
                self.uid += 1
                t = "".join(c.choice("abcXYZ019 ,.<>!()+-\t[]{}:=*/$#@?_|^~%;") for _ in range(c.int(1, 5)))
                b = self.block(c, d - 2, loops + [["forc", x, any(q in t for q in "<>!%;")]], inmac)
                out.append(["forc", c.choice(["forc", "irpc"]), x, t, b])
            elif k == "mac":
                # a macro with a loop made of GOTO
                m = "m%d" % self.uid
                g = "g%d" % self.uid
                self.uid += 1
                self.names.append(g)
                pre = self.block(c, d - 2, [], True)
                post = self.block(c, d - 2, [], True)
                self.names.remove(g)
                form = c.below(3)
                out.append(["goto", m, g, c.int(0, 3), pre, post, form, self.cond(c, [])])
        return out

    def leaf(self, c, loops):
        k = c.below(6)
        ls = [l for l in loops if l]
        if ls and k < 3:
            l = c.choice(ls)
            return ["lv", l[0], l[1]]
        if k == 3:
            return ["leafv", c.choice(self.names)]
        return ["leaf", c.below(256)]

    def expr(self, c, loops):
        """[const | ["v",n] | [op,a,b]]"""
        k = c.below(6)
        if k < 2:
            return c.int(-3, 9)
        if k < 4:
            return ["v", c.choice(self.names)]
        return [c.choice(["+", "-", "*"]), ["v", c.choice(self.names)], c.int(-2, 4)]

    def cond(self, c, loops):
        fl = [l for l in loops if l and not (l[0] == "forc" and l[2])]
        k = c.weighted([(5, "if"), (2, "ife"), (2, "def"), (2, "b"), (3, "idn")])
        if k in ("if", "ife"):
            if c.bool(1, 3):
                return [k, self.expr(c, loops)]
            e = [c.choice(["EQ", "NE", "LT", "LE", "GT", "GE"]), self.expr(c, loops), self.expr(c, loops)]
            if c.bool(1, 5):
                e = [c.choice(["AND", "OR"]), e, ["EQ", self.expr(c, loops), self.expr(c, loops)]]
            if c.bool(1, 8):
                e = ["NOT", e]
            return [k, e]
        if k == "def":
            return [c.choice(["ifdef", "ifndef"]), c.choice(["d0", "d1", "d2", c.choice(self.names), "nosuchname"])]
        if k == "b":
            return [c.choice(["ifb", "ifnb"]), self.targ(c, fl)]
        return [c.choice(["ifidn", "ifidni", "ifdif", "ifdifi"]), self.targ(c, fl), self.targ(c, fl)]

    def targ(self, c, fl):
        if fl and c.bool():
            l = c.choice(fl)
            return ["l", l[1]]
        if self.nt and c.bool(1, 4):
            return ["t", "t%d" % c.below(self.nt)]
        return ["x", c.choice(TXT)]

    # ---------- source
    def etext(self, e):
        if isinstance(e, int):
            return str(e)
        if e[0] == "v":
            return e[1]
        if e[0] == "NOT":
            return "not (%s)" % self.etext(e[1])
        return "(%s) %s (%s)" % (self.etext(e[1]), e[0], self.etext(e[2]))

    def esc(self, t):
        return "".join("!" + ch if ch in "<>!" else ch for ch in t)

    def ttext(self, t):
        if t[0] == "l":
            return "<%s>" % t[1]
        if t[0] == "t":
            return t[1]
        return "<%s>" % t[1]

    def ctext(self, cd, first):
        k = cd[0]
        w = k if first else "else" + k
        if k in ("if", "ife"):
            return "%s %s" % (w, self.etext(cd[1]))
        if k in ("ifdef", "ifndef"):
            return "%s %s" % (w, cd[1])
        return "%s %s" % (w, ", ".join(self.ttext(t) for t in cd[1:]))

    def emit(self, body, o, ind):
        p = "  " * ind
        if id(body) not in self.seen:
            # never assembled: may hold anything
            self.nj = (self.nj * 5 + 3) % len(JUNK)
            if self.nj % 3:
                o.append(p + JUNK[self.nj])
        for n in body:
            k = n[0]
            if k == "leaf":
                o.append(p + "db %d" % n[1])
            elif k == "leafv":
                o.append(p + "db (%s) and 255" % n[1])
            elif k == "lv":
                if n[1] == "forc":
                    o.append(p + "db '&%s'" % n[2])
                else:
                    o += [p + "ifb <%s>" % n[2], p + "db 0eeh", p + "else", p + "db '&%s&', 0" % n[2], p + "endif"]
            elif k == "set":
                o.append(p + "%s = %s" % (n[1], self.etext(n[2])))
            elif k == "text":
                o.append(p + "%s textequ <%s>" % (n[1], n[2]))
            elif k == "def":
                o.append(p + "%s = 1" % n[1])
            elif k == "exitm":
                o.append(p + "exitm")
            elif k == "if":
                for i, (cd, b) in enumerate(n[1]):
                    o.append(p + self.ctext(cd, i == 0))
                    self.emit(b, o, ind + 1)
                if n[2] is not None:
                    o.append(p + "else")
                    self.emit(n[2], o, ind + 1)
                o.append(p + "endif")
            elif k == "junk":
                o.append(p + n[1])
            elif k == "rep":
                o.append(p + "%s %s" % (n[1], n[2] if isinstance(n[2], int) else "(%s) and 3" % n[2][1]))
                self.emit(n[3], o, ind + 1)
                o.append(p + "endm")
            elif k == "while":
                o.append(p + "while %s %s 0" % (n[1], n[2]))
                o.append(p + "  %s = %s - 1" % (n[1], n[1]))
                self.emit(n[3], o, ind + 1)
                o.append(p + "endm")
            elif k == "for":
                it = ", ".join({"n": lambda i: str(i[1]), "s": lambda i: "<%s>" % i[1], "e": lambda i: ""}[i[0]](i) for i in n[4])
                o.append(p + "%s %s%s, <%s>" % (n[1], n[2], "" if n[3] is None else ":=<%d>" % n[3][1], it))
                self.emit(n[5], o, ind + 1)
                o.append(p + "endm")
            elif k == "forc":
                o.append(p + "%s %s, <%s>" % (n[1], n[2], self.esc(n[3])))
                self.emit(n[4], o, ind + 1)
                o.append(p + "endm")
            elif k == "goto":
                _, m, g, cnt, pre, post, form, cd = n
                o.append(p + "%s = %d" % (g, cnt))
                o.append(p + "%s macro" % m)
                if form == 2:
                    # forward: skip a part
                    o.append(p + self.ctext(cd, True))
                    o.append(p + "goto done")
                    o.append(p + "endif")
                    self.emit(pre, o, ind + 1)
                    o.append(p + ":done")
                    self.emit(post, o, ind + 1)
                else:
                    o.append(p + ":top")
                    self.emit(pre, o, ind + 1)
                    o.append(p + "if %s GT 0" % g)
                    o.append(p + "%s = %s - 1" % (g, g))
                    o.append(p + "goto top")
                    o.append(p + "endif")
                    self.emit(post, o, ind + 1)
                    if form == 1:
                        o += [p + "exitm", p + "  db 0bbh", p + "  .err"]
                o.append(p + "endm")
                o.append(p + m)

    # ---------- meaning
    def ev(self, e, s):
        if isinstance(e, int):
            return e
        if e[0] == "v":
            return s["v"][e[1]]
        if e[0] == "NOT":
            return ~self.ev(e[1], s)
        a, b = self.ev(e[1], s), self.ev(e[2], s)
        r = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "AND": lambda: a & b, "OR": lambda: a | b, "EQ": lambda: -(a == b), "NE": lambda: -(a != b),
             "LT": lambda: -(a < b), "LE": lambda: -(a <= b), "GT": lambda: -(a > b), "GE": lambda: -(a >= b)}[e[0]]()
        if abs(r) > 0x7fffffff:
            raise pbt.Discard()
        return r

    def tv(self, t, s):
        if t[0] == "l":
            return s["l"][t[1]]
        if t[0] == "t":
            return s["t"][t[1]]
        return t[1]

    def holds(self, cd, s):
        k = cd[0]
        if k == "if":
            return self.ev(cd[1], s) != 0
        if k == "ife":
            return self.ev(cd[1], s) == 0
        if k in ("ifdef", "ifndef"):
            d = cd[1] in s["d"] or cd[1] in s["v"]
            return d == (k == "ifdef")
        if k in ("ifb", "ifnb"):
            return (self.tv(cd[1], s).strip() == "") == (k == "ifb")
        a, b = self.tv(cd[1], s), self.tv(cd[2], s)
        if k.endswith("i"):
            a, b = a.lower(), b.lower()
        return (a == b) == ("idn" in k)

    def go(self, body, s):
        s["seen"].add(id(body))
        for n in body:
            k = n[0]
            s["n"] += 1
            if s["n"] > 3000 or len(s["out"]) > 6000:
                raise pbt.Discard()
            if k == "leaf":
                s["out"].append(n[1])
            elif k == "leafv":
                s["out"].append(s["v"][n[1]] & 255)
            elif k == "lv":
                v = s["l"][n[2]]
                if n[1] == "forc":
                    s["out"] += v.encode()
                elif v.strip() == "":
                    s["out"].append(0xee)
                else:
                    s["out"] += v.encode() + b"\0"
            elif k == "set":
                s["v"][n[1]] = self.ev(n[2], s)
            elif k == "text":
                s["t"][n[1]] = n[2]
            elif k == "def":
                s["d"].add(n[1])
            elif k == "exitm":
                s["labels"].add("exitm")
                raise End()
            elif k == "if":
                for i, (cd, b) in enumerate(n[1]):
                    s["labels"].add(cd[0] if i == 0 else "else" + cd[0])
                    if self.holds(cd, s):
                        self.go(b, s)
                        break
                else:
                    if n[2] is not None:
                        self.go(n[2], s)
            elif k == "junk":
                raise AssertionError()
            elif k in ("rep", "while", "for", "forc"):
                s["labels"].add(n[1] if k != "while" else "while")
                try:
                    if k == "rep":
                        cnt = n[2] if isinstance(n[2], int) else s["v"][n[2][1]] & 3
                        for _ in range(cnt):
                            self.go(n[3], s)
                    elif k == "while":
                        while s["v"][n[1]] > 0 if n[2] == "GT" else s["v"][n[1]] != 0:
                            s["v"][n[1]] -= 1
                            self.go(n[3], s)
                            s["n"] += 1
                            if s["n"] > 3000:
                                raise pbt.Discard()
                    elif k == "for":
                        for i in n[4]:
                            s["l"][n[2]] = str(i[1]) if i[0] != "e" else "" if n[3] is None else str(n[3][1])
                            self.go(n[5], s)
                    else:
                        for ch in n[3]:
                            s["l"][n[2]] = ch
                            self.go(n[4], s)
                except End:
                    pass
            elif k == "goto":
                _, m, g, cnt, pre, post, form, cd = n
                s["labels"].add("goto")
                s["v"][g] = cnt
                if form == 2:
                    if not self.holds(cd, s):
                        self.go(pre, s)
                    self.go(post, s)
                else:
                    while True:
                        self.go(pre, s)
                        s["n"] += 1
                        if s["n"] > 3000:
                            raise pbt.Discard()
                        if s["v"][g] > 0:
                            s["v"][g] -= 1
                            continue
                        break
                    self.go(post, s)

    def run(self, case):
        s = {"v": {}, "t": {}, "d": set(), "l": {}, "out": [], "n": 0, "labels": set(), "seen": set()}
        self.nj = len(str(case["body"])) % len(JUNK)
        self.go(case["body"], s)
        self.seen = s["seen"]
        o = [".386", "option casemap:none", "S segment byte public use32 'DATA'", "db 5ah"]
        self.emit(case["body"], o, 0)
        # what may not be seen: arms of a false condition, at top level, with junk
        h = sum(map(ord, str(case["body"])))
        for i in range(3):
            o += [["if 0", "ifdef nosuchname", "ifidn <a>, <b>"][i], JUNK[(h + i) % len(JUNK)], "if 1", JUNK[(h // 7 + i) % len(JUNK)], "else", JUNK[(h // 3) % len(JUNK)], "endif", "elseif 0", "db 1", "endif"]
        o += ["db 0c3h", "S ends", "end"]
        exp = bytes([0x5a] + s["out"] + [0xc3])
        if case["case"]:
            kw_ = ("if ", "ife ", "else", "endif", "repeat ", "rept ", "while ", "endm", "exitm", "for ", "forc ", "irp ", "irpc ", "goto ", "db ", "macro")
            o = [l.upper() if case["case"] == 1 and l.strip() in ("else", "endif", "endm", "exitm") else l for l in o]
        src = "\n".join(o) + "\n"
        kw = dict(labels=sorted(s["labels"]), key=src, nontrivial=bool(s["labels"]), files={"t.asm": src}, sample=o[4:10])
        r = self.r.asm(src, ("-bin",))
        if r.errors() or r.rc:
            e = r.errors()
            return pbt.V("valid blocks are rejected: %s\n%s" % (e[:3] or r.text[-300:], src), "error %s" % (e[0][3] if e else ""), **kw)
        got = r.file("t.BIN") or b""
        if got != exp:
            return pbt.V("emitted  %s\nexpected %s\n%s" % (got.hex(), exp.hex(), src), "bytes", **kw)
        return pbt.V(None, **kw)


PROP = P()
