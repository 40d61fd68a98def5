"""C09: macro calls against their hand expansion (both assembled)."""
from lib import pbt

WORDS = ["alpha", "beta", "Gamma", "d9", "x_1"]
REGS = ["eax", "ecx", "EDX", "ebx", "esi"]


class Exit(Exception):
    pass


def esc(t):
    return "".join("!" + ch if ch in "<>!" else ch for ch in t)


class P(pbt.Prop):
    id = "C09"
    rule = ("one case = up to four macros (positional, defaulted, REQ and VARARG parameters, LOCALs, & substitution, IFB/IFIDN/IF on parameters, FOR over VARARG, EXITM, nested and recursive calls, "
            "macro functions) and up to eight calls (plain, <>, !-escaped, %-expression, string and missing arguments), against the same program with every call expanded by hand; keys are programs")
    counts = {"quick": 30000, "thorough": 700000}
    assumptions = ["the hand expansion is generated by the reference expander of this check and assembled by the same assembler"]

    # ------------------------------------------------ generation
    # parameter kinds: n number, s short text for strings, r register, w word (label part), v vararg of numbers
    def gen(self, c):
        self.uid = 0
        macs = []
        for i in range(c.int(1, 4)):
            macs.append(self.macro(c, i, macs))
        calls = [self.call(c, c.choice(macs), None, macs) for _ in range(c.int(1, 8))]
        prog = []
        for x in calls:
            if c.bool(1, 4):
                prog.append(["setc", c.int(0, 200)])
            if c.bool(1, 5):
                prog.append(["line", "db %d" % c.below(256)])
            prog.append(x)
        redef = None
        if c.bool(1, 8):
            # redefinition: later calls use the new body
            k = c.below(len(macs))
            m2 = self.macro(c, k, macs[:k], like=macs[k])
            redef = [c.below(len(prog) + 1), k, m2, c.bool(1, 3)]
        return {"macs": macs, "prog": prog, "redef": redef, "up": c.below(3)}

    def macro(self, c, i, prev, like=None):
        if like:
            params = like["params"]
        else:
            params = []
            for j in range(c.int(0, 4)):
                k = c.weighted([(4, "n"), (2, "s"), (1, "r"), (2, "w")])
                a = c.weighted([(4, ""), (1, "req"), (2, "def"), (1, "defe")])
                nm = c.choice(["p", "arg", "q", "Z"]) + str(j)
                d = None
                if a in ("def", "defe"):
                    d = self.val(c, k)
                    d = ["t", d[1] if d[0] in ("t", "<", "!") else "7"]
                params.append([nm, k, a, d])
            if c.bool(1, 4):
                params.append(["rest", "v", "", None])
        func = like["func"] if like else c.bool(1, 5)
        rec = not func and not like and any(p[1] == "n" for p in params[:1]) and c.bool(1, 3)
        m = {"name": "mac%d" % i, "params": params, "func": func, "locals": [], "body": []}
        if func:
            m["ret"] = self.numfrag(c, params)
            m["pre"] = [["setc2", c.int(0, 9)]] if c.bool(1, 3) else []
            return m
        if c.bool(1, 3):
            m["locals"] = ["lo%d" % j for j in range(c.int(1, 2))]
        m["body"] = self.body(c, m, prev, 2, c.int(1, 5), [])
        if rec:
            # call itself with the first parameter decremented, while it is positive
            m["rec"] = [params[0][0], c.bool()]
            m["recargs"] = [self.val(c, p[1]) if p[1] != "v" else None for p in params[1:]]
        return m

    def val(self, c, k):
        """argument value: (kind, data) with the resulting text determined by argtext/argval"""
        if k == "n":
            j = c.below(8)
            if j < 3:
                return ["t", str(c.int(0, 255))]
            if j == 3:
                return ["t", "%d+%d" % (c.int(0, 9), c.int(0, 99))]
            if j == 4:
                return ["%", "%d*%d" % (c.int(0, 9), c.int(0, 12)), None]
            if j == 5:
                return ["%c", c.int(0, 20)]
            if j == 6:
                return ["<", "%d" % c.int(0, 255)]
            return ["t", "(%d) - 3" % c.int(3, 100)]
        if k == "s":
            j = c.below(6)
            if j < 2:
                return ["t", c.choice(WORDS)]
            t = "".join(c.choice("ab ,<>!Z()09+.") for _ in range(c.int(1, 6)))
            if j == 2 and t.strip() == t and all(q not in t for q in "<>!()") and "," not in t:
                return ["t", t]
            if j == 3:
                t2 = t.replace("<", "").replace(">", "").replace("!", "").strip()
                if t2 and "(" not in t2 and ")" not in t2:
                    return ["!", t2]
            return ["<", t]
        if k == "r":
            return ["t", c.choice(REGS)]
        if k == "w":
            return [c.choice(["t", "<"]), c.choice(WORDS)]
        raise ValueError(k)

    def argtext(self, v):
        if v[0] == "t":
            return v[1]
        if v[0] == "<":
            return "<%s>" % esc(v[1])
        if v[0] == "!":
            return v[1].replace(",", "!,")
        if v[0] == "%":
            return "%" + v[1]
        if v[0] == "%c":
            return "%%cnt+%d" % v[1]

    def argval(self, v, st):
        if v[0] == "%":
            a, b = v[1].split("*")
            return str(int(a) * int(b))
        if v[0] == "%c":
            return str(st["cnt"] + v[1])
        return v[1]

    def numfrag(self, c, params):
        ns = [p[0] for p in params if p[1] == "n"]
        if ns and c.bool(4, 5):
            k = c.below(3)
            if k == 0:
                return [["p", c.choice(ns)]]
            if k == 1:
                return ["(", ["p", c.choice(ns)], ") and 127"]
            return [["p", c.choice(ns)], "+%d" % c.below(9)]
        return ["%d" % c.below(200)]

    def body(self, c, m, prev, d, n, fors):
        """nodes: ["line", frags] | ["if*", cond, body, else] | ["for", var, param, body] | ["call", macname, args] | ["exitm"] | ["lab", ...]"""
        params = m["params"]
        byk = {}
        for p in params:
            byk.setdefault(p[1], []).append(p)
        out = []
        for _ in range(n):
            k = c.weighted([(4, "num"), (3, "str"), (2, "lab"), (2, "mov"), (3 if d else 0, "if"), (2 if d and "v" in byk else 0, "for"), (2 if prev and d else 0, "call"), (1, "cnt"), (1 if m["locals"] else 0, "loc"),
                            (1 if d == 1 else 0, "exitm"), (1 if any(x["func"] for x in prev) else 0, "func"), (1, "tm"), (1 if d else 0, "rep")])
            if k == "num":
                out.append(["line", ["db (" if 0 else "db "] + self.numfrag(c, params)])
            elif k == "str":
                ss = byk.get("s", []) + byk.get("w", [])
                if not ss:
                    continue
                p = c.choice(ss)[0]
                q = c.choice("'\"")
                f = c.below(5)
                fr = [["db " + q, ["&", p], q], ["db " + q + "k", ["&", p, "&"], "z" + q], ["db " + q, ["&", p, "&"], " ", ["&", p], "." + q],
                      ["db " + q + p + " ", ["&", p, "&"], q], ["db " + q, ["&", p, "&"], q + ", " + q + p + q + " ; " + p]][f]
                # a name in quotes without & stays; so does one in a comment
                if f >= 3 and p.lower() in ("",):
                    continue
                out.append(["line", fr])
            elif k == "lab":
                ws = byk.get("w", [])
                if not ws:
                    continue
                p = c.choice(ws)[0]
                self.uid += 1
                u = "u%d" % self.uid
                # distinct expansions may define the name twice: use a variable
                f = c.below(4)
                fr = [[["p", p], "&_%s" % u], ["%s_" % u, ["&", p]], ["%s_" % u, ["&", p, "&"], "_e"], [["p", p], "&_%s_" % u, ["&", p]]][f]
                out.append(["line", fr + [" = %d" % c.below(99)]])
                out.append(["line", ["db "] + fr])
            elif k == "mov":
                rs = byk.get("r", [])
                if not rs:
                    continue
                p = c.choice(rs)[0]
                f = c.below(3)
                out.append(["line", [["mov ", ["p", p], ", %d" % c.below(1000)], ["lea ", ["p", p], ", [", ["p", p], "+4]"], ["push ", ["p", p]]][f]])
            elif k == "if":
                cd = self.cond(c, params)
                if cd:
                    out.append(["if", cd, self.body(c, m, prev, d - 1, c.int(1, 2), fors), self.body(c, m, prev, d - 1, c.int(1, 2), fors) if c.bool() else None])
            elif k == "rep":
                out.append(["rep", c.int(0, 3), self.body(c, m, [], 0, c.int(1, 2), fors)])
            elif k == "for":
                x = "x%d" % self.uid
                self.uid += 1
                b = [["line", ["db ", ["p", x]]]] + ([["line", ["db '", ["&", x], "'"]]] if c.bool() else [])
                if c.bool(1, 3):
                    b.append(["if", ["idn", "ifidn", ["p", x], str(c.below(5))], [["exitm"]], None])
                out.append(["for", x, "rest", b])
            elif k == "call":
                pm = c.choice(prev)
                if not pm["func"]:
                    out.append(self.call(c, pm, params, prev))
            elif k == "func":
                pm = c.choice([x for x in prev if x["func"]])
                out.append(["fline", "db ", self.call(c, pm, params, prev, True), c.choice(["", "+1"])])
            elif k == "cnt":
                out.append(["inc", c.int(1, 3)])
                out.append(["line", ["db cnt and 255"]])
            elif k == "loc":
                l = c.choice(m["locals"])
                m.setdefault("lused", []).append(l)
                out.append(["line", ["dw ", ["L", l], "-$, ", ["L", l], "-S0"]])
            elif k == "exitm":
                cd = self.cond(c, params)
                if cd:
                    out.append(["if", cd, [["exitm"]], None])
            elif k == "tm":
                ns = byk.get("n", [])
                if ns:
                    p = c.choice(ns)[0]
                    self.uid += 1
                    t = "tx%d" % self.uid
                    out.append(["line", [t + " textequ <", ["p", p], ">"]])
                    out.append(["line", ["db " + t]])
        return out

    def cond(self, c, params):
        ps = [p for p in params if p[1] in "nswr"]
        if not ps:
            return None
        k = c.below(4)
        p = c.choice(ps)
        if k == 0:
            return ["b", c.choice(["ifb", "ifnb"]), ["p", p[0]]]
        if k == 1 and p[1] == "n":
            return ["n", c.choice(["EQ", "GT", "LT"]), ["p", p[0]], c.int(0, 100)]
        if k == 2:
            return ["idn", c.choice(["ifidn", "ifidni", "ifdif", "ifdifi"]), ["p", p[0]], c.choice(["5", "alpha", "ALPHA", "eax", "gamma", "1"])]
        return ["b", c.choice(["ifb", "ifnb"]), ["p", p[0]]]

    def call(self, c, m, outer, prev, func=False):
        """["call", name, [arg|None]]; an arg is a value or ["fwd", outer param]"""
        args = []
        for nm, k, a, d in m["params"]:
            if k == "v":
                for _ in range(c.int(0, 4)):
                    args.append(["t", str(c.int(0, 9))])
                continue
            if a != "req" and k in ("n", "s", "w", "r") and c.bool(1, 6):
                args.append(None)
                continue
            if outer:
                fw = [p for p in outer if p[1] == k and k in "nwr" and p[2] != ""]
                if fw and c.bool():
                    args.append(["fwd", c.choice(fw)[0]])
                    continue
            args.append(self.val(c, k))
        if not func and args and c.bool(1, 6):
            while args and args[-1] is None:
                args.pop()
        return ["call", m["name"], args]

    # ------------------------------------------------ macro source
    def frag(self, f):
        if isinstance(f, str):
            return f
        if f[0] == "p" or f[0] == "L":
            return f[1]
        return "&" + f[1] + (f[2] if len(f) > 2 else "")

    def ctext(self, cd):
        if cd[0] == "b":
            return "%s <%s>" % (cd[1], self.frag(cd[2]))
        if cd[0] == "n":
            return "if %s %s %d" % (self.frag(cd[2]), cd[1], cd[3])
        return "%s <%s>, <%s>" % (cd[1], self.frag(cd[2]), cd[3])

    def calltext(self, n):
        args = ["" if a is None else a[1] if a[0] == "fwd" else self.argtext(a) for a in n[2]]
        return args

    def emit(self, body, o):
        for n in body:
            k = n[0]
            if k == "line":
                o.append("  " + "".join(self.frag(f) for f in n[1]))
            elif k == "if":
                o.append("  " + self.ctext(n[1]))
                self.emit(n[2], o)
                if n[3] is not None:
                    o.append("  else")
                    self.emit(n[3], o)
                o.append("  endif")
            elif k == "rep":
                o.append("  repeat %d" % n[1])
                self.emit(n[2], o)
                o.append("  endm")
            elif k == "for":
                o.append("  for %s, <%s>" % (n[1], n[2]))
                self.emit(n[3], o)
                o.append("  endm")
            elif k == "call":
                o.append("  %s %s" % (n[1], ", ".join(self.calltext(n))))
            elif k == "fline":
                o.append("  %s%s(%s)%s" % (n[1], n[2][1], ", ".join(self.calltext(n[2])), n[3]))
            elif k == "inc":
                o.append("  cnt = cnt + %d" % n[1])
            elif k == "exitm":
                o.append("  exitm")

    def define(self, m, o, up):
        ps = []
        for nm, k, a, d in m["params"]:
            ps.append(nm + {"": "", "req": ":REQ", "def": ":=<%s>" % (esc(d[1]) if d else ""), "defe": ":=<%s>" % (esc(d[1]) if d else "")}[a] if k != "v" else nm + ":VARARG")
        o.append("%s %s %s" % (m["name"], "MACRO" if up == 1 else "macro", ", ".join(ps)))
        if m["locals"]:
            o.append("  local %s" % ", ".join(m["locals"]))
        if m["func"]:
            for n in m["pre"]:
                o.append("  cn2 = %d" % n[1])
            o.append("  exitm <%s>" % "".join(self.frag(f) for f in m["ret"]))
        else:
            for l in sorted(set(m.get("lused", []))):
                o.append("  %s label byte" % l)
            self.emit(m["body"], o)
            if m.get("rec"):
                p, how = m["rec"]
                o.append("  if %s GT 0" % p)
                a = ["%%%s-1" % p] + ["rest" if v is None else self.argtext(v) for v in m["recargs"]]
                o.append("  %s %s" % (m["name"], ", ".join(a)))
                o.append("  endif")
        o.append("endm")

    # ------------------------------------------------ hand expansion
    def num(self, t):
        if t is None or not t.strip():
            raise pbt.Discard()
        try:
            return eval(t, {"__builtins__": {}}, {})
        except Exception:
            raise pbt.Discard()

    def bind(self, m, n, st, env):
        b = {}
        i = 0
        for nm, k, a, d in m["params"]:
            if k == "v":
                rest = []
                for x in n[2][i:]:
                    rest.append("" if x is None else env[x[1]] if x[0] == "fwd" else self.argval(x, st))
                b[nm] = rest
                i = len(n[2])
                break
            x = n[2][i] if i < len(n[2]) else None
            i += 1
            if x is None:
                t = ""
            elif x[0] == "fwd":
                t = env[x[1]]
            else:
                t = self.argval(x, st)
            if t == "":
                if a == "req":
                    raise pbt.Discard()
                if d is not None:
                    t = d[1]
            b[nm] = t
        if i < len(n[2]):
            raise pbt.Discard()
        return b

    def fx(self, frs, env):
        r = ""
        for f in frs:
            if isinstance(f, str):
                # a & between a parameter and text goes away
                r += f[1:] if f.startswith("&_") else f
            elif f[0] == "L":
                r += env["\0L"][f[1]]
            else:
                t = env[f[1]]
                if isinstance(t, list):
                    raise pbt.Discard()
                r += t
        return r

    def holds(self, cd, env):
        t = env[cd[2][1]]
        if isinstance(t, list):
            raise pbt.Discard()
        if cd[0] == "b":
            if any(ch in t for ch in "<>!"):
                raise pbt.Discard()
            return (t.strip() == "") == (cd[1] == "ifb")
        if cd[0] == "n":
            v = self.num(t)
            return {"EQ": v == cd[3], "GT": v > cd[3], "LT": v < cd[3]}[cd[1]]
        if any(ch in t for ch in "<>!"):
            raise pbt.Discard()
        a, b = t, cd[3]
        if cd[1].endswith("i"):
            a, b = a.lower(), b.lower()
        return (a == b) == ("idn" in cd[1])

    def exp(self, body, env, o, st):
        for n in body:
            st["n"] += 1
            if st["n"] > 800:
                raise pbt.Discard()
            k = n[0]
            if k == "line":
                l = self.fx(n[1], env)
                if l.strip() in ("db", "push") or l.startswith("db +") or l.startswith("mov ,") or l.startswith("lea ,"):
                    raise pbt.Discard()
                o.append(l)
            elif k == "if":
                st["labels"].add(n[1][1] if n[1][0] != "n" else "if")
                if self.holds(n[1], env):
                    self.exp(n[2], env, o, st)
                elif n[3] is not None:
                    self.exp(n[3], env, o, st)
            elif k == "rep":
                for _ in range(n[1]):
                    self.exp(n[2], env, o, st)
            elif k == "for":
                st["labels"].add("for")
                try:
                    for v in env[n[2]]:
                        self.exp(n[3], dict(env, **{n[1]: v}), o, st)
                except Exit:
                    pass
            elif k == "exitm":
                st["labels"].add("exitm")
                raise Exit()
            elif k == "inc":
                st["cnt"] += n[1]
                o.append("cnt = %d" % st["cnt"])
            elif k == "call":
                self.expcall(n, env, o, st)
            elif k == "fline":
                m = st["macs"][n[2][1]]
                b = self.bind(m, n[2], st, env)
                st["labels"].add("function")
                o.append(n[1] + self.fx(m["ret"], b) + n[3])

    def expcall(self, n, env, o, st):
        m = st["macs"][n[1]]
        if m["func"]:
            # used as a statement: its text becomes the line; used only inside db
            b = self.bind(m, n, st, env)
            st["labels"].add("function")
            o.append("db " + self.fx(m["ret"], b))
            return
        b = self.bind(m, n, st, env)
        self.run_macro(m, b, o, st)

    def run_macro(self, m, b, o, st):
        st["calls"] += 1
        st["depth"] += 1
        if st["depth"] > 30 or st["calls"] > 150:
            raise pbt.Discard()
        try:
            L = {}
            for l in m["locals"]:
                st["lab"] += 1
                L[l] = "Q_%d" % st["lab"]
            b = dict(b)
            b["\0L"] = L
            for l in sorted(set(m.get("lused", []))):
                o.append("%s label byte" % L[l])
            try:
                self.exp(m["body"], b, o, st)
                if m.get("rec"):
                    p = m["rec"][0]
                    v = self.num(b[p])
                    if v > 12:
                        raise pbt.Discard()
                    if v > 0:
                        st["labels"].add("recursion")
                        t = b[p]
                        if t.strip().startswith("(") or "-" in t or "+" in t or "*" in t:
                            pass
                        nb = {p: str(v - 1)}
                        for (nm, k, a, d), x in zip(m["params"][1:], m["recargs"]):
                            if k == "v":
                                nb[nm] = b[nm]
                            else:
                                nb[nm] = self.argval(x, st)
                        self.run_macro(m, nb, o, st)
            except Exit:
                pass
        finally:
            st["depth"] -= 1

    def run(self, case):
        hdr = [".386", "option casemap:none", "S segment byte public use32 'CODE'", "S0 label byte", "db 5ah", "cnt = 0"]
        a, b = list(hdr), list(hdr)
        st = {"macs": {m["name"]: m for m in case["macs"]}, "cnt": 0, "n": 0, "lab": 0, "calls": 0, "depth": 0, "labels": set()}
        for m in case["macs"]:
            self.define(m, a, case["up"])
        for i, n in enumerate(case["prog"] + [None]):
            if case["redef"] and case["redef"][0] == i:
                m2 = case["redef"][2]
                if case["redef"][3]:
                    a.append("purge %s" % m2["name"])
                self.define(m2, a, case["up"])
                st["macs"][m2["name"]] = m2
                st["labels"].add("redefinition")
            if n is None:
                break
            if n[0] == "setc":
                st["cnt"] = n[1]
                a.append("cnt = %d" % n[1])
                b.append(a[-1])
            elif n[0] == "line":
                a.append(n[1])
                b.append(n[1])
            else:
                m = st["macs"][n[1]]
                if m["func"]:
                    a.append("db %s(%s)" % (n[1], ", ".join(self.calltext(n))))
                else:
                    nm = n[1]
                    a.append("%s %s" % (nm, ", ".join(self.calltext(n))))
                    if case["up"] == 2 and a[-1].strip() == nm:
                        a[-1] += "  ; nothing"
                self.expcall(n, {}, b, st)
        end = ["db 0c3h", "S ends", "end"]
        a += end
        b += end
        sa, sb = "\n".join(a) + "\n", "\n".join(b) + "\n"
        kw = dict(labels=sorted(st["labels"]) + ["calls:%d" % min(st["calls"], 20)], key=sa, nontrivial=st["calls"] > 0, files={"t.asm": sa, "hand.asm": sb}, sample=[l for l in a if l.startswith("mac")][-4:])
        rb = self.r.asm(sb, ("-bin",))
        if rb.errors() or rb.rc:
            raise pbt.Discard()
        want = rb.file("t.BIN")
        ra = self.r.asm(sa, ("-bin",))
        if ra.errors() or ra.rc:
            return pbt.V("valid macro calls are rejected: %s\n%s\n--- by hand:\n%s" % (ra.errors()[:3] or ra.text[-300:], sa, sb), "error %s" % (ra.errors()[0][3] if ra.errors() else ""), **kw)
        got = ra.file("t.BIN")
        if got != want:
            return pbt.V("macro calls give %s\nby hand        %s\n%s\n--- by hand:\n%s" % ((got or b"").hex(), want.hex(), sa, sb), "bytes", **kw)
        return pbt.V(None, **kw)


PROP = P()
