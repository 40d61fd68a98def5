"""C21: an erroneous line is named, the exit status is non-zero and no object is left; warnings change nothing."""
import os, re
from lib import pbt, progs, forms

# lines that are errors wherever they are assembled; (text, detected in pass 1)
def wrong(c, p, k):
    u = "undefined_%d" % c.int(1, 99)
    b = p.bits
    r = {16: "bx", 32: "ebx", 64: "rbx"}[b]
    a = [
        ("mov al, %d" % c.choice([256, 300, 65536, -129, -300]), True), ("zork %s" % c.choice(["", "1", "eax, ebx", "'x'"]), True), ("mov %s," % r, True), ("mov %s" % r, True), ("mov %s, %s, %s" % (r, r, r), True),
        ("mov %s, %s" % (r, u), False), ("jmp %s" % u, False), ("call %s" % u, False), ("j%s %s" % (c.choice(["z", "a", "ne"]), u), False),
        ("mov %s, %s+1" % (r, u), False), ("mov %s, offset %s" % (r, u), False),
        ("add %s, al" % r, True), ("mov [%s], [%s]" % (r, r), True), ("mov cs:[%s" % r, True), ("mov %s, (1+2" % r, True), ("mov al, 'abc", True), ("mov %s, 12x4" % r, True), ("mov %s, 1 / 0" % r, True),
        ("inc 5", True), ("pop 5", True), ("mov 5, al", True), ("lea %s, %s" % (r, r), True), ("shl al, bl", True), ("xchg al, 5", True), ("in bl, dx", True),
        ("invoke %s, 1" % u, True), (".endif", True), (".endw", True), ("endif", True), ("endm", True), ("if", True), ("if (", True), ("include no_such_file.inc", True), ("incbin no_such_file.bin", True),
        (".err <here>", False), (".errnz %d" % c.int(1, 9), False), (".erre 0", False), (".errb < >", False), (".errnb <x>", False), (".errdif <a>, <b>", False), (".erridn <a>, <a>", False),
        ("jmp short $+%d" % c.choice([130, 200, 1000]), False), ("loop $-%d" % c.choice([130, 300]), False), ("jmp short $-200", False),
        ("%s endp" % u, True), ("repeat", True), ("while", True), ("for", True), ("forc x", True), ("%s substr <abc>, 5" % u, True), ("%s catstr abc" % u, True),
        (".if %s ==" % r, True), (".until", True), ("extern %s" % u, True), ("option zork", True), ("assume zork:nothing", True), (".radix 40", True), ("align 3", True), ("%s equ" % u, True) if 0 else ("align -1", True),
        ("exitm", True) if 0 else ("purge %s" % u, True), ("movaps xmm0, [%s], 5" % r, True), ("mov %s, cr9" % r, False), ("%s label" % u, True), ("mov ds, 5", True), ("mov cs, ax", True) if 0 else ("push al", True),
        ("ret -1, 2", True), ("mov %s, byte ptr %s" % (r, r), True), ("mov %s, ptr" % r, True), ("db 256", True), ("db 'abc", True), ("dw 70000", True), ("dd 'abcde'", True), ("db %s" % u, False), ("dd 5 dup", True), ("db 5 dup (1", True), ("dd {1}", True) if 0 else ("dw", True) if 0 else ("db 300 dup (256)", True),
        ("dd %s" % u, False), ("dw offset %s" % u, False), ("%s = %s_b + 1" % (u, u), True) if 0 else ("mov %s, sizeof %s" % (r, u), False),
        ("db 1,, 2", True), ("db 1 2", True), ("db -300", True), ("real4 1.0.0", True), ("dd 1.2.3", True), ("dq 1.0e", True) if 0 else ("dt 'abc", True),
        ("%s struct" % "eax", True), ("eax dd 5", True), ("mov equ 5", True), ("%s" % c.choice(["+", "=", ",", "[", "<", "?", "$", "&", "]", ")"]), True),
    ]
    return c.choice(a) if k is None else a[k % len(a)]


OPEN = re.compile(r"(repeat|while|for|forc|if|else|endif|endm|\.if|\.endif|\.endw|\.until|\S+ struct|\S+ endp|eax dd)\b")
CLOSE = re.compile(r"(else|endif|endm|\.endif|\.endw|\.until)\b")     # may close a block of the program: a later line is the wrong one then


class P(pbt.Prop):
    id = "C21"
    rule = ("one case = a generated program that assembles, and either (a) the program with one to three erroneous lines at places where an ECHO shows that lines are assembled (in the source, in include files, after rewriting), or (b) warning-producing lines "
            "or warning options: (a) every such line is named in an error message on stdout and in the .err file, exit status non-zero, no object, whether or not an older one exists; (b) same object and status (non-zero and none with -WX and a warning); trivial: the program does not assemble")
    counts = {"quick": 16000, "thorough": 200000}

    def gen(self, c):
        p = progs.gen(c)
        lines = list(p.lines)
        files = {}
        done = []
        if c.bool(1, 3):
            rs = [r for r in p.ranges if 0 < r[1] - r[0] and r[1] <= p.body_end]
            if rs:
                lines, files = forms.include(c, lines, rs)
                done.append("include")
        for k in c.sample(["continuation", "comment", "block", "blank"], c.int(0, 2)):
            lines = forms.FORMS[k](c, p, lines)
            done.append(k)
        files["t.asm"] = "\n".join(lines) + "\n"
        cs = {"opts": p.opts, "out": p.out, "files": files, "done": done, "fmt": p.fmt, "stale": c.bool(1, 3)}
        if c.bool(1, 5):
            cs["warn"] = self.warning(c, p)
            cs["level"] = c.int(0, 4)
            cs["at"] = [[f, c.int(0, 400)] for f in ["t.asm"]]
            return cs
        n = c.weighted([(5, 1), (1, 2), (1, 3)])
        bad = [list(wrong(c, p, None)) for _ in range(n)]
        if n > 1:
            bad = [b for b in bad if b[1] and not OPEN.match(b[0])] or bad[:1]
        names = sorted(files)
        cs["bad"] = [[c.choice([names[0], c.choice(names)]) if "t.asm" not in names else c.choice(["t.asm", c.choice(names)]), c.int(0, 10 ** 6), b[0] + (" ; remark" if c.bool(1, 6) else "")] for b in bad]
        cs["fo"] = c.bool(1, 6)
        cs["two"] = c.bool(1, 8)
        return cs

    def warning(self, c, p):
        m = "wm_%d" % c.int(1, 9)
        return c.choice([[1, ["%s macro a" % m, "endm", "%s 1, 2" % m]], [4, ["%s macro eax" % m, "endm"]], ])

    def places(self, files, f):
        """line numbers in front of which a line can be put"""
        ls = files[f].split("\n")
        inside = [False] * len(ls)       # COMMENT blocks
        delim = None
        for i, l in enumerate(ls):
            if delim is None:
                m = re.match(r"(?i)comment (\S)(.*)", l)
                if m:
                    ls[i] = ""
                    delim = None if m.group(1) in m.group(2) else m.group(1)
            else:
                ls[i], inside[i] = "", True
                if delim in l:
                    delim = None
        im = forms.inmacro(ls)
        ok = []
        st = 0
        for i in range(len(ls)):
            if i and re.match(r"(?i)\s*\S+\s+(\\\s*)?(struct?|union)\b", ls[i - 1]) or i and re.match(r"(?i)\s*(struct|union)\b", ls[i - 1]):
                st += 1
            if i and st and re.match(r"(?i)\s*(\S+\s+)?ends\b", ls[i - 1]):
                st -= 1
            if inside[i]:
                continue
            if st:       # the fields are evaluated where the structure is used
                continue
            if im[i] and not (i and not im[i - 1]):
                continue
            if i and im[i - 1] and im[i]:
                continue
            if i and "\\" in ls[i - 1]:
                continue
            if re.match(r"(?i)\s*local\b", next((l for l in ls[i:] if l.strip() and l.strip()[0] != ";"), "")):
                continue
            ok.append(i)
        # before END
        e = next((i for i, l in enumerate(ls) if re.match(r"(?i)\s*end(\s|$)", l)), len(ls))
        return [i for i in ok if i <= e]

    def put(self, files, at):
        """at: [(file, index, text)] -> new files, [(file, line number)]"""
        out = dict(files)
        pos = []
        for f in set(a[0] for a in at):
            ls = files[f].split("\n")
            todo = sorted([a for a in at if a[0] == f], key=lambda a: a[1], reverse=True)
            for a in todo:
                ls.insert(a[1], a[2])
            todo.reverse()
            for k, a in enumerate(todo):
                pos.append((f, a[1] + 1 + k, a[2]))
            out[f] = "\n".join(ls)
        return out, pos

    def go(self, cs, files, opts=(), name="t.asm", pre=None):
        fs = {k: v for k, v in files.items() if k != "t.asm"}
        if pre:
            fs.update(pre)
        return self.r.asm(files["t.asm"], cs["opts"] + list(opts), files=fs, timeout=10)

    def run(self, cs):
        files = cs["files"]
        a = self.go(cs, files)
        x = a.file(cs["out"])
        if a.rc or x is None:
            if a.rc == 0 or (x is not None and a.rc > 0):
                return pbt.V("exit status %d, object %s\n%s" % (a.rc, x is not None, a.text[-500:]), "status and object disagree", files=files)
            if not any(e[2] != "Warning" for e in a.errors()) and not a.timeout and "General" not in a.text:
                return pbt.V("exit status %d without an error message\n%s" % (a.rc, a.text[-500:]), "no message", files=files)
            return pbt.V(None, labels=["does not assemble"], nontrivial=False)
        if any(e[2] != "Warning" for e in a.errors()):
            return pbt.V("error reported, but exit status 0\n%s" % a.text[-500:], "error, status 0", files=files)
        if cs.get("warn"):
            return self.run_warn(cs, files, x)
        # choose the places
        at = []
        for f, k, t in cs["bad"]:
            pl = self.places(files, f)
            if pl and not any(b[0] == f and b[1] == pl[k % len(pl)] for b in at):
                at.append((f, pl[k % len(pl)], t))
        if not at:
            return pbt.V(None, labels=["no place"], nontrivial=False)
        probe, pos = self.put(files, [(f, i, "echo MARK%d" % n) for n, (f, i, t) in enumerate(at)])
        b = self.go(cs, probe)
        if b.rc or any(len(re.findall(r"(?m)^MARK%d\b" % n, b.text)) != 1 for n in range(len(at))) or b.file(cs["out"]) != x and cs["fmt"][:3] not in ("pe3", "pe6"):
            return pbt.V(None, labels=["place not assembled"], nontrivial=False)
        new, pos = self.put(files, at)
        pre = {}
        opts = []
        out = cs["out"]
        if cs["fo"]:
            opts = ["-Fo", "other.o"]
            out = "other.o"
        if cs["stale"]:
            pre[out] = "an older file"
        labels = [cs["fmt"], "%d errors" % len(at)] + cs["done"] + ["stale object"] * cs["stale"] + ["-Fo"] * cs["fo"] + [t.split()[0] for _, _, t in at]
        kw = dict(labels=labels, key=[new, out], sample="\n".join("%s(%d): %s" % z for z in pos), files=new)
        r = self.go(cs, new, opts, pre=pre)
        if r.timeout or r.rc < 0 or "General Failure" in r.text:
            return pbt.V(None, labels=["crash (C22)"], nontrivial=False)
        msgs = set((e[0], e[1]) for e in r.errors() if e[2] != "Warning")
        err = r.file("t.err")
        inerr = set((m.group(1), int(m.group(2))) for m in re.finditer(r"(?m)^(.*?)\((\d+)\) : (?:Fatal error|Error) A", (err or b"").decode("latin1")))
        what = None
        for f, l, t in pos:
            if CLOSE.match(t):
                if not msgs:
                    what = "no error for `%s`" % t
            elif (f, l) not in msgs:
                what = "line %s(%d) `%s` is not named" % (f, l, t)
            elif (f, l) not in inerr:
                what = "line %s(%d) is not named in the .err file" % (f, l)
        if r.rc <= 0:
            what = "exit status %d" % r.rc
        elif r.file(out) is not None:
            what = "an object file %s is left" % ("(the older one)" if r.file(out) == b"an older file" else "")
        if what:
            k = pos[0][2].split(";")[0]
            return pbt.V("%s %s: %s\nerrors at %s\n%s" % (cs["opts"], cs["done"], what, pos, r.text[-800:]), "%s: %s" % (re.sub(r"\S+\(\d+\)|`.*`", "", what), re.sub(r"\d+", "9", k)), **kw)
        if cs["two"]:
            # several files: status of all, each object by its own errors
            v = self.two(cs, new, files, x, kw)
            if v:
                return v
        return pbt.V(None, **kw)

    def two(self, cs, new, good, x, kw):
        self.r.clean()
        ext = os.path.splitext(cs["out"])[1]
        fs = {k: v for k, v in good.items() if k != "t.asm"}
        if any(new[k] != good[k] for k in fs):
            return None
        fs.update({"g1.asm": good["t.asm"], "b.asm": new["t.asm"], "g2.asm": good["t.asm"]})
        self.r.write(fs)
        r = self.r.run([self.exe["o1"], "-q"] + cs["opts"] + ["g1.asm", "b.asm", "g2.asm"], 20)
        d = [f for f in ("g1", "b", "g2") if r.file(f + ext) is not None]
        if r.rc <= 0 or d != ["g1", "g2"]:
            return pbt.V("three files, the second with an error: status %d, objects %s\n%s" % (r.rc, d, r.text[-500:]), "several files", **kw)

    def run_warn(self, cs, files, x):
        lv, ls = cs["warn"]
        f = "t.asm"
        pl = self.places(files, f)
        if not pl:
            return pbt.V(None, labels=["no place"], nontrivial=False)
        i = pl[cs["at"][0][1] % len(pl)]
        probe, _ = self.put(files, [(f, i, "echo MARK")])
        b = self.go(cs, probe)
        if b.rc or len(re.findall(r"(?m)^MARK\b", b.text)) != 1:
            return pbt.V(None, labels=["place not assembled"], nontrivial=False)
        new, pos = self.put(files, [(f, i, "\n".join(ls))])
        res = {}
        kw = dict(labels=["warnings", "-W%d" % cs["level"]], key=[new, cs["level"]], sample="\n".join(ls), files=new)
        for o in ([], ["-W%d" % cs["level"]], ["-WX"], ["-WX", "-W%d" % cs["level"]], ["-W%d" % cs["level"], "-WX"], ["-w"]):
            r = self.go(cs, new, o)
            y = r.file(cs["out"])
            if "General Failure" in r.text or r.timeout:
                return pbt.V(None, labels=["crash (C22)"], nontrivial=False)
            L = 2 if not any(q.startswith("-W") and q != "-WX" for q in o) else cs["level"]
            if o == ["-w"]:
                L = 0
            es = r.errors()
            hit = (f, i + len(ls)) in set((e[0], e[1]) for e in es) or (f, i + 1) in set((e[0], e[1]) for e in es)
            want_bad = "-WX" in o and (L >= lv)
            what = None
            if "(0) : " in r.text:
                what = "message about line 0"
            elif "-WX" not in o:
                if r.rc or y != x:
                    what = "a warning changed the result: status %d, object %s" % (r.rc, "missing" if y is None else "same" if y == x else "differs")
                elif any(e[2] != "Warning" for e in es):
                    what = "error reported"
                elif hit != (L >= lv):
                    what = "warning of level %d %s at level %d" % (lv, "shown" if hit else "not shown", L)
            elif want_bad and (r.rc <= 0 or y is not None or not hit):
                what = "-WX with a warning: status %d, object %s" % (r.rc, y is not None)
            elif (r.rc != 0) != any(e[2] != "Warning" for e in es) or (r.rc != 0) != (y is None):
                what = "-WX: status, messages and object disagree"
            if what:
                return pbt.V("%s %s: %s\n%s\n%s" % (cs["opts"], o, what, "\n".join(ls), r.text[-500:]), "warnings: " + re.sub(r"\d", "9", what), **kw)
        return pbt.V(None, **kw)


PROP = P()
