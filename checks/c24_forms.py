"""C24: equivalent source forms assemble alike."""
import re
from lib import pbt, progs, forms, corpus


def code_after_end(c):
    return c.choice(["", "", "\n", "\n this is not assembled\n", "\nendif endm\n"])


class P(pbt.Prop):
    id = "C24"
    rule = ("one case = a generated program (or a source of the repository) and the same program after one to four rewritings (case, white space, comments, blank lines, COMMENT blocks, line continuation, line ends, synonyms, "
            "include files): same exit status and the same object; trivial: the program has errors or under 10 lines")
    counts = {"quick": 25000, "thorough": 300000}
    assumptions = ["the clock is fixed by the shim of the native build"]

    def setup(self):
        self.cor = [(n, o, t) for n, o, t in corpus.load(40000) if not any(x.startswith(("-Zi", "-Zd")) for x in o) and not re.search(r"(?i)@line|@filecur|@date|@time|%out|@filename", t)]

    def gen(self, c):
        if c.bool(1, 6) and self.cor:
            n, o, t = c.choice(self.cor)
            return self.gen_corpus(c, n, o, t)
        p = progs.gen(c)
        lines = list(p.lines)
        files = {}
        done = []
        if c.bool(1, 3):
            rs = [r for r in p.ranges if 0 < r[1] - r[0] and r[1] <= p.body_end]
            if rs:
                lines, files = forms.include(c, lines, rs)
                done.append("include")
        ks = c.sample(["case", "synonym", "split", "space", "continuation", "comment", "block", "blank"], c.weighted([(4, 1), (3, 2), (2, 3), (1, 5)]))
        for k in [k for k in ["synonym", "split", "case", "space", "continuation", "comment", "block", "blank"] if k in ks]:
            if k in ("comment", "block", "blank") and "continuation" in ks:
                continue
            f = forms.FORMS[k]
            lines = f(c, p, lines)
            files = {n: "\n".join(f(c, p, t.split("\n"))) for n, t in files.items()} if k not in ("block",) else files
            done.append(k)
        text = "\n".join(lines) + "\n"
        if c.bool(1, 8):
            text += code_after_end(c)
            done.append("after END")
        eol = c.weighted([(5, "\n"), (2, "\r\n")])
        if eol != "\n":
            done.append("crlf")
        if c.bool(1, 10):
            text = text.rstrip("\n")
            done.append("no final newline")
        files["t.asm"] = text
        return {"opts": p.opts, "out": p.out, "a": p.text(), "b": {n: t.replace("\n", eol) for n, t in files.items()}, "done": done, "kind": p.fmt}

    def gen_corpus(self, c, n, o, t):
        lines = t.split("\n")
        done = []
        files = {}
        k = c.choice(["blank", "include", "crlf", "tail", "blank", "tail"])
        if re.search(r"(?i)textequ\s*(<\\?>|.*@catstr)", t) and k in ("blank", "tail"):  # may expand to a continuation at the end of a line: the next line is no line of its own
            k = "crlf"
        if k in ("blank", "tail"):
            out, delim, cont = [], None, False
            for l in lines:
                m = re.match(r"(?i)\s*comment\s+(\S)(.*)", l)
                inside = delim is not None
                if delim is None and m:
                    inside = True
                    if m.group(1) not in m.group(2):
                        delim = m.group(1)
                elif delim is not None and delim in l:
                    delim = None
                plain = l.split(";")[0].rstrip()
                if not inside and not cont:
                    if k == "blank" and c.bool(1, 4):
                        out.append(c.choice(["", "\t", "   ;", "; " + forms.remark(c)]))
                    if k == "tail" and c.bool(1, 3) and ";" not in l and not re.search(r"[\\'\"<>,!]", l):
                        l += c.choice(["", " ", "\t"]) + ";" + forms.remark(c)
                cont = plain.endswith(("\\", ",", "&&", "||", "<", "{")) or "\\" in l
                out.append(l)
            lines = out
        text = "\n".join(lines)
        if k == "include":
            files["whole.inc"] = text
            text = "include whole.inc\n"
            if c.bool():
                files["w2.inc"] = text
                text = "  include w2.inc"
        if k == "crlf":
            text = text.replace("\n", "\r\n")
        files["t.asm"] = text
        return {"opts": o, "out": corpus.outname(o), "a": t, "b": files, "done": ["source " + k], "kind": "source"}

    def run(self, cs):
        a = self.r.asm(cs["a"], cs["opts"], timeout=10)
        x = a.file(cs["out"])
        ok = a.rc == 0 and x is not None
        kw = dict(labels=[cs["kind"]] + cs["done"] + ([] if ok else ["with errors"]), key=cs["b"]["t.asm"], nontrivial=ok and cs["a"].count("\n") >= 10,
                  sample=cs["b"]["t.asm"][:600], files=dict(cs["b"], **{"original.asm": cs["a"]}))
        if a.timeout or a.rc < 0 or "General Failure" in a.text:
            return pbt.V(None, labels=["crash (C22)"], nontrivial=False)
        b = self.r.asm(cs["b"]["t.asm"], cs["opts"], files={k: v for k, v in cs["b"].items() if k != "t.asm"}, timeout=10)
        y = b.file(cs["out"])
        if a.rc != b.rc or x != y:
            m = re.search(r"Error A\d+: [^\n]*", b.text if b.rc else a.text)
            d = ""
            if x is not None and y is not None:
                i = next((i for i, (u, v) in enumerate(zip(x, y)) if u != v), min(len(x), len(y)))
                d = "first difference at %d of %d/%d" % (i, len(x), len(y))
            return pbt.V("%s %s: status %d/%d %s\n%s\n%s" % (cs["opts"], cs["done"], a.rc, b.rc, d, b.text[-700:] if b.rc else a.text[-300:], cs["b"]["t.asm"][:3000]),
                         "%s %s" % ("+".join(cs["done"]), m.group(0)[:60] if m else "object differs"), **kw)
        return pbt.V(None, **kw)


PROP = P()
