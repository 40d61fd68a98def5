"""C29: command-line options equal their source directives; order, response files and the UASM variable do not matter."""
import os, re
from lib import pbt, progs

CPU = {".8086": "-0", ".186": "-1", ".286": "-2", ".286p": "-2p", ".386": "-3", ".386p": "-3p", ".486": "-4", ".486p": "-4p", ".586": "-5", ".586p": "-5p", ".686": "-6", ".686p": "-6p"}
LANG = {"c": "-Gd", "stdcall": "-Gz", "pascal": "-Gc", "fastcall": "-Gr"}
MODEL = {"tiny": "-mt", "small": "-ms", "compact": "-mc", "medium": "-mm", "large": "-ml", "huge": "-mh", "flat": "-mf"}
CM = {"none": "-Cp", "all": "-Cu", "notpublic": "-Cx"}
NAMEOPT = ["-Fo", "-Fl", "-Fw", "-I", "-Fi", "-D"]


class P(pbt.Prop):
    id = "C29"
    rule = ("one case = a generated program in two versions: settings as directives in the source, and as command-line options in a random order, partly in the UASM variable, in a variable or file named by @ and in nested response files, with file "
            "placement options: same status and same object, listing and error file contents, at the named places and nowhere else; trivial: fewer than 2 options or the program does not assemble")
    counts = {"quick": 12000, "thorough": 300000}
    assumptions = ["the UASM variable and response files hold options before those of the command line"]

    def gen(self, c):
        p = progs.gen(c)
        lines = list(p.lines)
        body = list(lines)
        opts, dirs = [], []            # option groups (each a list of words), directive lines
        head, i = [], 0
        model = None
        cm = None
        while i < len(body) and i < 6:
            l = body[i]
            if l in CPU:
                if CPU[l] >= "-3" and not any(x.startswith(".model") for x in body[i + 1:i + 3]):
                    break              # an option does not make segments 32-bit
                head.append(l)
                opts.append([CPU[l]])
            elif l.startswith(".model"):
                m = re.match(r"\.model (\w+)(?:, (\w+))?$", l)
                head.append(l)
                opts.append([MODEL[m.group(1)]])
                if m.group(2):
                    opts.append([LANG[m.group(2)]])
                model = m.group(1)
            elif l.startswith("option casemap:"):
                cm = l[15:]
                dirs.append(l)
                opts.append([CM[cm]])
            else:
                break
            i += 1
        rest = body[i:]
        xmm = None
        if rest and rest[0] in (".xmm", ".x64"):
            # .xmm / .x64 in the middle: keep these in the source; nothing that follows can be an option
            head = lines[:len(lines) - len(rest)]
            if rest[0] == ".x64" or c.bool():
                opts, dirs = [], []
                k = 1
                while k < len(rest) and rest[k].startswith((".model", "option casemap")):
                    k += 1
                head += rest[:k]
                rest = rest[k:]
                common = head
                head = []
            else:
                # .686p / .xmm / .model flat
                k = 1
                if k < len(rest) and rest[k].startswith(".model"):
                    m = re.match(r"\.model (\w+)(?:, (\w+))?$", rest[k])
                    head.append(rest[k])
                    opts.append([MODEL[m.group(1)]])
                    if m.group(2):
                        opts.append([LANG[m.group(2)]])
                    k += 1
                if k < len(rest) and rest[k].startswith("option casemap:"):
                    dirs.append(rest[k])
                    opts.append([CM[rest[k][15:]]])
                    k += 1
                rest = [".xmm"] + rest[k:]
                common = []
        else:
            common = []
        extra = []
        files = {}
        if c.bool(1, 3):
            n = c.choice([1, 2, 4, 8, 16])
            opts.append(["-Zp%d" % n])
            dirs.append("option fieldalign:%d" % n)
            extra += ["zps struct", "zp1 db 1", "zp2 dd 2", "zp3 dq 3", "zps ends", "zpc = sizeof zps"]
        for j in range(c.weighted([(2, 0), (2, 1), (1, 2)])):
            v = c.choice(["5", "-3", "7+8", "<a b>" if 0 else "12h", "", "eax", "xyz", "1 + 2", "0"])
            n = c.choice(["dm%d", "_Dm%d", "@dm%d", "DM%d"]) % j
            opts.append(["-D", n + ("=" + v if v or c.bool() else "")] if c.bool(1, 3) else ["-D%s%s" % (n, "=" + v if v or c.bool() else "")])
            dirs.append("%s textequ <%s>" % (n, v))
            extra += ["ifdef %s" % n, "dv%d = %d" % (j, j + 3), "endif", "ifb %s" % n if 0 else "ifidn <%s>, <%s>" % ("&" + n if 0 else n, n), "dw%d textequ %s" % (j, n), "endif"]
            if re.fullmatch(r"[-\d+ h]+", v):
                extra += ["de%d = %s * 2" % (j, n)]
        late = []
        m510 = []
        if not common and c.bool(1, 5):
            opts.append(["-Zm"])
            m510 = ["option m510"]
        if c.bool(1, 5):
            a = c.choice(["AVX", "SSE"])
            opts.append(["-arch" + a])
            late.append("option arch:" + a.lower())
        fi = []
        if c.bool(1, 4):
            for j in range(c.int(1, 2)):
                f = "pre%d.inc" % j
                files[f] = "fi%d = %d\nfm%d macro\nendm\n" % (j, c.int(0, 99), j)
                opts.append(["-Fi", f] if c.bool() else [c.choice(["-Fi", "-Fi="]) + f])
                fi.append("include " + f)
                extra.append("ft%d = fi%d + 1" % (j, j))
        lang = any(x.startswith('.model') and ',' in x for x in head)
        a = (head + m510 if lang else m510 + head) + dirs + late + fi
        srcA = common + a + extra + rest if not common else common[:1] and common + dirs + late + fi + extra + rest
        srcB = common + extra + rest
        place = {}
        if c.bool(1, 3):
            place["o"] = c.choice(["x.o", "sub/", "sub/y.bin", "noext"])
        if c.bool(1, 3):
            place["l"] = c.choice(["", "z.lst", "sub/", "sub/l.txt"])
        if c.bool(1, 4):
            place["w"] = c.choice(["e.txt", "sub/"])
        for k, f in (("o", "-Fo"), ("l", "-Fl"), ("w", "-Fw")):
            if k in place:
                v = place[k]
                opts.append([f + ("=" if c.bool(1, 3) and v else "") + v] if f == "-Fl" or not c.bool(1, 3) or not v else [f, v])
        if c.bool(1, 6):
            opts.append(["-Zp%d" % 2]) if 0 else opts.append(["-W%d" % c.int(0, 3)])
        opts.append(p.opts)
        # conflicting pairs: the order of options of one kind must be kept
        order = c.shuffle(range(len(opts)))
        keep = [k for k in range(len(opts)) if opts[k][0].startswith(("-Fi", "-D"))]
        pos = sorted(order.index(k) for k in keep)
        for q, k in zip(pos, keep):
            order[q] = k
        opts = [opts[k] for k in order]
        # -G? must follow the -elf64 like format options, which set a language
        f = opts.index(p.opts)
        if p.fmt in ("elf64", "macho64"):
            opts.insert(0, opts.pop(f))
        n = len(opts)
        cut = sorted(c.int(0, n) for _ in range(2)) if c.bool() else [0, 0]
        how = [c.choice(["file", "envvar", "none", "file"]), c.bool(1, 3), c.choice([" ", "\n", "\r\n", "\t", "  \n"])]
        return {"fmt": p.fmt, "A": "\n".join(srcA) + "\n", "B": "\n".join(srcB) + "\n", "opts": opts, "base": p.opts, "out": p.out, "files": files, "place": place, "cut": cut, "how": how}

    def snap(self):
        out = {}
        for d, _, fs in os.walk(self.r.dir):
            for f in fs:
                p = os.path.join(d, f)
                with open(p, "rb") as fh:
                    out[os.path.relpath(p, self.r.dir)] = fh.read()
        return out

    def run(self, cs):
        self.r.clean()
        given = dict(cs["files"], **{"t.asm": cs["A"]})
        self.r.write(given)
        os.mkdir(self.r.dir + "/sub")
        lo = ["-Fl"] if "l" in cs["place"] else []
        wl = [o[0] for o in cs["opts"] if re.fullmatch(r"-W\d", o[0])]
        a = self.r.run([self.exe["o1"], "-q"] + cs["base"] + lo + wl + ["t.asm"], 15)
        sa = self.snap()
        if a.timeout or a.rc < 0 or "General Failure" in a.text:
            return pbt.V(None, labels=["crash (C22)"], nontrivial=False)
        # the other version
        self.r.clean()
        os.mkdir(self.r.dir + "/sub")
        given = dict(cs["files"], **{"t.asm": cs["B"]})
        i, j = cs["cut"]
        env, rsp = cs["opts"][:i], cs["opts"][i:j]
        quote = lambda o: [re.sub(r"^(-D[\w@]*=|[\w@]+=)(.* .*)$", r'\1"\2"', w) if o[0].startswith("-D") else w for w in o]
        line = [w for o in cs["opts"][j:] for w in quote(o)]
        e = {}
        how, nest, sep = cs["how"]
        words = lambda os_: [w for o in os_ for w in quote(o)]
        if env:
            e["UASM"] = " ".join(words(env))
        pre = []
        if rsp:
            if how == "none":
                pre = words(rsp)
            elif how == "envvar":
                e["UOPTS"] = " ".join(words(rsp))
                pre = ["@UOPTS"]
            else:
                w = words(rsp)
                if nest and len(rsp) > 1:
                    k = len(words(rsp[:1]))
                    given["r2.rsp"] = sep.join(w[k:]) + "\n"
                    w = w[:k] + ["@r2.rsp"]
                given["r1.rsp"] = sep.join(w) + (sep if nest else "")
                pre = ["@r1.rsp"]
        self.r.write(given)
        cmd = ["-q"] + pre + line + ["t.asm"]
        b = self.r.run([self.exe["o1"]] + cmd, 15, env=e)
        sb = self.snap()
        for k in given:
            sb.pop(k, None)
        for k in list(cs["files"]) + ["t.asm"]:
            sa.pop(k, None)
        want = {}
        pl = cs["place"]
        for k, v in sa.items():
            ext = os.path.splitext(k)[1]
            kind = "l" if ext == ".lst" else "w" if ext == ".err" else "o"
            q = pl.get(kind)
            if q is None or q == "":
                n = k
            elif q.endswith("/"):
                n = q + k
            elif "." not in q and kind == "o":
                n = q + ext
            else:
                n = q
            want[n] = v
        ok = a.rc == 0
        shown = "%s %s\n%s" % (" ".join("%s='%s'" % z for z in e.items()), cmd, "".join("--- %s\n%s\n" % (k, v) for k, v in sorted(given.items()) if k.endswith(".rsp")))
        kw = dict(labels=[cs["fmt"]] + [re.match(r"-\d+p?|-[A-Za-z]{1,2}", o[0]).group(0) for o in cs["opts"]] + ["variable"] * bool(env) + [how] * bool(rsp) + ([] if ok else ["with errors"]), key=[shown, cs["B"]],
                  nontrivial=ok and len(cs["opts"]) >= 3, sample=shown, files={"t.asm": cs["B"], "directives.asm": cs["A"], "cmd.txt": shown, **cs["files"]})
        strip = lambda n, v: None if n.endswith((".lst", ".err", ".txt")) else v      # the listing shows the source
        what = None
        if a.rc != b.rc:
            what = "status %d with directives, %d with options" % (a.rc, b.rc)
        elif ok and sorted(want) != sorted(sb):
            what = "files %s expected, %s found" % (sorted(want), sorted(sb))
        elif not ok and sorted(k for k in want) != sorted(sb):
            what = "files after errors: %s expected, %s found" % (sorted(want), sorted(sb))
        elif ok:
            d = [k for k in want if strip(k, want[k]) != strip(k, sb[k])]
            if d:
                x, y = want[d[0]], sb[d[0]]
                q = next((q for q, (u, v) in enumerate(zip(x, y)) if u != v), min(len(x), len(y)))
                what = "%s differs at %d of %d/%d" % (d[0], q, len(x), len(y))
        if what:
            m = re.search(r"Error A\d+: [^\n]*", b.text if b.rc else a.text)
            return pbt.V("%s\n%s\n%s\n---\n%s\n=== options\n%s\n=== directives\n%s" % (what, shown, a.text[-300:], b.text[-300:], cs["B"][:1500], cs["A"][:700]), re.sub(r"\d+", "9", what.split(" expected")[0])[:50] + " " + (m.group(0)[:50] if m else ""), **kw)
        return pbt.V(None, **kw)


PROP = P()
