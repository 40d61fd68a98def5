"""C27: names and visibility of public and external symbols in the object, against the rules of the language types."""
import re, struct
from lib import objload, omf
from lib.pbt import Prop, V

L32 = ["c", "syscall", "stdcall", "pascal", "fortran", "basic", "fastcall", "vectorcall"]
PT = {"byte": 1, "word": 2, "dword": 4, "ptr": 4, "sword": 2, "real4": 4, "qword": 8, "real8": 8, "sdword": 4}


class P(Prop):
    id = "C27"
    counts = {"quick": 12000, "thorough": 300000}
    rule = "modules with at least four public or external symbols of which one is decorated, or a private one"
    assumptions = ["the decoration rules are those of Microsoft's compilers and of the program's usage text, written down again in deco()"]

    # -------------------------------------------------------- generation
    def gen(self, c):
        fmt = c.choice(["omf", "omf", "coff", "coff", "elf", "elf", "win64", "win64", "elf64", "macho64"])
        m = {"fmt": fmt, "opts": ["-q", "-" + fmt], "zt": 2, "zv": 2, "zcw": False, "up": False, "zze": False, "fc": 0}
        x64 = fmt.endswith("64")
        ws = 8 if x64 else 4
        if c.bool(1, 3):
            m["zt"] = c.below(3)
            m["opts"].append("-zt%d" % m["zt"])
        if c.bool(1, 4):
            m["zv"] = c.below(3)
            m["opts"].append("-zv%d" % m["zv"])
        if c.bool(1, 5):
            m["zcw"] = True
            m["opts"].append("-zcw")
        if c.bool(1, 5) and fmt in ("omf", "coff"):
            m["zze"] = True
            m["opts"].append("-zze")
        if c.bool(1, 6) and not x64:
            m["fc"] = 1
            m["opts"].append("-zf1")
        cm = c.below(5)
        o = []
        if cm == 0 and fmt == "omf":
            m["up"] = True
            if c.bool():
                m["opts"].append("-Cu")
            else:
                o.append("option casemap:all")
        elif cm == 1:
            m["opts"].append(c.choice(["-Cp", "-Cx"]))
        elif cm == 2:
            o.append("option casemap:" + c.choice(["none", "notpublic"]))
        langs = L32 if not x64 else ["fastcall", "vectorcall"] if fmt == "win64" else ["systemv"]
        dl = None
        if not x64:
            o.append(".686")
            o.append(".xmm")
            w = c.below(3)
            if w:
                dl = c.choice([x for x in langs if x not in ("vectorcall", "fastcall")] + (["fastcall"] if c.bool() else []))
            o.append(".model flat" + (", " + dl if w == 1 else ""))
            if w == 2:
                o.append("option language:" + dl)
        elif fmt == "win64":
            dl = "fastcall"
        else:
            dl = "systemv"
        if fmt == "macho64":
            dl = langs[0]
        # default visibility of procedures
        dv = "public"
        if c.bool(1, 3):
            dv = c.choice(["private", "public", "export"] if fmt in ("omf", "coff") else ["private", "public"])
            o.append("option proc:" + dv)
        syms = []

        def name():
            k = len(syms)
            s = c.choice(["n", "Name", "_u", "LongerSymbolName", "x_", "Q", "$d", "a?b", "@at"]) + str(k) + c.choice(["", "", "_", "Tail", "x" * c.int(1, 60)])
            return s

        def lang(n, opt=(1, 2)):
            if c.bool(*opt):
                return c.choice(langs)
            return None

        def params(l):
            n = c.choice([0, 0, 1, 2, 3, 5])
            t = [c.choice(["byte", "word", "dword", "ptr", "real4" if l == "fastcall" else "word", "sdword"] if l in ("fastcall", "vectorcall") else list(PT)) for _ in range(n)]
            if x64:
                t = [c.choice(["qword", "dword", "ptr", "byte"]) for _ in range(n)]
            return t, sum((PT[x] + ws - 1) // ws * ws if x != "ptr" else ws for x in t)
        head, data, code, calls = [], [], [], []
        for _ in range(c.int(3, 12)):
            k = len(syms)
            n = name()
            kind = c.choice(["data", "data", "label", "proc", "proc", "proc", "procp", "extdata", "extproc", "extlab", "unused", "edef", "comm", "const", "plabel"])
            l = lang(n)
            mark = "0%02x%02x5ea5h" % (k + 1, 0xc0 + k)
            s = {"name": n, "kind": kind, "lang": l or dl, "par": 0, "vis": None, "mark": None, "proc": False, "dataish": False}
            P_ = (l + " ") if l else ""
            if kind == "data":
                s["dataish"] = True
                data.append("%s dd %s" % (n, mark))
                s["mark"] = mark
                v = c.below(4)
                if v in (1, 2):
                    (c.choice([head, data])).append("public %s%s" % (P_, n))
                    s["vis"] = "public"
                elif v == 3:
                    head.append("externdef %s%s:dword" % (P_, n))
                    s["vis"] = "public"
            elif kind in ("label", "plabel"):
                if kind == "label":
                    code.append("%s%s" % (n, ":" if c.bool() else " label near"))
                    code.append(" dd " + mark)
                else:
                    code += ["in%d proc private" % k, "%s::" % n, " dd " + mark, "in%d endp" % k]
                s["mark"] = mark
                if c.bool():
                    (c.choice([head, code])).append("public %s%s" % (P_, n))
                    s["vis"] = "public"
            elif kind == "const":
                s["const"] = True
                head.append("%s = %d" % (n, k + 5) if c.bool() else "%s equ %d" % (n, k + 5))
                if c.bool() and fmt not in ("macho64",):
                    head.append("public %s%s" % (P_, n))
                    s["vis"] = "public"
            elif kind in ("proc", "procp"):
                s["proc"] = True
                t, par = params(s["lang"]) if kind == "procp" and s["lang"] else ([], 0)
                s["par"] = par
                vis = c.choice([None, None, "private", "public"] + (["export"] if fmt in ("omf", "coff", "win64") else []))
                s["vis"] = {"private": None}.get(vis or dv, vis or dv)
                code.append("%s proc%s%s%s" % (n, " " + l if l else "", " " + vis if vis else "", "".join(", p%d:%s" % (i, x) for i, x in enumerate(t)).replace(", ", " ", 1)))
                code.append(" dd " + mark)
                code += [" ret", "%s endp" % n]
                if not t and not x64:
                    s["mark"] = mark
                if c.bool(1, 5):
                    # prototype before the definition
                    head.append("%s proto%s%s" % (n, " " + l if l else "", "".join(", :%s" % x for x in t).replace(", ", " ", 1)))
                if c.bool(1, 4) and not t:
                    calls.append(" call " + n)
            elif kind == "extdata":
                s["dataish"] = True
                head.append("%s %s%s:%s" % (c.choice(["extern", "extrn", "externdef"]), P_, n, c.choice(["dword", "byte", "qword"])))
                calls.append(" lea %s, %s" % ("rax" if x64 else "eax", n))
                s["vis"] = "und"
            elif kind == "extlab":
                head.append("%s %s%s:near" % (c.choice(["extern", "externdef"]), P_, n))
                calls.append(" call " + n)
                s["vis"] = "und"
            elif kind == "extproc":
                s["proc"] = True
                t, par = params(s["lang"]) if s["lang"] else ([], 0)
                s["par"] = par
                head.append("%s proto%s%s" % (n, " " + l if l else "", "".join(", :%s" % x for x in t).replace(", ", " ", 1)))
                calls.append(" call " + n)
                s["vis"] = "und"
            elif kind == "unused":
                s["proc"] = None
                head.append(c.choice(["externdef %s%s:dword", "externdef %s%s:near"]) % (P_, n) if c.bool() else "%s proto%s" % (n, " " + l if l else ""))
            elif kind == "edef":
                s["proc"] = True
                s["vis"] = "public"
                head.append("externdef %s%s:%s" % (P_, n, c.choice(["near", "proc"])))
                code += ["%s proc%s%s" % (n, " " + l if l else "", c.choice(["", " public"]) if dv == "public" else " public"), " dd " + mark, " ret", "%s endp" % n]
                s["mark"] = mark if not x64 else None
            elif kind == "comm":
                s["dataish"] = True
                s["size"] = c.choice([1, 4, 100, 3])
                head.append("comm %s%s:byte:%d" % (P_, n, s["size"]))
                s["vis"] = "com"
            syms.append(s)
        src = o + c.shuffle(head) if c.bool() else o + head
        src += [".data"] + data + [".code"] + code + ["main1 proc private"] + calls + [" ret", "main1 endp", "end"]
        return m, syms, "\n".join(src) + "\n"

    # -------------------------------------------------------- decoration rules
    def deco(self, m, s):
        n, l = s["name"], s["lang"]
        if m["up"]:
            n = n.upper()
        x64 = m["fmt"].endswith("64")
        if l in (None, "syscall", "systemv"):
            return n
        if l == "c":
            return n if m["zcw"] else "_" + n
        if l == "stdcall":
            if m["zt"] == 0:
                return n
            return "_%s@%d" % (n, s["par"]) if s["proc"] and m["zt"] == 2 else "_" + n
        if l in ("pascal", "fortran", "basic"):
            return n.upper()
        if m["fc"] == 1 and not x64:
            return "_" + n if s["dataish"] else n + "_"
        if l == "vectorcall":
            return "%s@@%d" % (n, s["par"]) if m["zv"] == 2 and s["proc"] else n
        if x64 or not s["proc"]:
            return n
        return "@%s@%d" % (n, s["par"])

    # -------------------------------------------------------- oracle
    def run(self, case):
        m, syms, src = case
        files = {"t.asm": src}
        labels = {m["fmt"]} | {"lang:%s" % s["lang"] for s in syms}

        def bad(sig, msg):
            return V(fail="%s\noptions %s\n%s" % (msg, " ".join(m["opts"]), src), sig=sig, labels=labels, files=files)
        r = self.r.asm(src, m["opts"])
        e = [e for e in r.errors() if e[2] in ("Error", "Fatal Error")]
        ob = r.file("t.o") or r.file("t.obj")
        if r.rc or e or ob is None:
            return bad("rejected %s" % (e[0][3] if e else ""), "rejected: %s" % (e or r.text)[:3])
        want = {"public": set(), "und": set(), "com": set()}
        exp = set()
        mark = {}
        for s in syms:
            d = self.deco(m, s)
            v = s["vis"]
            if v == "export":
                nm = s["name"].upper() if m["up"] else s["name"]
                exp.add(nm if m["zze"] and m["fmt"] == "omf" else nm + "=" + d if m["zze"] else d)
                v = "public"
            if v:
                want[v].add(d)
            if v == "public" and s["mark"]:
                mark[d] = int(s["mark"][:-1], 16)
        got = {"public": set(), "und": set(), "com": set()}
        gexp = set()
        where = {}
        try:
            if m["fmt"] == "omf":
                o = omf.read(ob)
                for nm, gi, si, fr, v, loc in o.pubs:
                    if not loc:
                        got["public"].add(nm)
                        if si:
                            where[nm] = bytes(o.segs[si].data[v:v + 4])
                for nm, loc, com in o.exts[1:]:
                    got["com" if com else "und"].add(nm)
                for a, cl, b in o.coments:
                    if cl == 0xa0 and b[:1] == b"\x02":
                        gexp.add(b[3:3 + b[2]].decode("latin1"))
            else:
                o = objload.read(ob)
                pre = "_" if m["fmt"] == "macho64" else ""
                for y in o.syms.values():
                    if y.bind == "global":
                        k = "und" if y.sec == "und" else "com" if y.sec == "com" else "public"
                        nm = y.name
                        got[k].add(nm)
                        if isinstance(y.sec, int):
                            s = o.secs[y.sec]
                            where[nm] = bytes(s.data[y.value - getattr(s, "base", 0):][:4])
                for s in o.secs.values():
                    if s.name == ".drectve":
                        gexp = set(re.findall(r"-export:(\S+)", s.data.decode("latin1")))
        except (objload.Bad, omf.Bad) as x:
            return bad("object", str(x))
        for k in want:
            for n in sorted(want[k] ^ got[k]):
                q = [s for s in syms if s["name"].lower() in n.lower()]
                t = "%s %s %s" % (q[0]["kind"], q[0]["lang"], q[0]["vis"]) if q else ""
                return bad("%s %s %s" % (k, "missing" if n in want[k] else "unexpected", t), "%s symbols: %s %r (%s); in the object %s" % (k, "missing" if n in want[k] else "unexpected", n, t, got))
        if exp != gexp and m["fmt"] in ("omf", "coff", "win64"):
            return bad("exports", "exports %s, expected %s" % (sorted(gexp), sorted(exp)))
        for n, v in mark.items():
            if n in where and where[n] != struct.pack("<I", v):
                return bad("symbol at the wrong place", "%s points to %s, expected %#x" % (n, where[n].hex(), v))
        nt = sum(len(x) for x in want.values()) >= 4 and (any(self.deco(m, s) != s["name"] for s in syms if s["vis"]) or any(not s["vis"] for s in syms))
        return V(nontrivial=src if nt else None, labels=labels, sample={"options": m["opts"], "names": sorted(set.union(*want.values()))[:12]})


PROP = P()
