"""Rewriting a program of lib.progs into an equivalent source form."""
import re

# one token of a line: string, comment, white space, number/name/keyword, operator
TOK = re.compile(r"'[^']*'|\"[^\"]*\"|;.*|\s+|@@(?=:)|[@$?A-Za-z_.][\w@$?]*|\d[\w]*|&&|\|\||[=!<>]=|.")
HLL = re.compile(r"\s*\.(if|while|elseif|until|break|switch|case)\b", re.I)


def tokens(line):
    return TOK.findall(line)


def classify(line):
    """[(token, kind)]: kind w(ord) s(tring) c(omment) b(lank) t(ext in <>) o(perator)"""
    r = []
    depth = 0
    hll = bool(HLL.match(line))
    for t in tokens(line):
        if t[0] in "'\"" and len(t) > 1:
            k = "s"
        elif t[0] == ";" and depth == 0:
            k = "c"
        elif t.isspace():
            k = "b"
        elif t[0].isalnum() or t[0] in "@$?_." and len(t) > 1:
            k = "w"
        else:
            k = "o"
        if not hll and t == "<":
            depth += 1
            k = "<"
        elif not hll and t == ">" and depth:
            depth -= 1
            k = "<"
        elif depth and k != "<":
            k = "t" + k
        r.append((t, k))
    return r


def recase(c, w):
    k = c.int(0, 3)
    if k == 0:
        return w.upper()
    if k == 1:
        return w.capitalize()
    if k == 2:
        return "".join(x.upper() if c.bool() else x.lower() for x in w)
    return w


def f_case(c, p, lines):
    """reserved words (and, under CASEMAP:ALL, identifiers unless the object would show their spelling) in another case"""
    ids = p.casemap == "all" and not p.fmt.startswith(("coff", "elf", "macho"))

    def one(l):
        if re.match(r"(?i)\s*include\b", l):
            return l
        out = []
        for t, k in classify(l):
            if k[-1] == "w" and (ids or t not in p.names) and not t.startswith("@"):
                if t[0].isdigit() and not re.match(r"(?i)0x[0-9a-f]+$|[0-9][0-9a-f]*h?$|\d+[tdyobq]$", t):
                    out.append(t)
                else:
                    out.append(recase(c, t))
            else:
                out.append(t)
        return "".join(out)
    return [one(l) if c.bool(2, 3) else l for l in lines]


def blank(c, least=1):
    return "".join(c.choice([" ", " ", "\t", "  "]) for _ in range(c.int(least, 3)))


def f_space(c, p, lines):
    """white space between tokens, leading and trailing"""
    def one(l):
        ts = classify(l)
        if not ts:
            return l
        out = []
        for i, (t, k) in enumerate(ts):
            if k == "b":
                out.append(blank(c, 0 if i == 0 else 1))
                continue
            out.append(t)
            n = ts[i + 1] if i + 1 < len(ts) else None
            if n and k in "wo" and n[1] in "wos" and c.bool(1, 3) and (t in ",+*()[]" or n[0] in ",+*)(]["):
                if t in "%&" or n[0] in "%&" or t == "st" or n[0] == "(" and k == "w":
                    continue
                out.append(blank(c))
        s = "".join(out)
        if c.bool(1, 4):
            s = blank(c) + s
        if c.bool(1, 4):
            s += blank(c)
        return s
    return [one(l) if c.bool(2, 3) else l for l in lines]


WORDS = ["end", "endm", "if 1", "else", "endif", "it's", "<", ">", '"', "'", "!", "%x", "&", "macro", ".if", "\\x", "proc", ";", ";;", "mov eax,", "include x", "comment *", "()", "{", "=", "dup ("]


def remark(c):
    return " ".join(c.choice(WORDS) for _ in range(c.int(0, 4)))


def inmacro(lines):
    """for each line: is it inside a macro or repeat body (or starts one)?"""
    r, d = [], 0
    for l in lines:
        w = [t.lower() for t, k in classify(l) if k == "w"]
        if "macro" in w[:2] or w[:1] and w[0] in ("repeat", "rept", "for", "irp", "forc", "irpc", "while"):
            d += 1
            r.append(1)
        else:
            r.append(d)
        if w[:1] == ["endm"]:
            d -= 1
    return r


def f_comment(c, p, lines):
    """comments at the end of lines and on lines of their own"""
    out = []
    im = inmacro(lines)
    for l, m in zip(lines, im):
        if c.bool(1, 4):
            out.append(blank(c, 0) + c.choice([";", ";;"]) + remark(c))
        if c.bool(1, 3) and not any(k == "c" for _, k in classify(l)):
            l = l + c.choice(["", " ", "\t"]) + c.choice([";", ";;"]) + remark(c)
        out.append(l)
    return out


def f_blank(c, p, lines):
    """blank lines"""
    out = []
    for l in lines:
        while c.bool(1, 5):
            out.append(c.choice(["", "", " ", "\t "]))
        out.append(l)
    return out


def f_block(c, p, lines):
    """COMMENT blocks"""
    out = []
    im = inmacro(lines)
    for i, l in enumerate(lines):
        if c.bool(1, 8) and not (i and im[i] and im[i - 1]):
            d = c.choice("!*%#~^|/")
            body = [remark(c).replace(d, "") for _ in range(c.int(0, 3))]
            out.append(c.choice(["comment", "COMMENT", "Comment"]) + " " + d + (" " + remark(c).replace(d, "") if c.bool() else ""))
            out += body
            out.append(c.choice(["", "some text "]) + d + c.choice(["", " the rest of this line, too"]))
        out.append(l)
    return out


def f_cont(c, p, lines):
    """lines continued with a backslash"""
    out = []
    for l in lines:
        ts = classify(l)
        cand = [i for i, (t, k) in enumerate(ts) if k == "b" and 0 < i < len(ts) - 1 and not any(x[1] == "c" for x in ts)]
        if cand and c.bool(1, 4):
            for i in sorted(c.sample(cand, c.int(1, 2)), reverse=True):
                ts[i] = (" \\" + c.choice(["", " ", " ; " + c.choice(["a remark", "endm", "if"])]) + "\n" + blank(c, 0), "b")
            out += "".join(t for t, _ in ts).split("\n")
        else:
            out.append(l)
    return out


# words that can be exchanged wherever they are not identifiers (start of statement or after a name)
DATA = [("db", "byte"), ("dw", "word"), ("dd", "dword"), ("dq", "qword")]
STMT = [("struct", "struc"), ("repeat", "rept"), ("for", "irp"), ("forc", "irpc"), ("extern", "extrn"), ("shl", "sal"), ("repz", "repe"), ("even", "align 2"), ("xlatb", "xlat"),
        ("je", "jz"), ("jne", "jnz"), ("jb", "jc", "jnae"), ("jae", "jnc", "jnb"), ("ja", "jnbe"), ("jbe", "jna"), ("jl", "jnge"), ("jge", "jnl"), ("jg", "jnle"), ("jle", "jng"), ("jp", "jpe"), ("jnp", "jpo"),
        ("endif",), (".until",)]


def number(c, t, radix=10):
    m = re.match(r"(?i)^0x([0-9a-f]+)$|^([0-9][0-9a-f]*)h$", t)
    if m:
        v = int(m.group(1) or m.group(2), 16)
    elif re.match(r"^\d+$", t):
        v = int(t)
    elif re.match(r"(?i)^[0-7]+[oq]$", t):
        v = int(t[:-1], 8)
    elif re.match(r"(?i)^[01]+[by]$", t):
        v = int(t[:-1], 2)
    elif re.match(r"(?i)^\d+[td]$", t):
        v = int(t[:-1])
    else:
        return t
    return c.choice(["%d" % v, "%dd" % v, "%dt" % v, "0%xh" % v, "0x%X" % v, "%so" % oct(v)[2:], "%sq" % oct(v)[2:]] + (["%sb" % bin(v)[2:], "%sy" % bin(v)[2:]] if v < 1 << 20 else []))


def f_syn(c, p, lines):
    """equivalent words and number notations"""
    syn = {}
    for g in DATA + STMT:
        for a in g:
            syn[a] = [b for b in g]
    real = re.compile(r"\d+\.\d*|real[48]")
    out = []
    for l in lines:
        ts = classify(l)
        wi = [i for i, (t, k) in enumerate(ts) if k != "b"]
        pos = 0
        if len(wi) > 1 and (ts[wi[0]][0] in p.names) and ts[wi[1]][1] == "w":
            pos = 1
        elif len(wi) > 2 and ts[wi[1]][0] == ":" and ts[wi[2]][1] == "w":
            pos = 2
        if pos < len(wi) and c.bool(2, 3):
            i = wi[pos]
            t = ts[i][0]
            if t in syn and t not in p.names:
                ok = True
                if any(t in g for g in DATA) and (real.search(l) and t in ("dd", "dq")):
                    ok = False
                if t == "struct" and p.casemap is None:
                    ok = False
                if ok:
                    ts[i] = (c.choice(syn[t]), "w")
        if not real.search(l) and not re.search(r"\b(substr|sizestr|catstr|textequ|equ|exitm|forc|irpc|invoke)\b", l):
            ts = [(number(c, t) if k == "w" and t[0].isdigit() and c.bool() else t, k) for t, k in ts]
        out.append("".join(t for t, _ in ts))
    return out


def f_split(c, p, lines):
    """data lists and PUBLIC lists on several lines, memory operands in another notation"""
    out = []
    for l in lines:
        m = re.match(r"^\s*public\s+(\S+),\s*(\S+)$", l)
        if m and c.bool(2, 3):
            out += ["public " + m.group(2 if 0 else 1), "public " + m.group(2)]
            continue
        m = re.match(r"^(\S+)\s+(byte|word|dword|qword|db|dw|dd|dq)\s+(\d+\w*(?:, \d+\w*)+)$", l)
        if m and c.bool(2, 3):
            v = m.group(3).split(", ")
            j = c.int(1, len(v) - 1)
            out += ["%s %s %s" % (m.group(1), m.group(2), ", ".join(v[:j])), "  %s %s" % (m.group(2), ", ".join(v[j:]))]
            continue

        def mem(m):
            a, s, b = m.groups()
            if s == "*" or not c.bool(2, 3):
                return m.group(0)
            if b[0].isdigit():
                return c.choice(["%s[%s]" % (b, a), "[%s][%s]" % (a, b), "[%s]+%s" % (a, b), "[%s+%s]" % (b, a)]) if s == "+" else c.choice(["[%s]-%s" % (a, b), "[%s+(-%s)]" % (a, b)])
            return "[%s][%s]" % (a, b)
        if " ptr [" in l and "'" not in l:
            l = re.sub(r"(?<=ptr )\[(\w+)([+-])(\w+)\]", mem, l)
        out.append(l)
    return out


FORMS = {"case": f_case, "space": f_space, "comment": f_comment, "blank": f_blank, "block": f_block, "continuation": f_cont, "synonym": f_syn, "split": f_split}


def include(c, lines, ranges, depth=0, pre="inc"):
    """move ranges of lines to include files; -> (lines, {name: text})"""
    files = {}
    rs = []
    for a, b in sorted(c.sample(ranges, c.int(1, 3))):
        if not rs or a >= rs[-1][1]:
            rs.append((a, b))
    out, i = [], 0
    for n, (a, b) in enumerate(rs):
        out += lines[i:a]
        name = "%s%d%s" % (pre, n, c.choice([".inc", ".asm", "", ".x"]))
        part = lines[a:b]
        sub = [(x - a, y - a) for x, y in ranges if a <= x and y <= b and (x, y) != (a, b)]
        if sub and depth < 3 and c.bool():
            part, fs = include(c, part, sub, depth + 1, pre + str(n) + "_")
            files.update(fs)
        files[name] = "\n".join(part) + c.choice(["\n", "\n", "\n\n", ""])
        if part and part[-1].endswith("\\"):
            files[name] += "\n"
        out.append(c.choice(["", "  "]) + c.choice(["include", "INCLUDE"]) + " " + c.choice(["%s", "%s", "<%s>", "'%s'" if 0 else "%s"]) % name + c.choice(["", "", "  ", " ; remark"]))
        i = b
    return out + lines[i:], files
