"""Programs whose image can be re-read without the assembler's help: data of
known bytes, labels, padding, and branches / instructions with label operands
that are decoded from the image.  Walking the image item by item yields every
label's true offset; references are then compared with these."""

JCC = {}
for i, names in enumerate("o no b|c|nae ae|nc|nb e|z ne|nz be|na a|nbe s ns p|pe np|po l|nge ge|nl le|ng g|nle".split()):
    for n in names.split("|"):
        JCC["j" + n] = i
JN = sorted(JCC)
M = {16: 0xffff, 32: 0xffffffff, 64: (1 << 64) - 1}


class Bad(Exception):
    pass


def sx(b):
    return int.from_bytes(b, "little", signed=True)


def branch(img, p, bits, mn):
    """decode the branch mn at p: (end, target, form)"""
    b = img[p:p + 12]
    if mn == "callfar":           # push cs; call near
        if b[:2] != b"\x0e\xe8":
            raise Bad("%s expected at %x, found %s" % (mn, p, b.hex()))
        n = bits // 8
        return p + 2 + n, p + 2 + n + sx(b[2:2 + n]), "pushcs"
    nb = 2 if bits == 16 else 4
    if mn in JCC:
        c = JCC[mn]
        if b[0] == 0x70 | c:
            return p + 2, p + 2 + sx(b[1:2]), "short"
        if b[0] == 0x0f and b[1] == 0x80 | c:
            return p + 2 + nb, p + 2 + nb + sx(b[2:2 + nb]), "near"
        if b[0] == 0x70 | (c ^ 1) and b[2] == 0xe9 and b[1] == 1 + nb:
            return p + 3 + nb, p + 3 + nb + sx(b[3:3 + nb]), "long"
        raise Bad("%s expected at %x, found %s" % (mn, p, b.hex()))
    if mn == "jmp":
        if b[0] == 0xeb:
            return p + 2, p + 2 + sx(b[1:2]), "short"
        if b[0] == 0xe9:
            return p + 1 + nb, p + 1 + nb + sx(b[1:1 + nb]), "near"
    if mn == "call" and b[0] == 0xe8:
        return p + 1 + nb, p + 1 + nb + sx(b[1:1 + nb]), "near"
    op, pre = LOOPS[bits].get(mn, (None, None))
    if op is not None:
        q = p
        if pre:
            if b[0] != 0x67:
                raise Bad("%s expected at %x, found %s" % (mn, p, b.hex()))
            q += 1
        if img[q] == op:
            return q + 2, q + 2 + sx(img[q + 1:q + 2]), "short"
    raise Bad("%s expected at %x, found %s" % (mn, p, b.hex()))


LOOPS = {
    16: {"loop": (0xe2, 0), "loope": (0xe1, 0), "loopz": (0xe1, 0), "loopne": (0xe0, 0), "loopnz": (0xe0, 0), "jcxz": (0xe3, 0), "jecxz": (0xe3, 1), "loopd": (0xe2, 1)},
    32: {"loop": (0xe2, 0), "loope": (0xe1, 0), "loopz": (0xe1, 0), "loopne": (0xe0, 0), "loopnz": (0xe0, 0), "jecxz": (0xe3, 0), "jcxz": (0xe3, 1), "loopw": (0xe2, 1)},
    64: {"loop": (0xe2, 0), "loope": (0xe1, 0), "loopz": (0xe1, 0), "loopne": (0xe0, 0), "loopnz": (0xe0, 0), "jrcxz": (0xe3, 0), "jecxz": (0xe3, 1)},
}

# instructions with an expression operand: text, alternatives (bytes before, size of the value, its sign-extension)
INS = {
    32: [("mov eax, %s", [(b"\xb8", 4)]), ("push %s", [(b"\x6a", 1), (b"\x68", 4)]), ("add ecx, %s", [(b"\x83\xc1", 1), (b"\x81\xc1", 4)]),
         ("mov eax, [ebx+%s]", [(b"\x8b\x43", 1), (b"\x8b\x83", 4), (b"\x8b\x03", 0)]), ("lea edx, [esi+%s]", [(b"\x8d\x56", 1), (b"\x8d\x96", 4), (b"\x8d\x16", 0)]),
         ("cmp byte ptr [edi+%s], 5", [(b"\x80\x7f", 1, b"\x05"), (b"\x80\xbf", 4, b"\x05"), (b"\x80\x3f", 0, b"\x05")]), ("sub eax, %s", [(b"\x83\xe8", 1), (b"\x2d", 4), (b"\x81\xe8", 4)])],
    16: [("mov ax, %s", [(b"\xb8", 2)]), ("push %s", [(b"\x6a", 1), (b"\x68", 2)]), ("add cx, %s", [(b"\x83\xc1", 1), (b"\x81\xc1", 2)]),
         ("mov ax, [bx+%s]", [(b"\x8b\x47", 1), (b"\x8b\x87", 2), (b"\x8b\x07", 0)]), ("lea dx, [si+%s]", [(b"\x8d\x54", 1), (b"\x8d\x94", 2), (b"\x8d\x14", 0)]),
         ("cmp byte ptr [di+%s], 5", [(b"\x80\x7d", 1, b"\x05"), (b"\x80\xbd", 2, b"\x05"), (b"\x80\x3d", 0, b"\x05")]), ("sub ax, %s", [(b"\x83\xe8", 1), (b"\x2d", 2), (b"\x81\xe8", 2)])],
    64: [("mov eax, %s", [(b"\xb8", 4)]), ("push %s", [(b"\x6a", 1), (b"\x68", 4)]), ("add ecx, %s", [(b"\x83\xc1", 1), (b"\x81\xc1", 4)]),
         ("mov eax, [rbx+%s]", [(b"\x8b\x43", 1), (b"\x8b\x83", 4), (b"\x8b\x03", 0)]), ("lea rdx, [rsi+%s]", [(b"\x48\x8d\x56", 1), (b"\x48\x8d\x96", 4), (b"\x48\x8d\x16", 0)]),
         ("cmp byte ptr [rdi+%s], 5", [(b"\x80\x7f", 1, b"\x05"), (b"\x80\xbf", 4, b"\x05"), (b"\x80\x3f", 0, b"\x05")]), ("mov r9, %s", [(b"\x49\xb9", 8), (b"\x49\xc7\xc1", 4), (b"\x41\xb9", 4)])],
}


def ins(img, p, bits, k):
    """decode INS[bits][k] at p: (end, value)"""
    for alt in INS[bits][k][1]:
        pre, n = alt[0], alt[1]
        post = alt[2] if len(alt) > 2 else b""
        q = p + len(pre)
        if img[p:q] == pre and img[q + n:q + n + len(post)] == post:
            return q + n + len(post), sx(img[q:q + n]) if n else 0
    raise Bad("`%s' expected at %x, found %s" % (INS[bits][k][0], p, img[p:p + 10].hex()))
