"""C30: an instruction, register or addressing mode newer than the selected CPU is rejected, one the CPU has is accepted, and
raising the CPU does not change its encoding.

The model below is written from the Intel manuals (which processor introduced what); a module is a history of CPU directives
and statements, and the set of rejected lines must be exactly the one the model predicts."""
from lib import pbt

L = {'86': 0, '186': 1, '286': 2, '386': 3, '486': 4, '586': 5, '686': 6, '64': 7}

# (statement, level in a 16-bit segment, privileged, fpu level, extension)
GP = []
def g(level, *sts, priv=False, only=(16, 32), fpu=0, ext=None):
    for s in sts:
        for o in only:
            GP.append((s, L[level], priv, o, fpu, ext))

R16 = ['ax', 'bx', 'cx', 'dx', 'si', 'di', 'bp']
g('86', 'mov al, bl', 'mov ax, bx', 'add cx, dx', 'sub al, 5', 'inc cx', 'dec bl', 'neg dx', 'not al', 'mul bx', 'imul cx', 'div bl',
  'idiv si', 'adc ax, 1234h', 'sbb dh, 4', 'xor di, si', 'and bl, 0fh', 'or ax, dx', 'test al, 1', 'cmp bx, cx', 'xchg ax, bx',
  'cbw', 'cwd', 'clc', 'stc', 'cmc', 'cld', 'std', 'cli', 'sti', 'hlt', 'nop', 'lahf', 'sahf', 'xlatb', 'daa', 'das', 'aaa', 'aas',
  'aam', 'aad', 'movsb', 'movsw', 'cmpsb', 'scasw', 'stosb', 'lodsw', 'rep movsb', 'repe cmpsb', 'repne scasb', 'push ax', 'pop dx',
  'push ds', 'pop es', 'push cs', 'pushf', 'popf', 'int 21h', 'int 3', 'into', 'iret', 'in al, 60h', 'in ax, dx', 'out dx, al',
  'out 20h, al', 'shl ax, 1', 'sar bl, cl', 'rol dx, 1', 'rcr al, cl', 'ret', 'retf', 'ret 4', 'retf 8', 'mov ds, ax', 'mov ax, ss',
  'lock inc word ptr [bx]', 'wait')
g('86', 'mov ax, [bx]', 'mov [bx+si], cl', 'add word ptr [bp+di+5], 7', 'lea si, [bx+di+100]', 'lds bx, [si]', 'les di, [bp+4]',
  'xchg [di], al', 'push word ptr [bx]', 'pop word ptr [si+2]', 'call word ptr [bx]', 'jmp dword ptr [bx+si]', 'test byte ptr [di], 80h',
  only=(16,))
g('186', 'pusha', 'popa', 'push 5', 'push 1234h', 'push -1', only=(16,))
g('186', 'enter 8, 0', 'enter 0, 3', 'leave', 'insb', 'insw', 'outsb', 'outsw', 'rep insb', 'rep outsw',
  'imul ax, bx, 5', 'imul cx, dx, 1000', 'imul si, 77', 'shl ax, 4', 'sar bl, 3', 'rol dx, 7', 'rcr ch, 2', 'ror di, 15', 'shr al, 6')
g('186', 'bound ax, [bx]', 'imul ax, [bx], 9', 'shl word ptr [di], 2', 'rcl byte ptr [bp+si], 5', only=(16,))
g('286', 'arpl ax, bx', 'lar cx, dx', 'lsl ax, si', 'verr bx', 'verw cx', 'str ax', 'sldt bx', 'smsw dx', priv=None)
g('286', 'sgdt [bx]', 'sidt [si+6]', 'verr word ptr [di]', priv=None, only=(16,))
g('286', 'clts', 'lldt ax', 'ltr bx', 'lmsw cx', priv=True)
g('286', 'lgdt fword ptr [bx]', 'lidt fword ptr [si]', priv=True, only=(16,))
g('386', 'mov eax, ebx', 'add ecx, 5', 'sub dl, 1', only=(32,))
g('386', 'mov eax, ebx', 'add ecx, 12345678h', 'xor esi, edi', 'inc edx', 'push eax', 'pop ebp', 'movsx ax, bl', 'movsx eax, cx',
  'movzx dx, ch', 'movzx ebx, al', 'sete al', 'setnz bl', 'setg ch', 'setb dl', 'seto ah', 'setpo cl', 'setnge dh',
  'bt ax, 3', 'bts cx, dx', 'btr bx, 9', 'btc di, ax', 'bsf ax, bx', 'bsr cx, dx', 'shld ax, bx, 3', 'shrd cx, dx, cl',
  'imul ax, bx', 'imul ecx, edx', 'cdq', 'cwde', 'movsd', 'stosd', 'lodsd', 'cmpsd', 'scasd', 'insd', 'outsd', 'rep stosd',
  'pushad', 'popad', 'pushfd', 'popfd', 'iretd', 'mov fs, ax', 'mov ax, gs', 'push fs', 'pop gs', 'shl eax, 5', 'neg esp')
g('386', 'mov ax, fs:[bx]', 'mov gs:[di], cl', 'mov ax, [eax]', 'mov cl, [ebx+ecx*4]', 'add word ptr [edx+8], 3', 'lea di, [eax+esi]',
  'lfs bx, [si]', 'lgs di, [bp]', 'lss sp, [bx]', 'movzx ax, byte ptr [bx]', 'setc byte ptr [di]', 'mov eax, [bx]', only=(16,))
g('386', 'mov eax, cr0', 'mov cr3, ebx', 'mov ecx, cr2', 'mov edx, dr0', 'mov dr7, eax', 'mov eax, dr6', priv=None)
g('486', 'bswap eax', 'bswap edi', 'xadd al, bl', 'xadd cx, dx', 'xadd eax, ecx', 'cmpxchg al, bl', 'cmpxchg cx, dx', 'cmpxchg ebx, esi')
g('486', 'xadd [bx], al', 'cmpxchg [si+2], cx', 'lock cmpxchg [di], ax', only=(16,))
g('486', 'invd', 'wbinvd', priv=None)
g('486', 'invlpg [bx]', priv=None, only=(16,))
g('586', 'cpuid', 'rdtsc')
g('586', 'rdmsr', 'wrmsr', priv=None)
g('586', 'rsm', priv=None)
g('586', 'cmpxchg8b qword ptr [bx]', only=(16,))
g('686', 'cmove ax, bx', 'cmovne cx, dx', 'cmovg eax, ebx', 'cmovb esi, edi', 'cmovs dx, ax', 'cmovnp ecx, ecx', 'ud2',
  'fcmove st(0), st(1)', 'fcmovnbe st(0), st(3)', 'fcomi st(0), st(1)', 'fucomip st(0), st(2)')
g('586', 'rdpmc', priv=None)
g('686', 'cmovz ax, [bx]', 'sysenter', 'sysexit', priv=None, only=(16,))
# floating point: fpu level 1 = 8087, 2 = 80287, 3 = 80387
g('86', 'fadd st(0), st(1)', 'fmul st(2), st(0)', 'fld st(1)', 'fxch st(1)', 'fchs', 'fabs', 'fld1', 'fldz', 'fldpi', 'fsqrt',
  'fptan', 'fpatan', 'fyl2x', 'f2xm1', 'fscale', 'fprem', 'frndint', 'fcompp', 'fnop', 'fdecstp', 'fincstp', 'ffree st(2)', 'fstp st(3)',
  'fsubp st(1), st(0)', 'fcom st(2)', fpu=1)
g('86', 'fld dword ptr [bx]', 'fstp qword ptr [si]', 'fild word ptr [di]', 'fistp qword ptr [bp+2]', 'fbld tbyte ptr [bx]',
  'fadd dword ptr [bx+si]', 'fldcw [bx]', 'fnstcw [si]', 'fnstsw [di]', 'fldenv [bx]', fpu=1, only=(16,))
g('86', 'fnstsw ax', 'fstsw ax', 'fsetpm', fpu=2)
g('86', 'fsin', 'fcos', 'fsincos', 'fprem1', 'fucom st(1)', 'fucomp st(2)', 'fucompp', fpu=3)
# extensions (cvtsi2ss is not available in 16-bit segments)
g('586', 'movd mm0, eax', 'paddb mm1, mm2', 'pxor mm3, mm4', 'emms', 'packsswb mm0, mm7', 'psllw mm5, 3', 'pmaddwd mm2, mm3', ext='mmx')
g('586', 'pfadd mm0, mm1', 'pfmul mm2, mm3', 'femms', 'pi2fd mm4, mm5', 'pavgusb mm6, mm7', ext='k3d')
g('686', 'addps xmm0, xmm1', 'movaps xmm2, xmm3', 'mulss xmm4, xmm5', 'xorps xmm6, xmm7', 'shufps xmm1, xmm2, 3',
  'sfence', 'addpd xmm0, xmm1', 'movdqa xmm2, xmm3', 'paddq xmm4, xmm5', 'lfence', 'mfence', 'pshufd xmm1, xmm2, 4', 'haddps xmm1, xmm2',
  'lddqu xmm1, oword ptr [eax]', 'pshufb xmm3, xmm4', 'pblendw xmm1, xmm2, 3', ext='xmm')

# these have no wait form
NOWAIT = {x[0].split()[0] for x in GP if x[0].startswith('fn') and x[0] != 'fnop'} | {'fstsw'}

DIRS = [('.8086', 0, False), ('.186', 1, False), ('.286', 2, False), ('.286c', 2, False), ('.286p', 2, True), ('.386', 3, False),
        ('.386c', 3, False), ('.386p', 3, True), ('.486', 4, False), ('.486p', 4, True), ('.586', 5, False), ('.586p', 5, True),
        ('.686', 6, False), ('.686p', 6, True), ('.x64', 7, False), ('.x64p', 7, True)]
FDIRS = [('.8087', 1), ('.287', 2), ('.387', 3), ('.no87', 0)]
XDIRS = ['.mmx', '.k3d', '.xmm']
EXTBITS = {'mmx': 1, 'k3d': 2, 'xmm': 4}


class State:
    def __init__(self):
        self.cpu, self.priv, self.fpu, self.ext, self.no87, self.old = 0, False, 1, set(), False, set()

    def cpudir(self, lv, p):
        self.cpu, self.priv = lv, p
        self.old = self.old | self.ext          # UASM keeps these, JWasm didn't: not judged
        self.ext = set()
        if not self.no87:
            self.fpu = 1 if lv < 2 else 2 if lv == 2 else 3
        if lv == 7:
            self.ext = {'mmx', 'k3d', 'xmm'}


def gen(c):
    wide = c.bool()
    bits = 32 if wide else 16
    pool = [x for x in GP if x[3] == bits]
    if wide:
        dirs = [d for d in DIRS if d[1] >= 3]
    else:
        dirs = DIRS
    lines = []
    st = State()
    n = c.int(4, 20)
    first = True
    while n or first:
        k = 'cpu' if first else c.weighted([(9, 'st'), (3, 'cpu'), (1, 'fpu'), (1, 'ext')])
        first = False
        if k == 'cpu':
            d = c.choice(dirs)
            st.cpudir(d[1], d[2])
            lines.append((d[0], None, None))
        elif k == 'fpu':
            d = c.choice(FDIRS)
            lines.append((d[0], None, None))
            st.fpu = d[1]
            st.no87 = d[1] == 0
        elif k == 'ext':
            d = c.choice(XDIRS)
            if st.cpu < (5 if d != '.xmm' else 6):
                continue
            lines.append((d, None, None))
            st.ext = {'mmx'} if d == '.mmx' else {'mmx', 'k3d'} if d == '.k3d' else {'mmx', 'xmm', '?k3d'}
        else:
            n -= 1
            s, lv, priv, _, fpu, ext = c.choice(pool)
            if priv is None and st.cpu >= lv and not st.priv:
                continue
            ok = st.cpu >= lv and (not priv or st.priv) and st.fpu >= fpu
            if s.startswith(('fcmov', 'fcomi', 'fucomi')) and st.fpu < 3 and ok:
                continue
            if ext:
                if ext in st.old and ext not in st.ext and ok:
                    continue
                if ext == 'k3d' and '?k3d' in st.ext | st.old and ok:
                    continue
                ok = ok and ext in st.ext
            lines.append((s, ok, (st.cpu, st.fpu, fpu)))
    return dict(bits=bits, lines=[list(x) for x in lines])


def source(case, keep=lambda t: True):
    o = ['.386', 'kode segment use%d' % case['bits'], 'assume cs:kode, ds:kode']
    nos = {}
    for i, (s, ok, st) in enumerate(case['lines']):
        if keep((s, ok)):
            o.append(s)
            nos[len(o)] = i
    return o, nos


class P(pbt.Prop):
    id = 'C30'
    counts = {'quick': 16000, 'thorough': 400000}
    rule = ('one case = a 16- or 32-bit module whose lines are CPU, coprocessor and extension directives and statements from a table of %d '
            'with the processor that introduced each; the rejected lines must be exactly those the table and the directives imply, and '
            'the accepted ones must encode as they do on the newest processor (an 8087 below the 286 gets its wait prefix); trivial: '
            'no accepted or no rejected statement' % len(GP))
    assumptions = ['which processor introduced an instruction is taken from the Intel and AMD manuals; system instructions that are not '
                   'privileged (sldt, smsw, ...) are used only where the CPU directive allows privileged instructions or is too old']

    def gen(self, c):
        return gen(c)

    def run(self, case):
        o, nos = source(case)
        src = '\n'.join(o + ['kode ends', 'end', ''])
        labels = ['use%d' % case['bits']] + sorted(set(x[0] for x in case['lines'] if x[1] is None))
        oks = [x for x in case['lines'] if x[1]]
        kw = dict(labels=labels, nontrivial=bool(oks) and any(x[1] is False for x in case['lines']), sample=src, key=src,
                  files={'t.asm': src})
        def fail(sig, text):
            return pbt.V(text + '\n' + src, sig, **kw)
        a = self.r.asm(src, ['-q', '-omf'], timeout=10)
        got = {}
        for f, ln, sev, code, msg in a.errors():
            if 'rror' in sev:
                got.setdefault(ln, msg)
        if a.rc not in (0, 1):
            return fail('crash', 'status %s %s' % (a.rc, a.text[-200:]))
        for ln, i in nos.items():
            s, ok, st = case['lines'][i]
            bad = ln in got
            if ok is None:
                if bad:
                    return fail('directive', '%s: %s' % (s, got[ln]))
            elif ok and bad:
                return fail('rejected ' + s, 'line %d: %s is available, but: %s' % (ln, s, got[ln]))
            elif not ok and not bad:
                return fail('accepted ' + s, 'line %d: %s is not available on cpu level %s (fpu %s)' % (ln, s, st[0], st[1]))
        if not oks:
            return pbt.V(None, **kw)
        o2, _ = source(case, lambda t: t[1] is not False)
        a = self.r.asm('\n'.join(o2 + ['kode ends', 'end', '']), ['-q', '-bin'], timeout=10)
        o3 = ['.386', 'kode segment use%d' % case['bits'], 'assume cs:kode, ds:kode', '.x64p']
        for s, ok, st in oks:
            if st[2] and st[0] < 2 and s.split()[0] not in NOWAIT:
                o3.append('db 9bh')
            o3.append(s)
        b = self.r.asm('\n'.join(o3 + ['kode ends', 'end', '']), ['-q', '-bin'], timeout=10)
        if a.errors():
            return fail('subset rejected', a.text[-300:])
        if b.errors():
            return fail('rejected on the newest', b.text[-300:])
        x, y = (z.file('t.bin') or z.file('t.BIN') for z in (a, b))
        if x is None or x != y:
            q = next((q for q, (u, v) in enumerate(zip(x or b'', y or b'')) if u != v), 0)
            return fail('encoding', 'at %d: %s; on the newest processor %s' % (q, (x or b'').hex(), (y or b'').hex()))
        return pbt.V(None, **kw)


PROP = P()
