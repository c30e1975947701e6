"""P03 symbol resolution: every program gets a consistent assignment or an error"""
import itertools
from .. import refasm
from ..explore import Test, ref_test, expect, src, agree

ID = 'P03'
BOUNDS = {
    'fix': 'all item sequences of length <= 4 (5 in thorough) over 9 items with every label defined once, 12 origins around the zero page boundary; outputs compared with the set of ALL consistent layouts',
    'fixequ': 'all sequences of length <= 5 (6) over labels, equates of labels and zero page/absolute uses, 7 origins',
    'mutual': 'all sequences of length <= 5 (6) of two labels and 14 statements whose length depends on the places of labels (conditions, counts, loops, origins, macros), 2 origins: output that is written must be the one with the values the labels have in it',
    'chain': 'chains of 1..16 definitions in forward, backward, interleaved order, as equates and labels, 4 ends, plain and inside of sections, nested sections, .if, macros, loops, included files, across a section end; longer chains must resolve or be refused',
    'order': 'all dependency graphs on 4 equates x all 24 textual orders x before/after the use',
    'undef': 'undefined, cyclic and conflicting definitions in every context',
    'redef': 'all pairs of definitions of one name (label, equate, .equ, section label) with equal and different values',
    'late': 'every statement that takes an expression x every form of an expression over symbols that are defined below it x values 0..3 (and what the forms make of them) x 5 surroundings; the code must be that of the program with the value written as a number',
    'step': 'all pairs of 17 values at byte, word and sign borders: a constant that has the first until a symbol it depends on is known after 0..3 further passes and the second then, seen through 0..3 other constants, in 6 uses',
    'scale': 'n symbols, forward and backward, n = 1..64 and around every growth boundary up to 4000',
    'anyname': 'every name of 2 and 3 letters as a forward equate of a forward label, as a label, and in a section',
    'names': 'all names built from a 14 letter alphabet up to length 2, mnemonic-like prefixes, long names up to 200 characters',
}
ASSUMES = ['resolution depth is limited to 16 dependent forward references (as the implementation documents by its pass limit); deeper programs must be refused or resolved, never mis-assembled']


# ---------- brute force: every consistent choice of zero page / absolute forms
ITEMS = ('A', 'B', 'a', 'b', 'p', 'n', 'w', 'i', 'j')
TEXT = {'A': 'la', 'B': 'lb', 'a': ' lda la', 'b': ' lda lb', 'p': ' lda lb-4,x', 'n': ' nop', 'w': ' .word la,lb', 'i': ' lda #<la', 'j': ' jmp lb',
        'q': 'q = la-2', 'r': 'r = q+lb-la', 's': ' lda q', 't': ' sta r', 'u': ' .byte >r', 'f': ' .fill 1,3'}


def layouts(seq, org):
    """set of outputs of all consistent layouts of a straight line program"""
    ops = [k for k, c in enumerate(seq) if c in 'abpst']
    outs = set()
    steps = 0
    for choice in itertools.product((2, 3), repeat=len(ops)):
        size = dict(zip(ops, choice))
        steps += len(seq)
        pc, sym, at = org, {}, []
        for k, c in enumerate(seq):
            at.append(pc)
            if c == 'A':
                sym['la'] = pc
            elif c == 'B':
                sym['lb'] = pc
            elif c in 'nu':
                pc += 1
            elif c == 'i':
                pc += 2
            elif c in 'jf':
                pc += 3
            elif c == 'w':
                pc += 4
            elif k in size:
                pc += size[k]
        try:
            if 'q' in seq:
                sym['q'] = sym['la'] - 2
            if 'r' in seq:
                sym['r'] = sym['q'] + sym['lb'] - sym['la']
            b = b''
            w = lambda v: bytes((v & 255, v >> 8))
            good = True
            for v in sym.values():
                if not 0 <= v <= 65535:
                    good = False
            for k, c in enumerate(seq):
                if c in 'abpst':
                    v = {'a': 'la', 'b': 'lb', 'p': 'lb', 's': 'q', 't': 'r'}[c]
                    v = sym[v] - (4 if c == 'p' else 0)
                    if v < 0:
                        return None, steps
                    if (size[k] == 2) != (v < 256):
                        good = False
                        break
                    o = {'a': (0xa5, 0xad), 'b': (0xa5, 0xad), 'p': (0xb5, 0xbd), 's': (0xa5, 0xad), 't': (0x85, 0x8d)}[c]
                    b += bytes((o[0], v)) if v < 256 else bytes((o[1],)) + w(v)
                elif c == 'n':
                    b += b'\xea'
                elif c == 'w':
                    b += w(sym['la']) + w(sym['lb'])
                elif c == 'i':
                    b += bytes((0xa9, sym['la'] & 255))
                elif c == 'j':
                    b += b'\x4c' + w(sym['lb'])
                elif c == 'u':
                    b += bytes((sym['r'] >> 8,))
                elif c == 'f':
                    b += b'\x01\x01\x01'
            if good:
                outs.add(b)
        except KeyError:
            return set(), steps
    return outs, steps


def fix_test(seq, org):
    outs, steps = layouts(seq, org)
    if outs is None:
        return None
    text = '* = $%x\n' % org + ''.join(TEXT[c] + '\n' for c in seq)
    jobs = [src(text)]
    # the size of an instruction depends on an equate of labels after it, at the zero page
    # boundary: pass by pass iteration may oscillate between layouts, so refusing is allowed
    may = bool(outs) and 0xf0 <= org <= 0x110 and any(c in seq and seq.index(c) < max(seq.index('A'), seq.index('B')) for c in 'st')

    def judge(rs):
        r = rs[0]
        if r.kind != 0:
            return ['ended by ' + r.status()]
        if r.code == 0:
            if (r.bin or b'') not in outs:
                return ['output %s is not one of the %d consistent layouts: %s' % ((r.bin or b'').hex(' '), len(outs), ' / '.join(sorted(x.hex(' ') for x in outs)))]
            return []
        return ['refused, but consistent layouts exist: ' + ' / '.join(sorted(x.hex(' ') for x in outs))] if outs and not may else []
    return Test(jobs, judge, [hash((org, o)) for o in outs] or [0], steps)


# statements whose length depends on where labels are
MUTUAL = {'A': 'la', 'B': 'lb', 'n': ' nop', 'z': ' lda la', 'i': '.if la > $%(o4)x\n nop\n.endif', 'j': '.if lb-la > 2\n .byte 1,2\n.else\n .byte 3\n.endif', 'f': '.fill 9,(lb-la)&3', 'g': '.fill 8,la&1', 'r': '.for i = 0 .to lb&3\n .byte i\n.next i',
          's': ' .str lb', 'd': '.ds (lb-la)&7\n* = *', 'o': '* = la+$10', 'm': ' m lb', 'q': 'q = lb-la\n.if q == 1\n nop\n.endif', 'w': '.var v = la&3\n.while v < 3\n .byte v\nv = v+1\n.wend', 'b': ' beq lb', 'h': '.if la & 1\n.if lb & 1\n nop\n.endif\n .byte 7\n.endif'}


def mutual_test(seq, org):
    t = '.var i\n.macro m\n.if \\1 & 2\n .byte <\\1\n.endif\n.endm\n* = $%x\n .byte 0\n' % org + '\n'.join(MUTUAL[c] % {'o4': org + 4} if c == 'i' else MUTUAL[c] for c in seq) + '\n .word la,lb\n'
    j = src(t)

    def judge(rs):
        r = rs[0]
        if r.kind != 0:
            return ['ended by ' + r.status()]
        if r.code:
            return []
        b = r.bin or b''
        if len(b) < 4:
            return ['output too short']
        v = {'la': b[-4] | b[-3] << 8, 'lb': b[-2] | b[-1] << 8}
        if 'q' in seq:
            v['q'] = v['lb'] - v['la']
        bad = refasm.consistent(j.files, j.args, v, b)
        return ['inconsistent layout with la = $%x, lb = $%x: %s' % (v['la'], v['lb'], bad)] if bad else []
    return Test([j], judge, [hash((seq, org))], len(seq) + 2)


def families(tier):
    deep = tier == 'thorough'

    def mutual():
        for n in range(2, 7 if deep else 6):
            for s in itertools.product(MUTUAL, repeat=n):
                if s.count('A') == 1 and s.count('B') == 1 and s.count('q') < 2 and s.count('w') < 2:
                    for o in (0xfa, 0x1000) if n < 5 else (0xfb,):
                        yield (''.join(s), o)

    def fix(alpha, n, orgs, need):
        for k in range(2, n + 1):
            for s in itertools.product(alpha, repeat=k):
                if any(s.count(c) != 1 for c in need):
                    # a used label must be defined exactly once
                    continue
                for o in orgs:
                    yield (''.join(s), o)

    def chain():
        for n in range(1, 41):
            for order in ('fwd', 'back', 'mix'):
                for kind in ('equ', 'label', 'word'):
                    for end in (5, 240, 256, 0x2000):
                        yield (n, order, kind, end)
        for wrap in WRAPS:
            for n in range(1, 17):
                for order in ('fwd', 'back', 'mix'):
                    for kind in ('equ', 'word'):
                        for end in (5, 250, 0x2000):
                            yield (n, order, kind, end, wrap)

    def order():
        edges = [(i, j) for i in range(4) for j in range(i)]
        for m in range(64):
            for p in itertools.permutations(range(4)):
                yield (m, p)

    def undef():
        for c in range(30):
            for how in ('never', 'self', 'cycle', 'cycle3', 'inmacro', 'notaken', 'section', 'local'):
                yield (c, how)

    def redef():
        for a in range(6):
            for b in range(6):
                for same in (0, 1):
                    for use in (0, 1, 2):
                        yield (a, b, same, use)

    def late():
        for w in LWRAP:
            for t in range(len(LSTMT)):
                for e in range(len(LEXPR)):
                    for v in range(5 if deep else 4):
                        if deep or w in ('', 'sec') or v in (1, 2):
                            yield (t, e, v, w)

    def step():
        for v1 in STEP:
            for v2 in STEP:
                if v1 != v2:
                    for lag in range(4):
                        for delay in range(4):
                            for u in range(len(SUSE)):
                                yield (v1, v2, lag, delay, u)

    def anyname():
        names = [''.join(t) for n in (2, 3) for t in itertools.product('abcdefghijklmnopqrstuvwxyz', repeat=n) if ''.join(t) not in opnames() and ''.join(t) not in RESERVED]
        for i in range(0, len(names), 100):
            for k in range(3):
                yield (k, names[i:i + 100])

    def scale():
        for n in sorted(set(list(range(1, 65)) + [99, 100, 101, 127, 128, 129, 255, 256, 257, 499, 500, 501, 511, 512, 513] + list(range(910, 932)) + [1000, 1842, 1843, 2048, 4000])):
            for how in ('fwd', 'back', 'equ', 'both'):
                yield (n, how)
        yield (30000, 'equ')

    def names():
        al = 'abxyAZ_09.efsl'
        for c in al:
            if c not in '09.':
                for d in [''] + list(al):
                    yield c + d
        for m in ('lda', 'nop', 'bne', 'org', 'byte', 'if', 'macro', 'not', 'on', 'off', 'section', 'bbr0', 'smb7', 'x', 'y', 'a', 'd', 'db', 'equ', 'var', 'ds', 'text', 'c64', 'stz', 'slo'):
            for n in (m + 'q', m + '1', m + '_', m + '.', '_' + m, 'q' + m, m + m, m + '0.x'):
                if n not in opnames():
                    yield n
        for n in list(range(3, 40)) + [63, 64, 65, 127, 128, 129, 199, 200]:
            yield 'n' * n
            yield 'n' * (n - 1) + '1'
    n = 5 if deep else 4
    orgs = (0x20, 0xf6, 0xf8, 0xfa, 0xfb, 0xfc, 0xfd, 0xfe, 0xff, 0x100, 0x102, 0x1000)
    o2 = (0x20, 0xf8, 0xfb, 0xfd, 0xff, 0x101, 0x104)
    # a straight line program needs both labels; items that do not use one make it optional
    return [('mutual', mutual()), ('fix', fix(ITEMS, n, orgs, 'AB')), ('fixequ', fix('ABqrstuf', n + 2 if deep else n + 2, o2, 'ABqr')), ('chain', chain()), ('order', order()),
            ('undef', undef()), ('redef', redef()), ('late', late()), ('step', step()), ('scale', scale()), ('names', names()), ('anyname', anyname())]


def opnames():
    from .. import opref
    return set(opref.ALL) | {'dd'}


WRAPS = {'section': ('.section s\n', '.endsection\n'), 'nested': ('.section r\n.section s\n', '.endsection\n.endsection\n'), 'if': ('.if 1\n', '.endif\n'), 'macro': ('.macro mw\n', '.endm\n mw\n'), 'for': ('.var vw\n.for vw = 1 .to 1\n', '.next vw\n'), 'split': ('', 'split'), 'inc': ('', 'inc')}
UCTX = ['.word %s', '.byte <%s', '.str %s', 'lda %s', 'lda #%s', 'lda #<%s', 'lda %s,x', 'ldx %s,y', 'jmp %s', 'jmp (%s)', 'lda (%s),y', 'lda (%s,x)', 'jsr %s', 'bne %s', 'q9 = %s', 'q9 = %s+1\n.word q9',
        '.fill 1,%s', '.fill %s,3', '* = %s', '.org %s', '.if %s\n nop\n.endif', '.print %s', '.ds %s', '.repeat\n nop\n.until %s == %s', '.macro mm\n .word \\1\n.endm\n mm %s', 'sta %s+1', 'lda (%s+1)', '.word 1,%s', '.byte "a",>%s',
        '.macro m2\n lda %s\n.endm\n m2']


LSTMT = [' stx %s,y', ' sty %s,x', '.65c02 on\n lda (%s)', ' bne *+%s+2', ' .fill 7,%s', ' .fill %s,3', ' .fill %s,%s', ' .ds %s\n* = $1040\n nop', '.for .regx=%s .to 5\n nop\n.next x', '.for .regx=0 .to %s\n nop\n.next x', '.for .regy=%s .downto 0\n nop\n.next y',
         '.for .regy=20 .downto %s\n nop\n.next y', '.for .regx=%s .to %s\n nop\n.next x', '.var i\n.for i=0 .to %s\n nop\n.next i', '.var i\n.for i=%s .to 4\n .byte i\n.next i',
         '.var i\n.for i=9 .downto %s\n .byte i\n.next i', '.var i\ni=0\n.while i<%s\n nop\ni=i+1\n.wend', '.var i\ni=0\n.while i!=%s\n nop\ni=i+1\n.wend',
         '.var i\ni=0\n.repeat\n nop\ni=i+1\n.until i>=%s', '.var i\ni=0\n.do\n nop\ni=i+1\n.while i<%s', '.if %s\n nop\n.else\n iny\n.endif', '.if %s == 2\n nop\n.endif', '.if 12/(%s+1) > 3\n nop\n.endif',
         ' .byte %s', ' .word %s', ' .str "ab",%s', ' lda #%s', ' lda #<(%s)', ' lda (%s),y', ' lda (%s,x)', ' .word 12/(%s+1)', ' lda #12/(%s+1)', 'v = %s\n .byte v', 'v = 60/(%s+1)\n lda #v', ' .word $0f0f << %s',
         '.macro m\n .fill 3,\\1\n.endmacro\n m %s', '.macro m\n.if \\1\n nop\n.endif\n.endmacro\n m %s', '.macro m\n lda #40/(\\1+2)\n.endmacro\n m %s', '.print %s', '* = $1010+%s\n nop',
         '.var w\nw = %s\n .byte w,w+1', '.var i\n.for i=0 .to 6 .step 1+%s\n .byte i\n.next i', '.if %s\n.fill 1,%s\n.endif', '.var i\n.for i=0 .to %s\n.if i == %s\n inx\n.endif\n nop\n.next i']
# expression, its value from v, lines above it; v nops stand between la and lb, z = v
LEXPR = [('z', lambda v: v, ''), ('z+1', lambda v: v + 1, ''), ('(z*2)', lambda v: v * 2, ''), ('(lb-la)', lambda v: v, ''), ('lb-la', lambda v: v, ''), ('(la-$10fe+z)', lambda v: v + 2, ''), ('lb-$1100', lambda v: v, ''), ('la+z-$10ff', lambda v: 1 + v, ''), ('5-z', lambda v: 5 - v, ''),
         ('12/z', lambda v: 12 // v if v else None, ''), ('12/(lb-la)', lambda v: 12 // v if v else None, ''), ('6/c', lambda v: 6 // v if v else None, 'c = lb-la\n'), ('(c-d)', lambda v: v, 'c = lb-2\nd = la-2\n'), ('12/y1', lambda v: 12 // v if v else None, ''),
         ('(y1+y2-y1)', lambda v: v + 1, ''), ('(<(la+z))', lambda v: v, ''), ('(z == 2)', lambda v: int(v == 2), ''), ('(la > $10ff)', lambda v: 1, ''), ('(-(z)+5)', lambda v: 5 - v, ''), ('(lb/(la/z))', lambda v: (0x1100 + v) // (0x1100 // v) if v else None, '')]
LWRAP = ('', 'sec', 'if', 'mac', 'inc')


def late_test(t, e, v, wrap):
    ex, f, above = LEXPR[e]
    val = f(v)
    st = LSTMT[t]
    if val is None or ('.macro' in st and wrap == 'mac') or (wrap == 'if' and '.macro' in st):
        return None
    tail = ' nop\n* = $1100\nla' + '\n' + ' nop\n' * v + 'lb nop\nz = %d\ny1 = y3+z-y3\ny2 = y1+1\ny3 = lb\n' % v
    fs, fw = {}, {}
    a, b = {'': ('', ''), 'sec': ('.section s\n', '.endsection\n'), 'if': ('.if 1\n', '.endif\n'), 'mac': ('.macro mm\n', '.endmacro\n mm\n'), 'inc': ('', '')}[wrap]
    if wrap in ('if', 'mac') and st.startswith('* ='):
        return None
    make = lambda x: st.replace('%s', x) + '\n'
    lit = ('(%d)' if ex[0] == '(' and ex[-1] == ')' else '%d') % val
    if wrap == 'inc':
        fs, fw = {'i.a': make(ex)}, {'i.a': make(lit)}
        text, want = '.inc "i.a"\n', '.inc "i.a"\n'
    else:
        text, want = a + make(ex) + b, a + make(lit) + b
    if wrap == 'sec':
        tail = '.endsection\n' + tail
        text, want = text[:-len(b)], want[:-len(b)]
    text, want = '* = $1000\n' + above + text + tail, '* = $1000\n' + above + want + tail
    if wrap == 'mac' and 'v = ' in st:
        return None
    j, k = src(text, files=fs), src(want, files=fw)
    o = refasm.assemble(k.files, k.args)
    return expect([j], [o.data if o.ok else None], o.states or [1], max(1, o.steps))


STEP = (-65534, -32769, -32768, -256, -129, -128, -1, 0, 1, 127, 128, 255, 256, 257, 32767, 32768, 65535)
SUSE = ['.if (%s) < 0\n .byte 1\n.else\n .byte 2\n.endif\n', ' .word (%s)&$ffff\n', '.if (%s) > 255\n nop\n.endif\n', ' .byte ((%s)>>8)&255,((%s)>>16)&255\n', '.fill 2,(%s)&3\n .byte 9\n', '.macro mm\n .byte (\\1)&255\n.if \\1 == $ffff\n nop\n.endif\n.endm\n mm (%s)\n']


def step_test(v1, v2, lag, delay, u):
    mk = lambda x: '* = $1000\n' + SUSE[u].replace('%s', x)
    lit = '0-%d' % -v2 if v2 < 0 else '%d' % v2
    t = mk('k%d' % lag) + ''.join('k%d = k%d\n' % (i, i - 1) for i in range(lag, 0, -1)) + 'k0 = m0 * (%d) + (%d)\n' % (v2 - v1, v1)
    t = t.replace('(-', '(0-') + ''.join('m%d = m%d\n' % (i, i + 1) for i in range(delay)) + 'm%d = 1\n' % delay
    j, k = src(t), src(mk(lit) + 'k0 = %s\n' % lit)
    o = refasm.assemble(k.files, k.args)
    return expect([j], [o.data if o.ok else None], o.states or [1], max(1, o.steps))


def test(fam, it):
    if fam == 'step':
        return step_test(*it)
    if fam == 'late':
        return late_test(*it)
    if fam == 'mutual':
        return mutual_test(*it)
    if fam in ('fix', 'fixequ'):
        return fix_test(*it)
    if fam == 'chain':
        n, order, kind, end = it[:4]
        wrap = it[4] if len(it) > 4 else None
        if kind == 'equ':
            d = ['c%d = c%d+1\n' % (k, k + 1) for k in range(n)]
            val = lambda k: end + n - k
            last = 'c%d = %d\n' % (n, end)
        elif kind == 'word':
            d = ['c%d = <c%d+%d\n' % (k, k + 1, k) for k in range(n)]
            vals = {n: end}
            for k in range(n - 1, -1, -1):
                vals[k] = (vals[k + 1] + k) & 255
            val = lambda k: vals[k]
            last = 'c%d = %d\n' % (n, end)
        else:
            # the value of each label depends on the size chosen for the next ones
            if order != 'fwd':
                return None
            t = '* = $%x\n' % (end - (0 if end < 10 else 4)) + ''.join(' lda c%d\n' % (k + 1) for k in range(n)) + ''.join('c%d nop\n' % (k + 1) for k in range(n))
            return near(t, n > 16)
        if order == 'back':
            d.reverse()
            t = last + ''.join(d)
        elif order == 'fwd':
            t = ''.join(d) + last
        else:
            t = ''.join(d[::2]) + last + ''.join(d[1::2])
        use = ' lda c0\n .word c%d\n' % (n // 2)
        w = lambda v: bytes((v & 255, v >> 8))
        want = (bytes((0xa5, val(0))) if val(0) < 256 else b'\xad' + w(val(0))) + w(val(n // 2))
        if wrap:
            a, b = WRAPS[wrap]
            if b == 'inc':
                fs = {'i.a': t}
                return expect([src('* = $1000\n.inc "i.a"\n' + use, files=fs), src('* = $1000\n' + use + '.inc "i.a"\n', files=fs)], [want, want], [hash((n, end, k)) for k in range(n)], 2 * n)
            if b == 'split':
                u2 = use.replace(' c', ' s.c')
                return expect([src('* = $1000\n.section s\n' + t + '.endsection\n' + u2), src('* = $1000\n' + u2 + '.section s\n' + t + '.endsection\n')], [want, want], [hash((n, end, k)) for k in range(n)], 2 * n)
            return expect([src('* = $1000\n' + a + t + use + b), src('* = $1000\n' + a + use + t + b)], [want, want], [hash((n, end, k)) for k in range(n)], 2 * n)
        if n > 16:
            return lenient([src('* = $1000\n' + t + use), src('* = $1000\n' + use + t)], [want, want])
        return expect([src('* = $1000\n' + t + use), src('* = $1000\n' + use + t)], [want, want], [hash((n, end, k)) for k in range(n)], 2 * n)
    if fam == 'order':
        m, p = it
        edges = [(i, j) for i in range(4) for j in range(i)]
        dep = {i: [j for e, (a, j) in enumerate(edges) if a == i and m >> e & 1] for i in range(4)}
        val = {}
        for i in range(4):
            val[i] = 3 + i + sum(val[j] for j in dep[i]) * 40
        d = ['e%d = %s\n' % (i, '+'.join(['%d' % (3 + i)] + ['40*e%d' % j for j in dep[i]])) for i in range(4)]
        if max(val.values()) > 65535:
            return None
        w = lambda v: bytes((v & 255, v >> 8))
        b = b''.join((bytes((0xa5, val[i])) if val[i] < 256 else b'\xad' + w(val[i])) + w(val[i]) for i in range(4))
        use = ''.join(' lda e%d\n .word e%d\n' % (i, i) for i in range(4))
        ds = ''.join(d[i] for i in p)
        h = ''.join(d[i] for i in p[:2]) + use + ''.join(d[i] for i in p[2:])
        return expect([src('* = $1000\n' + ds + use), src('* = $1000\n' + use + ds), src('* = $1000\n' + h)], [b, b, b], [hash((m, i, val[i])) for i in range(4)], 24)
    if fam == 'undef':
        c, how = it
        x = UCTX[c % len(UCTX)].replace('%s', 'uu')
        pre = {'never': '', 'self': 'uu = uu+1\n', 'cycle': 'uu = u2+1\nu2 = uu+1\n', 'cycle3': 'uu = u2+1\nu2 = u3\nu3 = uu+1\n', 'inmacro': '.macro um\nuu = 5\n.endm\n', 'notaken': '.if 0\nuu = 5\n.endif\n',
               'section': '.section sq\nuu = 5\n.endsection\n', 'local': 'zz nop\n@uu nop\n'}[how]
        if how in ('inmacro', 'notaken', 'section', 'local') and c in (19, 22):
            return None
        t = '* = $1000\n' + pre + (' ' if x[0] not in '.*q' else '') + x + '\n nop\n'
        return expect([src(t)], [None], [hash(it)], 3)
    if fam == 'redef':
        a, b, same, use = it
        forms = ['d1', 'd1 nop', 'd1 = %d', 'd1 .equ %d', '.if 1\nd1 = %d\n.endif', '.section\nd1']
        fa, fb = forms[a], forms[b]
        if a == 5 or b == 5:
            return None
        lab = lambda k: k in (0, 1)
        va = 0x1000
        vb = 0x1000 if lab(b) and fa != 'd1 nop' else 0x1001 if lab(b) else None
        if vb is None:
            vb = va if same else va + 7
        elif same != (va == vb):
            return None
        if lab(a) and lab(b):
            return None
        f = lambda t, v: t % v if '%' in t else t
        t = '* = $1000\n' + f(fa, va) + '\n' + f(fb, vb) + '\n' + ('', ' .word d1\n', ' lda #<d1\n')[use]
        if va != vb:
            return expect([src(t)], [None], [hash(it)], 3)
        n = (b'\xea' if 'nop' in fa else b'') + (b'\xea' if 'nop' in fb else b'')
        return expect([src(t)], [n + (b'', b'\x00\x10', b'\xa9\x00')[use]], [hash(it)], 3)
    if fam == 'scale':
        n, how = it
        w = lambda v: bytes((v & 255, v >> 8))
        if how == 'equ':
            t = '* = $1000\n' + ''.join('sym%d = %d\n' % (k, k) for k in range(n)) + ''.join(' .word sym%d\n' % k for k in range(n))
            b = b''.join(w(k) for k in range(n))
        elif how == 'fwd':
            t = '* = $1000\n' + ''.join(' .word sym%d\n' % k for k in range(n)) + ''.join('sym%d .byte %d\n' % (k, k & 127) for k in range(n))
            b = b''.join(w(0x1000 + 2 * n + k) for k in range(n)) + bytes(k & 127 for k in range(n))
        elif how == 'back':
            t = '* = $1000\n' + ''.join('sym%d .byte %d\n' % (k, k & 127) for k in range(n)) + ''.join(' .word sym%d\n' % k for k in range(n))
            b = bytes(k & 127 for k in range(n)) + b''.join(w(0x1000 + k) for k in range(n))
        else:
            t = '* = $1000\n' + ''.join('s%d .word s%d,s%d\n' % (k, (k * 7 + 3) % n, n - 1 - k) for k in range(n))
            b = b''.join(w(0x1000 + 4 * ((k * 7 + 3) % n)) + w(0x1000 + 4 * (n - 1 - k)) for k in range(n))
        return expect([src(t, timeout=20)], [b], [hash((how, k)) for k in range(n)], 2 * n)
    if fam == 'anyname':
        k, ns = it
        if k == 0:
            t = ''.join(' .word %s\n' % n for n in ns) + ''.join('%s = last_+%d\n' % (n, i) for i, n in enumerate(ns)) + ' nop\nlast_ nop\n'
            v = [0x1000 + 2 * len(ns) + 1 + i for i in range(len(ns))]
        elif k == 1:
            t = ''.join(' .word %s\n' % n for n in ns) + ''.join('%s nop\n' % n.upper() for n in ns)
            v = [0x1000 + 2 * len(ns) + i for i in range(len(ns))]
        else:
            t = ''.join(' .word s_.%s\n' % n for n in ns) + '.section s_\n' + ''.join('%s nop\n' % n for n in ns) + '.ends\n' + ''.join('%s = 1\n' % n for n in ns)
            v = [0x1000 + 2 * len(ns) + i for i in range(len(ns))]
        tail = b'\xea\xea' if k == 0 else b'\xea' * len(ns)
        return expect([src('* = $1000\n' + t)], [b''.join(bytes([x & 255, x >> 8]) for x in v) + tail], [hash(ns[0]) + k], len(ns))
    if fam == 'names':
        n = it
        if n.lower() in ('x', 'y', 'a') or n.lower() in opnames() or n.lower() in RESERVED or n.lower() == 'dd':
            return None
        m = 'q' if n.lower() != 'q' else 'r'
        return expect([src('* = $1000\n lda %s\n%s nop\n jmp %s+1\n' % (n, n, n)), src('* = $1000\n%s = $1234\n%s nop\n .word %s,%s\n' % (n, m, m, n)),
                       src('* = $1000\n .word %s,%s\n%s = 5\n%s = 6\n' % (n, n + 'w', n, n + 'w')),
                       src('* = $1000\n .word %s,%s\n%s = 5\n' % (n, n + 'w', n)),
                       src('* = $1000\n jmp %s\n%s\n' % (n.upper(), n.lower()))],
                      [b'\xad\x03\x10\xea\x4c\x04\x10', b'\xea\x00\x10\x34\x12', b'\x05\x00\x06\x00', None, b'\x4c\x03\x10'], [hash(n)], 5)


RESERVED = {'not', 'equ', 'on', 'off'}


def near(t, may_refuse):
    j = src(t)
    o = refasm.assemble(j.files, j.args)
    return lenient([j], [o.data if o.ok else None]) if may_refuse else expect([j], [o.data if o.ok else None], o.states or [1], max(1, o.steps))


def lenient(jobs, want):
    def judge(rs):
        p = []
        for r, w in zip(rs, want):
            if r.kind != 0:
                p.append('ended by ' + r.status())
            elif r.code == 0 and (r.bin or b'') != w:
                p.append('wrong output %s, expected %s' % ((r.bin or b'')[:40].hex(' '), w and w[:40].hex(' ')))
        return p
    return Test(jobs, judge, [hash(str(want))], len(jobs))
