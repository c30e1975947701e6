"""P02 expressions"""
import itertools
from .. import refasm
from ..explore import ref_test

ID = 'P02'
BIN = ['<<', '>>', '||', '&&', '>=', '<=', '==', '!=', '<>', '>', '<', '|', '&', '^', '+', '-', '*', '/']
PRE = ['<', '>', '~', 'not ', '-']
BOUNDS = {
    'one': 'all 18 operators x 14 x 14 operand values, each result read back as 32 bits',
    'two': 'all pairs of operators x 5 parenthesisations x 8 operand triples',
    'three': 'all triples of operators x 3 parenthesisations x 3 operand quadruples (thorough: 14 x 4)',
    'prefix': 'every prefix operator (or none) before each operand, all operators around it, two deep',
    'prefix2': 'all pairs of prefix operators, with and without parentheses, 20 operands',
    'lit': 'every literal form x values 0..65535 (step 1 in thorough, boundary values in quick)',
    'char': 'every character between single and double quotes, every simple escape, every octal escape of three digits, every hexadecimal escape of 1..4 digits, alone and in expressions',
    'ctx': 'the same expressions as operand, immediate, .byte, .word, .org, .if, .repeat and macro argument',
    'symbols': 'all pairs of operators x 2 parenthesisations (3 of prefix operators around) x 4 triples of symbol values x symbols defined before, after or both, in 6 statements each',
    'zero': 'division by zero in every operand position and context',
    'pc': 'the location counter in expressions, at every item position of data lists, on either side of every operator in 7 statements, and alone as operand of 25 instructions in 10 places',
    'pcmove': 'one statement with * expanded 3 times (macro, three kinds of loop) at every triple of 5 origins, ascending and descending, 9 expressions, 7 statements',
    'deep': 'nests of parentheses of depth 1..100, runs of 1..200 operators of each kind, prefix operators 1..60 deep, with the values they have',
    'syntax': 'all token sequences of length <= 4 over 8 tokens: accepted exactly when the grammar derives them',
}
ASSUMES = ['values stay within 32-bit signed arithmetic; shifts by negative or >30 amounts and shifts of negative values are not specified',
           '~ is specified for -32768..65535 (values of 0..255 complement within a byte, others within a word)']
NUMS = (0, 1, 2, 3, 7, 8, 127, 128, 255, 256, 1000, 32767, 65535, 65536)
PACK = 60


def val(text):
    """value of an expression by the reference, None if not specified"""
    try:
        m = refasm.Machine({}, '6502', False, [], {}, [])
        m.one_pass(False)
        m.pc_star = 0x1000
        t = refasm.parse_expr(refasm.tokenize(text))
        return None if 'anon' in repr(t) else m.ev(t)
    except (refasm.Unsupported, refasm.Fail, refasm.Unknown):
        return None


def shapes3(a, o, b, p, c):
    yield '%s%s%s%s%s' % (a, o, b, p, c)
    yield '(%s%s%s)%s%s' % (a, o, b, p, c)
    yield '%s%s(%s%s%s)' % (a, o, b, p, c)
    yield '(%s)%s(%s)%s(%s)' % (a, o, b, p, c)
    yield '((%s %s %s %s %s))' % (a, o, b, p, c)


def shapes4(a, o, b, p, c, q, d, deep):
    yield '%s%s%s%s%s%s%s' % (a, o, b, p, c, q, d)
    yield '%s%s(%s%s%s)%s%s' % (a, o, b, p, c, q, d)
    yield '(%s%s%s)%s(%s%s%s)' % (a, o, b, p, c, q, d)
    if deep:
        yield '(%s%s%s%s%s)%s%s' % (a, o, b, p, c, q, d)
        yield '%s%s(%s%s%s%s%s)' % (a, o, b, p, c, q, d)
        yield '((%s%s%s)%s%s)%s%s' % (a, o, b, p, c, q, d)
        yield '(%s%s(%s%s%s))%s%s' % (a, o, b, p, c, q, d)
        yield '%s%s((%s%s%s)%s%s)' % (a, o, b, p, c, q, d)
        yield '%s%s(%s%s(%s%s%s))' % (a, o, b, p, c, q, d)
        yield '(%s%s%s)%s%s%s%s' % (a, o, b, p, c, q, d)
        yield '%s%s%s%s(%s%s%s)' % (a, o, b, p, c, q, d)


def clash(e):
    """adjacent + and - lex as an anonymous label name; // starts a comment"""
    for x in ('++', '--', '+-', '-+', '//', '/*', '*='):
        if x in e:
            return True
    return False


def packs(it, size=PACK):
    cur = []
    for e in it:
        if clash(e):
            continue
        cur.append(e)
        if len(cur) == size:
            yield tuple(cur)
            cur = []
    if cur:
        yield tuple(cur)


FORMS = {'.if': '.if %s\n .byte 9\n.endif\n', '.var': '.var w1 = %s\n .word w1 & $ffff\n', '= ': 'w1 = (%s) & $ffff\n .word w1\n', '#': ' lda #<(%s)\n', '.fill': ' .fill 7,(%s) & 7\n'}
# the location counter alone as operand
PCOPS = ['jmp *', 'jsr *', 'bne *', 'bcc *', 'lda *', 'sta *', 'lda *,x', 'lda * , X', 'lda *,y', 'ldx *,y', 'stx *,y', 'asl *', 'bit *', 'lda (*),y', 'lda (*,x)', 'jmp (*)', 'lda #<*', 'lda #>*', 'jmp *+0', 'lda **2', 'lda **2,y', 'stx *,x', 'ldy *, y', 'lda # *', 'rol *']
PCWHERE = ['* = $1000\n nop\nT', '* = $20\nT', '* = $fe\nT T', '* = $ff\nT.word *\n', 'l1 T.word l1\n', '.if 1\nT.endif\n', '.macro m\nT.endm\n m\n m\n', '.var i\n.for i = 1 .to 3\nT.next i\n', '.section s\nT.ends\n', '.ifdef nn\nT.endif\n nop\n']


def families(tier):
    deep = tier == 'thorough'

    def one():
        for o in BIN:
            for a in NUMS:
                for b in NUMS:
                    yield '%d %s %d' % (a, o, b)
                    yield '-(%d) %s %d' % (a, o, b)
                    yield '(0-%d) %s (0-%d)' % (a, o, b)

    def two():
        for o in BIN:
            for p in BIN:
                for t in ((1, 2, 3), (7, 3, 2), (0, 1, 5), (255, 1, 4), (300, 2, 2), (12, 12, 1), (5, 6, 0), (65535, 1, 1)):
                    yield from shapes3(t[0], o, t[1], p, t[2])

    def three():
        for o in BIN:
            for p in BIN:
                for q in BIN:
                    for t in ((9, 4, 2, 3), (1, 0, 5, 2), (200, 7, 7, 1)) + (((513, 2, 6, 6),) if deep else ()):
                        yield from shapes4(t[0], o, t[1], p, t[2], q, t[3], deep)

    def prefix():
        for u in [''] + PRE:
            for v in [''] + PRE:
                for w in [''] + PRE:
                    if not (u or v or w):
                        continue
                    for o in BIN:
                        for a, b, c in (('$1234', '$0102', '3'), ('5', '$ff', '2')):
                            yield '%s%s %s %s%s' % (u, a, o, v, b)
                            if w or not deep:
                                yield '%s%s %s %s%s + %s%s' % (u, a, o, v, b, w, c)
                            if deep:
                                for p in BIN:
                                    yield '%s%s %s %s%s %s %s%s' % (u, a, o, v, b, p, w, c)
                                    yield '%s(%s %s %s%s) %s %s%s' % (u, a, o, v, b, p, w, c)
                            else:
                                yield '%s(%s %s %s%s) * %s%s' % (u, a, o, v, b, w, c)

    def prefix2():
        for u in PRE:
            for v in PRE:
                for a in ('0', '1', '5', '$7f', '$80', '$ff', '$100', '$1234', '$8000', '$ffff', '(3)', '(2+3)', '(0-1)', '(0-2)', '(0-128)', '(0-255)', '(0-256)', '(0-$200)', '(0-$7fff)', '(0-$8000)'):
                    yield '%s%s' % (u, a)
                    yield '%s%s%s' % (u, v, a)
                    yield '%s(%s%s)' % (u, v, a)
                    yield '%s(%s%s)+1' % (u, v, a)
                    yield '1+%s(%s%s)' % (u, v, a)

    def lit():
        vs = range(65536) if deep else sorted(set(list(range(0, 300)) + [1 << k for k in range(16)] + [(1 << k) - 1 for k in range(17)] + [0xABCD, 0xFEDC, 0x0F0F, 99, 999, 9999, 10000, 12345, 54321]))
        for v in vs:
            if v > 65535:
                continue
            for f in ('%d' % v, '$%x' % v, '$%04X' % v, '%%%s' % bin(v)[2:], '0b%s' % bin(v)[2:], '%%%s' % bin(v)[2:].zfill(16), '%05d' % v):
                if f[0] == '0' and f.isdigit():
                    continue  # leading zeros: covered by the literal family of P06
                yield f

    def chars():
        for q in '\'"':
            for c in range(32, 127):
                if chr(c) not in '\\' + q:
                    yield q + chr(c) + q
            for c in 'abfnrtv\\\'"':
                yield q + '\\' + c + q
        for v in range(512):
            yield "'\\%03o'" % v
        for n in range(1, 5):
            for v in range(16 ** n) if n < 3 or deep else sorted({(k * 16 ** j + x) % 16 ** n for k in range(16) for j in range(n) for x in (-1, 0, 1)}):
                yield "'\\x%0*X'" % (n, v)
                yield "'\\x%0*x'" % (n, v)

    def char():
        for c in chars():
            yield c
            yield c + '+1'
            yield '3*' + c
            yield '(%s-%s)' % (c, "'A'")
            yield '>%s' % c

    def lit_packs():
        return packs(lit(), 400)

    def ctx():
        for e in ('1+2*3', '8>>1+1', '$1234&$ff|$100', '<$1234+1', '>$1234+$100', '7==3+4', '5-2-1', '64/4/2', '2*3+4*5', 'not 0', '1||0&&0', '~5', '$ff^$0f', '-3+5', '-(2)+9', '3<5', '5<=4', '1<<2<<1', '(1+2)*3', '100/7*7',
                  'v+1*2', 'v*v-1', '<v', '>v+255', 'v-1-1', 'f+1', 'f*2-1', '<f+1', 'v|f', 'v&&f'):
            for c in range(9):
                yield (e, c)

    def symbols():
        for o in BIN:
            for p in BIN:
                for t in ((7, 3, 2), (0, 1, 5), (300, 2, 2), (1, 0, 0)):
                    for k in range(5):
                        for m in (0, 7, 2, 4, 6):
                            yield (o, p, t, k, m)

    def zero():
        for e in ('1/0', '0/0', '5/(1-1)', '1+6/0', '6/0+1', 'v/0', '1/z', '(1/z)*0', '1&&1/0', '0||1/0', '(1/0)&&0', 'not 1/0'):
            for c in range(7):
                yield (e, c)

    def pc():
        for d in ('.byte', '.word', '.str'):
            for n in range(0, 4):
                for k in range(n + 1):
                    for e in ('*', '*+1', '*-l1', '(*)', '*-*', '2**', '***'):
                        for pre in ('', ' nop\n', '* = $20\n'):
                            yield (d, n, k, e, pre)
        for t in PCOPS:
            for w in range(len(PCWHERE)):
                yield ('op', w, 0, t, '')
        # the location counter on either side of every operator
        for o in BIN:
            for f in ('*%s2', '* %s 2', '*\t%sl1', '$1000 %s *', 'l1%s*', '(*)%s(*)', '* %s *', '(* %s l1)', '2+* %s l1'):
                for d in ('.byte', '.word', *FORMS):
                    yield (d, 0, 0, f % o, ' nop\n')

    def pcmove():
        for k in range(4):
            for o in itertools.product((0x10, 0xf0, 0xfff, 0x1000, 0x2000), repeat=3):
                for s in range(7):
                    for e in ('*', '*+1', '*-2', '(*)', '* * 2', '<*', '>*', '*/2', '0-*') if s in (0, 3) else ('*', '*+2'):
                        yield (k, o, s, e)

    def syntax():
        T = ('1', '+', '-', '*', '(', ')', '<', 'not')
        for n in range(1, 5 if not deep else 6):
            for s in itertools.product(T, repeat=n):
                yield s
    P = lambda g: packs(g)
    def deeps():
        for n in list(range(1, 41)) + [50, 63, 64, 65, 99, 100]:
            for o in BIN:
                for k in range(3):
                    yield ('nest', o, n, k)
        for n in list(range(2, 41)) + [63, 64, 65, 100, 127, 128, 129, 200]:
            for o in BIN:
                for k in range(3):
                    yield ('run', o, n, k)
        for n in range(1, 61):
            for p in PRE:
                for k in range(3):
                    yield ('pre', p, n, k)
    return [('deep', deeps()), ('one', P(one())), ('two', P(two())), ('three', packs(three(), 120)), ('prefix', packs(prefix(), 100)), ('prefix2', P(prefix2())), ('lit', lit_packs()), ('char', packs(char(), 100)), ('ctx', ctx()),
            ('symbols', symbols()), ('zero', zero()), ('pc', pc()), ('pcmove', pcmove()), ('syntax', syntax())]


CTX = ['* = $1000\n.word %s\n', '* = $1000\n .byte %s\n', '* = $1000\n lda %s\n', '* = $1000\n lda #%s\n', '* = $1000\nq = %s\n .word q, q+1\n',
       '* = $1000\n.if %s\n nop\n.else\n clc\n.endif\n', '* = %s\n nop\n .word *+1\n', '.macro mm\n .word \\1, \\2\n.endm\n* = $1000\n mm %s, 5\n', '* = $1000\n .fill 7, (%s)&15\n .word 1\n']


def test(fam, it):
    if fam in ('one', 'two', 'three', 'prefix', 'prefix2', 'lit', 'char'):
        lines = []
        for e in it:
            v = val(e)
            if v is None:
                continue
            # read the value back as 32 bits: low half and, shifted down by division, high half
            lines.append(' .word (%s)&$ffff\n' % e)
            if v >= 0 and fam != 'lit':
                lines.append(' .word ((%s)/65536)&$ffff\n' % e)
        if not lines:
            return None
        return ref_test('* = $1000\n' + ''.join(lines))
    if fam == 'deep':
        k, o, n, h = it
        ops = [BIN[(BIN.index(o) + j * (h + 1)) % len(BIN)] for j in range(n)] if o in BIN and h else [o] * n
        v = lambda j: str((j * 5 + 1 + h) % 7 + (j % 3 == 2))
        if k == 'nest':
            e = v(n)
            for j in range(n):
                e = '(%s %s %s)' % ((e, ops[j], v(j)) if (j + h) % 2 else (v(j), ops[j], e))
        elif k == 'run':
            e = v(0) + ''.join(' %s %s' % (ops[j], v(j + 1)) for j in range(n - 1))
        else:
            e = '$1234'
            for j in range(n):
                e = '%s(%s%s)' % ((o, e, ['', ' + 1', ' & $fff'][h]) if j % (h + 1) == 0 else (PRE[(PRE.index(o) + j) % 5], e, ''))
        if val(e) is None:
            return None
        return ref_test('* = $1000\n .word (%s)&$ffff,((%s)>>8)&$ffff\n' % (e, e) if val(e) >= 0 else '* = $1000\n .word (%s)&$ffff\n' % e)
    if fam == 'ctx':
        e, c = it
        pre = 'v = 5\n' if 'v' in e else ''
        post = 'f = 300\n' if 'f' in e.replace('$ff', '').replace('$0f', '') else ''
        if post and c in (5, 6, 8):
            pre, post = pre + post, ''
        try:
            return ref_test(pre + CTX[c] % e + post)
        except refasm.Unsupported:
            return None
    if fam == 'symbols':
        o, p, t, k, m = it
        e = ('(sa%s(sb%ssc))', '((sa%ssb)%ssc)', '(<(sa%ssb)%s>sc)', '(not (sa%s(sb%ssc)))', '(sa%s~(sb%ssc))')[k] % (o, p)
        if val(e.replace('sa', str(t[0])).replace('sb', str(t[1])).replace('sc', str(t[2]))) is None:
            return None
        d = ['s%s = %d\n' % (c, v) for c, v in zip('abc', t)]
        use = ' .word %s&$ffff\n .byte 1+(%s&$7f),2\n lda #%s&$ff\n lda 2+(%s&$7f)\n .str (%s&$7f)+1\n .fill 7,(%s&3)+1\nlast nop\n .word last\n' % ((e,) * 6)
        try:
            return ref_test('* = $1000\n' + ''.join(x for i, x in enumerate(d) if not m >> i & 1) + use + ''.join(x for i, x in enumerate(d) if m >> i & 1))
        except refasm.Unsupported:
            return None
    if fam == 'zero':
        e, c = it
        return ref_test('z = 0\nv = 5\n' + CTX[c] % e)
    if fam == 'pc':
        d, n, k, e, pre = it
        if d == 'op':
            return ref_test('.65c02 on\n' + PCWHERE[n].replace('T', ' %s\n' % e))
        if d in FORMS:
            return ref_test('%sl1 nop\n%s .word *\n' % (pre, FORMS[d] % e))
        items = ['1'] * n
        items.insert(k, e)
        if d == '.byte':
            items = ['(%s)&$ff' % x if '*' in x else x for x in items]
        return ref_test('%sl1 nop\n %s %s\n .word *\n' % (pre, d, ','.join(items)))
    if fam == 'pcmove':
        k, o, s, e = it
        st = [' .word (%s)&$ffff\n', ' lda %s\n', ' jmp %s\n', 'q = %s\n .word q\n', ' .byte <(%s),1,>(%s)\n', ' bne %s\n', ' sta %s,x\n'][s]
        st = st.replace('%s', e)
        if s == 3:
            st = st.replace('q', 'w')
            if '-' in e:
                return None
        if k == 0:
            t = '.macro m\n%s.endm\n' % st + ''.join('* = %d\n m\n' % x for x in o)
        else:
            pick = '* = (v==1)*%d+(v==2)*%d+(v==3)*%d\n' % tuple(o)
            t = ['.for v = 1 .to 3\n%s.next v\n', 'v = 1\n.repeat\n%sv = v+1\n.until v == 4\n', 'v = 1\n.while v < 4\n%sv = v+1\n.wend\n'][k - 1] % (pick + st)
        try:
            return ref_test('.var v,w\n' + t + ' .word *\n')
        except refasm.Unsupported:
            return None
    if fam == 'syntax':
        e = ' '.join(it)
        # a lone + or - names an anonymous label: not an expression of numbers
        try:
            t = refasm.parse_expr(refasm.tokenize(e))
            if 'anon' in repr(t):
                return None
        except refasm.Fail:
            pass
        try:
            return ref_test('* = $1000\n .word (%s)&$ffff\n .byte 1\n' % e)
        except refasm.Unsupported:
            return None
