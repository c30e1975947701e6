"""P10 conditional assembly"""
import itertools
from .. import refasm
from ..explore import ref_test, expect, src

ID = 'P10'
BOUNDS = {
    'truth': 'every value of a set of 40 around 0, the byte, word and sign limits, and 60 relations of them, in .if with and without .else, in 4 nestings',
    'tree': 'all well formed trees of up to 4 conditionals (.if/.ifdef/.ifndef taken or not, with and without .else, nested in either branch or following), a byte in every gap; thorough: one more',
    'seq': 'all sequences of length <= 5 of conditional tokens and bytes, well formed or not',
    'deep': 'nesting depth 1..70 (and 100, 200) of 8 patterns of kinds, taken, not taken or with the else branch taken',
    'names': 'qualified names that hold words of conditionals, 7 uses of each in 6 conditionals, taken and skipped',
    'chars': 'lists of characters and texts that hold quotes, comments and words of conditionals, taken and skipped',
    'skipped': 'about 60 texts in branches that are not taken, for each kind of conditional and either branch, alone and in pairs',
    'what': 'all orders of up to 4 of: definitions of 2 symbols by each means, tests of them, sections',
    'cond': 'conditions on labels, the location counter, variables, parameters, -d symbols, and redefinitions before them',
    'inside': 'every kind of statement (about 40) inside of taken and not taken branches, pairs of them in both branches',
    'choice': 'one name defined in both branches of one or two (nested in either branch, following) conditionals, 6 kinds of definition each with another content, 10 conditions each, used behind them as in the program with only the chosen definition',
    'files': 'conditionals in and around included files and several source files, open at the end of any of them',
}
ASSUMES = ['.ifdef of a symbol that is only defined or mentioned later is not specified', 'a condition that depends on a label defined later may select any branch that is consistent with the layout it makes (P03)', 'a second .else is not specified', 'include directives inside of .if are not specified', 'the text of a branch of .if that is not taken must still be well formed (instructions of the selected processor, no labels); processor and file format switches in it are not specified', 'a macro defined in a branch is called after the .endif']
VALS = ['0', '1', '2', '255', '256', '$7fff', '$8000', '65535', '65536', '$10000', '$100000', '$1000000', '$7fffffff', '0-1', '-1', '-256', '-65536', 'z', 'o', 'mm3', 'l', 'l-l', 'l-l2', 'l2-l', '*', '*-*', '<256', '<l', '>255', '>l', 'not 0', 'not 1', 'not z', '~o&1', 'o-o', 'mm3*z', 'mm3/mm3', '1/2', '(0)', '(z+o)',
        "'a'", '$0', '%0', '%1', "'\\x00'"]
RELS = ['==', '!=', '<>', '<', '>', '<=', '>=', '&&', '||', '&', '|', '^']
RV = ['0', '1', 'mm3', '-1', 'l', '255']


def tree_texts(n):
    """all conditional forests with n conditionals"""
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for first in trees1(k):
            for rest in tree_texts(n - k):
                yield (first,) + rest


def trees1(k):
    for a in range(k):
        for t in tree_texts(a):
            for e in tree_texts(k - 1 - a):
                for kind in 'iIdDnN':
                    yield (kind, t, e, 1)
                    if k - 1 - a == 0:
                        yield (kind, t, e, 0)


OPENS = {'i': '.if 0', 'I': '.if 1', 'd': '.ifdef u%d', 'D': '.ifdef k', 'n': '.ifndef k', 'N': '.ifndef u%d'}


class Num:
    def __init__(self):
        self.n = 0

    def b(self):
        self.n += 1
        return ' .byte %d\n' % (self.n & 255)

    def open(self, k):
        return (OPENS[k] % self.n if '%' in OPENS[k] else OPENS[k]) + '\n'


def render(f, c):
    s = c.b()
    for kind, t, e, has in f:
        s += c.open(kind) + render(t, c)
        if has:
            s += '.else\n' + render(e, c)
        s += '.endif\n' + c.b()
    return s


SKIP = ['', ' nop\n', ' xyz qqq\n', ' .byte ".endif"\n', ' ; .endif\n', ' // .endif\n', ' /* .endif */\n', ' /* x\n.endif\n*/\n', "xx = '\"'\n", " .byte ';'\n", ' .byte ";"\n', ' .byte "/*"\n', ' ; /*\n', ' ; "\n', " ; it's\n", ' .byte "a\\"b"\n', 'lab nop\n', 'k2 = 5\n', '.macro mm\n nop\n.endm\n', '.for v = 1 .to 3\n nop\n.next v\n',
        '.repeat\n nop\n.until 1\n', '.section s\n nop\n.endsection\n', '.org $3000\n', '* = $3000\n', ' .ds 5\n', ' .fill 1,5\n', '.end\n', '.if 0\n nop\n.endif\n', '.if 1\n nop\n.else\n clc\n.endif\n', '.ifdef k\n nop\n.endif\n', '.ifndef k\n nop\n.else\n clc\n.endif\n', '.ifdef uu\n nop\n.else\n sec\n.endif\n', ' lda undefd\n', ' .byte undefd\n', ' bne far9\n', ' .word k/0\n',
        '.var q = 3\n', '.print "x"\n', '.c64\n', '- nop\n', '+ nop\n', ' nop\n nop ; else\n', ' .word 1,2,3\n', ' .inc "nofile"\n', ' .load "nofile"\n', '@l nop\n', ' lda #300\n', ' .byte 999\n', ' phx\n', '.65c02 on\n', ' .str "x.else"\n', 'endif = 3\n', ' jmp else\n', '\n\n\n', '.while 0\n nop\n.wend\n', '.IFDEF k\n.ENDIF\n', '.If 0\n.EndIf\n',
        ' .byte "it", ";x", "/*"\n', '.do\n nop\n.while 0\n', ' /* .if 1 */\n', ' ; .if 1\n', ' .byte ".if 1"\n', 'x1 = 1 ; .ifdef k\n', " .byte '\"', \"x\"\n", ' /**/\n', ' /***/ nop\n', '/* a *//* .endif */\n', '@l = 3 /* .else */\n']
# texts that only the text level conditionals may skip, parsed even if not taken by .if
LEXONLY = {k for k, s in enumerate(SKIP) if s.startswith((' xyz', ' .inc', ' .load', '.c64', ' phx', 'lab', '@l nop', '- ', '+ '))}
INSIDE = [' nop\n', ' .byte 7\n', ' .word $1234,l\n', ' .str "ab"\n', ' lda l\n', ' lda z\n', ' bne l\n', ' .fill 3,4\n', '* = * + 3\n', 'x = x0 + 1\n .byte x\n', 'v = v + 1\n .byte v\n', '.var w = 7\n .byte w\n', 'lb\n .word lb\n', 'lc\n nop\n .word lc\n', ' .word fw\n', ' lda fw\n',
          '.for i = 1 .to 3\n .byte i\n.next i\n', '.repeat\n .byte v\nv = v+1\n.until v > 3\n', '.do\n .byte v\nv = v+1\n.while v < 3\n', '.while v < 3\n .byte v\nv = v+1\n.wend\n', '.for i = 1 .to 3\n.if i == 2\n .byte i\n.else\n .byte 9\n.endif\n.next i\n', '.section s\n .byte 1\n.endsection\n', ' m 5\n', ' m l&255\n m 6\n',
          '.macro n\n clc\n.endm\n', '.65c02 on\n phx\n', '.print "x"\n', ' .ds 2\n* = *\n .byte 1\n', '; c\n', '/* c */\n', '\n', ' bne *+200\n', ' ldx #<l\n', '.if v == 0\n .byte 1\n.endif\n', '.ifdef k\n .byte 1\n.else\n .byte 2\n.endif\n', '.ifndef k\n .byte 1\n.else\n .byte 2\n.endif\n',
          'v = 3\n', ' .load "f.bin"\n', 'x2 = 5\n', '@a\n nop\n', '.end\n', ' lda #300\n', ' .byte undefd\n', ' lda undefd\n']
PRE = '* = $1000\nk = 5\nz = 0\no = 1\nmm3 = 300\nx0 = 6\n.macro m\n .byte \\1,\\1\n.endm\n.var v = 0\nl nop\nl2 nop\n'
DEFS = {'a': 'a = 1\n', 'A': 'a = 0\n', 'b': 'b nop\n', 'l': 'a\n', 'v': '.var a = 2\n', 's': '.section s\na = 1\n.endsection\n', 't': '.ifdef a\n .byte 1\n.else\n .byte 2\n.endif\n', 'u': '.ifndef a\n .byte 3\n.endif\n', 'w': '.ifdef b\n .byte 4\n.endif\n', 'x': '.ifdef s.a\n .byte 5\n.else\n .byte 6\n.endif\n', 'T': '.ifdef A\n .byte 7\n.endif\n', 'i': '.ifdef aa\n .byte 8\n.endif\n', 'p': 'aa = 2\n'}
TOK = {'i': '.if 0\n', 'I': '.if 1\n', 'd': '.ifdef zz\n', 'D': '.ifdef k\n', 'e': '.else\n', 'x': '.endif\n', 'b': ' .byte 1\n', 'c': ' .byte 2\n'}


CHOICE = [('.macro cm\n .byte %d\n.endm\n', ' cm\n .byte 9\n cm\n'), ('.macro cm\n .byte \\1+%d\n@q\n bne @q\n.endm\n', ' cm 20\n cm l\n'.replace('l\n', 'k\n')), ('cq = %d\n', ' .byte cq\n lda cq\n'), ('cq = fw + %d\n', ' .word cq\n'), ('.var cv = %d\n', ' .byte cv\ncv = cv + 1\n .byte cv\n'), ('.section sq\ncq = %d\n.endsection\n', ' .word sq.cq\n')]
CCOND = [('.if 1\n', 1), ('.if 0\n', 0), ('.if v == 0\n', 1), ('.if k == 6\n', 0), ('.if l > 1\n', 1), ('.if l - l2\n', 1), ('.ifdef k\n', 1), ('.ifdef nn\n', 0), ('.ifndef k\n', 0), ('.ifndef nn\n', 1)]


def use_q9(t):
    return t.startswith('q9')


KEYS = ['if', 'ifdef', 'ifndef', 'else', 'endif', 'ENDIF']
KUSE = [' jmp %s\n', ' .word %s\n', ' lda #<%s\n', 'q9 = %s\n', ' .byte "x"\n .word 1,%s ; c\n', ' .word %s,%s\n', ' lda (%s),y\n']
CHR = ['\'"\'', "'\\''", "'\\\"'", "'a'", "';'", "'/'", "'*'", "' '", "'.'"]
CSTR = ['".endif"', '".else"', '".if 1"', '"/*"', '";"', '"*/"', '"\'"', '"\'.endif"', '"a" ; ".endif"', '"a" /* .else */', "'\"'", "'\"', \".endif\""]
AROUND = ['.ifdef nosuch\nT.endif\n', '.ifndef k\nT.else\n .byte 1\n.endif\n', '.ifdef k\n .byte 2\n.else\nT.endif\n', '.ifdef k\nT.else\n .byte 3\n.endif\n', '.if k\nT.else\n .byte 4\n.endif\n', '.ifdef nosuch\n.if 1\nT.endif\nT.else\n .byte 5\nT.endif\n']
# how often the text is assembled, and the byte of the other branch
AWANT = [(0, ''), (0, '01'), (0, '02'), (1, ''), (1, ''), (1, '05')]


def families(tier):
    deep = tier == 'thorough'

    def truth():
        for v in range(len(VALS)):
            for w in range(8):
                yield (VALS[v], w)
        for a in RV:
            for r in RELS:
                for b in RV:
                    for w in (0, 1):
                        yield ('%s %s %s' % (a, r, b), w)

    def tree():
        for n in range(1, 5 if deep else 4):
            for t in tree_texts(n):
                yield t
        if not deep:
            # four conditionals: kinds restricted
            for t in tree_texts(4):
                if all(k in 'iD' for k in kinds(t)):
                    yield t

    def seq():
        for n in range(1, 7 if deep else 6):
            for s in itertools.product('iIdDexb', repeat=n):
                yield ''.join(s)

    def deepf():
        for n in list(range(1, 71)) + [100, 127, 128, 129, 200]:
            for p in ('i', 'I', 'd', 'D', 'N', 'iI', 'dD', 'ID', 'nNiI', 'ddII'):
                for w in range(3):
                    yield (n, p, w)

    def skipped():
        for k in 'idnI':
            for a in range(len(SKIP)):
                for els in range(3):
                    yield (k, a, -1, els)
        for a in range(len(SKIP)):
            for b in range(len(SKIP)):
                yield ('d', a, b, (a + b) % 2)
                if deep:
                    yield ('i', a, b, (a + b) % 2)

    def names():
        for w in KEYS:
            for suf in ('', 'x', '_1', '2'):
                for sec in ('s1', 's_.t', 'ss.if'):
                    for use in range(len(KUSE)):
                        for c in range(6):
                            yield (w + suf, sec, use, c)

    def chars():
        for q in CHR:
            for x in CSTR:
                for c in range(6):
                    yield (q, x, c)

    def what():
        for n in range(1, 5 if deep else 4):
            for s in itertools.product(DEFS, repeat=n):
                if any(c in 'tuwxTi' for c in s):
                    yield ''.join(s)

    def cond():
        for k in range(len(COND)):
            for a in range(0, 8):
                yield (k, a)

    def inside():
        n = len(INSIDE)
        for a in range(n):
            for w in range(8):
                yield (a, -1, w)
        for a in range(n):
            for b in range(n):
                for w in (0, 1, 2, 3) if deep else ((a + b) % 2, 2):
                    yield (a, b, w)

    def files():
        for a in range(len(PART)):
            for b in range(len(PART)):
                for c in range(len(PART)):
                    for w in (0, 1, 2):
                        yield (a, b, c, w)
    def choice():
        for k in range(len(CHOICE)):
            for c in range(len(CCOND)):
                for how in range(5):
                    for c2 in range(len(CCOND)) if how else (0,):
                        yield (k, c, how, c2)
    return [('choice', choice()), ('truth', truth()), ('tree', tree()), ('seq', seq()), ('deep', deepf()), ('skipped', skipped()), ('names', names()), ('chars', chars()), ('what', what()), ('cond', cond()), ('inside', inside()), ('files', files())]


def kinds(t):
    for k, a, b, h in t:
        yield k
        yield from kinds(a)
        yield from kinds(b)


COND = ['l nop\n.if l > $1000+N\n .byte 1\n.else\n .byte 2\n.endif\n', ' .fill 0,N\n.if * > $1003\n .byte 1\n.else\n .byte 2\n.endif\n .word *\n', '.var v = N\n.if v & 1\nv = v+10\n.else\nv = v+20\n.endif\n .byte v\n', '.macro m\n.if \\1 == N\n .byte 1\n.else\n .byte 2\n.endif\n.endm\n m 0\n m 3\n m N\n',
        '.for i = 0 .to 7\n.if i == N\n .byte i\n.else\n.if i < N\n .byte 100\n.else\n .byte 200\n.endif\n.endif\n.next i\n', '.for i = 0 .to 3\n.for j = 0 .to 3\n.if i+j == N\n .byte i,j\n.endif\n.next j\n.next i\n', 's = N\n.if s\nt = 1\n.else\nt = 2\n.endif\n .byte t\n',
        '.if N > 3\nq = 1\n.endif\n.if N <= 3\nq = 2\n.endif\n .byte q\n', '.if N > 3\nlab nop\n.else\n nop\nlab2 clc\n.endif\n nop\n', '.if N > 3\nlab\n.else\n nop\nlab\n.endif\n .word lab\n', '.if N > 3\n jmp fwd\n.else\n bne fwd\n.endif\n.fill 0,125\n.if N & 1\n nop\n.endif\nfwd rts\n',
        'a = 1\n.if N\n.if N-1\n.if N-2\na1 = 3\n.else\na1 = 2\n.endif\n.else\na1 = 1\n.endif\n.else\na1 = 0\n.endif\n .byte a1\n', '.section s\n.if N & 1\nx1 = 1\n.else\nx1 = 2\n.endif\n .byte x1\n.endsection\n .byte s.x1\n',
        '.var v = 0\n.repeat\n.if v == N\n .byte $ff\n.else\n .byte v\n.endif\nv = v+1\n.until v > 5\n', '.var n = N\n.while n > 0\n.if n & 1\n .byte n\n.endif\nn = n-1\n.wend\n']
PART = ['', ' .byte 1\n', '.if 0\n .byte 2\n.endif\n', '.ifdef zz\n .byte 3\n.else\n .byte 4\n.endif\n', '.ifdef k\n .byte 5\n', '.ifdef zz\n .byte 6\n', '.else\n .byte 7\n', '.endif\n', '.if 1\n .byte 8\n', 'k = 1\n', '.ifdef k\n .byte 9\n.endif\n', '.ifndef k\n .byte 10\n.else\n', '.if 0\n .byte 11\n', '.ifdef k\n.ifdef zz\n .byte 12\n.endif\n.endif\n .byte 13\n']


def test(fam, it):
    try:
        if fam == 'truth':
            e, w = it
            c = '.if %s\n' % e
            body = [c + ' .byte 1\n.else\n .byte 2\n.endif\n', c + ' .byte 1\n.endif\n .byte 3\n', '.if 1\n' + c + ' .byte 1\n.else\n .byte 2\n.endif\n.endif\n .byte 9\n', '.if 0\n.else\n' + c + ' .byte 1\n.else\n .byte 2\n.endif\n.endif\n .byte 9\n',
                    '.for i = 1 .to 2\n' + c + ' .byte 1\n.else\n .byte i\n.endif\n.next i\n', '.macro mm\n' + c + ' .byte 1\n.else\n .byte 2\n.endif\n.endm\n mm\n mm\n', '.section s\n' + c + ' .byte 1\n.else\n .byte 2\n.endif\n.endsection\n', c + c + ' .byte 1\n.else\n .byte 2\n.endif\n.else\n' + c + ' .byte 3\n.else\n .byte 4\n.endif\n.endif\n'][w]
            return ref_test(PRE + body)
        if fam == 'tree':
            return ref_test('* = $1000\nk = 1\n' + render(it, Num()))
        if fam == 'seq':
            t, n = '* = $1000\nk = 1\n', 0
            for c in it:
                if c == 'b':
                    n += 1
                    t += ' .byte %d\n' % n
                else:
                    t += TOK[c]
            return ref_test(t + ' .byte $99\n')
        if fam == 'deep':
            n, p, w = it
            t = '* = $1000\nk = 1\n'
            for j in range(n):
                t += (OPENS[p[j % len(p)]] % j if '%' in OPENS[p[j % len(p)]] else OPENS[p[j % len(p)]]) + '\n .byte %d\n' % (j & 255)
            for j in range(n - 1, -1, -1):
                if w == 1 or w == 2 and j % 2:
                    t += '.else\n .byte %d\n' % (j & 255)
                t += '.endif\n .word %d\n' % j
            return ref_test(t)
        if fam == 'names' or fam == 'chars':
            if fam == 'names':
                w, sec, use, c = it
                t = KUSE[use].replace('%s', sec + '.' + w)
                d = ''.join('.section %s\n' % x for x in sec.split('.')) + ' clc\n' + w + ' nop\n' + '.ends\n' * (sec.count('.') + 1)
                v = '0110'
                b = ['4c' + v, v, 'a901', '', '780100' + v, v + v, 'b101'][use]
                o = '* = $1000\n' if use != 6 else '* = 0\n'
            else:
                q, x, c = it
                t, d, o = ' .byte %s, %s\n' % (q, x), '', '* = $1000\n'
                val = lambda y: {"'\\''": 39, "'\\\"'": 34}.get(y) if y[1] == '\\' else ord(y[1])
                if x[0] == '"':
                    b = bytes([val(q)]) + x[1:x.index('"', 1)].encode()
                else:
                    b = bytes([val(q), 34]) + (b'.endif' if '.endif' in x else b'')
                b = b.hex()
            n, other = AWANT[c]
            if c == 5 and use_q9(t):
                return None
            want = bytes.fromhex(('18ea' if d else '') + other + b * n + 'ea')
            return expect([src(o + 'k = 1\n' + d + AROUND[c].replace('T', t) + ' nop\n')], [want], [hash((c, want))], 4)
        if fam == 'skipped':
            k, a, b, els = it
            txt = SKIP[a] + (SKIP[b] if b >= 0 else '')
            if k in 'iI' and (a in LEXONLY or b in LEXONLY):
                return None
            op = {'i': '.if 0\n', 'd': '.ifdef nosuch\n', 'n': '.ifndef k\n', 'I': '.if 1\n'}[k]
            if k == 'I':
                if els != 1:
                    return None
                t = '.if 1\n .byte 1\n.else\n' + txt + '.endif\n .byte 2\n'
            else:
                t = op + txt + ['.endif\n', '.else\n .byte 1\n.endif\n', '.else\n.if 0\n .byte 3\n.else\n .byte 4\n.endif\n.endif\n'][els] + ' .byte 2\n'
            # the text is not assembled: only what is around it counts
            want = {'I': '0102'}.get(k) or ['02', '0102', '0402'][els]
            j = src('* = $1000\nk = 1\n' + t)
            return expect([j], [bytes.fromhex(want)])
        if fam == 'what':
            return ref_test('* = $1000\n' + ''.join(DEFS[c] for c in it) + ' nop\n')
        if fam == 'cond':
            k, n = it
            a = '* = $1000\n' + COND[k].replace('N', str(n))
            t1 = ref_test(a)
            return t1
        if fam == 'inside':
            a, b, w = it
            A, B = INSIDE[a], INSIDE[b] if b >= 0 else ''
            o = ['.if 0\n', '.if 1\n', '.if v == 0\n', '.if k == 6\n', '.ifdef k\n', '.ifndef k\n', '.if 1\n.ifdef k\n', '.ifdef k\n.if 0\n'][w]
            t = o + A + ('.else\n' + B if b >= 0 or w & 1 else '') + '.endif\n' * (2 if w > 5 else 1)
            return ref_test(PRE + t + ' .byte $77,v\n .word l\nfw nop\n', files={'f.bin': 'xyz'})
        if fam == 'choice':
            k, c, how, c2 = it
            df, use = CHOICE[k]
            (t, v), (t2, v2) = CCOND[c], CCOND[c2]
            two = t2 + df % 3 + '.else\n' + df % 4 + '.endif\n'
            if how == 0:
                t, n = t + df % 1 + '.else\n' + df % 2 + '.endif\n', 1 if v else 2
            elif how == 1:
                t, n = t + two + '.else\n' + df % 2 + '.endif\n', (3 if v2 else 4) if v else 2
            elif how == 2:
                t, n = t + df % 1 + '.else\n' + two + '.endif\n', 1 if v else 3 if v2 else 4
            elif how == 3:
                if ' = ' in df and '.var' not in df:      # would be defined twice
                    return None
                t, n = t + df % 1 + '.else\n' + df % 2 + '.endif\n' + t2 + df % 3 + '.endif\n', 3 if v2 else 1 if v else 2
            else:
                t, n = t + '.else\n' + df % 1 + '.endif\n' + t2 + '.else\n' + df % 2 + '.endif\n' if v != v2 else t + two + '.endif\n' if v else t + ' nop\n.else\n' + two + '.endif\n', (2 if v else 1) if v != v2 else 3 if v2 else 4
                if v == v2 == 0:
                    t = t.replace(' nop\n', '', 1)
            o = refasm.assemble({'t.a': (PRE + df % n + use + ' .word l\nfw nop\n').encode()}, ['t.a', '-o', 'out.bin'])
            if not o.ok:
                raise RuntimeError('choice ' + repr(it))
            return expect([src(PRE + t + use + ' .word l\nfw nop\n')], [o.data], [hash(it)], o.steps)
        if fam == 'files':
            a, b, c, w = it
            f = [PART[a], PART[b], PART[c]]
            if w == 0:
                return ref_test('* = $1000\n' + f[0] + '.inc "i.a"\n' + f[2], files={'i.a': f[1]})
            if w == 1:
                return ref_test('* = $1000\n' + f[0], files={'u.a': f[1], 'v.a': f[2]}, args=['u.a', 'v.a'])
            return ref_test('* = $1000\n.inc "i.a"\n' + f[2], files={'i.a': f[0] + '.inc "j.a"\n.byte 33\n', 'j.a': f[1]})
    except refasm.Unsupported:
        return None
