"""P21 every text is assembled or refused: no crash, memory error or endless run"""
import itertools
from .. import refasm
from ..explore import Test, src
from ..execpool import Job
from . import p17_spelling as sp

ID = 'P21'
ASAN = True
BOUNDS = {
    'char': 'all strings of length <= 2 over 70 characters, and of length 3 over 22 (thorough 40), as a line and as the end of the file',
    'token': 'all sequences of <= 2 of 88 tokens, and of 3 of 24 (thorough 44)',
    'line': 'all sequences of <= 2 of 71 lines, of 3 of 26 (thorough 50)',
    'cut': 'every prefix of 78 programs, with and without an end of line',
    'edit': 'each token of 78 programs left out, doubled, exchanged with the next, or replaced by one of 30 tokens',
    'byte': 'every byte value at each of the first positions of 12 programs',
    'deep': 'every kind of nesting and list of the depths 1..40, 63..65, 99..101, 127..129, 255..257, 511..513, 999..1001',
    'long': 'names, strings, numbers, operands and comments of the lengths 1..40 and round powers of two to 16384',
    'big': '48 statements with each of 39 numbers up to and beyond 32 bits, symbols defined before, after and never; loaded and included files of 21 sizes to 1000000',
    'full': '22 ways to fill the memory with a program (statements, data, loops, nested loops, macros, sections, conditionals, symbols) x 6 sizes up to the whole of it, in 20 s each',
    'self': 'files that include themselves directly and through another, macros that call themselves, in 9 surroundings',
    'args': 'all argument lists of length <= 2 over 30 words and of length 3 over 16 (thorough 30)',
}
ASSUMES = ['run time is bounded by 20 s, on an address and undefined behaviour sanitizer build; memory that is not released at the end is no error', 'overflow of 32 bit arithmetic in expressions is not specified', 'nesting beyond 1000 and texts beyond 16K per token are not specified']
CH = '\n \t!"#$%&\'()*+,-./0123456789:;<=>?@AXYaxyzn[\\]^_`{|}~\r\x00\x01\x7f\x80\xff'
FEWC = '"\'\\.$%*+-(,;/@#<=&|a0\n'
TOK = ['nop', 'lda', 'jmp', 'bne', 'asl', 'phx', 'slo', 'bbr0', '#', '(', ')', ',', '+', '-', '*', '/', '<', '>', '=', '==', '!=', '<<', '&', '&&', '||', '~', '^', ':', '@', '\\1', '?', '??', '0', '1', '$', '%', '$ff', '256', '70000', '99999999999', "'a'", '"a"', '"ab"', '""', 'x', 'y', 'a', 'lab', '@lab', 'lab:', '--', '++', '.byte', '.word', '.str', '.ds', '.fill', '.org', '.equ', '.if', '.else', '.endif', '.ifdef', '.ifndef', '.for', '.to', '.step', '.next', '.regx', '.repeat', '.until', '.do', '.while', '.wend', '.macro', '.endm', '.section', '.ends', '.inc', '.load', '.var', '.print', '.end', '.65c02 on', '.c64', 'not', '\n', ';', '/*']
LINE = ['lab nop', 'lab = 5', 'lab = lab + 1', '- nop', '+ nop', '@l nop', ' bne -', ' bne +', ' bne @l', ' jmp lab', ' lda lab', '.if 1', '.if lab', '.else', '.endif', '.ifdef lab', '.ifndef lab', '.var lab', '.var i = 0', 'i = i + 1', '.for i = 1 .to 3', '.for lab = 1 .to 2', '.next i', '.for .regx = 1 .to 3', '.next x', '.repeat', '.until i > 2', '.do', '.while i < 3', '.wend', '.macro mm', '.macro lab', '.endm', ' mm', ' mm 1', ' mm lab, "ab"', ' lda \\1', ' lda #\\2', '.section sec1', '.section lab', '.ends', ' jmp sec1.lab', '* = $2000', '* = lab', '* = * - 5', '.ds 3', '.ds lab', '.fill 3,4', '.fill lab,lab', '.byte lab', '.byte "abc",lab', '.word 1,2', '.str "ab"', '.inc "ff"', '.inc "nn"', '.load "gg"', '.load "nn"', '.print lab', '? 5', '??', '.end', '.c64', '.print off', '.print on', '.65c02 on', ' phx', ' lda 1/0', ' .byte 256', '(', 'lab .equ $80']
FEWL = ['lab nop', 'lab = 5', '- nop', ' bne +', ' jmp lab', '.if lab', '.else', '.endif', '.ifdef lab', '.var i = 0', 'i = i + 1', '.for i = 1 .to 3', '.next i', '.repeat', '.until i > 2', '.do', '.while i < 3', '.wend', '.macro mm', '.endm', ' mm 1', ' lda \\1', '.section sec1', '.ends', '.inc "ff"', '* = lab']
FILES = {'ff': 'fl nop\n', 'gg': 'xyz'}
SELF = ['', ' nop\n', '.ifdef qq\n', '.ifndef qq\n', '.if 1\n', '.macro mm\n', '.repeat\n', '.section s1\n', '.ifndef t1\nt1 = 1\n']
NEST = [('.if 1\n', ' nop\n', '.endif\n'), ('.ifdef zz\n', ' nop\n', '.endif\n'), ('.ifndef zz\n', ' nop\n', '.endif\n'), ('.repeat\n', ' nop\n', '.until 1\n'), ('.do\n', ' nop\n', '.while 0\n'), ('.section s\n', ' nop\n', '.ends\n'), (' .byte ' , '(' , ')', ' 1'), (' .byte ', '~ ', '', '1'), (' .byte ', 'not ', '', '1'), (' .word ', '1+', '', '1'), (' .word ', '1*', '', '1'), (' .byte ', '1,', '', '1'), (' .byte ', '"ab",', '', '1'), (' .str ', '"ab",', '', '1'), (' mm ', '1,', '', '1'), (' nop\n', '', ''), ('l%d nop\n', '', ''), ('- nop\n', '', ' bne -\n'), ('/* ', 'c', '*/\n'), ('.endif\n', '', ''), ('.ends\n', '', ''), ('.if 1\n', '', ''), ('.macro m%d\n', '', ''), ('.macro m%d\n nop\n.endm\n', '', ' m0\n'), ('.var v%d = 1\n', '', ''), ('.else\n', '', ''), ('.do\n', '', ''), ('.wend\n', '', ''), (' .inc "ff"\n', '', '')]
NEST += [(' .byte ', '1%s(' % o, ')', '1') for o in ('+', '-', '*', '/', '&', '|', '^', '<<', '>>', '<', '>', '<=', '>=', '==', '!=', '&&', '||', '=', '<>')]
NEST += [(' .byte ', '(', '%s1)' % o, '1') for o in ('-', '/', '<<', '&&', '||', '==')] + [(' .byte ', o, '', '1') for o in ('-', '<', '>', '!', '~(', 'not(', '<(', '-(')]
NEST += [('.if ', '1/(', ')', '1'), (' lda ', '1/(', ')', '1'), (' jmp ', 'qq/(', ')', '1'), (' mm ', '1/(', ')', '1'), ('.var v = ', '1/(', ')', '1'), ('.print ', '1/(', ')', '1'), ('.do\n nop\n.while ', '0/(', ')', '1'), (' .word 1,', '1/(', '),2', '1')]
DEPTH = list(range(1, 41)) + [63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001]
LONG = [('%s nop\n', 'q'), (' jmp %s\n', 'q'), (' .byte "%s"\n', 'q'), (' .str "%s"\n', 'q'), (' .word "%s"\n', 'q'), (' .byte "%s"\n', '\\n'), (' .byte %s\n', '1'), (' .byte $%s\n', '0'), (' .byte %%%s\n', '1'), (' lda #5 ;%s\n', 'q'), ('%s lda 5\n', ' '), (' .inc "%s"\n', 'q'), (' .load "%s"\n', 'q'), ('.section %s\nq nop\n.ends\n', 'q'), ('.macro %s\n nop\n.endm\n', 'q'), ('.ifdef %s\n nop\n.endif\n', 'q'), (' .byte \'%s\'\n', 'q'), ('%s nop\n', '-'), (' bne %s\n', '-'), (' bne %s\n', '+'), ('@%s nop\n bne @%s\n', 'q'), (' lda %s\n', '('), (' .foo%s\n', 'q'), ('%s\n', '.'), (' .byte 0b%s\n', '1'), (' \\%s\n', '1'), ('.print %s\n', 'q'), (' lda #"%s"\n', 'q'), (' .byte "%s\n', 'q'), ('/* %s', 'q'), ('.macro %s\nx1\n nop\n@l\n nop\n bne @l\n.endm\n %s\n %s 1\n', 'q'), ('.section %s\n%s nop\n@l jmp @l\n.ends\n jmp %s.%s\n', 'q'), ('.var %s\n.for %s = 1 .to 2\n.byte %s\n.next %s\n', 'q'), ('%s = 5\n.print %s\n ? %s\n lda #%s\n', 'q')]
LENS = list(range(1, 41)) + sorted({2 ** j + x for j in range(6, 15) for x in (-2, -1, 0, 1)})
ARGS = ['-o', '-s', '-l', '-log', '-dir', '-d', '-c64', '-v', '-65c02', '-i', '-nowarn', '-?', 't.a', 'none.a', '', '-', '/', 'dd', ';', 'dd;', 'x' * 300, 'x' * 5000, '5', '$', '%', '0x', '-1', '99999999999999999999', 'lda', '.']
FEWARGS = [ARGS.index(w) for w in ('-o', '-l', '-dir', '-d', '-c64', '-?', 't.a', 'none.a', '', '-', 'dd', ';', 'x' * 5000, '5', '$', '99999999999999999999')]


NUMS = ['0', '1', '2', '255', '256', '257', '4096', '32767', '32768', '61440', '61441', '65534', '65535', '65536', '65537', '70000', '99999', '16777216', '2147483646', '2147483647', '2147483648', '4294967295', '4294967296', '4294967301', '99999999999999999999', '(0-1)', '(0-2)', '(0-255)', '(0-65536)', '(0-2147483647)', '(0-2147483647-1)', 'nn', 'lab', '*', '$ffffffff', '$7fffffff', '$ffffffffffffffffff', '%11111111111111111111111111111111', '0x80000000']
NSTAT = [' .ds %s\n', ' .ds %s\n .ds %s\n', ' .fill 1,%s\n', ' .fill %s,1\n', '* = %s\n nop\n', '* = %s\n .word 1,2\n', '* = %s\n .byte "abc"\n', '* = %s\n .fill 1,300\n', '* = %s\n .load "gg"\n', '* = %s\n .ds 5\n', '* = %s\n .str "abc"\n', '* = %s\n lda 5\n', '* = %s\nq bne q\n', '.var i\n.for i = %s .to 3\n nop\n.next i\n', '.var i\n.for i = 1 .to %s\n nop\n.next i\n', '.var i\n.for i = 1 .to 3 .step %s\n nop\n.next i\n', '.var i\n.for i = 3 .downto 1 .step %s\n nop\n.next i\n', '.var i\n.for i = 1 .to %s\n.byte 300\n.next i\n', '.for .regx = %s .to 3\n nop\n.next x\n', '.for .regx = 1 .to %s\n nop\n.next x\n', '.for .regy = %s .downto 0\n nop\n.next y\n', ' .byte 1 << %s\n', ' .byte %s >> 1\n', ' .byte %s << 8\n', ' .byte 5 / %s\n', ' .byte %s / (0-1)\n', ' .byte %s * %s\n', ' .word %s\n', ' .byte <%s\n', ' .word >%s\n', ' .byte %s\n', ' lda %s\n', ' lda #%s\n', ' lda %s,x\n', ' lda (%s),y\n', ' jmp (%s)\n', ' bne %s\n', ' bbr0 %s,%s\n', '.if %s\n nop\n.endif\n', '.do\n nop\n.while %s\n', '.repeat\n nop\n.until %s\n', 'v = %s\n lda v\n', '.var v = %s\n.word v\n', '.print %s\n', ' ? %s\n', '.macro m\n .word \\1\n.endm\n m %s\n', '.var v = 0\n.repeat\nv = v + %s\n.until v > 9\n', '.var v = 0\n.while v < %s\n nop\nv = v + 1\n.wend\n']
SIZES = [0, 1, 2, 3, 254, 255, 256, 2047, 2048, 2049, 4095, 4096, 8191, 8192, 61440, 61441, 65535, 65536, 65537, 131072, 1000000]


def families(tier):
    deep = tier == 'thorough'

    def char():
        for n in (1, 2):
            for s in itertools.product(CH, repeat=n):
                yield ''.join(s)
        few = CH[1:41] if deep else FEWC
        for s in itertools.product(few, repeat=3):
            yield ''.join(s)

    def token():
        for n in (1, 2):
            for s in itertools.product(range(len(TOK)), repeat=n):
                yield s
        few = range(0, len(TOK), 2) if deep else [TOK.index(t) for t in ('lda', 'bne', '#', '(', ')', ',', '-', '*', '=', '"ab"', '1', 'x', 'lab', '\\1', '.byte', '.if', '.for', '.macro', '.endm', '.section', '.var', '.to', '\n', '.next')]
        yield from itertools.product(few, repeat=3)

    def line():
        for n in (1, 2):
            for s in itertools.product(range(len(LINE)), repeat=n):
                yield s
        few = range(50) if deep else [LINE.index(l) for l in FEWL]
        yield from itertools.product(few, repeat=3)

    def cut():
        for p in range(len(sp.PROG)):
            for n in range(len(sp.plain(sp.PROG[p])) + 1):
                for e in range(2):
                    yield (p, n, e)

    def edit():
        for p in range(len(sp.PROG)):
            for g in range(len(sp.lex(sp.PROG[p]))):
                for k in range(33):
                    yield (p, g, k)

    def byte():
        for p in range(0, len(sp.PROG), 2 if deep else 7):
            for at in range(0, min(len(sp.PROG[p]), 40 if deep else 8)):
                for b in range(256):
                    yield (p, at, b)

    def deepf():
        for k in range(len(NEST)):
            for d in DEPTH:
                yield (k, d)

    def long():
        for k in range(len(LONG)):
            for n in LENS:
                # every one of these dots is an error that shows the line
                if LONG[k][0] != '%s\n' or n < 8000:
                    yield (k, n)

    def args():
        for n in range(4):
            yield from itertools.product(range(len(ARGS)) if n < 3 or deep else FEWARGS, repeat=n)
    def self():
        for k in range(len(SELF)):
            for m in range(3):
                yield (k, m)
    def big():
        for k in range(len(NSTAT)):
            for a in range(len(NUMS)):
                for c in range(3 if NUMS[a] in ('nn', 'lab', '*') else 1):
                    yield (k, a, c)
        for n in SIZES:
            for k in range(4):
                # each instruction beyond the end is an error that shows its line
                if (k != 1 or n <= 65537) and (deep or not 61440 <= n <= 65536 or k == 1):
                    yield ('f', n, k)
    def full():
        for k in range(len(FULL)):
            for n in (100, 2000, 10000, 25000, 45000, 61000):
                yield (k, n)
    return [('full', full()), ('big', big()), ('self', self()), ('char', char()), ('token', token()), ('line', line()), ('cut', cut()), ('edit', edit()), ('byte', byte()), ('deep', deepf()), ('long', long()), ('args', args())]


def calm(text, args=('-l', 'out.lst', '-s', 'out.sym'), files=FILES, job=None):
    j = job or src(text, list(args), files, (), 60)

    def judge(rs):
        r = rs[0]
        if r.kind == 0 and r.code in (0, 255, 2):
            if r.code and not (r.stderr.strip() or r.stdout.strip()):
                return ['refused without a message']
            e = r.stderr.decode('latin-1')
            # arithmetic beyond 32 bits is not specified
            ub = [l for l in e.split('\n') if 'runtime error' in l and 'overflow' not in l and 'shift' not in l and 'negation' not in l and 'outside the range of representable' not in l]
            return ub[:1]
        e = r.stderr.decode('latin-1')
        k = max(e.find('ERROR: AddressSanitizer'), e.find('runtime error'))
        return [r.status() + ' ' + e[max(0, k - 60):k + 500].replace('\n', ' ')]
    return Test([j], judge, [hash(str(j.files.get('t.a')))], 1)


# programs of about n bytes of code
FULL = [lambda n: ' nop\n' * n, lambda n: ' lda $1234\n' * (n // 3), lambda n: ' .byte 1,2,3,4,5,6,7,8\n' * (n // 8), lambda n: ' .word 1,2,3,4\n' * (n // 8),
        lambda n: ' .byte ' + ','.join('1' for k in range(min(n, 4000))) + '\n', lambda n: ' .str "abcdefghijklmnop"\n' * (n // 16), lambda n: ' .fill 5,%d\n' % n, lambda n: ' .load "big"\n',
        lambda n: ''.join('l%d nop\n' % k for k in range(n // 4)), lambda n: ''.join(' .word l%d\n' % k for k in range(n // 6)) + ''.join('l%d nop\n' % k for k in range(n // 6)),
        lambda n: '.macro m\n lda #\\1\n.endm\n' + ' m 3\n' * (n // 2), lambda n: '.macro m\n.for v = 1 .to \\1\n .byte v & 255\n.next v\n.endm\n.var v\n m %d\n' % n,
        lambda n: '.var v\n.for v = 1 .to %d\n nop\n.next v\n' % n, lambda n: '.var v\n.for v = 1 .to %d\n .byte v & 255\n.next v\n' % n,
        lambda n: '.var v,w\n.for w = 1 .to %d\n.for v = 1 .to 100\n .word w\n.next v\n.next w\n' % (n // 200), lambda n: '.var v\nv = 0\n.while v < %d\n .byte <v\nv = v+1\n.wend\n' % n,
        lambda n: '.var v\nv = 0\n.repeat\n jmp $1234\nv = v+1\n.until v >= %d\n' % (n // 3), lambda n: '.var v\nv = 0\n.do\n .byte <v,>v\nv = v+1\n.while v < %d\n' % (n // 2),
        lambda n: ''.join('.section s%d\nl nop\n jmp l\n.endsection\n' % k for k in range(n // 8)), lambda n: '.if 1\n nop\n.else\n iny\n.endif\n' * (n // 4),
        lambda n: ''.join('g%d\n@l nop\n bne @l\n' % k for k in range(n // 10)), lambda n: ''.join('s%d = %d\n lda #<s%d\n' % (k, k, k) for k in range(n // 10))]


def test(fam, it):
    if fam == 'char':
        return calm(it + "\n")
    if fam == 'token':
        return calm(' ' + ' '.join(TOK[x] for x in it) + '\n')
    if fam == 'line':
        return calm('\n'.join(LINE[x] for x in it) + '\n')
    if fam == 'cut':
        p, n, e = it
        return calm(sp.plain(sp.PROG[p])[:n] + '\n' * e)
    if fam == 'edit':
        p, g, k = it
        t = list(sp.lex(sp.PROG[p]))
        if k == 0:
            t[g:g + 1] = []
        elif k == 1:
            t[g:g] = [t[g]]
        elif k == 2:
            t[g:g + 2] = t[g:g + 2][::-1]
        else:
            t[g] = TOK[(k - 3) * 88 // 30]
        return calm(' ' + sp.fix(' '.join(t)))
    if fam == 'byte':
        p, at, b = it
        t = sp.plain(sp.PROG[p])
        return calm(t[:at] + chr(b) + t[at + 1:])
    if fam == 'deep':
        k, d = it
        n = NEST[k]
        if len(n) == 4:
            t = n[0] + n[1] * d + n[3] + n[2] * d + '\n'
            if n[0] == ' mm ':
                t = '.macro mm\n nop\n.endm\n' + t
        else:
            t = ''.join(n[0].replace('%d', str(j)) for j in range(d)) + n[1] + n[2] * d
        return calm(t)
    if fam == 'long':
        k, n = it
        return calm(LONG[k][0].replace('%%', '%').replace('%s', LONG[k][1] * n))
    if fam == 'big':
        k, a, c = it
        if k == 'f':
            return calm([' .load "big"\n', ' .inc "big"\n', '* = 0\n .load "big"\n', ' .load "big"\n .load "big"\n'][c], files={'big': ' nop\n' * (a // 5) + '\n' * (a % 5)})
        t = NSTAT[k].replace('%s', NUMS[a])
        return calm(['', 'lab nop\n', ' nop\n'][c] + t + ['', '', 'lab nop\n'][c], ('-l', 'out.lst', '-s', 'out.sym', '-65c02') if 'bbr' in t else ('-l', 'out.lst', '-s', 'out.sym'))
    if fam == 'full':
        k, n = it
        return calm(FULL[k](n), job=src('* = $1000\n' + FULL[k](n), (), FILES, (), 20))
    if fam == 'self':
        k, m = it
        end = '.endif\n' if '.if' in SELF[k] else ''
        t = SELF[k] + [' .inc "t.a"\n', ' .inc "f1"\n', ' mm\n'][m] + end
        if m == 2:
            t = '.macro mm\n' + SELF[k] + ' mm\n' + end + '.endm\n' + t
        return calm(t, files={'f1': ' .inc "t.a"\n'})
    if fam == 'args':
        a = [ARGS[x] for x in it]
        return calm('', job=Job({'t.a': b' lda #nn\nq bne q+300\n'}, a, (), 6))
    return None
