"""P23 .print shows its items once, with their values at that place, and changes nothing"""
import itertools
from ..explore import ref_test
from . import p17_spelling as sp

ID = 'P23'
NAMES = ['one', 'once', 'on1', 'on_', 'onoff', 'ONE', 'oN2', 'offset', 'off1', 'off_', 'OFFx', 'Off_2', 'offon', 'of', 'o', 'no', 'not1', 'nota', 'xx', 'x1', 'y1', 'yy', 'a1', 'ax', 'all', 'all_', 'to', 'step', 'end', 'if', 'word', 'byte', 'lda1', 'nop1', 'nopx', 'asla', 'eq', 'equ', 'regx', 'print', 'b0', 'x_y', '_x', '_on', '_']
NFORM = ['.print %s', '.print\t%s', ' .PRINT  %s', '.Print %s,5', '.print 5,%s', '.print %s+1', '.print <%s, >%s', '.print %s, "on", %s', '? %s', '.printall %s', '?? %s,%s', '.print on\n.print %s', '.print off\n.print %s\n.print on', '.print (%s)', '.print %s ; on', '.print %s.q1']
BOUNDS = {
    'items': 'all lists of <= 3 of 27 items: numbers of every size, strings, escapes, labels before and after, the location counter, variables, expressions, low and high bytes',
    'names': '%d names that begin like other words of the language, printed in %d spellings' % (len(NAMES), len(NFORM)),
    'value': 'every value -32768..65535, and round multiples of 65536 up to 31 bits',
    'long': 'strings of every length 0..300, and lists of 1..200 items',
    'place': '27 items in each of 40 places: branches, loops, macros, sections, included files, between labels and their uses, behind errors of size',
    'order': 'all sequences of <= 4 (thorough 6) of 12 statements that print, change variables, define labels, emit bytes and move the origin',
    'var': 'all sequences of <= 4 (thorough 6) of 12 declarations, assignments and uses of two variables',
    'form': 'all sequences of <= 4 of .print, ?, .printall, ??, .print on, .print off and bytes, in 3 spellings',
    'args': 'prints with all subsets of the output options',
    'prog': 'prints of 6 kinds before and after each line of 78 programs',
}
ASSUMES = ['values beyond 16 bits are printed in part', '.printall and ?? print in every pass, the lines of the last pass are judged', 'standard output starts with the line of arguments and ends with the number of bytes written']
ITEMS = ['0', '5', '255', '256', '$1234', '65535', '-1', '-256', "'a'", '"ab"', '"a b"', '""', '"\\n"', '"a\\x00b"', '"%d"', 'back', 'forw', '*', 'v', 'v+1', 'back+forw', '<forw', '>forw', 'forw-back', '1<2', '(v)', 'c']


def line(items):
    s = ''
    for x in items:
        if isinstance(x, str):
            s += ' ' + x
        else:
            x &= 0xffff
            s += (' $%02X' % (x >> 8) if x >> 8 else '') + ' $%02X' % (x & 255)
    return s + '\n'


def shown(always=False):
    def judge(o, r):
        if not o.ok:
            return []
        out = r.stdout.decode('latin-1')
        ls = [line(p) for p in o.prints]
        head, end = out.find('\n') + 1, out.rfind('\n%d bytes written to ' % len(o.data))
        if end < 0:
            return ['the number of bytes written is not shown']
        got, want = out[head:end], ''.join(ls)
        if got != want and not (always and got.endswith(want)):
            return ['printed %r instead of %r' % (got[-300:], want[-300:])]
        return []
    return judge


PLACE = ['P', '.if 1\nP.else\n.byte 9\n.endif\n', '.if 0\n.byte 9\n.else\nP.endif\n', '.if 0\nP.endif\n', '.ifdef back\nP.endif\n', '.ifdef nn\nP.else\n nop\n.endif\n', '.ifndef nn\nP.endif\n',
         '.var i\n.for i = 1 .to 3\nP.next i\n', '.var i\n.for i = 1 .to 2\n.byte i\nP.print i\n.next i\n', '.var i = 0\n.repeat\nPi = i + 1\n.until i >= 2\n', '.var i = 0\n.while i < 3\nPi = i + 1\n.wend\n', '.var i = 0\n.do\nPi = i + 1\n.while i < 2\n',
         '.macro m\nP.endm\n m\n m\n', '.macro m\n.print \\1,\\2\nP.endm\n m v,forw\n m 1,"a"\n' , '.macro m\n.print \\1\n.endm\nP m 7\nP m *\n', '.section sec1\nP.ends\n', '.section sec1\nlq nop\n.print lq,*\nP.ends\n.print sec1.lq\n',
         ' .inc "ff"\nP', 'P .inc "ff"\n', '- nop\nP bne -\n', ' bne +\nP+ nop\n', '@l nop\nP bne @l\n', ' lda forw\nP lda forw\n', ' lda v\nP', 'w = 5\nPw = 6\nP', 'v = 3\nPv = $1234\nP', '.var v2 = 5, v3 = 6\nP.print v2,v3\n',
         '* = $2000\nP', '.ds 300\nP', '.fill 1,300\nP', 'far\n .fill 1,200\nP bne far\n', '.for .regx = 1 .to 3\n nop\nP.next x\n', '.if v == 2\nP.endif\n.if v != 2\nP.endif\n', '.if 1\n.if 1\nP.endif\nP.endif\n', 'P.end\nP', '.print off\nP.print on\nP', '.byte 1\nP.word 2\nP.str "ab"\nP', 'PP\n\nP', '/* c\n*/\nP; c\nP', '.load "gg"\nP']
STM = ['.print *', '.print v,"ab"', '.print lab', '? 5', 'v = v + 1', 'v = v * 2', ' nop', 'lab', ' .word lab,v', '* = $2000', ' lda v', 'c2 = lab + v']
VAR = ['.var a1', '.var b1 = 2', '.var a1 = b1', '.var a1 = 3, b1', '.var b1, a1 = 4', 'a1 = a1 + 1', 'b1 = a1 * 3', 'b1 = lab', ' .byte a1', '.print a1,b1', ' lda b1', 'lab']
FORM = ['.print v', '? v', '.printall v', '?? v,"x y"', '.print on', '.print off', ' .byte v', '.print']
ARGS = [['-l', 'out.lst'], ['-s', 'out.sym'], ['-nowarn'], ['-c64'], ['-65c02'], ['-i']]
FILES = {'ff': '.print 1,"in"\n nop\n', 'gg': 'xyz'}


def families(tier):
    deep = tier == 'thorough'

    def items():
        for n in range(4):
            yield from itertools.product(range(len(ITEMS)), repeat=n)

    def names():
        for k in range(len(NAMES)):
            for f in range(len(NFORM)):
                yield (k, f)

    def value():
        for k in range(0, 98304, 256):
            yield (k,)
        for n in (-32767, -4096, -257, -256, -255, -3, -2, -1, 1, 2, 3, 4, 255, 256, 257, 4095, 4096, 32767):
            for k in range(65536 * n - 512, 65536 * n + 768, 256):
                yield (k + 32768,)

    def long():
        for n in range(301):
            yield ('s', n)
        for n in range(1, 201):
            yield ('l', n)

    def place():
        yield from itertools.product(range(len(PLACE)), range(len(ITEMS)))

    def seq(n, m):
        def g():
            for k in range(1, m + 1 + 2 * deep):
                yield from itertools.product(range(n), repeat=k)
        return g()

    def form():
        for k in range(1, 5):
            for s in itertools.product(range(len(FORM)), repeat=k):
                for c in range(3):
                    yield (s, c)

    def args():
        for m in range(1 << len(ARGS)):
            for t in range(3):
                yield (m, t)

    def prog():
        for p in range(len(sp.PROG)):
            for k in range(sp.plain(sp.PROG[p]).count('\n') + 1):
                for w in range(6):
                    yield (p, k, w)
    return [('items', items()), ('names', names()), ('value', value()), ('long', long()), ('place', place()), ('order', seq(len(STM), 4)), ('var', seq(len(VAR), 4)), ('form', form()), ('args', args()), ('prog', prog())]


def around(t):
    return '.var v = 2\nc = $1234\nback nop\n' + t + 'forw nop\n'


def test(fam, it):
    if fam == 'names':
        k, f = it
        n, t = NAMES[k], NFORM[f].replace('%s', NAMES[k])
        d = '.section %s\nq1 nop\n.ends\n' % n if '.q1' in t else '%s = $1234\n' % n
        return ref_test(d + ' nop\n' + t + '\n clc\n', extra=shown('rintall' in t or '??' in t))
    if fam == 'items':
        return ref_test(around(('.print ' + ','.join(ITEMS[x] for x in it)).rstrip() + '\n'), files=FILES, extra=shown())
    if fam == 'value':
        t = ''.join('.print %s\n' % ','.join(str(v - 32768) for v in range(k, k + 16)) for k in range(it[0], it[0] + 256, 16))
        return ref_test(t, extra=shown())
    if fam == 'long':
        k, n = it
        t = '.print "%s",1\n' % ''.join(chr(97 + i % 26) for i in range(n)) if k == 's' else '.print %s\n' % ','.join(['"s%d"' % i if i % 3 else str(i * 99) for i in range(n)])
        return ref_test(around(t + '.print 5\n'), extra=shown())
    if fam == 'place':
        p, i = it
        return ref_test(around(mark(PLACE[p], '.print %s\n' % ITEMS[i])), ['-65c02'] if 'phx' in PLACE[p] else (), files=FILES, extra=shown())
    if fam == 'order':
        return ref_test('.var v = 2\n' + ''.join(STM[x] + '\n' for x in it) + ('' if 7 in it else 'lab nop\n'), extra=shown())
    if fam == 'var':
        return ref_test('.var a1 = 9\n.var b1 = 8\n' + ''.join(VAR[x] + '\n' for x in it) + ('' if 11 in it else 'lab nop\n'), extra=shown())
    if fam == 'form':
        s, c = it
        t = ''.join((FORM[x], FORM[x].upper().replace('X Y', 'x y'), FORM[x].replace(' ', ' \t '))[c] + '\n' for x in s)
        return ref_test('.var v = $123\n' + t, extra=shown(any(x in (2, 3) for x in s)))
    if fam == 'args':
        m, t = it
        a = [w for i, l in enumerate(ARGS) if m >> i & 1 for w in l]
        return ref_test(around(['.print back,forw,"x"\n', '.macro m\n.print \\1\n.endm\n m 3\n m forw\n', '.var i\n.for i = 1 .to 3\n.print i,*\n nop\n.next i\n'][t]), a, extra=shown())
    if fam == 'prog':
        p, k, w = it
        ls = sp.plain(sp.PROG[p]).split('\n')
        ls.insert(k, ['.print 1', '.print *', '.print "ab",*', '.print', '? *,*', '.print *+1'][w])
        return ref_test('\n'.join(ls), files=getattr(sp, 'FILES', None), extra=shown())
    return None


def mark(t, p):
    """put p at every line start marked by P"""
    out, start = '', True
    for ch in t:
        if ch == 'P' and start:
            out += p
            continue
        out += ch
        start = ch == '\n'
    return out
