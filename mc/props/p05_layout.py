"""P05 output layout: origins, reservations, fills, header"""
import itertools
from .. import refasm
from ..explore import Test, ref_test, expect, src

ID = 'P05'
ST = ['* = $1000', '* = $2000', '* = *+4', '* = $0ff0', '.org $1800', '.ds 3', '.ds 0', '.fill 5,2', '.fill 5,0', ' nop', '#lab .word #lab', ' .byte 1,2,3', '* = #lastlab+$100', '.c64', ' jmp *+3', 'q# = *\n .word q#']
BOUNDS = {
    'seq': 'all sequences of length <= 4 (5 in thorough) over 16 layout statements, with and without -c64',
    'header': 'the load address header for every low byte and every high byte, 9 kinds of first output, -c64 and .c64',
    'edge': 'every statement kind ending 3 bytes before .. 3 bytes after the end of the address space',
    'fill': '.fill values 0..255 x counts 0..20 and counts at every power of two to 65536, as expressions and symbols',
    'limits': '.fill of every value -300..300 and round word limits x 8 counts, of counts -300..20 and round the address space x 5 values, .ds of the same counts, each as number, constant before and after, expression, in a macro, loop and conditional',
    'reserve': '.ds n then labels, origin and data, n = 0..300 and powers of two',
    'default': 'programs without origin: all sequences of length <= 3 over 9 statements',
    'big': 'outputs of every size around powers of two up to 65536 bytes',
}
ASSUMES = ['.ds moves the location counter only; emitting into a reserved gap without a new origin is an error', 'the output holds the emitted bytes in order; a new origin does not pad']


def families(tier):
    deep = tier == 'thorough'

    def seq():
        for n in range(1, 6 if deep else 5):
            for s in itertools.product(range(len(ST)), repeat=n):
                if s.count(4) > 2 or (n == 4 and not deep and len(set(s)) < 3):
                    continue
                for c in (0, 1):
                    yield s + (c,)

    def header():
        for a in sorted(set(list(range(0x1000, 0x1100)) + list(range(0x34, 0x10000, 256)))):
            for k in range(9):
                for h in ((0, 1, 2) if deep or a % 16 == 4 else (a % 3,)):
                    yield (a, k, h)

    def edge():
        for k in range(9):
            for d in range(-4, 5):
                for h in (0, 1):
                    yield (k, d, h)

    def fill():
        for v in range(0, 256):
            for n in (0, 1, 2, 3, 7, 20) if not deep else range(0, 21):
                yield (v, n)
        for e in range(5, 17 if deep else 14):
            for d in (-1, 0, 1):
                yield (170, (1 << e) + d)

    def reserve():
        for n in list(range(0, 301)) + [1 << k for k in range(9, 16)] + [(1 << k) - 1 for k in range(9, 16)]:
            for k in range(6):
                yield (n, k)

    def limits():
        far = [x + d for x in (-70000, -65536, -32768, 32768, 65536, 70000) for d in (-2, -1, 0, 1, 2)]
        for k in range(len(LIM)):
            for v in list(range(-300, 301)) + far:
                yield ('v', v, k)
            for n in list(range(-300, 21)) + far:
                yield ('n', n, k)
                yield ('d', n, k)

    def default():
        S = [' nop', 'l# .word l#', ' .byte 1,2', '.fill 7,3', 'q# = *', ' jmp *+3', '.if 1\n nop\n.endif', '* = $1234', '.org $3456']
        for n in range(1, 4 if not deep else 5):
            for s in itertools.product(S, repeat=n):
                for c in (0, 1):
                    yield s + (c,)

    def big():
        for e in range(8, 17):
            for d in range(-3, 4):
                n = (1 << e) + d
                for k in range(3):
                    if n <= 65536 and (deep or n <= 8200 or (d == 0 and k == 1)):
                        yield (n, k)
    return [('seq', seq()), ('header', header()), ('edge', edge()), ('fill', fill()), ('reserve', reserve()), ('limits', limits()), ('default', default()), ('big', big())]


def render(parts):
    out, last = '', None
    for k, s in enumerate(parts):
        if '#lastlab' in s:
            if last is None:
                return None
            s = s.replace('#lastlab', last)
        if '#lab' in s:
            last = 'lab%d' % k
            s = s.replace('#lab', last)
        out += s.replace('#', str(k)) + '\n'
    return out


LIM = ['D\n', 'aa = A\nbb = B\nE\n', 'E\naa = A\nbb = B\n', '.macro m\nM\n.endm\n m A,B\n', '.var i\n.for i = 1 .to 2\nD\n.next i\n', '.if 1\nD\n.endif\n', '.var aa = A, bb = B\nE\n']


def both(texts):
    """several programs as one element; None if the rules leave all of them open"""
    ts = []
    for t in texts:
        try:
            ts.append(ref_test(t))
        except refasm.Unsupported:
            pass
    if not ts:
        return None
    return Test(sum((t.jobs for t in ts), []), lambda rs: [p for t, r in zip(ts, rs) for p in t.judge([r])], sum((t.states for t in ts), []), sum(t.steps for t in ts))


def test(fam, it):
    from .. import refasm
    try:
        if fam == 'seq':
            t = render([ST[k] for k in it[:-1]])
            return t and ref_test(t, ['-c64'] if it[-1] else [])
        if fam == 'default':
            return ref_test(render(it[:-1]), ['-c64'] if it[-1] else [])
        w = lambda v: bytes((v & 255, v >> 8))
        if fam == 'header':
            a, k, h = it
            first = ['* = $%x\n nop\n', '* = $%x\n .byte 234\n', '.org $%x\n .word *\n', '* = $%x\nl1\n .fill 1,3\n', '* = $%x\n.if 1\n jmp *\n.endif\n'.replace('jmp *', 'jmp *+0'), '* = $%x\n .str "ab"\n', '* = $3000\n* = $%x\n nop\n', 'l0 = $%x\n* = l0\n nop\n',
                     '.macro mm\n nop\n.endm\n* = $%x\n mm\n'][k] % a
            b = [b'\xea', b'\xea', w(a), b'\1\1\1', b'\x4c' + w(a), b'ab', b'\xea', b'\xea', b'\xea'][k]
            t = ('.c64\n' if h == 1 else '') + first + ('.c64\n' if h == 2 else '') + ' .byte 9\n'
            return expect([src(t, ['-c64'] if h == 0 else []), src(first)], [w(a) + b + b'\x09', b], [hash((a, k))], 4)
        if fam == 'edge':
            k, d, h = it
            st, n = [('nop', 1), ('.byte 1,2,3', 3), ('.word 1,2', 4), ('.fill 3,5', 5), ('.str "abcd"', 4), ('lda $1234', 3), ('lda #1', 2), ('bcc *+2', 2), ('jmp *+0', 3)][k]
            pc = 0x10000 - n + d
            if pc > 0xffff:
                return None
            return ref_test('* = $%x\n %s\n' % (pc, st), ['-c64'] if h else [])
        if fam == 'fill':
            v, n = it
            x = '* = $%x\n' % (0 if n > 60000 else 0x800)
            b = bytes((v & 255,)) * n
            if n + 4 > 65536:
                return expect([src(x + ' .fill %d,%d\n' % (v, n))], [b if n <= 65536 else None], [hash(it)], 1)
            tail = ' .word *\n'
            e = w((0 if n > 60000 else 0x800) + n)
            return expect([src(x + ' .fill %d,%d\n' % (v, n) + tail), src(x + 'vv = %d\nnn = %d\n' % (abs(v), n) + ' .fill %svv,nn\n' % ('-' if v < 0 else '') + tail), src(x + ' .fill %d+%d,(%d+1)-1\n' % (v - 1, 1, n) + tail)] if n < 65530 else [src(x + ' .fill %d,%d\n' % (v, n))],
                          [b + e] * 3 if n < 65530 else [b], [hash(it)], 4)
        if fam == 'limits':
            what, x, k = it
            if what == 'd':
                vs = [(x, 0)]
                st = '.ds %s'
            else:
                vs = [(x, n) for n in (0, 1, 2, 3, 4, 5, 255, 256)] if what == 'v' else [(v, x) for v in (0, 1, 128, 255, 256)]
                st = '.fill %s,%s'
            if k == 4 and x > 30000:
                return None
            ts = []
            for a, b in vs:
                f = lambda p, q: st % ((p, q) if what != 'd' else p)
                body = LIM[k].replace('D', f(a, b)).replace('E', f('aa', 'bb')).replace('M', f('\\1', '\\2'))
                body = body.replace('A', '%d' % a if a >= 0 else '0-%d' % -a).replace('B', '%d' % b if b >= 0 else '0-%d' % -b)
                ts.append(('* = $100\n nop\n%sll = *\n* = $20\n .word ll\n' % body))
            return both(ts)
        if fam == 'reserve':
            n, k = it
            t, b = [('* = $200\nd1 .ds %d\nd2\n* = $9000\n .word d1,d2\n', w(0x200) + w(0x200 + n)), ('* = $200\n nop\nd1 .ds %d\nd2 .ds 2\nd3\n* = $9000\n .word d1,d2,d3\n', b'\xea' + w(0x201) + w(0x201 + n) + w(0x203 + n)),
                    ('* = $200\n nop\n.ds %d\n nop\n', None if n else b'\xea\xea'), ('* = $200\n nop\n.ds %d\n* = *\n nop\n .word *\n', b'\xea\xea' + w(0x202 + n)), ('* = $200\nd1 .ds %d\nd2 = *-d1\n* = $9000\n .word d2\n', w(n)),
                    ('* = $200\n.ds %d\n* = $200\n nop\n', b'\xea')][k]
            if n + 0x210 > 0xffff:
                return None
            return expect([src(t % n)], [b], [hash(it)], 4)
        if fam == 'big':
            n, k = it
            fills = lambda v, m: ''.join(' .fill %d,%d\n' % (v, min(256, m - j)) for j in range(0, m, 256))
            if k == 0:
                return expect([src('* = 0\n' + ' .byte ' + ','.join('%d' % (j & 127) for j in range(64)) + '\n' + fills(7, n - 64), timeout=20)], [bytes(range(64)) + b'\7' * (n - 64)], [hash(it)], 2)
            if k == 1:
                return expect([src('* = 0\n' + ' nop\n' * min(n, 3000) + fills(1, n - 3000), timeout=20)], [b'\xea' * min(n, 3000) + b'\1' * max(0, n - 3000)], [hash(it)], n)
            m = n // 2
            if m > (9000 if n % 5 == 0 else 2100):
                return None
            return expect([src('* = 0\n' + ''.join(' .word %d\n' % j for j in range(m)), timeout=20)], [b''.join(w(j) for j in range(m))], [hash(it)], n)
    except refasm.Unsupported:
        return None
