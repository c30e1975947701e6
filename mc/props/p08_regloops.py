"""P08 register loops: the emitted code is run on a 6502 simulator"""
import itertools
from ..explore import Test, src, expect
from ..sim6502 import run, Stuck, PORT

ID = 'P08'
BOUNDS = {
    'range': 'every pair of start and end values of a boundary set (thorough: all 65536) x register x direction, except .downto 0, entered with carry clear and set',
    'downto0': '.downto 0 for selected starts',
    'body': '14 loop bodies (flag and accumulator clobbering, calls, branches, labels) x ranges x register x direction',
    'far': 'bodies of every length 110..140 and selected larger ones, so that the loop branch gets out of reach',
    'nest': 'loops over one register inside loops over the other, both orders, all directions, ranges of a small set; with bodies of every length near the reach of the outer branch',
    'ctx': 'register loops in macros, .if, .for, .repeat, sections; bounds given as symbols, parameters, variables and expressions; several loops in sequence',
    'bad': 'bounds outside of 0..255, nesting of the same register, missing and mismatched .next are refused',
}
ASSUMES = ['the loop body does not change the loop register', 'the code is executed on a plain 6502 with decimal mode off']

E = (0, 1, 2, 3, 7, 8, 15, 16, 63, 64, 100, 126, 127, 128, 129, 130, 191, 192, 200, 250, 251, 252, 253, 254, 255)


def want(a, b, d):
    return list(range(a, b + 1)) if d == 'to' else list(range(a, b - 1, -1))


def prog(text, pre=''):
    return pre + '* = $1000\n .word e\n' + text + 'e brk\n'


def simtest(text, exp, key, pre='', files=None, steps=4, timeout=6):
    """exp: list of (port offset, value) writes"""
    j = src(prog(text, pre), timeout=timeout)

    def judge(rs):
        r = rs[0]
        if r.kind or r.code:
            return ['rejected: ' + r.status()]
        b = r.bin or b''
        if len(b) < 3:
            return ['no output']
        e = b[0] | b[1] << 8
        if e != 0x1000 + len(b) - 1:
            return ['the label after the loop is $%04x, the code ends at $%04x' % (e, 0x1000 + len(b) - 1)]
        for c in (0, 1):
            for x, y in ((0, 0), (0x80, 0x7f), (255, 1)):
                try:
                    t, _, _ = run(b, 0x1000, 0x1002, e, 0x55, x, y, c)
                except Stuck as s:
                    return ['entered with carry %d: %s' % (c, s)]
                if t != exp:
                    k = next((i for i in range(min(len(t), len(exp))) if t[i] != exp[i]), min(len(t), len(exp)))
                    return ['entered with carry %d: the body ran %d times, expected %d; first difference at %d: %s, expected %s' % (c, len(t), len(exp), k, t[k:k + 2], exp[k:k + 2])]
                if c == 0 and len(exp) > 300:
                    break
        return []
    return Test([j], judge, [hash(key)], steps + len(exp))


def families(tier):
    deep = tier == 'thorough'

    def rng():
        for r in 'xy':
            for d in ('to', 'downto'):
                for a in range(256) if deep else E:
                    for b in range(256) if deep else E:
                        if d == 'downto' and b == 0 and a:
                            continue
                        yield (r, d, a, b)
        if not deep:
            for r in 'xy':
                for a in range(256):
                    for d, b in (('to', 255), ('downto', 1), ('to', a), ('downto', a), ('to', min(255, a + 1)), ('downto', max(1, a - 1)), ('to', 127), ('to', 128), ('to', 254), ('downto', 127), ('downto', 128)):
                        if d == 'downto' and b == 0 and a:
                            continue
                        yield (r, d, a, b)

    def down0():
        for r in 'xy':
            for a in (1, 2, 127, 128, 255):
                yield (r, a)

    def body():
        for k in range(len(BODY)):
            for r in 'xy':
                for d, a, b in (('to', 0, 0), ('to', 0, 1), ('to', 0, 5), ('to', 126, 129), ('to', 250, 255), ('to', 0, 255), ('to', 254, 255), ('downto', 5, 1), ('downto', 255, 250), ('downto', 130, 126), ('downto', 255, 1), ('downto', 2, 2), ('to', 5, 4), ('downto', 4, 5)):
                    yield (k, r, d, a, b)

    def far():
        for n in list(range(110, 141)) + [150, 200, 252, 253, 254, 255, 256, 257, 300, 1000]:
            for r in 'xy':
                for d, a, b in (('to', 3, 6), ('to', 254, 255), ('to', 1, 255), ('downto', 6, 3), ('downto', 2, 1), ('to', 9, 9)):
                    yield (n, r, d, a, b)

    def nest():
        S = (('to', 0, 0), ('to', 0, 2), ('to', 254, 255), ('to', 127, 129), ('downto', 3, 1), ('downto', 255, 254), ('downto', 7, 7), ('to', 3, 2))
        for r in 'xy':
            for o in S:
                for i in S:
                    for deco in range(4):
                        yield (r, o, i, deco, 0)
                    for n in range(104, 130) if deep else range(108, 122):
                        yield (r, o, i, 0, n)

    def ctx():
        for k in range(len(CTX)):
            for r in 'xy':
                for d, a, b in (('to', 0, 3), ('to', 253, 255), ('to', 2, 2), ('downto', 4, 2), ('downto', 255, 253), ('to', 3, 1), ('downto', 1, 3)):
                    yield (k, r, d, a, b)
        for n in range(1, 13):
            for r in 'xy':
                yield ('seq', n, r)
        for ks in itertools.product(('xt', 'xd', 'yt', 'yd', 'x1', 'y0'), repeat=3):
            yield ('three', ks)

    def bad():
        for k in range(len(BAD)):
            for r in 'xy':
                for w in range(4):
                    yield (k, r, w)
        for r in 'xy':
            for d in ('to', 'downto'):
                for a in (256, 257, 300, 511, 512, 65535):
                    for b in (0, 1, 255):
                        yield ('rng', r, d, a, b)
                        yield ('rng', r, d, b, a)
    return [('range', rng()), ('downto0', down0()), ('body', body()), ('far', far()), ('nest', nest()), ('ctx', ctx()), ('bad', bad())]


# %r loop register, %p port; every body stores the loop register to the port once
BODY = [' st%r %p\n', ' sec\n st%r %p\n', ' clc\n st%r %p\n', ' st%r %p\n sec\n', ' st%r %p\n clc\n', ' t%ra\n sta %p\n lda #0\n', ' st%r %p\n lda #$80\n cmp #$80\n', ' jsr sub\n', ' bne *+2\n st%r %p\n',
        ' bcs *+2\n st%r %p\n', ' jmp *+4\n nop\n st%r %p\n', ' lda #$ff\n cmp #1\n st%r %p\n', ' st%r %p\n cp%r #0\n', '.if 1\n st%r %p\n.endif\n']
CTX = ['.macro m\n@L\n.endm\n m\n', '.macro m\n.for .reg%r = \\1 .%d \\2\n st%r %p\n.next %r\n.endm\n m %a,%b\n', '.if 1\n@L\n.endif\n', '.section s\n@L\n.endsection\n', '.for v = 1 .to 1\n@L\n.next v\n',
       'lo = %a\nhi = %b\n.for .reg%r = lo .%d hi\n st%r %p\n.next %r\n', 'v = %a\nw = %b\n.for .reg%r = v .%d w\n st%r %p\n.next %r\n', '.for .reg%r = %a+0 .%d %b*1\n st%r %p\n.next %r\n', '.for .REG%R = %a .%D %b\n st%r %p\n.NEXT %R\n',
       '.for .reg%r=%a .%d %b ; comment\n st%r %p ; x\n.next %r ; y\n', '.for .reg%r = hi1 .%d lo1\n st%r %p\n.next %r\nhi1 = %a\nlo1 = %b\n', '.for .reg%r = <($1200+%a) .%d >(%b*256+5)\n st%r %p\n.next %r\n',
       ' jsr s2\n jmp over\ns2\n@L\n rts\nover\n', '.macro m\n@L\n.endm\n.macro m2\n m\n.endm\n m2\n', ' bne fwd\nfwd\n@L\n', '.repeat\nv = v + 1\n.until v >= 3\n@L\n', '.ifdef e\n@L\n.endif\n']
BAD = ['.for .reg%r = 0 .to 3\n.for .reg%r = 0 .to 3\n nop\n.next %r\n.next %r\n', '.for .reg%r = 0 .to 3\n nop\n', ' nop\n.next %r\n', '.for .reg%r = 0 .to 3\n nop\n.next %o\n', '.for .reg%r = 0 .to\n nop\n.next %r\n', '.for .reg%r 0 .to 3\n nop\n.next %r\n',
       '.for .reg%r = 0\n nop\n.next %r\n', '.for .reg%r = 0 .to 3\n.for .reg%o = 0 .to 3\n nop\n.next %r\n.next %o\n', '.for .reg%r = 0 .to 3\n.for .reg%o = 0 .to 3\n.for .reg%r = 0 .to 3\n nop\n.next %r\n.next %o\n.next %r\n', '.for .reg%r = 0-1 .to 3\n nop\n.next %r\n',
       '.for .reg%r = 0 .to 0-1\n nop\n.next %r\n', '.for .reg%r = undefd .to 3\n lda undefd\n.next %r\n', '.for .rega = 0 .to 3\n nop\n.next a\n', '.for .reg%r = 0 .downto\n nop\n.next %r\n']


def fill(t, r, d='to', a=0, b=0, p=PORT):
    t = t.replace('@L\n', '.for .reg%r = %a .%d %b\n st%r %p\n.next %r\n')
    for k, v in (('%r', r), ('%R', r.upper()), ('%d', d), ('%D', d.upper()), ('%a', str(a)), ('%b', str(b)), ('%p', '$%04x' % p), ('%o', 'y' if r == 'x' else 'x')):
        t = t.replace(k, v)
    return t


def loop(r, d, a, b, body):
    return fill('.for .reg%r = %a .%d %b\n', r, d, a, b) + body + '.next %s\n' % r


def test(fam, it):
    if fam == 'range' or fam == 'downto0':
        r, d, a, b = it if fam == 'range' else (it[0], 'downto', it[1], 0)
        return simtest(loop(r, d, a, b, fill(' st%r %p\n', r)), [(0, v) for v in want(a, b, d)], it)
    if fam == 'body':
        k, r, d, a, b = it
        t = fill(BODY[k], r)
        pre = ''
        tail = ''
        if 'sub' in t:
            tail = ' jmp e\n' + fill('sub st%r %p\n rts\n', r)
            return simtest(loop(r, d, a, b, t) + tail, [(0, v) for v in want(a, b, d)], it)
        return simtest(loop(r, d, a, b, t) + tail, [(0, v) for v in want(a, b, d)], it, pre)
    if fam == 'far':
        n, r, d, a, b = it
        return simtest(loop(r, d, a, b, fill(' st%r %p\n', r) + ' nop\n' * (n - 3)) + ' nop\n', [(0, v) for v in want(a, b, d)], it)
    if fam == 'nest':
        r, o, i, deco, n = it
        q = 'y' if r == 'x' else 'x'
        inner = loop(q, i[0], i[1], i[2], fill(' st%r $d001\n', q))
        st = fill(' st%r $d000\n', r)
        pad = ' nop\n' * n
        body = {0: st + inner + pad, 1: inner + st, 2: st + inner + st, 3: inner + inner + st}[deco]
        exp = []
        for v in want(o[1], o[2], o[0]):
            inn = [(1, w) for w in want(i[1], i[2], i[0])]
            me = [(0, v)]
            exp += {0: me + inn, 1: inn + me, 2: me + inn + me, 3: inn + inn + me}[deco]
        return simtest(loop(r, o[0], o[1], o[2], body), exp, it)
    if fam == 'ctx':
        if it[0] == 'seq':
            _, n, r = it
            t, exp = '', []
            for j in range(n):
                d, a, b = (('to', j, 2 * j), ('downto', 2 * j + 1, j + 1), ('to', 255 - j, 255))[j % 3]
                q = r if j % 2 else 'xy'['yx'.index(r)]
                t += loop(q, d, a, b, fill(' st%r %p\n', q, p=PORT + j))
                exp += [(j, v) for v in want(a, b, d)]
            return simtest(t, exp, it)
        if it[0] == 'three':
            t, exp = '', []
            for j, k in enumerate(it[1]):
                d, a, b = {'t': ('to', 1, 3), 'd': ('downto', 3, 1), '1': ('to', 6, 6), '0': ('to', 6, 5)}[k[1]]
                t += loop(k[0], d, a, b, fill(' st%r %p\n', k[0], p=PORT + j))
                exp += [(j, v) for v in want(a, b, d)]
            return simtest(t, exp, it)
        k, r, d, a, b = it
        t = fill(CTX[k], r, d, a, b)
        return simtest(t, [(0, v) for v in want(a, b, d)], it, '.var v,w\n')
    if fam == 'bad':
        if it[0] == 'rng':
            _, r, d, a, b = it
            return expect([src('* = $1000\n' + loop(r, d, a, b, ' nop\n'))], [None], [hash(it)], 3)
        k, r, w = it
        t = fill(BAD[k], r)
        if w == 1:
            t = '.if 1\n' + t + '.endif\n'
        elif w == 2:
            t = ' nop\n' + t + ' clc\n'
        elif w == 3:
            t = '.for .reg%s = 1 .to 1\n nop\n.next %s\n' % (r, r) + t
        return expect([src('* = $1000\n' + t)], [None], [hash(it)], 3)
