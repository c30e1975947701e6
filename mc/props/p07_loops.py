"""P07 assembly time loops"""
import itertools
from .. import refasm
from ..explore import ref_test, expect, src

ID = 'P07'
KINDS = ('for', 'fordown', 'repeat', 'do', 'while', 'if')
BOUNDS = {
    'for': '.for with every start, end in -4..8 x step in {none, -3..3 without 0} x 5 bodies, value of the variable after the loop',
    'cond': '.repeat, .do, .while with every start 0..5, limit 0..6, increment 1..3, 6 relations, test position',
    'truth': 'conditions with every kind of true and false value (negative, beyond 8, 15 and 16 bits) in .if, .while, .until and .do',
    'nest': 'all nestings of depth 1..3 over 6 constructs x counts 0..3 x statements before/after (depth 4 in thorough)',
    'seq': 'all pairs and triples of loops in sequence sharing a variable, with code between',
    'deep': 'nesting depth 1..40 of each construct, loop in macro in loop',
    'count': 'iteration counts 0..300 and around powers of two to 4096, each construct; counts round 8192, 16384, 32768 and 65535 with a body that emits nothing, and nested in two',
    'body': 'every statement kind as loop body, 0..3 iterations, unrolled by the reference',
    'bounds': 'bounds given as symbols, expressions, other variables, 16-bit limits; changed inside the body',
    'endless': '11 kinds of loop that never end x 12 bodies x 4 places (quick: one of them): refused',
    'bad': 'unterminated, crossed and mismatched loops are refused, so are endless ones',
}
ASSUMES = ['loop variables are declared with .var', 'labels are not allowed in loop bodies', 'a .while loop is not used inside .do (its .while closes the .do)', 'empty loop bodies are a syntax error']


def loop(kind, v, n, body, ind=''):
    """n iterations (at least one for repeat and do) with variable v counting from 1 (for) or 0"""
    if kind == 'for':
        return '.for %s = 1 .to %d\n%s.next %s\n' % (v, n, body, v)
    if kind == 'fordown':
        return '.for %s = %d .to 1 .step -1\n%s.next %s\n' % (v, n, body, v)
    if kind == 'repeat':
        return '%s = 0\n.repeat\n%s%s = %s + 1\n.until %s >= %d\n' % (v, body, v, v, v, n)
    if kind == 'do':
        return '%s = 0\n.do\n%s%s = %s + 1\n.while %s < %d\n' % (v, body, v, v, v, n)
    if kind == 'while':
        return '%s = 0\n.while %s < %d\n%s%s = %s + 1\n.wend\n' % (v, v, n, body, v, v)
    return '.if %d\n%s.endif\n' % (n, body)


def ok(kinds):
    return not any(k == 'while' and 'do' in kinds[:j] for j, k in enumerate(kinds))


def families(tier):
    deep = tier == 'thorough'

    def for_():
        for a in range(-4, 9):
            for b in range(-4, 9):
                for st in (None, 1, 2, 3, -1, -2, -3):
                    for body in range(5):
                        yield (a, b, st, body)

    def cond():
        for k in ('repeat', 'do', 'while'):
            for a in range(6):
                for lim in range(7):
                    for inc in (1, 2, 3):
                        for op in ('<', '<=', '>', '>=', '==', '!='):
                            for pos in (0, 1):
                                yield (k, a, lim, inc, op, pos)

    def truth():
        for k in ('if', 'while', 'repeat', 'do', 'not'):
            for a in range(-3, 7):
                for m in (1, -1, 2, 255, 256, -256, 32768, 65536, -65536, 1 << 24, 0):
                    for f in range(3):
                        for v0 in (0, 1, 5):
                            yield (k, a, m, f, v0)

    def nest():
        for d in range(1, 5 if deep else 4):
            for ks in itertools.product(KINDS, repeat=d):
                if not ok(ks):
                    continue
                for ns in itertools.product((0, 1, 2, 3) if d < 4 else (0, 1, 2), repeat=d):
                    if d == 3 and not deep and 3 in ns and ns.count(3) < 2:
                        continue
                    for deco in range(3):
                        yield (ks, ns, deco)

    def seq():
        for n in (2, 3):
            for ks in itertools.product(KINDS, repeat=n):
                for ns in itertools.product((0, 1, 2), repeat=n):
                    yield (ks, ns)

    def deeps():
        for k in KINDS:
            for d in list(range(1, 41)) + [49, 50, 51, 60]:
                for n in (0, 1):
                    yield (k, d, n)
        for ks in itertools.product(KINDS, repeat=2):
            if ok(ks * 2):
                for d in range(1, 31):
                    yield (ks, d, 1)

    def count():
        for k in KINDS[:5]:
            for n in list(range(0, 301)) + [511, 512, 513, 1023, 1024, 1025, 2048, 4096]:
                yield (k, n)
            for n in (8191, 8192, 8193, 16384, 32766, 32767, 32768, 32769, 65533, 65534):
                yield (k, n, 0)
                yield (k, n, 1)

    def body():
        for b in range(len(BODY)):
            for k in KINDS:
                for n in range(0, 4):
                    for mac in (0, 1):
                        yield (b, k, n, mac)
        if True:
            for b, c in itertools.permutations(range(len(BODY)), 2):
                yield (b, c, 'pair', 2)

    def bounds():
        for a in BOUNDEXP:
            for b in BOUNDEXP:
                for st in ('', '1', '2', '-1', 'k2', 'k2-3', '-k2', '1+1'):
                    yield (a, b, st)
        for v in (0, 1, 127, 128, 254, 255, 256, 32766, 32767, 65533, 65534):
            for n in range(0, 4):
                for st in (1, 2, -1):
                    yield (v, n, st, 0)

    def endless():
        for h, b in itertools.product(range(len(HEADS)), range(len(IDLE))):
            for w in range(4) if deep else [(h + b) % 4]:
                yield (h, b, w)

    def bad():
        for k in range(len(BAD)):
            for w in range(4):
                yield (k, w)
    return [('for', for_()), ('cond', cond()), ('truth', truth()), ('nest', nest()), ('seq', seq()), ('deep', deeps()), ('count', count()), ('body', body()), ('bounds', bounds()), ('endless', endless()), ('bad', bad())]


BOUNDEXP = ('k1', 'k2', 'k2*2', 'k1+k2', 'w', 'w+1', '*-$0fff', '<$1203', '3', '(k2)', '0-k1', 'k9', '7&6')
BODY = [' nop\n', ' .byte 1,v\n', ' .word *\n', ' lda v\n', ' lda #v\n', ' sta $fe+v\n', ' .fill v,v\n', ' .str "ab"\n', '.if v == 2\n nop\n.else\n clc\n.endif\n', ' bne *+2\n', ' jmp ll\n', ' lda ll,x\n', ' lda fw\n', ' beq ll\n', 'w = w + v\n', 'w = v\n .byte w\n',
        ' mm\n', ' m2 v\n', ' m2 v+w\n', '.section ss\n nop\n.endsection\n', ' .byte *-$1000\n', ' ; nothing\n nop\n', '* = *\n nop\n', ' .ds 0\n nop\n', '.65c02 on\n stz 5\n', ' bne ll\n bne fw\n', 'q = 5\n .byte q\n', ' .byte v\nv = v + 1\n', ' .word w,fw\nw = w+1\n', ' .print v\n nop\n']
BAD = ['.for v = 1 .to 3\n nop\n', ' nop\n.next v\n', '.for v = 1 .to 3\n nop\n.next w\n', '.repeat\n nop\n', ' nop\n.until 1\n', '.do\n nop\n', '.while 0\n nop\n', '.wend\n', '.for v = 1 .to 3\n.repeat\n nop\n.next v\n.until 1\n', '.repeat\n.for v = 1 .to 3\n nop\n.until 1\n.next v\n', '.for v = 1\n nop\n.next v\n',
       '.for v .to 3\n nop\n.next v\n', '.for = 1 .to 3\n nop\n.next\n', '.for v = 1 .to\n nop\n.next v\n', '.for v = 1 .to 3 .step\n nop\n.next v\n', '.for v = 1 .to 3 .step 0\n nop\n.next v\n', '.repeat\n nop\n.until 0\n', '.do\n nop\n.while 1\n', '.while 1\n nop\n.wend\n', '.if 1\n.repeat\n nop\n.endif\n.until 1\n',
       '.for v = 1 .to 3\n.if 1\n nop\n.next v\n.endif\n', '.until\n', '.next\n', '.macro mx\n.for v = 1 .to 3\n nop\n.endm\n mx\n', '.for v = 1 .to undefd\n nop\n.next v\n', '.for v = 1 .to 3\n lda undefd\n.next v\n', '.for v = 1 .to 300\n .byte v\n.next v\n', '.while undefd\n nop\n.wend\n lda undefd\n']


# heads and ends of loops that do not end, bodies that do not end them
HEADS = [('.while 1\n', '.wend\n'), ('.repeat\n', '.until 0\n'), ('.do\n', '.while 1\n'), ('.while v < 3\n', '.wend\n'), ('.repeat\n', '.until v > 2\n'), ('.do\n', '.while v < 3\n'), ('.for v = 1 .to 3\n', 'v = 1\n.next v\n'), ('.for v = 3 .to 1 .step -1\n', 'v = 3\n.next v\n'), ('.while k1 = 1\n'.replace(' = ', ' == '), '.wend\n'), ('.for v = 1 .to 2\n.while 1\n', '.wend\n.next v\n'), ('.while 1\n.repeat\n', '.until 0\n.wend\n')]
IDLE = ['w = w + 1\n', 'w = 5\n', '.if 0\n nop\n.endif\n', '.print w\n', ' nop\n', ' nop\n* = * - 1\n', '.if w < 5\nw = w + 1\n nop\n.endif\n', '.for w = 1 .to 2\nk3 = 4\n.next w\n', '.fill 0,0\n', 'w = 0 - w\n', '.ds 0\nw = w + 1\n', '.if w == 3\nw = 0\n.else\nw = w + 1\n.endif\n']


def test(fam, it):
    H = '.var v,w\nk1 = 1\nk2 = 2\n* = $1000\n'
    try:
        if fam == 'for':
            a, b, st, body = it
            bd = [' .byte v+10\n', ' nop\n', ' .word *,v+8\n', '.if v > 2\n .byte v+20\n.else\n nop\n.endif\n', ' .byte v+10\nw = w+v\n'][body]
            return ref_test(H + '.for v = %s .to %s%s\n%s.next v\n .word v+100,w+200\n' % (a if a >= 0 else '0-%d' % -a, b if b >= 0 else '0-%d' % -b, '' if st is None else ' .step %d' % st, bd))
        if fam == 'cond':
            k, a, lim, inc, op, pos = it
            b = (' .byte v\n' if pos == 0 else '') + 'v = v + %d\n' % inc + (' .byte v\n' if pos else '')
            c = 'v %s %d' % (op, lim)
            # an endless loop is refused: covered by 'bad'; here only terminating ones
            v, n = a, 0
            f = {'<': lambda x: x < lim, '<=': lambda x: x <= lim, '>': lambda x: x > lim, '>=': lambda x: x >= lim, '==': lambda x: x == lim, '!=': lambda x: x != lim}[op]
            if k == 'while' or k == 'do':
                go = f
            else:
                go = lambda x: not f(x)
            first = k != 'while'
            while (first or go(v)) and n < 400:
                first = False
                v += inc
                n += 1
            if n >= 400:
                return None
            t = {'repeat': '.repeat\n%s.until %s\n', 'do': '.do\n%s.while %s\n', 'while': None}[k]
            t = t % (b, c) if t else '.while %s\n%s.wend\n' % (c, b)
            return ref_test(H + 'v = %d\n' % a + t + ' .word v\n')
        if fam == 'truth':
            k, a, m, f, v0 = it
            n = lambda x: '(0-%d)' % -x if x < 0 else str(x)
            c = ['(v-%s)*%s', '(%s-v)*%s', '(v+%s)*%s'][f] % (n(a), n(m))
            g = [lambda v: (v - a) * m, lambda v: (a - v) * m, lambda v: (v + a) * m][f]
            if max(abs(g(v)) for v in range(12)) >= 1 << 31:
                return None
            if k in ('if', 'not'):
                c = 'not (%s)' % c if k == 'not' else c
                return ref_test(H + 'v = %d\n.if %s\n .byte 1\n.else\n .byte 2\n.endif\n .byte v\n' % (v0, c))
            go = (lambda v: g(v) == 0) if k == 'repeat' else (lambda v: g(v) != 0)
            v, j, first = v0, 0, k != 'while'
            while (first or go(v)) and j < 30:
                first = False
                v += 1
                j += 1
            if j >= 30:
                return None
            t = {'repeat': '.repeat\n .byte v\nv = v+1\n.until %s\n', 'do': '.do\n .byte v\nv = v+1\n.while %s\n', 'while': '.while %s\n .byte v\nv = v+1\n.wend\n'}[k] % c
            return ref_test(H + 'v = %d\n' % v0 + t + ' .byte v+$80\n')
        if fam == 'nest':
            ks, ns, deco = it
            vs = 'abcd'
            t = ''.join('.var v%s\n' % c for c in vs) + '* = $1000\n'
            inner = ' .byte ' + ','.join('v%s' % vs[j] for j in range(len(ks))) + '\n'
            for j in range(len(ks) - 1, -1, -1):
                if deco == 1:
                    inner = ' .byte %d\n' % (0x80 + j) + inner
                elif deco == 2:
                    inner = inner + ' .byte %d\n' % (0xa0 + j)
                inner = loop(ks[j], 'v' + vs[j], ns[j], inner)
            return ref_test(t + inner + ' .byte $77,' + ','.join('v' + c for c in vs) + '\n')
        if fam == 'seq':
            ks, ns = it
            t = '.var vv\n* = $1000\n'
            for j, (k, n) in enumerate(zip(ks, ns)):
                t += loop(k, 'vv', n, ' .byte vv+%d\n' % (16 * j)) + ' .byte vv+$80\n'
            return ref_test(t)
        if fam == 'deep':
            k, d, n = it
            if k in KINDS:
                ks = [k] * d
            else:
                ks = (list(k) * d)[:d + 1]
            if not ok(ks):
                return None
            t = ''.join('.var d%d\n' % j for j in range(len(ks)))
            b = ' .word *\n'
            for j in range(len(ks) - 1, -1, -1):
                b = loop(ks[j], 'd%d' % j, n, b)
            return ref_test(t + '* = $1000\n' + b + ' nop\n')
        if fam == 'count':
            k, n = it[:2]
            if len(it) == 3:
                if it[2]:
                    t = '.for q = 1 .to 2\n' + loop(k, 'v', n, 'u = u + 1\n') + '.next q\n'
                else:
                    t = loop(k, 'v', n, 'u = u + 1\n')
                c = n * (1 + it[2])
                return expect([src('.var v,u,q\n* = $1000\n' + t + ' .word u&$ffff,u>>16\n', timeout=30)], [bytes((c & 255, c >> 8 & 255, c >> 16 & 255, 0))], [hash(it)], n)
            m = max(n, 1) if k in ('repeat', 'do') else n
            vs = list(range(1, n + 1)) if k == 'for' else list(range(n, 0, -1)) if k == 'fordown' else list(range(m))
            after = {'for': n + 1, 'fordown': 0}.get(k, m)
            w = lambda x: bytes((x & 255, x >> 8 & 255))
            return expect([src('.var v\n* = $1000\n' + loop(k, 'v', n, ' .byte v&$ff\n') + 'e1 .word v,e1\n')], [bytes(x & 255 for x in vs) + w(after) + w(0x1000 + len(vs))], [hash((k, n))], len(vs) * 2 + 3)
        if fam == 'body':
            pre = '.var v,w\n.macro mm\n nop\n.endm\n.macro m2\n .byte \\1\n.endm\n* = $1000\nll nop\n'
            post = 'fw nop\n .byte v,w\n'
            if it[2] == 'pair':
                b, c, _, n = it
                return ref_test(pre + loop('for', 'v', n, BODY[b] + BODY[c]) + post)
            b, k, n, mac = it
            bd = loop(k, 'v', n, BODY[b])
            if mac:
                if 'mm' in bd or 'm2' in bd or '.section' in bd:
                    return None
                return ref_test(pre.replace('* = $1000', '.macro lm\n%s.endm\n* = $1000' % bd) + ' lm\n lm\n' + post)
            return ref_test(pre + bd + post)
        if fam == 'bounds':
            if len(it) == 4:
                v, n, st, _ = it
                a, b = (v, v + n) if st > 0 else (v + n, v)
                return ref_test('.var v\n* = $1000\n.for v = %d .to %d .step %d\n .word v&$ffff\n.next v\n .word v&$ffff\n' % (a, b, st))
            a, b, st = it
            return ref_test('.var v,w\nk1 = 1\nk2 = 2\nk9 = 9\nw = 4\n* = $1000\n.for v = %s .to %s%s\n .byte v+3\nw = w+1\n.next v\n .byte v+10\n' % (a, b, ' .step ' + st if st else ''))
        if fam == 'endless':
            h, b, wr = it
            t = HEADS[h][0] + IDLE[b] + HEADS[h][1]
            if wr == 1:
                t = '.macro mm\n' + t + '.endm\n mm\n'
            elif wr == 2:
                t = ' .byte 1\n' + t + 'l nop\n jmp l\n'
            elif wr == 3:
                t = '.if w == 0\n' + t + '.endif\n'
            return expect([src('.var v = 1\n.var w = 0\nk1 = 1\n* = $1000\n' + t, timeout=12)], [None], [hash(it)], 3)
        if fam == 'bad':
            k, wr = it
            t = BAD[k]
            if wr == 1:
                t = '.if 1\n' + t + '.endif\n'
            elif wr == 2:
                t = ' .byte 1\n' + t + ' .byte 2\n'
            elif wr == 3:
                t = '.for w = 1 .to 2\n nop\n' + t + '.next w\n'
                if '.macro' in t:
                    return None
            if wr and k == 26:
                pass
            return expect([src('.var v,w\n* = $1000\n' + t, timeout=10)], [None], [hash(it)], 3)
    except refasm.Unsupported:
        return None
