"""P09 macros"""
import itertools
from .. import refasm
from ..explore import ref_test, expect, src
from .p03_symbols import opnames

ID = 'P09'
BOUNDS = {
    'restore': 'nested calls with all 4-tuples of argument values of {0, 1, 255, 256, 32768, 65535} x 4 ways to hand them on, every argument used before and after the inner call',
    'args': 'calls nested 2..8 deep with 0..14 and 1..14 arguments by turns, all used before and behind the inner call; 0..14 arguments, 15..40 and numbers round 64, 100, 128 and 256, each used once in order, reversed and repeated',
    'perm': 'chains of 1..5 macros, every permutation (and repetition) of three parameters between each pair of levels, parameters used before and after the inner call',
    'argexpr': '30 argument expressions x 16 uses of the parameter x defined before or after',
    'size': 'one macro called 1..4 times with all sequences of 7 operand values, for 9 instruction forms and data: each copy has its own size',
    'local': 'all sequences of length <= 5 over local label definitions, references and macro calls with the same local names, inside and outside of macros',
    'nestlocal': 'two levels of macros, every placement of a local label and its references before and after the inner call',
    'ctl': 'conditionals and loops controlled by parameters, macro calls inside of them, recursion depth by distinct macros 1..12',
    'def': 'placement of the definition: before, in .if taken and not, in a section, in an included file, redefinition, unused, unknown macro',
    'anyname': 'macros of every name of 2 and 3 letters, with a parameter and a local label used before and after it, each called twice',
    'scale': '1..300 and boundary counts of calls and of macros',
    'bad': 'strings, ranges, unterminated and nested definitions are refused',
}
ASSUMES = ['a parameter without an argument in the call is not specified', 'a macro defined inside of a section is used inside of it', 'macro definitions inside of macros and recursive macros are not specified', 'a macro is defined before its calls', 'redefining a macro is not specified beyond: it is refused, or the latest definition above the call counts']
USE = [' .word %s\n', ' .byte <%s\n', ' lda #<%s\n', ' lda %s\n', ' sta %s,x\n', ' jmp %s\n', ' .byte %s-%s\n', ' ldx %s,y\n', '.if %s\n .byte 1\n.else\n .byte 2\n.endif\n', ' .fill 7,%s&7\n', ' .str <%s\n', 'q = %s+1\n .word q\n',
       ' .word %s*2&$ffff,%s+1&$ffff\n', ' lda (%s&$ff),y\n', ' .ds %s&3\n* = *\n .word *\n', ' bne *+2+(%s&15)\n .fill 1,20\n']
ARGS = ['0', '1', '5', '255', '256', '$1234', '65535', 'k', 'k+1', 'k*3', 'kk', 'ff', 'ff+1', 'gg', 'll', 'fl', '*', '*+3', '*-*', '<kk', '>kk', '~k', 'not k', 'v', 'v+k', '(k)', '(k+1)*2', 'k==5', 'sec.a', 'fl-ll']


def families(tier):
    deep = tier == 'thorough'

    def args():
        for n in list(range(0, 41)) + [62, 63, 64, 65, 66, 98, 99, 100, 101, 127, 128, 129, 255, 256, 257]:
            for how in range(4):
                for calls in (1, 2, 3):
                    yield (n, how, calls)
        for n in range(1, 13):
            for m in range(1, 13):
                yield (n, m, 'two', 0)
        for d in range(2, 9):
            for n in range(1, 15):
                for m in range(0, 15):
                    yield ('deep', d, n, m)

    def restore():
        V = (0, 1, 255, 256, 0x8000, 65535)
        for q in itertools.product(V, repeat=4):
            for how in range(4):
                yield (q, how)

    def perm():
        P = list(itertools.product((1, 2, 3), repeat=3))
        for p in P:
            for w in range(3):
                yield ([p], w)
        for p, q in itertools.product(P, repeat=2):
            yield ([p, q], (P.index(p) + P.index(q)) % 3)
        P3 = list(itertools.permutations((1, 2, 3)))
        for d in (3, 4, 5) if deep else (3, 4):
            for ps in itertools.product(P3, repeat=d):
                yield (list(ps), 1)

    def argexpr():
        for a in range(len(ARGS)):
            for u in range(len(USE)):
                for pos in range(3):
                    yield (a, u, pos)
        for a, b in itertools.product(range(len(ARGS)), repeat=2):
            yield (a, b, 'pair')

    def size():
        V = ('5', '255', '256', '$1234', 'z', 'fz', 'fa')
        for op in range(10):
            for n in range(1, 5):
                for vs in itertools.product(V, repeat=n):
                    if n == 4 and not deep and op not in (0, 6):
                        continue
                    yield (op, vs)

    def local():
        for n in range(1, 6):
            for s in itertools.product('dbfmnlg', repeat=n):
                yield ''.join(s)

    def nestlocal():
        for o in itertools.product(('', 'd', 'b', 'f', 'c'), repeat=5):
            if o.count('d') > 1 or o.count('c') > 2:
                continue
            for i in ('d', 'db', 'fd', 'fdb', ''):
                yield (o, i)

    def ctl():
        for k in range(len(CTL)):
            for a in range(0, 5):
                for b in range(0, 4):
                    yield (k, a, b)
        for d in range(1, 41):
            for w in range(3):
                yield ('depth', d, w)

    def def_():
        for k in range(len(DEF)):
            yield k

    def anyname():
        names = [''.join(t) for n in (2, 3) for t in itertools.product('abcdefghijklmnopqrstuvwxyz', repeat=n) if ''.join(t) not in opnames() and ''.join(t) not in ('not', 'equ', 'on', 'off')]
        for i in range(0, len(names), 100):
            yield names[i:i + 100]

    def scale():
        for n in list(range(1, 301)) + [511, 512, 513, 919, 920, 921, 922, 1000, 1841, 2000, 4000]:
            for k in range(4):
                yield (n, k)

    def bad():
        for k in range(len(BAD)):
            for w in range(3):
                yield (k, w)
    return [('args', args()), ('restore', restore()), ('perm', perm()), ('argexpr', argexpr()), ('size', size()), ('local', local()), ('nestlocal', nestlocal()), ('ctl', ctl()), ('def', def_()), ('anyname', anyname()), ('scale', scale()), ('bad', bad())]


CTL = ['.macro m\n.if \\1 > 1\n .byte 1\n.else\n .byte 2\n.endif\n .byte \\2\n.endm\n m A,B\n m B,A\n',
       '.macro m\n.for v = 1 .to \\1\n .byte v,\\2\n.next v\n.endm\n m A,B\n m B,A\n',
       '.macro m\n.for v = \\1 .to \\2\n .byte v\n.next v\n.endm\n m A,B\n m B,A\n',
       '.macro m\n .byte \\1\n.endm\n.for v = 1 .to A\n m v+B\n.next v\n m 9\n',
       '.macro m\n .byte \\1\n.endm\nv = 0\n.repeat\n m v+B\nv = v+1\n.until v >= A\n',
       '.macro i\n .byte \\1,\\2\n.endm\n.macro m\n.for v = 1 .to \\1\n i v,\\2\n.next v\n.endm\n m A,B\n m B,A\n',
       '.macro m\n.if \\1\n.if \\2\n .byte 3\n.else\n .byte 2\n.endif\n.else\n .byte 1\n.endif\n.endm\n m A,B\n m A,0\n m 0,B\n',
       '.macro m\nv = \\1\n.repeat\n .byte v,\\2\nv = v-1\n.until v < 1\n.endm\n m A,B\n m B,A\n',
       '.macro m\n .fill \\1,\\2\n .word *\n.endm\n m A,B\n m B,A\n',
       '.macro m\n* = * + \\1\n .byte \\2\n.endm\n m A,B\n m B,A\n',
       '.macro m\n bne @e\n .fill \\1,\\2\n@e\n nop\n.endm\n m A,B\n m B,A\n m A,126\n m A,128\n m A,B\n',
       '.macro m\nv = v + \\1\n .byte v\n.endm\nv = 0\n m A\n m B\n m A+B\n',
       '.macro m\n.if \\1\n n \\1-1\n.endif\n.endm\n.macro n\n .byte \\1\n.endm\n n A\n',
       '.if A\n.macro m\n .byte \\1\n.endm\n.else\n.macro m\n .byte \\1+8\n.endm\n.endif\n m B\n',
       '.macro m\n.section s\n .byte \\1\n.endsection\n .byte \\2\n.endm\n m A,B\n m B,A\n',
       '.macro m\n.while v < \\1\n .byte v\nv = v+1\n.wend\n.endm\nv = 0\n m A\n m A+B\n']
M1 = '.macro m\n .byte \\1\n.endm\n'
DEF = [('* = $1000\n' + M1 + ' m 1\n',), ('* = $1000\n nop\n' + M1 + ' m 1\n m 2\n',), ('* = $1000\n.if 1\n' + M1 + '.endif\n m 1\n',), ('* = $1000\n.section s\n' + M1 + ' m 1\n m 2\n.endsection\n',),
       (M1 + '* = $1000\n.section s\n m 1\n.endsection\n m 2\n',), ('* = $1000\n.inc "i.a"\n m 1\n', {'i.a': M1}), (M1 + '* = $1000\n.inc "i.a"\n m 1\n', {'i.a': ' m 7\n'}), ('* = $1000\n' + M1 + ' nop\n',),
       ('* = $1000\n' + M1 + ' M 1\n',), ('* = $1000\n' + M1.upper() + ' m 1\n',), ('* = $1000\n' + M1.replace('.endm', '.endmacro') + ' m 1\n',), ('* = $1000\n.macro mac1\n nop\n.endm\n.macro mac12\n clc\n.endm\n.macro mac\n sec\n.endm\n mac1\n mac12\n mac\n mac12\n',),
       ('* = $1000\n' + M1 + ' m 1\nlab nop\n m lab&15\n',), ('* = $1000\n' + M1 + 'lab m 1\n .word lab\n',), ('* = $1000\n' + M1 + 'lab: m 1\n .word lab\n',), ('* = $1000\n' + M1 + 'lab\n m 1\n .word lab\n',),
       ('* = $1000\n.macro m ; c\n nop ; c\n.endm ; c\n m ; c\n',), ('* = $1000\n.macro m\n\n nop\n\n.endm\n m\n',), ('* = $1000\n.macro m\nx1 = \\1\n .byte x1\n.endm\n m 3\n m 3\n',), ('* = $1000\n.macro m\ng1\n nop\n.endm\n m\n .word g1\n',),
       ('* = $1000\n.macro m\n nop\n.endm\n m\n.macro n\n clc\n.endm\n n\n m\n',), ('* = $1000\n.macro m\n .word fw\n.endm\n m\nfw nop\n m\n',), ('* = $1000\n.macro m\n lda fw\n.endm\n m\nfw = 5\n m\n',), ('* = $1000\n.macro m\n lda \\1\n.endm\n m fw\nfw = 5\n m fw\n m $1234\n',),
       ('* = $1000\n.macro m\n.65c02 on\n stz 5\n.endm\n m\n phx\n',), ('* = $1000\n.macro m\n nop\n.endm\n.macro m\n clc\n.endm\n m\n', 'redef'), ('* = $1000\n.macro m\n nop\n.endm\n m\n.macro m\n clc\n.endm\n m\n', 'redef2'),
       ('* = $1000\n.macro m\n .byte \\1\n.end\n.endm\n m 1\n m 2\n', ), ('* = $1000\n.macro m\n.inc "i.a"\n.endm\n m\n', 'skip'), ('* = $1000\n.macro m\n .load "b"\n.endm\n m\n m\n', {'b': 'xyz'})]
BAD = [M1 + ' m "ab"\n', M1 + ' m 65536\n', M1 + ' m 0-1\n', M1 + ' m undefd\n', M1.replace('.endm\n', '') + ' m 1\n', '.macro\n nop\n.endm\n', '.endm\n', ' nop\n.endmacro\n',       ' .byte \\1\n', M1 + ' m 1\n .byte \\1\n', '.macro m\n.if 1\n nop\n.endm\n m\n', '.macro m\n.repeat\n nop\n.endm\n.until 1\n m\n', '.macro lda\n nop\n.endm\n', '.macro m\n xyz 1\n.endm\n m\n', '.macro m\n lda undefd\n.endm\n m\n', M1 + ' m 256\n', M1 + ' m 1,\n', M1 + ' m ,1\n', M1 + ' m #1\n',
       ' um 1\n nop\n', '.macro m\n lda #\\1\n.endm\n m 256\n', '.macro m\n .byte \\0\n.endm\n m 1\n', '.macro m 5\n nop\n.endm\n']


def test(fam, it):
    try:
        if fam == 'args' and it[0] == 'deep':
            # macros nested d deep, n and m arguments by turns, all used before and behind the inner call
            _, d, n, m = it
            t = ''
            for j in range(1, d + 1):
                c = (n, m)[j & 1]
                inner = ' m%d %s\n' % (j - 1, ','.join(str(10 * (j - 1) + a) for a in range(1, (n, m)[~j & 1] + 1))) if j > 1 else ''
                b = ''.join(' .byte \\%d\n' % a for a in range(1, c + 1))
                t += '.macro m%d\n%s%s%s nop\n.endm\n' % (j, b, inner, b)
            return ref_test(t + ' m%d %s\n' % (d, ','.join(str(10 * d + a) for a in range(1, (n, m)[d & 1] + 1))))
        if fam == 'restore':
            (a, b, c, d), how = it
            use = ' .word \\1\n .word \\2\n'
            call = [' n %d,%d\n' % (c, d), ' n \\2,%d\n' % c, ' n %d,\\1\n n \\2,\\1\n' % d, ' n \\2,\\1\n'][how]
            t = '* = $1000\n.macro o\n' + use + '.endm\n.macro n\n' + (' o %d,\\1\n' % d if how > 1 else '') + use + '.endm\n.macro m\n' + use + call + use + '.endm\n'
            return ref_test(t + ' m %d,%d\n m %d,%d\n' % (a, b, c, d) + '.if %d\n n %d,%d\n.endif\n' % (how & 1, a, d))
        if fam == 'args':
            if len(it) == 4:
                n, m, _, _ = it
                body = lambda c: ''.join(' .byte \\%d\n' % (j + 1) for j in range(c))
                t = '.macro a\n%s.endm\n.macro b\n%s.endm\n* = $1000\n' % (body(n), body(m))
                t = t.replace('.macro a', '.macro ma').replace('.macro b', '.macro mb')
                la = ','.join(str(j + 1) for j in range(n))
                lb = ','.join(str(j + 101) for j in range(m))
                return ref_test(t + ' ma %s\n mb %s\n ma %s\n' % (la, lb, la))
            n, how, calls = it
            idx = list(range(1, n + 1))
            body = ''.join(' .word \\%d\n' % j for j in {0: idx, 1: idx[::-1], 2: idx + idx[:1], 3: idx[::2]}[how]) or ' nop\n'
            t = '.macro m\n' + body + '.endm\n* = $1000\n'
            for c in range(calls):
                t += ' m ' + ','.join(str(100 * c + 7 * j + 300) for j in idx) + '\n'
            return ref_test(t)
        if fam == 'perm':
            ps, w = it
            t = '.macro m0\n .byte \\1,\\2,\\3\n.endm\n'
            for j, p in enumerate(ps):
                use = ' .byte \\3,\\1\n'
                call = ' m%d %s\n' % (j, ','.join('\\%d' % x if (w == 0 or x != 2) else '\\%d+16' % x for x in p))
                t += '.macro m%d\n' % (j + 1) + {0: call + use, 1: use + call + use, 2: call + call}[w] + '.endm\n'
            return ref_test(t + '* = $1000\n m%d 1,2,3\n m%d 7,8,9\n' % (len(ps), len(ps)))
        if fam == 'argexpr':
            pre = '.var v\nk = 5\nkk = $1234\n* = $1000\nv = 3\n.section sec\na = 9\n.endsection\nll nop\n'
            post = 'fl nop\nff = 7\ngg = $2345\n'
            if it[2] == 'pair':
                a, b, _ = it
                return ref_test(pre + '.macro m\n .word \\1,\\2\n lda \\2\n lda \\1\n.endm\n m %s,%s\n' % (ARGS[a], ARGS[b]) + post)
            a, u, pos = it
            body = USE[u].replace('%s', '\\1')
            if 'q =' in body:
                body = body.replace('q =', 'q%d =' % u).replace('word q', 'word q%d' % u)
            call = ' m %s\n' % ARGS[a]
            return ref_test(pre + '.macro m\n%s.endm\n' % body + {0: call, 1: ' nop\n' + call + (call if 'q' not in body and '*' not in call else ''), 2: '.macro o\n m \\1\n.endm\n'.replace('.macro o', '.macro oo') + ' oo %s\n' % ARGS[a]}[pos] + post)
        if fam == 'size':
            op, vs = it
            form = [' lda \\1\n', ' sta \\1,x\n', ' ldx \\1,y\n', ' lda \\1,y\n', ' jmp \\1\n', ' lda \\1+1\n', ' lda \\1\n sta \\1+1\n bit \\1\n', ' asl \\1\n.if \\1 < 256\n nop\n.endif\n', ' .word \\1\n lda \\1\n', ' jsr \\1\n ldy \\1,x\n'][op]
            return ref_test('z = 7\n.macro m\n%s.endm\n* = $1000\n' % form + ''.join(' m %s\n' % v for v in vs) + 'l .word l\nfz = 9\nfa = $2000\n')
        if fam == 'local':
            mac = '.macro m\n bne @a\n nop\n@a\n clc\n beq @a\n.endm\n.macro n\n@a\n sec\n bne @a\n.endm\n'
            return ref_test(mac.replace('.macro n', '.macro nn') + '* = $1000\nlab0 nop\n' + ''.join({'d': '@a inx\n', 'b': ' bcc @a\n', 'f': ' bcs @b\n', 'm': ' m\n', 'n': ' nn\n', 'l': 'lab%d iny\n' % (j + 1), 'g': '@b dex\n'}[c] for j, c in enumerate(it)))
        if fam == 'nestlocal':
            o, i = it
            S = {'d': '@a\n nop\n', 'b': ' beq @a\n', 'f': ' bne @a\n', 'c': ' in\n', '': ''}
            inner = ''.join(S[c] for c in i) or ' clc\n'
            outer = ''.join(S[c] for c in o) or ' sec\n'
            return ref_test('.macro in\n%s.endm\n.macro mo\n%s.endm\n* = $1000\ng1 nop\n@a nop\n mo\n bcs @a\n mo\n' % (inner, outer))
        if fam == 'ctl':
            if it[0] == 'depth':
                _, d, w = it
                t = '.macro m0\n .byte \\1\n@x\n bne @x\n.endm\n'
                for j in range(d):
                    t += '.macro m%d\n' % (j + 1) + ['', '@x\n', ' .byte \\1\n'][w] + ' m%d \\1+1\n' % j + ['', ' bne @x\n', ' .byte \\1\n'][w] + '.endm\n'
                return ref_test(t + '* = $1000\n m%d 1\n m%d 5\n' % (d, d))
            k, a, b = it
            t = '.var v\n* = $1000\n' + CTL[k].replace(' A', ' %d' % a).replace(' B', ' %d' % b).replace(',A', ',%d' % a).replace(',B', ',%d' % b).replace('+B', '+%d' % b).replace('A+', '%d+' % a)
            return ref_test(t + ' .word *\n')
        if fam == 'def':
            d = DEF[it]
            if len(d) > 1 and d[1] == 'skip':
                return None
            if len(d) > 1 and d[1] in ('redef', 'redef2'):
                j = src(d[0])
                from ..explore import Test
                good = b'\x18' if d[1] == 'redef' else b'\xea\x18'
                return Test([j], lambda rs: [] if rs[0].kind == 0 and (rs[0].code != 0 or rs[0].bin == good) else ['a redefined macro assembles to neither definition in force'], [hash(it)], 4)
            return ref_test(d[0], files=d[1] if len(d) > 1 else None)
        if fam == 'anyname':
            t = ''.join('.macro %s\n bne @q\n .byte \\1,%d\n@q\n nop\n bcc @q\n.endm\n' % (n, i) for i, n in enumerate(it))
            t += '* = $1000\n' + ''.join(' %s %d\n %s %d\n' % (n, i + 1, n.upper(), i + 2) for i, n in enumerate(it)) + 'zzzz .word zzzz\n'
            w = b''.join(bytes([0xd0, 2, v, i, 0xea, 0x90, 0xfd]) for i in range(len(it)) for v in (i + 1, i + 2))
            z = 0x1000 + len(w)
            return expect([src(t)], [w + bytes([z & 255, z >> 8])], [hash(it[0])], 2 * len(it))
        if fam == 'scale':
            n, k = it
            if k == 0:
                return ref_test('.macro m\n .byte \\1\n@l\n bne @l\n.endm\n* = $1000\n' + ''.join(' m %d\n' % (j & 255) for j in range(n)) + ' .word *\n', timeout=20)
            if k == 1:
                return ref_test('* = $1000\n' + ''.join('.macro m%d\n .byte \\1+%d&$ff\n.endm\n' % (j, j) for j in range(n)) + ''.join(' m%d %d\n' % (j, j % 7) for j in range(0, n, max(1, n // 40))), timeout=20)
            if k == 2:
                return ref_test('.macro m\n beq @l\n .byte \\1\n@l\n nop\n.endm\n* = $1000\ng0 nop\n' + ''.join(' m %d\n' % (j & 255) for j in range(n)) + ' .word g0,*\n', timeout=20)
            if n > 300:
                return None
            return ref_test('.macro m\n' + ''.join(' .byte %d,\\1\n' % (j & 255) for j in range(n)) + '.endm\n* = $1000\n m 1\n m 2\n', timeout=20)
        if fam == 'bad':
            k, w = it
            t = BAD[k]
            return expect([src('* = $1000\n' + {0: t, 1: ' .byte 1\n' + t + ' .byte 2\n', 2: '.if 1\n' + t + '.endif\n'}[w])], [None], [hash(it)], 3)
    except refasm.Unsupported:
        return None
