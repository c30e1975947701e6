"""P04 relative branches: short when the target is in range, otherwise an inverted branch over a jmp"""
import itertools
from .. import opref
from ..explore import expect, src, ref_test

ID = 'P04'
BR = opref.BRANCHES
OPC = {m: opref.C65C02[m]['rel'] for m in BR}
KINDS = ('@', '@b', '-', '--', '+', '++', 'expr', 'equ', 'fequ', 'star', 'num', 'sect')
FILLS = (0, 1, 2, 60, 61, 62, 63, 64, 65, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131)
BOUNDS = {
    'single': 'every branch x every displacement -300..300 x 2 processors, target as label before/after',
    'kinds': 'targets as @local, -, --, +, ++, expression, equate, *+n, forward equate, x displacements around both limits x branches x enclosing construct (none, .if, section, macro, loop); also with the program at 0, 1 and $fe00',
    'multi': 'chains of 2-4 branches over shared distance (all sequences over branch/label/fill items), least layout by Kleene iteration',
    'far': 'absolute targets over the whole address space from 8 origins, including wrap around',
    'repeated': 'one branch statement expanded several times by loops and macros (1..6 times) with some copies near and some far',
    'data': 'statements after a widened branch (labels, data, .org, equates of label differences, other branches) see the longer code',
}
ASSUMES = ['the long form is the inverted branch over a three byte jmp; bra becomes jmp']
w = lambda v: bytes((v & 255, v >> 8 & 255))


def enc(m, pc, target, long):
    if not long:
        return bytes((OPC[m], (target - pc - 2) & 255))
    if m == 'bra':
        return b'\x4c' + w(target)
    return bytes((OPC[opref.INVERSE[m]], 3)) + b'\x4c' + w(target)


def least(prog, org):
    """prog: list of ('b', mnemonic, label, offset) ('l', name) ('f', n) ('n',) ('w', label): least layout, sizes only grow"""
    long = set()
    steps = 0
    while True:
        pc, sym, at = org, {}, []
        for k, it in enumerate(prog):
            at.append(pc)
            if it[0] == 'b':
                pc += 2 if k not in long else 3 if it[1] == 'bra' else 5
            elif it[0] == 'l':
                sym[it[1]] = pc
            elif it[0] == 'f':
                pc += it[1]
            elif it[0] == 'n':
                pc += 1
            elif it[0] == 'w':
                pc += 2
        steps += len(prog)
        new = {k for k, it in enumerate(prog) if it[0] == 'b' and not -128 <= sym[it[2]] + it[3] - at[k] - 2 <= 127}
        if new <= long:
            break
        long |= new
    out = b''
    for k, it in enumerate(prog):
        if it[0] == 'b':
            out += enc(it[1], at[k], sym[it[2]] + it[3], k in long)
        elif it[0] == 'f':
            out += b'\xea' * it[1]
        elif it[0] == 'n':
            out += b'\xea'
        elif it[0] == 'w':
            out += w(sym[it[1]])
    return out, sym, steps, len(long)


def render(prog, org):
    t = '* = $%x\n' % org
    for it in prog:
        if it[0] == 'b':
            t += ' %s %s%s\n' % (it[1], it[2], '+%d' % it[3] if it[3] else '')
        elif it[0] == 'l':
            t += it[1] + '\n'
        elif it[0] == 'f':
            t += ' .fill $ea,%d\n' % it[1]
        elif it[0] == 'n':
            t += ' nop\n'
        elif it[0] == 'w':
            t += ' .word %s\n' % it[1]
    return t


def prog_test(prog, org=0x1000, wrap=None):
    b, sym, steps, nl = least(prog, org)
    t = render(prog, org)
    return expect([src(t, ['-65c02'])], [b], [hash((tuple(sorted(sym.items())), nl))], steps)


def families(tier):
    deep = tier == 'thorough'

    def single():
        for m in BR:
            for d in range(-300, 301):
                for c in (0, 1):
                    if m != 'bra' or c:
                        yield (m, d, c)

    def kinds():
        for m in BR if deep else ('bcc', 'bvs', 'bra', 'bmi'):
            for k in KINDS:
                for n in sorted(set(range(118, 136)) | {0, 1, 2, 3, 200, 300}):
                    for wr in ('none', 'if', 'section', 'macro', 'loop'):
                        yield (m, k, n, wr)
        # the same at the ends of the address space, the target may be address 0
        for o in (0, 1, 0xfe00):
            for m in ('bne', 'bra') if not deep else BR:
                for k in KINDS:
                    for n in (0, 1, 100, 125, 126, 127, 128, 129, 130, 200, 300):
                        for wr in ('none', 'if', 'loop'):
                            yield (m, k, n, wr, o)

    def multi():
        f1 = (1, 61, 62, 63, 64) if not deep else (1, 2, 60, 61, 62, 63, 64, 65)
        # two branches to two labels after/before, three distances
        for a, b, c in itertools.product(f1 + (118, 119, 120, 121, 122, 123, 124, 125, 126, 127), repeat=3):
            yield ('ff', a, b, c)
        for a, b, c in itertools.product(f1 + (120, 121, 122, 123, 124, 125, 126), repeat=3):
            yield ('fb', a, b, c)
            yield ('bf', a, b, c)
            yield ('x', a, b, c)
            yield ('3f', a, b, c)
            yield ('3b', a, b, c)
            if deep:
                for d in (60, 61, 62, 63, 64, 120, 121, 122):
                    yield ('4', a, b, c, d)

    def far():
        for m in BR:
            for o in (0, 0x10, 0x80, 0x1000, 0x7ff0, 0x8000, 0xff00, 0xffc0):
                for t in sorted(set(list(range(0, 0x10000, 0x111 if not deep else 0x11)) + [0, 1, 255, 256, 0x7fff, 0xffff] + [x for x in range(o - 127, o + 131) if 0 <= x < 65536])):
                    yield (m, o, t)

    def repeated():
        for m in ('bcc', 'beq', 'bra', 'bvc') if not deep else BR:
            for n in range(1, 7):
                for d in range(96, 136):
                    for how in ('for', 'repeat', 'do', 'while', 'macro', 'nest'):
                        for dirn in 'fb':
                            yield (m, n, d, how, dirn)

    def data():
        for n in (120, 125, 126, 127, 128, 129, 130, 140):
            for m in BR:
                for k in range(10):
                    yield (m, n, k)
    return [('single', single()), ('kinds', kinds()), ('multi', multi()), ('far', far()), ('repeated', repeated()), ('data', data())]


def test(fam, it):
    if fam == 'single':
        m, d, c = it
        op = OPC[m]
        if d >= 0:
            p = [('b', m, 'l1', 0), ('f', d), ('l', 'l1'), ('n',), ('w', 'l1')]
        else:
            n = -d - 2
            p = [('n',), ('l', 'l1')] + ([('f', n), ('b', m, 'l1', 0)] if n >= 0 else [('b', m, 'l1', 1)]) + [('w', 'l1')]
        b, sym, steps, nl = least(p, 0x1000)
        return expect([src(render(p, 0x1000), ['-65c02'] if c else [])], [b], [hash((m, d))], steps)
    if fam == 'kinds':
        return kinds_test(*it)
    if fam == 'multi':
        k, a, b, c = it[:4]
        F = lambda n: ('f', n)
        B = lambda m, l: ('b', m, l, 0)
        L = lambda l: ('l', l)
        if k == 'ff':
            p = [B('bcc', 'l1'), F(a), B('beq', 'l2'), F(b), L('l1'), F(c), L('l2'), ('w', 'l1')]
        elif k == 'fb':
            p = [L('l0'), F(a), B('bcc', 'l1'), F(b), B('beq', 'l0'), F(c), L('l1'), ('w', 'l1')]
        elif k == 'bf':
            p = [L('l0'), F(a), B('bra', 'l1'), F(b), B('bvs', 'l0'), B('bvc', 'l0'), F(c), L('l1'), ('w', 'l1')]
        elif k == 'x':
            p = [L('l0'), B('bmi', 'l2'), F(a), L('l1'), F(b), B('bpl', 'l0'), B('bne', 'l1'), F(c), L('l2'), ('w', 'l2')]
        elif k == '3f':
            p = [B('bcc', 'l3'), F(a), B('bcs', 'l3'), F(b), B('bra', 'l3'), F(c), L('l3'), ('w', 'l3')]
        elif k == '3b':
            p = [L('l0'), F(a), B('bcc', 'l0'), F(b), B('beq', 'l0'), F(c), B('bra', 'l0'), L('l1'), ('w', 'l1')]
        else:
            p = [B('bcc', 'l1'), F(a), B('beq', 'l2'), F(b), B('bmi', 'l3'), L('l1'), F(c), L('l2'), B('bpl', 'l1'), F(it[4]), L('l3'), ('w', 'l3')]
        return prog_test(p)
    if fam == 'far':
        m, o, t = it
        d = t - (o + 2)
        long = not -128 <= d <= 127
        if o + (5 if long else 2) > 0xffff:
            return None
        return expect([src('* = $%x\n %s $%x\ne1 .word e1\n' % (o, m, t), ['-65c02']), src('tt = $%x\n* = $%x\n %s tt\n' % (t, o, m), ['-65c02'])],
                      [enc(m, o, t, long) + w(o + (2 if not long else 3 if m == 'bra' else 5)), enc(m, o, t, long)], [hash((m, o, t))], 3)
    if fam == 'repeated':
        m, n, d, how, dirn = it
        if dirn == 'f':
            p = [('b', m, 'l1', 0)] * n + [('f', d), ('l', 'l1'), ('w', 'l1')]
        else:
            p = [('l', 'l1'), ('f', d)] + [('b', m, 'l1', 0)] * n + [('w', 'l1')]
        b, sym, steps, nl = least(p, 0x1000)
        st = ' %s l1\n' % m
        body = {'for': '.for vv = 1 .to %d\n%s.next vv\n' % (n, st), 'repeat': 'vv = 0\n.repeat\n%svv = vv+1\n.until vv == %d\n' % (st, n), 'do': 'vv = 0\n.do\n%svv = vv+1\n.while vv < %d\n' % (st, n),
                'while': 'vv = 0\n.while vv < %d\n%svv = vv+1\n.wend\n' % (n, st), 'macro': ' mm\n' * n, 'nest': '.for vv = 1 .to %d\n mm\n.next vv\n' % n}[how]
        fill = ' .fill $ea,%d\n' % d
        t = '.macro mm\n%s.endm\n.var vv\n* = $1000\n' % st
        t += body + fill + 'l1\n' if dirn == 'f' else 'l1\n' + fill + body
        return expect([src(t + ' .word l1\n', ['-65c02'])], [b], [hash((n, d, nl))], steps)
    if fam == 'data':
        m, n, k = it
        long = n > 127
        sz = (2 if not long else 3 if m == 'bra' else 5)
        o = 0x1000
        t = '* = $1000\n %s l1\n .fill $ea,%d\nl1 nop\n' % (m, n)
        l1 = o + sz + n
        b = enc(m, o, l1, long) + b'\xea' * (n + 1)
        x, y = [(' .word *\n', w(l1 + 1)), ('l2 .word l2,l1\n', w(l1 + 1) + w(l1)), ('s1 = l1-$1000\n .byte s1\n', bytes((l1 - o,))), (' jmp l1\n', b'\x4c' + w(l1)),
                (' bcc l1\n', bytes((0x90, 256 - 3))), ('@a nop\n bne @a\n', b'\xea\xd0\xfd'), ('* = $2000\nl2 .word l2,l1\n', w(0x2000) + w(l1)), ('- nop\n bne -\n bne l1\n', b'\xea\xd0\xfd' + bytes((0xd0, 256 - 6))),
                ('.if l1 > $1082\n nop\n.else\n clc\n.endif\n', b'\xea' if l1 > 0x1082 else b'\x18'), (' lda #l1-$1000\n', bytes((0xa9, l1 - o)))][k]
        if k == 2 and l1 - o > 255:
            return None
        return expect([src(t + x, ['-65c02'])], [b + y], [hash((n, k, sz))], 4)


def kinds_test(m, k, n, wr, o=0x1000):
    """target n bytes away, spelled in way k, inside construct wr, program at o"""
    fill = ' .fill $ea,%d\n' % n
    pre0 = '* = $%x\n' % o
    br = lambda t: {'none': ' %s %s\n', 'if': '.if 1\n %s %s\n.endif\n', 'section': '.section\n %s %s\n.endsection\n', 'macro': '.macro mm\n %s %s\n.endm\n mm\n', 'loop': '.for vv = 1 .to 1\n %s %s\n.next vv\n'}[wr] % (m, t)
    if wr == 'section':
        br = lambda t: '.section ss\n %s %s\n.endsection\n' % (m, t)
    if wr == 'macro' and k in ('-', '--', '+', '++', '@', '@b', 'star'):
        return None  # labels of the macro's own text: the macro property
    if wr == 'section' and k in ('@', '@b', 'sect'):
        return None
    if wr == 'loop' and k in ('@', 'star'):
        pass
    pre = '.var vv\n' if wr == 'loop' else ''
    fwd = [('b', m, 'T', 0), ('f', n), ('l', 'T'), ('n',)]
    bck = [('l', 'T'), ('f', n), ('b', m, 'T', 0), ('n',)]
    if k == '@':
        t, p = pre0 + 'zz nop\n' + br('@l') + fill + '@l nop\n', [('n',)] + fwd
    elif k == '@b':
        t, p = pre0 + '@l\n' + fill + br('@l') + ' nop\n', bck
    elif k == '-':
        t, p = pre0 + '-\n' + fill + br('-') + ' nop\n', bck
    elif k == '--':
        t, p = pre0 + '- nop\n' + fill + '- nop\n' + br('--') + ' nop\n', [('l', 'T'), ('n',), ('f', n), ('n',), ('b', m, 'T', 0), ('n',)]
    elif k == '+':
        t, p = pre0 + '' + br('+') + fill + '+ nop\n', fwd
    elif k == '++':
        t, p = pre0 + '' + br('++') + '+ nop\n' + fill + '+ nop\n', [('b', m, 'T', 0), ('n',), ('f', n), ('l', 'T'), ('n',)]
    elif k == 'expr':
        t, p = pre0 + '' + br('ll+3-1') + fill + 'll nop\n nop\n nop\n', [('b', m, 'T', 2), ('f', n), ('l', 'T'), ('n',), ('n',), ('n',)]
    elif k == 'equ':
        t, p = pre0 + 'll\neq = ll+1\n' + fill + br('eq') + ' nop\n', [('l', 'T'), ('f', n), ('b', m, 'T', 1), ('n',)]
    elif k == 'fequ':
        t, p = pre0 + '' + br('eq') + fill + 'll nop\neq = ll+1\n', [('b', m, 'T', 1), ('f', n), ('l', 'T'), ('n',)]
    elif k == 'sect':
        t, p = pre0 + '' + br('s2.ll') + fill + '.section s2\nll nop\n.endsection\n', fwd
    elif k == 'star':
        d = n
        t = pre0 + ' nop\n' + br('*+%d' % (d + 2)) + ' nop\n'
        b = b'\xea' + enc(m, o + 1, o + 1 + d + 2, d > 127) + b'\xea'
        return expect([src(t if not pre else pre + t, ['-65c02'])], [b], [hash((k, n))], 3)
    elif k == 'num':
        if o + 2 < n:
            return None
        t = pre0 + '' + br('$%x' % (o + 2 - n)) + ' nop\n'
        b = enc(m, o, o + 2 - n, n > 128) + b'\xea'
        return expect([src(pre + t, ['-65c02'])], [b], [hash((k, n))], 3)
    b, sym, steps, nl = least(p, o)
    return expect([src(pre + t, ['-65c02'])], [b], [hash((k, n, nl))], steps)
