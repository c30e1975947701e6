"""P24 Constructs nest and follow one another freely, each keeping its meaning"""
import itertools, re
from ..explore import ref_test, src, agree, Test
from .. import refasm
from ..refasm import Unsupported

ID = 'P24'
BOUNDS = {
    'pair': 'every nesting of two of 11 constructs x all pairs of 22 statements in the inner one, a use of everything behind',
    'triple': 'every one of 11 constructs x all triples of 16 statements in it',
    'chain': 'every nesting of three of 11 constructs (thorough four) x 22 statements, with a statement before and after each inner construct',
    'row': 'all rows of three of 11 constructs x 22 statements, the same in each and one of 3 between them',
    'def': '8 kinds of definition in one nesting of two constructs, used in another nesting, in either order',
    'span': 'every nesting of three of 11 constructs (and of four of MFISE) with one of 14 pairs of statements at every level, the one before and the other behind the inner construct',
    'more': 'every nesting of two, and of three, of 17 constructs, with those above, three register loops and .ifdef, .ifndef and the .else of .ifdef among them, x all pairs of 16 statements (thorough 22) or one of 4 (16)',
    'split': 'programs of two nested constructs cut into two source files or an included file at every statement outside of them',
}
ASSUMES = ['a macro is used in the section it is defined in; the name of a macro that is not in force may be a label', 'a variable is declared above its uses', 'a .while loop is not used inside of a .do loop (its .while closes the .do)', 'what the single properties leave open stays open (labels in loops, includes in blocks, anonymous labels in blocks, ...)']
CON = 'ITFJRWDMSNE'


def wrap(c, k, body):
    """construct c with number k around body: (text before all, text in place, files)"""
    v = 'vv%d' % k
    if c == 'I':
        return '', '.if v0 > 0\n%s.endif\n' % body, {}
    if c == 'T':
        return '', '.if v0 == 77\n .byte $77\n.else\n%s.endif\n' % body, {}
    if c == 'N':
        return '', '.if v0 == 77\n%s.endif\n .byte $%x\n' % (body, k + 1), {}
    if c == 'F':
        return '.var %s\n' % v, '.for %s = 1 .to 2\n%s.next %s\n' % (v, body, v), {}
    if c == 'J':
        return '.var %s\n' % v, '.for %s = 1 .to 0 .step -1\n%s.next %s\n' % (v, body, v), {}
    if c == 'R':
        return '.var %s\n' % v, '%s = 0\n.repeat\n%s%s = %s + 1\n.until %s == 2\n' % (v, body, v, v, v), {}
    if c == 'W':
        return '.var %s\n' % v, '%s = 0\n.while %s < 2\n%s%s = %s + 1\n.wend\n' % (v, v, body, v, v), {}
    if c == 'D':
        return '.var %s\n' % v, '%s = 2\n.do\n%s%s = %s - 1\n.while %s\n' % (v, body, v, v, v), {}
    if c == 'M':
        return '.macro mac%d\n%s.endm\n' % (k, body), ' mac%d v0,5\n' % k, {}
    if c == 'S':
        return '', '.section sec%d\n%s.ends\n' % (k, body), {}
    if c == 'E':
        return '', ' .inc "f%d"\n' % k, {'f%d' % k: body}
    if c in 'XYZ':
        return '.var xr%d\n.var xq%d\n' % (k, k), '\x01%s%d\n%s\x02%s%d\n' % (c, k, body, c, k), {}
    if c == 'Q':
        return '', '.ifdef v0\n%s.else\n .byte $7f\n.endif\n' % body, {}
    if c == 'U':
        return '', '.ifndef no_such\n%s.endif\n' % body, {}
    if c == 'V':
        return '', '.ifdef no_such\n .byte $7e\n.else\n%s.endif\n' % body, {}


# register loops, and the statements they stand for
REG = {'X': ('.for .regx = 0 .to 3', ' ldx #0\nxr@ = *\n.for xq@ = 1 .to 1', '.next x', '.next xq@\n inx\n cpx #4\n bcc xr@'), 'Y': ('.for .regy = $30 .downto 1', ' ldy #$30\nxr@ = *\n.for xq@ = 1 .to 1', '.next y', '.next xq@\n dey\n cpy #1\n bcs xr@'),
       'Z': ('.for .regx = 250 .to 255', ' ldx #250\nxr@ = *\n.for xq@ = 1 .to 1', '.next x', '.next xq@\n inx\n bne xr@')}


def registers(t, ref):
    return re.sub('([\x01\x02])([XYZ])([0-9]+)', lambda m: REG[m[2]][(m[1] == '\x02') * 2 + ref].replace('@', m[3]), t)


STM = [' .byte v0,IX', ' nop', 'l_IX\n nop', ' lda fw', ' lda zf', '@q\n bne @q', '-\n dex\n bne -', 'v0 = v0 + 1', 'c_IX = * + 1', ' .word *,s9.sy', ' mm v0,IX', ' .str "ab"', '* = * + 5', ' .fill 7,2', '.print v0', ' beq fa', '.if v0 > 2\n .byte v0\n.endif', ' jmp bk', '.load "ff"', '.var w_IX = v0 * 2\n .byte w_IX', ' lda #<fw\n .word fw-bk', ' beq +\n iny\n+ .byte 1']
FEW = [0, 2, 3, 4, 5, 7, 8, 9, 10, 12, 13, 15, 16, 18, 19, 20]
HEAD = '.macro mm\n@q\n .byte \\1,\\2\n bne @q\n.endm\n.var v0 = 1\n'
ORG = '* = $1000\n.section s9\nsy nop\n.ends\nbk nop\n'
END = ' .byte v0\n .word *\n lda zf\n@q\n bne @q\nzf = $80\n .fill 0,140\nfa\n nop\nfw nop\n'
DEFS = [('l_1\n nop\n', ' jmp l_1\n'), ('c_1 = $34\n', ' lda c_1\n'), ('c_1 = fw + 1\n', ' lda c_1\n'), ('.var w_1 = 4\n', ' .byte w_1\n'), ('v0 = v0 + 3\n', ' .byte v0\n'), ('.section s1\nq1 nop\n.ends\n', ' .word s1.q1\n'), ('.macro m1\n .byte \\1\n.endm\n', ' m1 v0\n'), ('@z\n nop\n', ' bne @z\n')]
SPAN = [(' jmp @q\n', '@q\n nop\n'), ('@q\n nop\n', ' jmp @q\n'), (' bne @r\n@q\n nop\n', ' jmp @q\n@r\n nop\n'), (' .byte v0\n', 'v0 = v0 + 1\n'), ('v0 = v0 + 2\n', ' .byte v0\n'), (' .word c_IX\n', 'c_IX = * - 3\n'), ('c_IX = * + 3\n', ' .word c_IX\n'),
        ('la_IX\n nop\n', ' jmp la_IX\n'), (' jmp lb_IX\n', 'lb_IX\n nop\n'), (' beq +\n', '+ nop\n'), ('- nop\n', ' bne -\n'), (' mm IX,v0\n', ' mm v0,IX\n'), ('.print v0\n', '.print *\n'), ('.var w_IX = *\n', ' .word w_IX\n')]
MID = [' .byte v0\n', '', 'm_JX nop\n']


def st(s, i):
    return STM[s].replace('IX', str(i)) + '\n'


def nest(cs, body, between=None, k0=0):
    """cs from the outside to the inside"""
    if 'D' in cs and 'W' in cs[cs.index('D'):]:
        raise Unsupported('.while inside of .do')
    pre, files = '', {}
    for k in range(len(cs) - 1, -1, -1):
        p, body, f = wrap(cs[k], k0 + k, body)
        pre += p
        files.update(f)
        if between and k:
            body = between(2 * k) + body + between(2 * k + 1)
    return pre, body, files


def families(tier):
    deep = tier == 'thorough'

    def pair():
        for cs in itertools.product(CON, repeat=2):
            for ss in itertools.product(range(len(STM)), repeat=2):
                yield (''.join(cs), ss)

    def triple():
        for c in CON:
            for ss in itertools.product(FEW, repeat=3):
                yield (c, ss)

    def chain():
        for n in (3, 4) if deep else (3,):
            for cs in itertools.product(CON, repeat=n):
                for s in range(len(STM)) if n == 3 else (0, 4, 7, 10):
                    yield (''.join(cs), s)

    def row():
        for cs in itertools.product(CON, repeat=3):
            for s in range(len(STM)) if deep else FEW:
                yield (''.join(cs), s, (s + CON.index(cs[0])) % 3)

    def defs():
        for d in range(len(DEFS)):
            for a in itertools.product(CON + '.', repeat=2):
                for b in itertools.product(CON + '.', repeat=2) if deep else [(x, y) for x in CON + '.' for y in ('.', 'IFMS'[CON.index(x) % 4] if x != '.' else 'F')]:
                    for o in range(2):
                        yield (d, ''.join(a), ''.join(b), o)

    def span():
        for n, al in ((3, CON), (4, CON if deep else 'MFISE')):
            for cs in itertools.product(al, repeat=n):
                for k in range(len(SPAN)):
                    yield (''.join(cs), k)

    def more():
        for cs in itertools.product(CON + 'XYZQUV', repeat=2):
            if set(cs) & set('XYZQUV') and not (cs[0] in 'XZ' and cs[1] in 'XZ' or cs == ('Y', 'Y')):
                for ss in itertools.product(range(len(STM)) if deep else FEW, repeat=2):
                    yield (''.join(cs), ss)
        for cs in itertools.product(CON + 'XYQV', repeat=3):
            if set(cs) & set('XYQV') and cs.count('X') < 2 and cs.count('Y') < 2 and (deep or len(set(cs) & set('XYQV')) > 1):
                for s in FEW[::1 if deep else 4]:
                    yield (''.join(cs), (s,))

    def split():
        for cs in itertools.product(CON, repeat=2):
            for s in FEW:
                for at in range(5):
                    for how in range(2):
                        yield (''.join(cs), s, at, how)
    return [('pair', pair()), ('triple', triple()), ('chain', chain()), ('row', row()), ('def', defs()), ('span', span()), ('more', more()), ('split', split())]


def run(head, text, files, args=()):
    return ref_test(HEAD + head + ORG + text + END, args, files=dict(files, ff=b'\x01\x82\x03'))


def test(fam, it):
    if fam in ('pair', 'triple'):
        cs, ss = it
        pre, body, files = nest(cs, ''.join(st(s, i + 1) for i, s in enumerate(ss)))
        return run(pre, body, files)
    if fam == 'more':
        cs, ss = it
        pre, body, files = nest(cs, ''.join(st(s, i + 1) for i, s in enumerate(ss)))
        files['ff'] = '\x04\x05'
        t = [src(registers(HEAD + pre + ORG + body + END, r), files={n: registers(x, r) for n, x in files.items()}) for r in (0, 1)]
        o = refasm.assemble(t[1].files, t[1].args)

        def judge(rs):
            bad = agree(o, rs[0])
            return [bad] if bad else []
        return Test([t[0]], judge, o.states or [hash(('err', o.why, o.steps))], max(1, o.steps))
    if fam == 'chain':
        cs, s = it
        pre, body, files = nest(cs, st(s, 1), lambda j: st((s * 5 + j * 3 + 1) % len(STM), 10 + j))
        return run(pre, body, files)
    if fam == 'span':
        cs, k = it
        b = lambda j: SPAN[k][j & 1].replace('IX', str(j // 2))
        pre, body, files = nest(cs, b(20) + ' nop\n' + b(21), b)
        return run(pre, body, files)
    if fam == 'row':
        cs, s, m = it
        pre, text, files = '', '', {}
        for k, c in enumerate(cs):
            p, b, f = wrap(c, k, st(s, k + 1))
            pre, text = pre + p, text + b + MID[m].replace('JX', str(k))
            files.update(f)
        return run(pre, text, files)
    if fam == 'def':
        d, a, b, o = it
        if d == 6 and ('S' in a or 'N' in a):  # a call of a macro that is not in force is a label, or refused
            return None
        x, y = nest(a.replace('.', ''), DEFS[d][0]), nest(b.replace('.', ''), DEFS[d][1], k0=4)
        if o:
            if d == 3:                  # a variable used above its declaration
                return None
            x, y = y, x
        return run(x[0] + y[0], x[1] + y[1], dict(x[2], **y[2]))
    cs, s, at, how = it
    pre, body, files = nest(cs, st(s, 1) + ' .byte 1\n')
    parts = [HEAD, pre, ORG, body, END]
    a, b = ''.join(parts[:at]), ''.join(parts[at:])
    files = dict(files, ff=b'\x01\x82\x03')
    if how:
        return ref_test(a + ' .inc "rest"\n', files=dict(files, rest=b))
    return ref_test(a or '\n', ['u.a'], files=dict(files, **{'u.a': b}))
