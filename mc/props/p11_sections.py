"""P11 sections and qualified names"""
import itertools, re
from .. import refasm
from ..explore import ref_test, expect, src

ID = 'P11'
BOUNDS = {
    'seq': 'all sequences of length <= 5 of: opening two sections, closing, defining a symbol as label or constant, using it unqualified and under two qualified names; with different values and with the same value',
    'shadow': 'a global and up to three section definitions of one name, each as label, constant, variable or absent, before or after, every place of an unqualified use, with different values and with the same value',
    'nest': 'nesting depth 1..40, a symbol of the same name on every level, uses from every level of every qualified name; section names of length 1..40',
    'reopen': 'one or two sections opened 1..5 times each in all orders, each opening defines and uses its own and the others symbols',
    'kinds': '20 uses of a symbol of a section x 8 means of definition x forward and backward x from in and outside',
    'local': 'local labels in sections: all sequences of length <= 5 of section borders, labels, local labels and their uses',
    'around': 'sections in macros, loops, conditionals and included files, and these in sections',
    'names': 'similar names: all pairs of 24 section and symbol names that are prefixes, joins or case variants of each other',
    'many': '1..300 and boundary counts of sections, symbols per section, openings',
    'expanded': 'all sequences of length <= 5 of opening and closing sections, defining a name and calling a macro, x 16 bodies of the macro that use that name or define symbols, variables, labels, sections: a name in the body means the symbol of the place of the call',
    'bad': 'unmatched ends, missing names, undefined qualified names, redefinitions',
}
ASSUMES = ['a name is searched in the innermost section and then outside of all sections; the enclosing sections are reached by qualified names only', 'a section left open at the end of a file is not specified', 'section names with dots and symbols with dots in their definitions are not specified', 'partially qualified names are not specified', 'an assignment in a section to a name that is a variable outside of it is not specified', 'a macro defined in a section is called in that section, not in nested ones', 'a local label and its uses are on the same side of the borders of sections', 'two definitions of the same name in a section and unqualified while the section is open are distinct only if both are written in their own place']
USES = [' .byte <%s\n', ' .word %s\n', ' lda %s\n', ' sta %s,x\n', ' jmp %s\n', ' lda #>%s\n', ' lda (%s&255),y\n', ' bne *+2+(%s-%s)\n', ' .word %s+1,%s-1\n', 'qq = %s+1\n .word qq\n', '.if %s\n .byte 1\n.else\n .byte 2\n.endif\n', '.for i = %s&3 .to 4\n .byte i\n.next i\n',
        ' .fill %s&255,3\n', ' m %s\n', '.var w = %s\n .word w\n', ' .fill 1,%s&7\n', '* = * + (%s&3)\n nop\n', ' .str %s&255\n', ' jsr %s*2&$fff\n', ' bne %s\n']
HOW = ['xx = 5\n', 'xx = $1234\n', 'xx .equ 300\n', 'xx nop\n', 'xx\n nop\n', 'xx: nop\n', '.var xx = 7\n', 'xx = k+1\n']
NAMES = ['a1', 'a', 'b', 'ab', 'abc', 'a_b', 'aa', 'A1', 's', 'S', 's1', 's2', 'a.b', 'long_section_name_1', 'long_section_name_2', '_', '__', '_a', 'x1', 'y1', 'lda1', 'byte', 'end', 'to']


def families(tier):
    deep = tier == 'thorough'

    def seq():
        for n in range(1, 7 if deep else 6):
            for s in itertools.product('stcdebpq' if n < 6 else 'stcdbp', repeat=n):
                d = 0
                ok = True
                for c in s:
                    d += 1 if c in 'st' else -1 if c == 'c' else 0
                    if d < 0 and n > 3 or d > 3:
                        ok = False
                        break
                if ok and any(c in 'bpq' for c in s):
                    yield ''.join(s)
                    if s.count('e') > 1:
                        # all of the definitions with the same value
                        yield '=' + ''.join(s)

    def shadow():
        for g in range(5):
            for a in range(4):
                for b in range(4):
                    for u in range(7):
                        for o in range(3):
                            yield (g, a, b, u, o)
                            yield (g, a, b, u, o, 4)

    def nest():
        for n in range(1, 41):
            for w in range(6):
                yield (n, w)
        for ln in range(1, 41):
            for n in (1, 2, 3, 6):
                yield (n, 'len', ln)
        for ln in (60, 100, 120, 150, 200, 250):
            for n in (1, 2, 3):
                yield (n, 'len', ln)

    def reopen():
        for n in range(1, 6):
            for s in itertools.product('st', repeat=n):
                for w in range(6):
                    yield (''.join(s), w)

    def kinds():
        for u in range(len(USES)):
            for h in range(len(HOW)):
                for w in range(6):
                    yield (u, h, w)

    def local():
        for n in range(1, 6):
            for s in itertools.product('scldbf', repeat=n):
                yield ''.join(s)

    def around():
        for k in range(len(AROUND)):
            yield k

    def names():
        for a, b in itertools.product(range(len(NAMES)), repeat=2):
            for w in range(4):
                yield (a, b, w)

    def many():
        for n in list(range(1, 301)) + [459, 460, 461, 919, 920, 921, 922, 1000]:
            for w in range(4):
                yield (n, w)

    def expanded():
        for n in range(1, 7 if deep else 6):
            for q in itertools.product('stcmd', repeat=n):
                d, ok = 0, 'm' in q and ('s' in q or 't' in q)
                for c in q:
                    d += 1 if c in 'st' else -1 if c == 'c' else 0
                    ok = ok and 0 <= d <= 2
                if ok:
                    for b in range(len(BODY)):
                        yield (''.join(q), b)

    def bad():
        for k in range(len(BAD)):
            yield k
    return [('seq', seq()), ('shadow', shadow()), ('nest', nest()), ('reopen', reopen()), ('kinds', kinds()), ('local', local()), ('around', around()), ('names', names()), ('many', many()), ('expanded', expanded()), ('bad', bad())]


# the body of the macro of family expanded, with the name nn of the place of the call
BODY = [' lda #<nn\n lda nn\n', ' .word nn-1,s.nn\n', 'lab\n jmp lab\n', 'qq = \\1+1\n .word qq,nn\n', '.var v = \\1\nv = v+nn\n .word v\n', '.if nn > 60\n .byte 1\n.else\n .byte 2\n.endif\n', '.for i = 0 .to nn&3\n .byte i\n.next i\n',
        ' m2 nn\n', ' m2 \\1\n m2 nn+\\1\n', '@l\n lda nn\n bne @l\n', '* = * + (nn&7)\n nop\n', '.fill nn&255,nn&3\n', 'qq = nn\n.if qq < 60\n m2 qq\n.endif\n', '.while \\1 < 0\n nop\n.wend\n .word \\1,nn\n', '.section u\nxx = nn\n .word xx\n.ends\n', '.print nn\n .str nn&255\n']
AROUND = ['.macro m\n.section s\na1 = \\1\n .byte a1\n.ends\n.endm\n m 5\n', '.macro m\n .byte \\1\n.endm\n.section s\na1 = 3\n m a1\n m a1+1\n.ends\na1 = 4\n m a1\n m s.a1\n', '.macro m\n .byte s.a1\n.endm\n m\n.section s\na1 = 5\n.ends\n m\n',
          '.for i = 1 .to 3\n.section s\n .byte i,a1\n.ends\n.next i\n.section s\na1 = 9\n.ends\n', '.section s\n.for i = 1 .to 3\n .byte i,a1\n.next i\na1 = 9\n.ends\n', '.section s\n.for i = 1 .to 3\n .byte i\n.next i\n.ends\n.section t\n.for i = 1 .to 2\n .byte i\n.next i\n.ends\n', '.section s\n.var v = 1\n.repeat\n .byte v\nv = v+1\n.until v > 3\n .byte v\n.ends\n .byte s.v\n',
          '.if 1\n.section s\na1 = 3\n.ends\n.else\n.section s\na1 = 4\n.ends\n.endif\n .byte s.a1\n', '.section s\n.if 1\na1 = 3\n.else\na1 = 4\n.endif\n.ends\n .byte s.a1\n', '.ifdef k\n.section s\na1 = 3\n.ends\n.endif\n.ifdef s.a1\n .byte s.a1\n.endif\n', '.section s\na1 = 3\n.ifdef a1\n .byte 1\n.endif\n.ends\n.ifdef a1\n .byte 2\n.endif\n',
          '.section s\n.inc "i.a"\n.ends\n .word s.ii\n', '.inc "i.a"\n.section s\n .word ii\n.ends\n', '.inc "j.a"\n .word js.ii\n.section t\n .word js.ii\n.ends\n', '.section t\n.inc "j.a"\n .word t.js.ii\n.ends\n .word t.js.ii\n', '.section s\n- nop\n bne -\n bne +\n+ nop\n.ends\n', '- nop\n.section s\n bne -\n bne +\n.ends\n+ nop\n',
          '.section s\n* = $2000\na1 nop\n.ends\n .word s.a1,*\n', '.section s\n.var v = 3\n.ends\n.section s\nv = v + 1\n .byte v\n.ends\n .byte s.v\n', '.section s\n .bytex 1\n.ends\n', '.section s\n.macro m\n .byte \\1,a1\n.endm\na1 = 6\n m 1\n m a1\n.ends\n', '.SECTION s\na1 = 1\n.ENDSECTION\n .byte s.a1,S.A1\n', '.sect s\na1 = 1\n.ends\n .byte s.a1\n', '.section s\na1 = 1\n.ends\n.sect s\nb1 = a1+1\n.endsection\n .byte s.b1\n',
          '.section s ; c\na1 nop ; c\n.ends ; c\n .word s.a1 ; c\n', '.section s\nlda2 = 1\n.ends\n lda s.lda2\n', '.section x1\ny1 = 2\n.ends\n lda x1.y1,x\n lda x1.y1,y\n', '.section s\nn = 3\n.ends\n.for i = s.n .to 5\n .byte i\n.next i\n', '.section s\na1 = $fe\n.ends\n* = s.a1\n lda s.b1\n.section s\nb1 nop\n.ends\n', '.section s\n.end\n.ends\n nop\n', '.section s\n.print a1\na1 = 1\n.ends\n nop\n',
          '.section s\n.section t\n.section u\nd1 = 1\n.ends\nc1 = 2\n.ends\nb1 = 3\n.ends\na1 = 4\n .byte s.t.u.d1,s.t.c1,s.b1,a1\n'] + ['.section s\na1 = %s\n.ends\n .word s.a1\n' % v for v in ('0', '1', '255', '256', '65535', '*', '*+1', 'k')]
BAD = ['.ends\n', '.endsection\n nop\n', '.section s\n.ends\n.ends\n', '.section\n nop\n.ends\n', '.section 5\n.ends\n', '.section "s"\n.ends\n', ' .word s.a1\n', '.section s\na1 = 1\n.ends\n .word a1\n', '.section s\na1 = 1\n.ends\n .word s.b1\n', '.section s\na1 = 1\n.ends\n .word t.a1\n', '.section s\n.section t\na1 = 1\n.ends\n.ends\n .word t.a1\n', '.section s\n.section t\na1 = 1\n.ends\n.ends\n .word s.a1\n',
       '.section s\na1 = 1\na1 = 2\n.ends\n', '.section s\na1 = 1\n.ends\n.section s\na1 = 2\n.ends\n', '.section s\na1 = 65536\n.ends\n', '.section s\na1 = b1\n.ends\n', '.section s\na1 = a1+1\n.ends\n', '.section s,t\n.ends\n', '.section s t\n.ends\n', '.section s\n.endsection s\n', '.section s\na1 = t.b1+1\n.ends\n.section t\nb1 = s.a1+1\n.ends\n']


def test(fam, it):
    try:
        if fam == 'seq':
            t, st, n = '* = $1000\nk = 5\n', [], 0
            have = {}
            same = it[0] == '='
            it = it.lstrip('=')
            for c in it:
                n += 1
                if c in 'st':
                    st.append(c)
                    t += '.section %s\n' % c
                elif c == 'c':
                    if st:
                        st.pop()
                    t += '.ends\n'
                elif c in 'de':
                    # first definition of the name in this section
                    k = '.'.join(st + ['nn'])
                    if k in have:
                        return None
                    have[k] = 1
                    t += 'nn nop\n' if c == 'd' else 'nn = %d\n' % (7 if same else n * 17)
                else:
                    t += ' .word %s\n' % {'b': 'nn', 'p': 's.nn', 'q': 's.t.nn'}[c]
            # partially qualified names are not specified
            st = []
            for c in it:
                if c in 'st':
                    st.append(c)
                elif c == 'c' and st:
                    st.pop()
                elif c in 'pq' and st:
                    q = {'p': 's.nn', 'q': 's.t.nn'}[c]
                    if any('.'.join(st[:j]) + '.' + q in have for j in range(1, len(st) + 1)):
                        return None
            return ref_test(t + '.ends\n' * len(st))
        if fam == 'shadow':
            g, a, b, u, o = it[:5]
            G = ['', 'nn = 3\n', 'nn nop\n', '.var nn = 4\n', 'nn .equ $1234\n'][g]
            A = ['', 'nn = 13\n', 'nn nop\n', '.var nn = 14\n'][a]
            B = ['', 'nn = 23\n', 'nn nop\n', '.var nn = 24\n'][b]
            if len(it) > 5:
                # the same value everywhere
                G, A, B = (re.sub('= \\d+', '= 4', x) for x in (G, A, B))
            use = ' .word nn\n lda nn\n' + (' lda s.nn\n lda s.t.nn\n' if len(it) > 5 and u == 6 and a and b else '')
            U = ['', '', '', '', '', '', '']
            U[u] = use
            S = '.section s\n' + U[1] + A + U[2] + '.section t\n' + U[3] + B + U[4] + '.ends\n' + U[5] + '.ends\n'
            t = {0: G + U[0] + S + U[6], 1: U[0] + S + G + U[6], 2: U[0] + S + U[6] + G}[o]
            if '.var' in t and (3 in (a, b) or g == 3):
                # variables have values from their definition on
                if u in (0,) and o and g == 3 or g == 3 and o or a == 3 and u == 1 or b == 3 and u == 3:
                    return None
            return ref_test('* = $1000\n' + t)
        if fam == 'nest':
            n, w = it[0], it[1]
            t = '* = $1000\n'
            if w == 'len':
                nm = ['s' * it[2] if j % 2 == 0 else 't' * it[2] for j in range(n)]
                for s in nm:
                    t += '.section %s\n' % s
                t += 'v' * it[2] + ' nop\n' + '.ends\n' * n + ' .word %s\n' % '.'.join(nm + ['v' * it[2]])
                return ref_test(t)
            nm = ['s%d' % j for j in range(n)] if w < 3 else ['s'] * n if w < 5 else ['s', 't'] * n
            full = ['.'.join(nm[:j] + ['nn']) for j in range(n + 1)]
            uses = ''.join(' .word %s\n' % f for f in full)
            if w in (0, 3):
                t += 'nn = 100\n' + uses
            for j in range(n):
                t += '.section %s\n' % nm[j]
                t += 'nn = %d\n .word nn\n' % (101 + j)
            if w in (1, 4):
                t += uses if w == 1 else ' .word nn\n'
            for j in range(n - 1, -1, -1):
                t += ' .word nn\nm%d nop\n' % j + '.ends\n'
            if w not in (0, 3):
                t += 'nn = 100\n'
            t += uses + ' .word nn\n'
            return ref_test(t)
        if fam == 'reopen':
            s, w = it
            t, used = '* = $1000\n', set()
            q = []
            for j, c in enumerate(s):
                o = 't' if c == 's' else 's'
                t += '.section %s\n' % c
                t += 'd%d nop\n' % j if w % 2 else 'd%d = %d\n' % (j, 5 + j * 60)
                q.append('%s.d%d' % (c, j))
                for i in range(len(s)) if w > 1 else range(j + 1):
                    if s[i] == c:
                        t += ' .word d%d\n' % i
                    if w > 3:
                        t += ' .word %s.d%d\n' % (s[i], i)
                t += '.ends\n'
            return ref_test(t + ' .word ' + ','.join(q) + '\n')
        if fam == 'kinds':
            u, h, w = it
            d = '.section s\n' + HOW[h] + '.ends\n'
            use = USES[u].replace('%s', 's.xx')
            ui = USES[u].replace('%s', 'xx')
            if h == 6 and w in (1, 3, 5):
                return None
            pre = '* = $1000\nk = 5\n.macro m\n .word \\1\n lda \\1\n.endm\n'
            t = [d + use, use + d, '.section s\n' + HOW[h] + ui + '.ends\n', '.section s\n' + ui + HOW[h] + '.ends\n', d + '.section t\n' + use + '.ends\n', '.section t\nyy = 1\n' + use + '.ends\n' + d][w]
            return ref_test(pre + t + ' nop\n')
        if fam == 'local':
            t, n, d = '* = $1000\n', 0, 0
            for c in it:
                if c == 's':
                    t += '.section s\n'; d += 1
                elif c == 'c':
                    if not d:
                        return None
                    t += '.ends\n'; d -= 1
                elif c == 'l':
                    n += 1
                    t += 'g%d nop\n' % n
                elif c == 'd':
                    t += '@l nop\n'
                else:
                    t += ' bne @l\n' if c == 'b' else ' .word @l\n'
            return ref_test('* = $1000\ng0 nop\n' + t[len('* = $1000\n'):] + '.ends\n' * d)
        if fam == 'around':
            return ref_test('* = $1000\nk = 5\n' + AROUND[it], files={'i.a': 'ii nop\n .word ii\n', 'j.a': '.section js\nii nop\n .word ii\n.ends\n'})
        if fam == 'names':
            a, b, w = it
            a, b = NAMES[a], NAMES[b]
            if '.' in a or '.' in b or 'a' in (a.lower(), b.lower()):
                return None
            d = '.section %s\n%s = 5\n.ends\n' % (a, b)
            d2 = '.section %s\n%s = 9\n.ends\n' % (b, b)
            if w == 0:
                return ref_test('* = $1000\n' + d + ' .word %s.%s\n' % (a, b))
            if w == 1:
                if b.lower() == a.lower():
                    return None
                return ref_test('* = $1000\n' + d + d2 + ' .word %s.%s,%s.%s\n' % (a, b, b, b))
            if w == 2:
                return ref_test('* = $1000\n' + d + '%s = 7\n' % b + ' .word %s.%s,%s\n' % (a, b, b))
            if a.lower() == b.lower() or a.lower() == 'a':
                return None
            return ref_test('* = $1000\n' + '%s = 3\n%s%s = 4\n%s_%s = 6\n' % (a, a, b, a, b) + d + ' .word %s,%s%s,%s.%s,%s_%s\n' % (a, a, b, a, b, a, b)) if len({a, a + b, a + '_' + b, b}) == 4 else None
        if fam == 'many':
            n, w = it
            if w == 0:
                t = ''.join('.section s%d\nv = %d\n.ends\n' % (j, j) for j in range(n)) + ''.join(' .word s%d.v\n' % j for j in range(n))
            elif w == 1:
                t = ''.join(' .word s%d.v\n' % j for j in range(n)) + ''.join('.section s%d\nv nop\n.ends\n' % j for j in range(n))
            elif w == 2:
                t = '.section s\n' + ''.join('v%d nop\n' % j for j in range(n)) + '.ends\n' + ''.join(' .word s.v%d\n' % j for j in range(n))
            else:
                t = ''.join('.section s\nv%d nop\n .word v0\n.ends\n' % j for j in range(n)) + ' .word s.v0,s.v%d\n' % (n - 1)
            return ref_test('* = $1000\n' + t)
        if fam == 'expanded':
            q, b = it
            t, d, n = '.var i\n* = $1000\n.macro m2\n .word \\1,nn\n.endm\n.macro m\n' + BODY[b] + '.endm\n', 0, 0
            for c in q:
                n += 1
                if c in 'st':
                    if d and b == 1 and c == 's':
                        return None
                    d += 1
                    t += '.section %s\n' % c
                elif c == 'c':
                    d -= 1
                    t += '.ends\n'
                else:
                    t += ' m %d\n' % (n * 3) if c == 'm' else 'nn = %d\n' % (n * n * 31)
            return ref_test(t + '.ends\n' * d)
        if fam == 'bad':
            return ref_test('* = $1000\n' + BAD[it])
    except refasm.Unsupported:
        return None
