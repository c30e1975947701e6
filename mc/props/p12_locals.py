"""P12 local and anonymous labels"""
import itertools
from .. import refasm
from ..explore import ref_test, expect, src

ID = 'P12'
BOUNDS = {
    'local': 'all sequences of length <= 6 (thorough 7) over: labels, definitions of 2 local names, uses of them, constants',
    'anon': 'all sequences of length <= 6 (thorough 7) over: definitions of - and + labels, uses of -, --, +, ++ (and --- +++ in shorter ones)',
    'form': '24 operand contexts x 8 references (local before and after, -, --, +, ++) x label at the same, the previous, the next line, at zero page and absolute addresses',
    'line': 'lines with references to several anonymous labels: all lists of 2 and 3 of -, --, ---, +, ++, +++ in each of 4 statements x 0..4 labels of either kind before and behind',
    'depth': 'references of depth 1..60 with 0..62 labels before or after',
    'many': '1..400 labels, and 99, 100, 101, 4899..4901, 4999..5001, 5100 labels of each kind, local labels in 1..1000 scopes',
    'mixed': 'all sequences of length <= 5 over labels, local labels, anonymous labels and uses of all of them',
    'files': 'all sequences of length <= 5 over definitions, uses and file borders (included files and several source files)',
    'again': 'a source of <= 4 and a file of <= 3 items over: - and + labels, uses of -, --, + and ++, the include of the file (so once to four times); the source named twice; the file under two names that differ in case',
    'names': 'all pairs of 14 similar local names and 10 similar label names',
    'far': 'distances around the branch limits to local and anonymous labels in both directions',
    'scopes': 'what starts a new scope of local labels (12 statements), local names with constants, in conditionals, beside loops and macros',
    'macro': 'macros nested up to three deep: every choice of 12 bodies (of a definition and uses of one local name and the call of the next macro) for each of them and of 12 texts around the call, with labels between',
    'lines': '13 programs of anonymous and local labels whose uses and definitions stand around line n = 100, 128, 255..257, 1000, 4096, 9999..10001, 32765..32769, 65533..65537, 70000 and 100000, and spread over all of it',
    'inblock': 'all sequences of length <= 4 over labels - and + and uses of -, --, + and ++ in 15 kinds of block (conditionals, loops, macros, nested ones)',
    'moved': 'all sequences of length <= 5 (thorough 6) over - and + labels, uses of -, --, + and ++, and changes of the address: forwards, backwards by less and more than was laid out, to the zero page',
    'same': 'all sequences of length <= 6 (thorough 7) over two ordinary labels, one of a name that other sections have too, the begin and end of sections, definitions and uses of a local label',
    'bad': 'undefined, too deep, doubled and misplaced labels',
}
ASSUMES = ['no anonymous label stands in a macro, loop or conditional; a use in a macro is one at the place of the call', 'a local label is used in the section it is defined in']
CTX = [' bne %s\n', ' beq %s\n', ' jmp %s\n', ' jsr %s\n', ' .word %s\n', ' lda %s\n', ' lda %s,x\n', ' sta %s,y\n', ' ldx %s,y\n', ' jmp (%s)\n', ' lda (%s),y\n', ' lda #<%s\n', ' .byte <%s,>%s\n', ' .word %s+1\n', ' .word (%s)\n', ' .word 1,%s\n', ' .word %s-$1000\n', 'zz = %s\n .word zz\n', ' bcc %s ; c\n', '\tBVS\t%s\n', ' .word %s,%s\n', ' bpl %s\n', ' inc %s\n', ' .str <%s\n']
REFS = ['@l', '-', '--', '+', '++', '---', '+++', '@m']
LN = ['a', 'ab', 'abc', 'b', '_', 'a_', 'a1', 'A', 'aB', 'l', '__', 'a__b', 'loop', 'x']
GN = ['g', 'gg', 'g_', 'g1', 'G2', 'g__', 'abc', 'long_label_name', '_g', 'g12']


MB = ['c', 'cc', 'ucd', 'dcu', 'ud', 'cduc', 'udc', 'cwd', 'dcuc', 'ucdcu', 'wccd', 'u']
MT = ['c', 'cc', 'ucd', 'dcu', 'cud', 'dcgc', 'gcduc', 'dcucu', 'cgudc', 'dcgu', 'wcdc', 'gdcccu']


LINES = ['@N- nop\n bne -\n', '- nop\n@N bne -\n', '- nop\n@N- inx\n bne -\n bne --\n', '@N bne +\n nop\n+ nop\n', ' bne +\n bne ++\n@N+ nop\n+ nop\n', '- nop\n@H- nop\n bne -\n bne --\n@H- nop\n bne ---\n', '@H beq +\n@H+ nop\n beq +\n\n\n\n\n+ nop\n', 'g nop\n@l nop\n@N bne @l\n', '@N nop\ng nop\n bne @l\nh nop\n@l nop\n bne @l\n@N@l2 nop\n bne @l2\n'.replace(' bne @l\nh', ' bne @m\n@m nop\nh'), '@N- bne -\n- bne -\n- bne --\n+ bne +\n+ bne +\n+ nop\n', '+ nop\n@H beq +\n- nop\n+ bne -\n@H beq +\n- nop\n+ bne --\n', '- nop\n@Nh jmp h\n- .word -\n', '@N+ .word +\n+ nop\n'.replace('@N+', '@N')]


def families(tier):
    deep = tier == 'thorough'

    def local():
        for n in range(1, 8 if deep else 7):
            for s in itertools.product('gdevwk' if n < 7 else 'gdvw', repeat=n):
                s = ''.join(s)
                if s.count('g') > 3 or ('v' not in s and 'w' not in s) or n == 6 and not deep and 'k' in s:
                    continue
                yield s

    def anon():
        for n in range(1, 8 if deep else 7):
            for s in itertools.product('-+mMpP' if n > 4 else '-+mMnpPq', repeat=n):
                s = ''.join(s)
                if n > 5 and s.count('-') + s.count('+') < 2:
                    continue
                yield s

    def form():
        for c in range(len(CTX)):
            for r in range(len(REFS)):
                for lay in range(6):
                    for org in (0x10, 0xF8, 0xFC, 0x1000):
                        yield (c, r, lay, org)

    def line():
        for r in [s for n in (2, 3) for s in itertools.product(range(6), repeat=n)]:
            for b, a in ((2, 2), (3, 3), (4, 3), (3, 4), (1, 3), (3, 0)):
                for st in range(4):
                    yield (r, b, a, st)

    def depth():
        for d in range(1, 61):
            for n in range(0, 63):
                for k in '-+':
                    if d <= 20 or abs(n - d) < 3 or n in (0, 61, 62):
                        yield (k, d, n)

    def many():
        for n in list(range(1, 401, 1 if deep else 3)) + [99, 100, 101, 511, 512, 920, 921, 922, 1000]:
            for k in ('-', '+', '-+', '@', '@@'):
                yield (n, k)
        for n in (4898, 4899, 4900, 4901, 4902, 4999, 5000, 5001, 5100):
            for k in '-+':
                yield (n, k)

    def mixed():
        for n in range(2, 6):
            for s in itertools.product('gdv-mp+', repeat=n):
                yield ''.join(s)

    def files():
        for n in range(1, 6):
            for s in itertools.product('-+mMpPb', repeat=n):
                s = ''.join(s)
                if s.count('b') > 3:
                    continue
                for w in range(4) if 'b' in s else (2,):
                    yield (s, w)

    def names():
        for a, b in itertools.product(range(len(LN)), repeat=2):
            for w in range(2):
                yield ('l', a, b, w)
        for a, b in itertools.product(range(len(GN)), repeat=2):
            for c in (0, 3, 10):
                yield ('g', a, b, c)

    def far():
        for k in ('@', '-', '+', '--', '++'):
            for d in list(range(120, 136)) + [0, 1, 2, 250, 256, 300]:
                for br in ('bne', 'bcs', 'jmp', 'bvc'):
                    for w in range(3):
                        yield (k, d, br, w)

    def scopes():
        for k in range(len(SCOPE)):
            for w in range(4):
                yield (k, w)
        for k in range(len(LOCS)):
            yield ('x', k)

    def macro():
        yield from itertools.product(range(12), repeat=4)

    def lines():
        for n in (100, 128, 255, 256, 257, 1000, 4096, 9999, 10000, 10001, 32765, 32766, 32767, 32768, 32769, 65533, 65534, 65535, 65536, 65537, 70000) + ((100000, 131071, 131072) if deep else (100000,)):
            for k in range(len(LINES)):
                yield (k, n)

    def same():
        for n in range(3, 8 if deep else 7):
            for q in itertools.product('GhOCdu', repeat=n):
                d = 0
                for c in q:
                    d += (c == 'O') - (c == 'C')
                    if d < 0:
                        break
                if d < 0 or 'O' not in q or 'u' not in q or 'd' not in q or n > 5 and q.count('G') < 2:
                    continue
                yield ''.join(q)

    def moved():
        for n in range(2, 7 if deep else 6):
            for q in itertools.product('-+mMpPudz', repeat=n):
                if not set(q) & set('udz') or not set(q) & set('mMpP') or not set(q) & set('-+'):
                    continue
                if n == 5 and not deep and 'z' in q and 'u' in q:
                    continue
                yield ''.join(q)

    def bad():
        for k in range(len(BAD)):
            yield k
    def again():
        F = [''.join(x) for n in range(1, 4) for x in itertools.product('-+mp', repeat=n)] + ['-M', '--M', 'P++', 'PP++', 'M-', '+P']
        T = [''.join(x) for n in range(1, 5 if deep else 4) for x in itertools.product('-+mpi', repeat=n)] + ['iiii', 'iMii', '-iMi', '--iiM', 'Piii++', 'i+iPi+', 'iiPP+i+']
        for t in T:
            if 'i' in t:
                for f in F:
                    for w in range(2):
                        if w == 0 or t.count('i') > 1:
                            yield (t, f, w)
        for t in F:
            yield (t, '', 2)
    def inblock():
        for n in range(1, 5):
            for q in itertools.product('-+bBC' if n == 4 and not deep else '-+bBCD', repeat=n):
                if set(q) & set('bBCD'):
                    for b in range(len(INBLOCK)):
                        if n < 4 or deep or q.count('b') + q.count('B') + q.count('C') < 3:
                            for w in range(n == 4, 2):
                                yield (''.join(q), b, w)
    return [('again', again()), ('local', local()), ('anon', anon()), ('form', form()), ('line', line()), ('depth', depth()), ('many', many()), ('mixed', mixed()), ('files', files()), ('names', names()), ('far', far()), ('scopes', scopes()), ('macro', macro()), ('lines', lines()), ('inblock', inblock()), ('moved', moved()), ('same', same()), ('bad', bad())]


INBLOCK = ['.if 1\nR.endif\n', '.if 0\n nop\n.else\nR.endif\n', '.ifndef zz\nR.endif\n', '.ifdef zz\n.else\nR.endif\n', '.for i = 1 .to 2\nR.next i\n', '.repeat\nR.until 1\n', '.do\nR nop\n.while 0\n', 'i = 0\n.while i < 2\nR.wend\n'.replace('.wend', 'i = i + 1\n.wend'),
           'M', 'N', '.for i = 1 .to 2\nM.next i\n', '.if 1\n.if 1\nR.endif\n.for i = 0 .to 1\nR.next i\n.endif\n', '.section s#\nR.ends\n', ' p R0\n', '.if 1\nN.endif\n']
IREF = {'b': '-', 'B': '--', 'C': '+', 'D': '++'}
SCOPE = ['', ' nop\n', 'kk = 5\n', 'kk .equ 5\n', '.var kk = 5\n', '; gg:\n', '/* gg */\n', '* = *\n', '.for i = 1 .to 2\n nop\n.next i\n', '.if 1\nkk = 5\n.endif\n', ' m\n', '- nop\n', '+ nop\n', '.macro m2\ngg nop\n.endm\n', '.macro m3\n@l\n nop\n.endm\n m3\n', 'gg\n', 'gg: nop\n', 'gg nop\n', '.ifdef nosuch\ngg nop\n.endif\n', '.ifdef kz\ngg nop\n.endif\n', '.print "x"\n', '.section s\n.ends\n', '.inc "e.a"\n', '.inc "g.a"\n']
LOCS = ['g nop\n@c = 5\n lda @c\nh nop\n@c = $1234\n lda @c\n', '@c = 5\n lda @c\ng nop\n@c = 7\n lda @c\n', 'g\n@l\n nop\n bne @l\n', 'g: nop\n@l: nop\n bne @l\n', 'g nop\n@l nop\n.for i = 1 .to 3\n bne @l\n.next i\n', 'g nop\n.for i = 1 .to 3\n bne @l\n.next i\n@l nop\n', 'g nop\n.if 1\n bne @l\n.endif\n@l nop\n', 'g nop\n@l nop\n m @l&255\n', 'g nop\n m @l&255\n@l nop\n', 'g nop\n@l nop\n.repeat\n.word @l\n.until 1\n',
        'g nop\n@l = * + 3\n bne @l\n bne @l\n', 'g nop\n@a = @b+1\n@b = @c+1\n@c = 5\n .byte @a,@b,@c\n', 'g nop\n@l nop\n.for x = 1 .to 2\n jmp @l\n.next x\nh nop\n', 'g nop\n@l nop\nk2 = @l\nh nop\n .word k2\n', 'g nop\n@l nop\n.if @l == $1002\n .byte 1\n.else\n .byte 2\n.endif\n', 'g nop\n@l nop\n.var v = @l\nh nop\n .word v\n', 'g nop\n@l nop\n.fill @l&7,1\n', 'g nop\n.regx\n', '.for .regx = 1 .to 3\n bne *\n.next x\n', 'g nop\n@l nop\n.for .regx = 0 .to 3\n bne @l\n.next x\n']
BAD = [' bne @l\n', 'g nop\n@l nop\nh nop\n bne @l\n', 'g nop\n bne @l\nh nop\n@l nop\n', ' bne -\n', ' bne +\n', '- nop\n bne --\n', ' bne ++\n+ nop\n', '-- nop\n', '++ nop\n', '- nop\n- nop\n bne ---\n', ' bne +++\n+ nop\n+ nop\n', ' bne +\n- nop\n', '+ nop\n bne -\n', '+ nop\n bne +\n', ' bne -\n- nop\n', '@ nop\n', ' bne @\n', 'g nop\n@l nop\n@l nop\n bne @l\n', '@1 nop\n', ' .word g.@l\ng nop\n@l nop\n']


def test(fam, it):
    try:
        if fam == 'local':
            t, n = '* = $1000\n', 0
            for c in it:
                n += 1
                t += {'g': 'g%d nop\n' % n, 'd': '@a nop\n', 'e': '@b nop\n', 'v': ' .word @a\n', 'w': ' bne @b\n', 'k': 'k%d = %d\n' % (n, n)}[c]
            return ref_test(t)
        if fam == 'again':
            t, f, w = it
            P = {'-': '- nop\n', '+': '+ nop\n', 'm': ' jmp -\n', 'M': ' .word --\n', 'p': ' bne +\n', 'P': ' .word ++\n'}
            if w == 2:
                return ref_test(''.join(P[c] for c in t), ['t.a'])
            x, n = '* = $1000\n', 0
            for c in t:
                n += 1
                x += ' .inc "%s"\n' % ('FF' if w and n % 2 else 'ff') if c == 'i' else P[c]
            b = ''.join(P[c] for c in f)
            return ref_test(x, files={'ff': b, 'FF': b} if w else {'ff': b})
        if fam == 'anon':
            t = '* = $1000\n'
            for c in it:
                t += {'-': '- nop\n', '+': '+ nop\n', 'm': ' .word -\n', 'M': ' .word --\n', 'n': ' .word ---\n', 'p': ' bne +\n', 'P': ' .word ++\n', 'q': ' .word +++\n'}[c]
            return ref_test(t)
        if fam == 'form':
            c, r, lay, org = it
            u = CTX[c].replace('%s', REFS[r])
            d = {'@l': '@l nop\n', '@m': '@m = *\n nop\n'}.get(REFS[r], REFS[r][0] + ' nop\n')
            if '@' in d:
                t = ['g nop\n' + d + u, 'g nop\n' + u + d, 'g nop\n' + d + ' nop\n' + u, u + d, d + u, 'g nop\n' + u + ' clc\n' + d][lay]
            else:
                t = [d * 3 + u, u + d * 3, d + ' nop\n' + d + ' nop\n' + d + u, u + ' nop\n' + d + ' nop\n' + d + d, d[0] + u + d * 3, d * 3 + d[0] + u][lay]
                if u.startswith('zz') and lay > 3:
                    return None
            return ref_test('* = %d\n' % org + t)
        if fam == 'depth':
            k, d, n = it
            u = ' .word %s\n jmp %s\n' % (k * d, k * d)
            ds = ''.join('%s .byte %d\n' % (k, j) for j in range(n))
            return ref_test('* = $1000\n' + (ds + u + '- nop\n+ nop\n' if k == '-' else '+ nop\n' + u + ds))
        if fam == 'many':
            n, k = it
            if k == '-':
                t = '- nop\n bne -\n' * n + ' jmp -\n'
            elif k == '+':
                t = ' bne +\n+ nop\n' * n
            elif k == '-+':
                t = '- bne +\n bne -\n+ nop\n' * n
            elif k == '@':
                t = ''.join('g%d nop\n bne @l\n@l nop\n bne @l\n' % j for j in range(n))
            else:
                t = ''.join('@l%d nop\n' % j for j in range(n)) + ''.join(' .word @l%d\n' % j for j in range(n))
            if n > 1000:
                t = k + ' nop\n'
                t = ' bne +\n' * (k == '+') + t * n + ' bne -\n' * (k == '-')
            return ref_test('* = $1000\n' + t, timeout=30)
        if fam == 'same':
            t, st = '* = $1000\n', []
            for k, c in enumerate(it):
                if c == 'O':
                    st.append(k)
                    t += '.section s%d\n' % k
                elif c == 'C':
                    st.pop()
                    t += '.ends\n'
                else:
                    t += {'G': 'gg nop\n', 'h': 'h%d nop\n' % k, 'd': '@l\n inx\n', 'u': ' jmp @l\n'}[c]
            return ref_test(t + '.ends\n' * len(st))
        if fam == 'moved':
            t = '* = $1000\n- nop\n- nop\n'
            for c in it:
                t += {'-': '- inx\n', '+': '+ dex\n', 'm': ' bne -\n', 'M': ' lda --,x\n', 'p': ' bne +\n', 'P': ' lda ++,x\n', 'u': '* = * + 32\n', 'd': '* = * - 32\n', 'z': '* = $90\n'}[c]
            return ref_test(t + '+ nop\n+ nop\n')
        if fam == 'inblock':
            q, b, w = it
            t = '* = $1000\n.var i\n.macro p\n .word \\1,-1\n.endm\n'
            for k, r in IREF.items():
                t += '.macro m%d\n bne %s\n .word %s\n.endm\n.macro n%d\n nop\n m%d\n jmp %s\n.endm\n' % (ord(k), r, r, ord(k), ord(k), r)
            for j, c in enumerate('--' * w + q + '++' * w):
                if c in '-+':
                    t += c + ' inx\n'
                else:
                    t += INBLOCK[b].replace('R0', IREF[c]).replace('R', ' bne %s\n lda %s,x\n' % (IREF[c], IREF[c])).replace('M', ' m%d\n' % ord(c)).replace('N', ' n%d\n' % ord(c)).replace('#', str(j))
            return ref_test(t)
        if fam == 'mixed':
            t, n = '* = $1000\n', 0
            for c in it:
                n += 1
                t += {'g': 'g%d nop\n' % n, 'd': '@a nop\n', 'v': ' bne @a\n', '-': '- nop\n', '+': '+ nop\n', 'm': ' bne -\n', 'p': ' bne +\n'}[c]
            return ref_test(t)
        if fam == 'files':
            s, w = it
            parts = s.split('b')
            x = lambda p: ''.join({'-': '- nop\n', '+': '+ nop\n', 'm': ' .word -\n', 'M': ' .word --\n', 'p': ' .word +\n', 'P': ' .word ++\n'}[c] for c in p)
            names = ['i.a', 'I2.a', 'z.a', 'a.a']
            if w == 0:
                t = x(parts[0])
                f = {}
                for j, p in enumerate(parts[1:]):
                    f[names[j]] = x(p)
                    t += '.inc "%s"\n' % names[j]
                return ref_test('* = $1000\n' + t, files=f)
            if w == 1:
                f = {names[j]: x(p) for j, p in enumerate(parts[1:])}
                return ref_test('* = $1000\n' + x(parts[0]), files=f, args=list(f))
            if w == 2:
                if len(parts) > 3:
                    return None
                # file included in the middle: parts 0 and 2 belong to one file
                t = x(parts[0])
                if len(parts) > 1:
                    t += '.inc "i.a"\n' + (x(parts[2]) if len(parts) > 2 else '')
                return ref_test('* = $1000\n' + t, files={'i.a': x(parts[1])} if len(parts) > 1 else {})
            # nested
            f = {}
            for j, p in enumerate(parts[1:]):
                f[names[j]] = ' clc\n' + x(p) + ('.inc "%s"\n' % names[j + 1] if j + 2 < len(parts) else '')
            return ref_test('* = $1000\n' + x(parts[0]) + '.inc "i.a"\n', files=f)
        if fam == 'names':
            if it[0] == 'l':
                _, a, b, w = it
                a, b = LN[a], LN[b]
                if a.lower() == b.lower():
                    return None
                if w == 0:
                    return ref_test('* = $1000\ng nop\n@%s nop\n@%s clc\n .word @%s,@%s\nh nop\n@%s nop\n .word @%s\n' % (a, b, a, b, a, a))
                return ref_test('* = $1000\n%sx nop\n@%s nop\n .word @%s\n%sy nop\n@%s nop\n .word @%s\n' % (a, b, b, b, b, b))
            _, a, b, c = it
            a, b, c = GN[a], GN[b], LN[c]
            if a.lower() == b.lower():
                return None
            return ref_test('* = $1000\n%s nop\n@%s nop\n .word @%s\n%s nop\n .word @%s\n@%s nop\n .word %s,%s\n' % (a, c, c, b, c, c, a, b))
        if fam == 'far':
            k, d, br, w = it
            fill = ' .fill 1,%d\n' % d
            if k == '@':
                t = ['g nop\n@l nop\n' + fill + ' %s @l\n' % br, 'g nop\n %s @l\n' % br + fill + '@l nop\n', 'g nop\n@l nop\n' + fill + ' %s @l\n' % br + 'h nop\n@l nop\n %s @l\n' % br][w]
            elif k[0] == '-':
                t = '- nop\n' * len(k) + fill + ' %s %s\n' % (br, k) + ['', '- nop\n', ' %s -\n' % br][w]
            else:
                t = ['', '+ nop\n', ' %s +\n' % br][w] + ' %s %s\n' % (br, k) + fill + '+ nop\n' * len(k)
            return ref_test('* = $1000\n' + t + ' rts\n')
        if fam == 'scopes':
            P = '* = $1000\nkz = 1\n.macro m\n nop\n.endm\n'
            F = {'e.a': ' nop\n', 'g.a': 'gi nop\n'}
            if it[0] == 'x':
                if it[1] in (17, 19):
                    return None
                P = '* = $1000\nkz = 1\n.macro m\n .byte \\1\n.endm\n'
                return ref_test(P + LOCS[it[1]])
            k, w = it
            S = SCOPE[k]
            t = ['g nop\n@l nop\n' + S + ' bne @l\n', 'g nop\n bne @l\n' + S + '@l nop\n', 'g nop\n@l nop\n' + S + '@l nop\n bne @l\n', 'g nop\n bne @l\n@l nop\n' + S + '@m nop\n bne @m\n'][w]
            if S.startswith('.for') and w == 2:
                pass
            return ref_test(P + t, files=F)
        if fam == 'lines':
            k, n = it
            return ref_test('* = $1000\n' + LINES[k].replace('@N', '\n' * (n - 3)).replace('@H', '\n' * (n // 2)), timeout=20)
        if fam == 'line':
            r, b, a, st = it
            n = [['-', '--', '---', '+', '++', '+++'][x] for x in r]
            s = [' .word %s\n' % ','.join(n), ' .word %s\n' % ','.join('(%s)+%d' % (x, j) for j, x in enumerate(n)), ' .byte %s\n' % ','.join('<%s' % x for x in n), ' .var va = %s\n .word va-(%s)\n' % (n[0], n[1])][st]
            return ref_test('* = $1000\n' + ''.join(('- nop\n', '+ inx\n', '- iny\n', '-\n dex\n')[j] for j in range(b)) + s + ''.join(('+ nop\n', '+ inx\n', '- iny\n', '+\n dex\n')[j] for j in range(a)))
        if fam == 'macro':
            P = '* = $1000\n' + ''.join('.macro m%d\n%s.endm\n' % (k, ''.join({'d': '@l\n nop\n', 'u': ' bne @l\n', 'c': ' m%d\n' % (k - 1) if k else ' inx\n', 'w': ' .word @l\n'}[c] for c in MB[it[k]])) for k in range(3))
            return ref_test(P + ''.join({'d': '@l iny\n', 'u': ' beq @l\n', 'c': ' m2\n', 'w': ' .word @l\n', 'g': 'g nop\n'}[c] for c in MT[it[3]]))
        if fam == 'bad':
            return ref_test('* = $1000\n' + BAD[it])
    except refasm.Unsupported:
        return None
