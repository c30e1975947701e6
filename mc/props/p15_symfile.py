"""P15 the symbol file shows the symbols of the output"""
import itertools
from .. import refasm
from ..explore import ref_test

ID = 'P15'
BOUNDS = {
    'seq': 'all sequences of length <= 5 of 13 kinds of definition and use (labels, constants, forward uses, variables, local and anonymous labels, sections, macros)',
    'count': '0..80 symbols, and 180..190, 362..372, 730..740, 915..927, 1830..1850, 4000, 33000, defined in 3 orders with 3 families of names',
    'value': 'constants and labels of all values round 0, byte, sign and word borders, all pairs and triples of 9 values in all orders',
    'name': 'names of every length 1..200 and round 256, 512 and 1024, all pairs of 16 confusable names',
    'kind': '26 places a symbol can be used in x label or constant x before or after its definition',
    'settle': 'symbols whose values change over 2..12 passes',
    'passes': 'the 4 kinds of programs that take up to 16 passes with symbols of the command line, used and unused: all of them shown',
    'late': 'symbols that are used for the first time in pass 1..13, in 6 kinds of use, with the definition before, behind or at both ends of a chain of constants',
    'define': 'command line definitions of all values round the borders in 5 notations, used, unused and beside other symbols',
    'file': 'definitions and uses over included files and several sources in all orders',
    'section': 'all sequences of length <= 4 over sections with labels and constants of the same names',
    'other': 'with and without output file, listing, log, verbose',
}
ASSUMES = ['whether a symbol that is defined and not used is shown is not specified', 'the order of symbols of the same value and the letter case of names are not specified', 'the symbol file of a program in error is not specified']
SEQ = ['l%d nop\n', 'k%d = $%d0\n', ' jmp l0\n', ' lda k1\n', ' jmp z\n', '.var v%d = 3\n .byte v%d\n', 'g%d nop\n@x bne @x\n', '- bne -\n', '.section s%d\nq nop\nc = 5\n jmp q\n lda #c\n.ends\n jmp s%d.q\n', '.macro m%d\n lda \\1\n.endm\n m%d 5\n', 'c%d .equ l0+%d\n .word c%d\n', '* = $20%d0\n', 'un%d nop\nuk%d = 7\n']
NAMES = ['a1', 'ab', 'abc', 'Abc', 'aBd', '_', '__', 'a_b', 'a_b_', 'l', 'll', 'zz', 'q1', 'q10', 'q100', 'k_1']
KIND = [' jmp %s\n', ' lda %s\n', ' lda #<%s\n', ' .byte >%s\n', ' .word %s\n', ' .word 1,%s,2\n', ' .word (%s)\n', ' .word %s+1\n', ' .word 1-%s+%s\n', 'kk = %s\n .word kk\n', 'kk .equ %s+1\n .word kk\n', '.if %s > 0\n nop\n.endif\n', '.fill %s&3,1\n', '.var i\n.for i = %s&1 .to 2\n .byte i\n.next i\n', '.var w = %s\n .word w\n', '.macro m\n .word \\1\n.endm\n m %s\n', '.macro m\n .word %s\n.endm\n m\n', ' .print %s\n', '* = %s+$200\n nop\n', ' .str %s\n', ' lda (%s&255),y\n', ' sta %s,x\n', '.var i = 0\n.repeat\ni = i + 1\n.until i == (%s&3)+1\n', '.for .regx = %s&3 .to 5\n nop\n.next x\n', '.while %s < 0\n nop\n.wend\n', '.section s\n jmp %s\n.ends\n']


LATE = [' lda ww\n', ' .word ww\n', ' jmp ww\n .byte ww\n', ' mm ww\n', 'k9 = ww + 1\n lda k9\n', '.if ww == 7\n nop\n.endif\n']


def families(tier):
    deep = tier == 'thorough'

    def seq():
        for n in range(1, 6):
            for s in itertools.product(range(len(SEQ)), repeat=n):
                if n == 5 and not deep and (len(set(s)) < 5 or list(s) != sorted(s) and sum(s) % 6):
                    continue
                if n == 4 and not deep and sum(s) % 2:
                    continue
                yield s

    def count():
        for n in list(range(0, 81)) + [x for a, b in ((180, 190), (362, 372), (730, 740), (915, 928), (1830, 1851)) for x in range(a, b, 1 if deep else 3)] + [921, 922, 1842, 1843, 4000]:
            for w in range(3):
                for f in range(3):
                    if n < 100 or w == f or deep:
                        yield (n, w, f)
        for n in (16384, 32766, 32767, 32768, 33000):
            for w in range(2):
                yield (n, w, 0)

    def value():
        vs = (0, 1, 9, 10, 15, 16, 127, 128, 254, 255, 256, 257, 4095, 4096, 32767, 32768, 65279, 65280, 65534, 65535)
        for v in vs:
            for w in range(2):
                yield ('one', v, w)
        few = (0, 1, 255, 256, 32767, 32768, 40000, 65534, 65535)
        for n in (2, 3):
            for s in itertools.product(few, repeat=n):
                yield ('perm', s, 0)
        for s in itertools.permutations((0, 1, 32768, 65535, 255, 256), 6):
            yield ('perm', s, 0)

    def name():
        for n in list(range(1, 201)) + [254, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1023, 1024, 1025]:
            for w in range(2):
                yield ('n', n, w)
        for a, b in itertools.permutations(range(len(NAMES)), 2):
            yield ('p', a, b)

    def kind():
        for k in range(len(KIND)):
            for w in range(4):
                for v in (5, 200, 1000):
                    yield (k, w, v)

    def settle():
        for n in range(1, 13):
            for w in range(4):
                yield (n, w)

    def passes():
        for n in range(1, 14):
            for w in range(4):
                for u in range(4):
                    yield (n, w, u)

    def late():
        for n in range(1, 13):
            for k in range(n + 1):
                for u in range(len(LATE)):
                    for pos in range(3):
                        yield (n, k, u, pos)

    def define():
        for v in (0, 1, 127, 128, 255, 256, 32767, 32768, 65534, 65535):
            for f in range(5):
                for u in range(4):
                    yield (v, f, u)
        for n in range(1, 30):
            yield ('n', n, 0)

    def file():
        for n in range(2, 5):
            for s in itertools.product('dukes', repeat=n):
                for w in range(3):
                    yield (''.join(s), w)

    def section():
        for n in range(1, 5):
            for s in itertools.product('ablkuUn', repeat=n):
                yield ''.join(s)

    def other():
        for k in range(8):
            for w in range(4):
                yield (k, w)
    return [('seq', seq()), ('count', count()), ('value', value()), ('name', name()), ('kind', kind()), ('settle', settle()), ('passes', passes()), ('late', late()), ('define', define()), ('file', file()), ('section', section()), ('other', other())]


def read(b):
    """symbol file -> [(name, value)] or a complaint"""
    rows = []
    lines = b.decode('latin-1').split('\n')
    for l in lines:
        w = l.split()
        if len(w) % 2 or len(w) > 10:
            return 'row of unknown form: ' + l[:80]
        for n, v in zip(w[::2], w[1::2]):
            if len(v) != 5 or v[0] != '$' or any(c not in '0123456789ABCDEF' for c in v[1:]):
                return 'value of unknown form: ' + v
            rows.append((n.lower(), int(v[1:], 16)))
    full = [len(l.split()) // 2 for l in lines if l.split()]
    if any(k != 5 for k in full[:-1]):
        return 'rows of %s symbols' % full[:4]
    return rows


def check(o, r):
    if not o.ok:
        return []
    b = r.outs.get('out.sym')
    if b is None:
        return ['no symbol file']
    got = read(b)
    if isinstance(got, str):
        return [got]
    syms = {k: v for k, v in o.syms.items() if isinstance(k, str)}
    names = [n for n, _ in got]
    known = set(names)
    if len(known) != len(names):
        return ['%s is in the symbol file twice' % [n for n in names if names.count(n) > 1][0]]
    for n, v in got:
        if n not in syms:
            return ['%s is in the symbol file, it is not a symbol of the program' % n]
        if syms[n] != v:
            return ['%s is $%04X, the symbol file says $%04X' % (n, syms[n], v)]
    for k in o.used:
        if isinstance(k, str) and k not in known:
            return ['%s is used but not in the symbol file' % k]
    if [v for _, v in got] != sorted(v for _, v in got):
        return ['symbol file is not in the order of values']
    return []


def sym(t, args=(), files=None, timeout=6, extra=None):
    return ref_test(t, ['-s', 'out.sym'] + list(args), files, ('out.bin', 'out.sym'), extra or check, timeout)


def test(fam, it, sym=sym):
    try:
        if fam == 'seq':
            t = ''
            for j, k in enumerate(it):
                t += SEQ[k].replace('%d', str(j))
            return sym(t + 'z nop\n')
        if fam == 'count':
            n, w, f = it
            nm = [lambda k: 'sym%d' % k, lambda k: chr(97 + k % 26) + chr(97 + k // 26 % 26) + chr(97 + k // 676 % 26) + '_', lambda k: 'q' * (1 + k % 40) + '%04d' % (k * 7919 % 10007)][f]
            idx = list(range(n))
            if w == 1:
                idx.reverse()
            if w == 2:
                idx = [k * 7 % n for k in range(n)] if n % 7 else idx[::2] + idx[1::2]
            d = ''.join('%s = %d\n' % (nm(k), k * 13 % 65536) for k in idx)
            u = ''.join((' .word %s\n' if n < 5000 else ' .byte <%s\n') % (',' if n < 5000 else ',<').join(nm(j) for j in range(k, min(n, k + 9))) for k in range(0, n, 9))
            return sym((d + u) if w != 1 else (' nop\n' + u + d), timeout=30)
        if fam == 'value':
            k, v, w = it
            if k == 'one':
                return sym('kk = %d\n .word kk\n' % v if w == 0 else '* = %d\nll .byte 1\n .byte <ll\n' % v)
            return sym(''.join('k%d = %d\n' % (j, x) for j, x in enumerate(v)) + ''.join(' .word k%d\n' % j for j in range(len(v))))
        if fam == 'name':
            k, a, b = it
            if k == 'n':
                nm = 's' * a
                return sym(['%s nop\n jmp %s\n', ' jmp %s\n%s nop\n'][b] % (nm, nm))
            return sym('%s nop\n%s = 5\n jmp %s\n lda #%s\n' % (NAMES[a], NAMES[b], NAMES[a], NAMES[b]))
        if fam == 'kind':
            k, w, v = it
            u = KIND[k].replace('%s', 'sy')
            d = 'sy = %d\n' % v if w < 2 else '* = %d\nsy nop\n' % v
            if w & 1 and w > 1:
                d = 'sy nop\n'
            return sym(d + u if w % 2 == 0 else u + d)
        if fam == 'late':
            n, k, u, pos = it
            d = 'ww = 7\nw2 = ww + 1\n'
            b = '.if c%d == 1\n%s.endif\n' % (k, LATE[u])
            ch = ''.join('c%d = c%d\n' % (j, j + 1) for j in range(n)) + 'c%d = 1\n' % n
            t = '.macro mm\n .byte \\1\n.endm\n* = $1000\n' + [d + b + ch, b + d + ch, b + ch + d][pos] + ('' if u % 2 else ' .byte w2\n')
            return sym(t)
        if fam in ('settle', 'passes'):
            n, w = it[:2]
            if fam == 'passes':
                def sym(t, s0=sym, u=it[2]):
                    def shown(o, r):
                        rows = read(r.outs.get('out.sym') or b'') if o.ok else []
                        miss = [d for d, v in (('dd', 0x1234), ('d2', 7)) if (d, v) not in rows] if o.ok else []
                        return check(o, r) or ['%s of the command line is not in the symbol file' % d for d in miss]
                    return s0(t + ['', ' .word dd\n', 'kd = dd + d2\n .word kd\n', 'lz nop\nkz = 9\n .byte kz,<lz\n'][u], ['-d', 'dd', '$1234', '-d', 'd2', '7'], extra=shown)
            if w == 0:      # chain of constants, each known one pass after the next
                return sym(''.join('c%d = c%d + 1\n' % (k, k + 1) for k in range(n)) + 'c%d = 5\n' % n + ''.join(' .byte c%d\n' % k for k in range(n + 1)))
            if w == 1:
                return sym(''.join(' lda c%d\n' % k for k in range(n)) + 'e nop\n jmp e\n' + ''.join('c%d = c%d\n' % (k, k + 1) for k in range(n)) + 'c%d = 5\n' % n)
            if w == 2:
                return sym(''.join('b%d bne t%d\n .fill 0,%d\nt%d nop\n' % (k, k, 126 + k, k) for k in range(n)) + ''.join(' .word b%d,t%d\n' % (k, k) for k in range(n)))
            return sym(''.join('l%d lda z%d\n' % (k, k) for k in range(n)) + ''.join(' .word l%d\n' % k for k in range(n)) + ''.join('z%d = $%X\n' % (k, 0xFE + k) for k in range(n)))
        if fam == 'define':
            v, f, u = it
            if v == 'n':
                a = []
                for k in range(f):
                    a += ['-d', 'd%d' % k, str(k * 99)]
                return sym(' nop\n' + ''.join(' .word d%d\n' % k for k in range(0, f, 2)), a)
            val = [str(v), '$%X' % v, '%' + bin(v)[2:], '0x%x' % v, '0b' + bin(v)[2:]][f]
            if f > 2 and len(val) < 3:
                return None
            return sym([' nop\n', ' .word dd\n', 'k = 7\n .word dd,k\n', 'k = dd\n .word k\nl jmp l\n'][u], ['-d', 'dd', val])
        if fam == 'file':
            s, w = it
            ts = [{'d': 'l%d nop\n', 'u': ' jmp l0\n', 'k': 'k%d = 9\n .byte k%d\n', 'e': ' .word e%d\ne%d nop\n', 's': '.section q%d\na nop\n jmp a\n.ends\n'}[c].replace('%d', str(j)) for j, c in enumerate(s)]
            if w == 0:
                return sym(''.join(' .inc "i%d"\n' % j for j in range(len(ts))), files={'i%d' % j: x for j, x in enumerate(ts)})
            if w == 1:
                return sym(ts[0], ['i%d' % j for j in range(1, len(ts))], files={'i%d' % j: x for j, x in enumerate(ts)})
            return sym(' .inc "i1"\n' + ts[0], files={'i%d' % j: x + (' .inc "i%d"\n' % (j + 1) if j + 1 < len(ts) else '') for j, x in enumerate(ts)})
        if fam == 'section':
            t, cur, n = '', None, 0
            for c in it:
                if c in 'ab':
                    if cur:
                        t += '.ends\n'
                    cur = None if cur == c else c
                    if cur:
                        t += '.section s%s\n' % c
                elif c == 'n':
                    t += ' nop\n'
                else:
                    n += 1
                    t += {'l': 'l nop\n', 'k': 'k%d = 5\n lda #k%d\n' % (n, n), 'u': ' jmp l\n', 'U': ' jmp sa.l\n'}[c]
            return sym(t + ('.ends\n' if cur else ''))
        if fam == 'other':
            k, w = it
            a = (['-l', 'out.lst'] if k & 1 else []) + (['-v'] if k & 2 else []) + (['-log', 'out.log'] if k & 4 else [])
            return sym(['l nop\nk = 5\n jmp l\n lda #k\n', ' jmp e\ne nop\n', '.section s\nq nop\n jmp q\n.ends\n', '; nothing\n'][w], a)
    except refasm.Unsupported:
        return None
    return None
