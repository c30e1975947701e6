"""P06 data directives and literals"""
import itertools
from .. import refasm
from ..explore import ref_test, expect, src

ID = 'P06'
DIRS = {'byte': ('.byte', '.db'), 'word': ('.word', '.dw', '.dcw'), 'str': ('.str', '.text', '.string')}
ITEMS = ('0', '255', '256', '-1', '$1234', '"ab"', '"abc"', "'c'", '"d"', 'kk', 'ff', '<ff', '*-$1000', '(1+2)*3', '""', '"\\x00z"')
BOUNDS = {
    'lists': 'every data directive and alias x all item lists of length <= 3 over 16 item kinds (length 4 over 8 in thorough), labels before and after',
    'range': 'every directive x every value -70000..70000 around each limit and every value -300..66000 packed',
    'bytes': 'every byte value 1..255 in strings and character constants, every escape, alone and inside, first and last',
    'escapes': 'all pairs of 12 escapes and 3 plain characters in strings, lengths 1..3; hexadecimal escapes of 1..40 and around 64, 128, 256 digit pairs between 4 and 7 neighbours, all pairs of digits in both cases',
    'length': 'strings of every length 0..300 and around powers of two up to 1500, three directives, alone and in lists',
    'count': 'lists of every length 1..300 items and around powers of two up to 2000',
    'number': 'number spellings: bases, digits, case, leading zeros',
    'seq': 'all sequences of <= 3 of 17 data statements (each directive with lists, strings, short and long fills, loaded files)',
    'bad': 'malformed lists and literals are refused',
}
ASSUMES = ['unspecified: octal and \\? escapes in strings, \\x with an odd number of digits, adjacent strings', 'a string of one character is a number']
w = lambda v: bytes((v & 255, v >> 8 & 255))


SEQ = ['.fill 1,1', '.fill 2,2', '.fill 3,3', '.fill 4,4', '.fill 5,1', '.fill 6,0', '.byte 7', '.byte 8,9,"ab"', '.byte "c",10', '.word 11', '.word 12,"abc",13', '.word "de"', '.str 14,300', '.str "fg",15', '.load "f1"', '.load "f2"', '.load "f3"']


def families(tier):
    deep = tier == 'thorough'

    def lists():
        for k in DIRS:
            for n in range(1, 4):
                for s in itertools.product(range(len(ITEMS)), repeat=n):
                    yield (k, s)
            if deep:
                for s in itertools.product((0, 1, 2, 5, 6, 8, 10, 12), repeat=4):
                    yield (k, s)

    def rng():
        for k in DIRS:
            for c in (-70000, -65536, -65535, -65534, -32768, -32769, -256, -255, -254, -129, -128, -1, 0, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 70000):
                for d in (-1, 0, 1):
                    for how in range(4):
                        yield (k, c + d, how)
            for lo in range(-300, 66000, 1500):
                yield (k, lo, 'pack')

    def byts():
        for b in range(1, 256):
            for k in range(8):
                yield (b, k)

    def escapes():
        E = ('\\n', '\\t', '\\r', '\\a', '\\b', '\\f', '\\v', '\\\\', '\\"', "\\'", '\\x41', '\\x00', 'a', 'x', '0', ' ', ';', ',', "'", '/*', '//')
        for n in (1, 2, 3) if deep else (1, 2):
            for s in itertools.product(E, repeat=n):
                for k in DIRS:
                    yield (k, ''.join(s))
        for a in E:
            for b in E:
                yield ('byte', a + '5' + b + 'x')
        # an escape of several digit pairs, what stands before and after it
        for n in list(range(1, 41)) + [63, 64, 65, 127, 128, 129, 255, 256, 257, 400]:
            hx = '\\x' + ''.join('%02x' % ((j * 37 + n) & 255) for j in range(n))
            for pre in ('', 'a', '\\n', '\\x30'):
                for post in ('', 'z', ' ', '\\x31', '\\n', '\\"', 'x'):
                    for k in DIRS:
                        yield (k, pre + hx + post)
        D = '0123456789abcdefABCDEF'
        for a in D:
            for b in D:
                yield ('byte', '\\x' + a + b + 'g\\x' + b + a)

    def length():
        for k in DIRS:
            for n in list(range(0, 301)) + [510, 511, 512, 513, 1000, 1023, 1024, 1025, 1500]:
                for h in range(3):
                    yield (k, n, h)

    def count():
        for k in DIRS:
            for n in list(range(1, 301)) + [511, 512, 513, 1023, 1024, 1025, 2000]:
                for h in range(2):
                    yield (k, n, h)

    def number():
        for v in sorted(set(list(range(0, 260)) + [1 << k for k in range(16)] + [(1 << k) - 1 for k in range(17)] + [1000, 9999, 12345, 54321, 0xabcd, 0xfedc])):
            if v > 65535:
                continue
            yield v

    def seq():
        for n in (2, 3):
            yield from itertools.product(range(len(SEQ)), repeat=n)

    def bad():
        for d in ('.byte', '.word', '.str', '.db', '.text'):
            for x in ('', ',', '1,', ',1', '1,,2', '1 2', '"ab" 1', '1 "ab"', '"ab', 'ab"', '"ab"+1', '-"ab"', '("ab")', "'ab'", '#1', '(1', '1)', '1+', '=1', 'x', 'y', '1,x', 'lda', '1:', '"a\\qb"', "'\\q'", '[1]', '{1}', '1;2,"', '"ab",', ',"ab"', '"ab",,1', '@', '$g', '%2', '0b2', '0x'):
                yield (d, x)
    return [('lists', lists()), ('range', rng()), ('bytes', byts()), ('escapes', escapes()), ('length', length()), ('count', count()), ('number', number()), ('seq', seq()), ('bad', bad())]


def test(fam, it):
    try:
        if fam == 'seq':
            return ref_test('* = $1000\n' + ''.join(' %s\n' % SEQ[k] for k in it) + ' .word *\n', files={'f1': b'\xe1', 'f2': b'\xe2\xe3', 'f3': b'\xe4\xe5\xe6'})
        if fam == 'lists':
            k, s = it
            d = DIRS[k][sum(s) % len(DIRS[k])]
            return ref_test('kk = 7\n* = $1000\nl1 %s %s\nl2 .word l1,l2\nff = $321\n' % (d, ','.join(ITEMS[x] for x in s)))
        if fam == 'range':
            k, v, how = it
            if how == 'pack':
                lo, hi = {'byte': (-254, 255)}.get(k, (-65534, 65535))
                vs = [x for x in range(v, v + 1500) if lo <= x <= hi]
                if not vs:
                    return None
                enc = lambda x: bytes((x & 255,)) if k == 'byte' or (k == 'str' and 0 <= x <= 255) else w(x)
                return expect([src('* = $1000\n' + ''.join(' %s %s\n' % (DIRS[k][0], ','.join('%d' % x for x in vs[j:j + 50])) for j in range(0, len(vs), 50)) + 'ee .word ee\n')],
                              [b''.join(enc(x) for x in vs) + w(0x1000 + sum(len(enc(x)) for x in vs))], [hash((k, v))], len(vs))
            f = ['* = $1000\n %s %d\n', 'va = %d\n* = $1000\n %s va\n', '* = $1000\n %s 1,%d,2\n', '* = $1000\n %s fw-$2000\nfw = %d+$2000\n'][how]
            return ref_test(f % ((DIRS[k][0], v) if how != 1 else (v, DIRS[k][0])) + 'ee .word ee\n')
        if fam == 'bytes':
            b, k = it
            c = chr(b)
            if c in '"\\\n' or (c == "'" and k in (2, 3)) or b == 13:
                return None
            hx = '\\x%02x' % b
            t, o = [(' .byte "%s%s"' % (c, c), [b, b]), (' .str "a%sb"' % c, [97, b, 98]), (" .byte '%s'" % c, [b]), (" lda #'%s'" % c, [0xa9, b]), (' .byte "%s",1' % c, [b, 1]), (' .byte "a%sb","%s%s"' % (hx, hx, hx.upper().replace('X', 'x')), [97, b, 98, b, b]),
                    (" .byte '%s',\"%s\"" % (hx, hx), [b, b]), (' .word "%s%s1"' % (c, hx), [b, b, 49, 0])][k]
            if k in (5, 7) and b < 256:
                # a following character must not extend the escape
                if k == 7:
                    t, o = ' .word "%s%s"' % (c, hx), [b, b]
                if k == 5:
                    t, o = ' .byte "a%sz","%s%s"' % (hx, hx, hx.upper().replace('X', 'x')), [97, b, 122, b, b]
            if k == 6:
                t, o = " .byte '%s'" % hx, [b]
            return expect([src('* = $1000\n%s\n .byte 9\n' % t)], [bytes(o) + b'\x09'], [hash(it)], 2)
        if fam == 'escapes':
            k, s = it
            return ref_test('* = $1000\n %s "%s"\n .byte 9\n %s 1,"%s",2\n' % (DIRS[k][0], s, DIRS[k][1], s))
        if fam == 'length':
            k, n, h = it
            s = ''.join(chr(97 + (j * 7 + n) % 26) for j in range(n))
            b = s.encode()
            one = lambda v: bytes((v,)) if k != 'word' else w(v)
            pad = lambda x: x + b'\0' if k == 'word' and len(x) & 1 else x
            if n == 1:
                pad = lambda x: one(x[0])
            t = '* = $1000\nl1 %s %s\nl2 .word l2\n' % (DIRS[k][h % len(DIRS[k])], ['"%s"', '1,"%s"', '"%s",2,"%s"'][h].replace('%s', s))
            o = [pad(b), one(1) + pad(b), pad(b) + one(2) + pad(b)][h]
            return expect([src(t)], [o + w(0x1000 + len(o))], [hash((k, n, h))], 3)
        if fam == 'count':
            k, n, h = it
            vs = [(j * 37 + n) % (256 if h == 0 else 65536 if k != 'byte' else 256) for j in range(n)]
            enc = lambda x: bytes((x & 255,)) if k == 'byte' or (k == 'str' and x <= 255) else w(x)
            o = b''.join(enc(x) for x in vs)
            return expect([src('* = $1000\nl1 %s %s\nl2 .word l2\n' % (DIRS[k][0], ','.join('%d' % x if h == 0 else '$%x' % x for x in vs)))], [o + w(0x1000 + len(o))], [hash((k, n, h))], n)
        if fam == 'number':
            v = it
            sp = ['%d' % v, '0%d' % v, '%05d' % v, '$%x' % v, '$%X' % v, '$0%x' % v, '$%06x' % v, '%' + bin(v)[2:], '%0' + bin(v)[2:], '0b' + bin(v)[2:], '0b' + bin(v)[2:].zfill(16), '%' + bin(v)[2:].zfill(20)]
            return expect([src('* = $1000\n .word %s\n' % ', '.join(sp)), src('* = $1000\n' + ''.join(' lda %s\n' % x for x in sp))], [w(v) * len(sp), (bytes((0xa5, v)) if v < 256 else b'\xad' + w(v)) * len(sp)], [hash(v)], len(sp))
        if fam == 'bad':
            d, x = it
            if x in ('1;2,"', 'x', '0x'):
                x = {'1;2,"': None, 'x': 'x', '0x': '0 x'}[x]
                if x is None:
                    return expect([src('* = $1000\n %s 1;2,"\n' % d)], [b'\x01' if d != '.word' else b'\1\0'], [1], 1)
            return expect([src('* = $1000\n nop\n %s %s\n nop\n' % (d, x))], [None], [hash(it)], 2)
    except refasm.Unsupported:
        return None
