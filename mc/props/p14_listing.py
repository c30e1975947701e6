"""P14 the listing shows what was assembled"""
import itertools
from .. import refasm, opref, listing
from ..explore import ref_test

ID = 'P14'
BOUNDS = {
    'ops': 'every instruction x operand form x processor, each with 6 operand values',
    'string': 'strings of every length 0..70 in .byte, .word and .str, alone and between numbers; every character value 1..255 at 3 places; all pairs of 14 characters',
    'number': 'data of 40 values in the three directives, lists of every length 1..40, .fill of 0..40 and round 256 for 4 values, loaded files of 0..40 and round 256 bytes',
    'negative': 'negative values in every operand form and directive',
    'shape': 'all sequences of length <= 4 of 17 kinds of statement',
    'blocks': 'all sequences of length <= 3 of 14 block statements',
    'files': 'all sequences of length <= 4 over code, includes of 5 files (one of them twice, two whose names differ in case, two of the same name in different directories) and source borders',
    'origin': 'all addresses round page and sign borders x origin directives x header',
    'print': 'all sequences of length <= 6 over listing on, off and code',
    'long': 'source lines of every length 1..260 and round 512, 1024, 2048, 4096 and of 8000, file names of every length 1..200',
    'many': 'programs of 1..400, 1000..3000 lines, code around line 9999, 32768, 65536 and 100000',
}
ASSUMES = ['the listing of a program that is in error is not specified', 'rows without code may be repeated or blank; which line of a loop, macro call or block its rows stand beside is not specified',
           'undocumented instructions may be shown under any name of the same code']
OPERAND = {'imp': [''], 'acc': ['', ' a'], 'imm': [' #%s'], 'zp': [' %s'], 'abs': [' %s'], 'zpx': [' %s,x'], 'abx': [' %s,x'], 'zpy': [' %s,y'], 'aby': [' %s,y'], 'izx': [' (%s,x)'], 'izy': [' (%s),y'],
           'ind': [' (%s)'], 'iax': [' (%s,x)'], 'zpi': [' (%s)'], 'rel': [' %s']}
WIDEM = ('abs', 'abx', 'aby', 'ind', 'iax')
KIND = [' nop\n', ' lda #5 ; load it\n', 'l%d sta $1234,x\n', ' .byte 1,2,3\n', ' .byte "hello"\n', ' .word 1,$1234\n', ' .word "abc",1\n', ' .str "ab",300\n', '; comment\n', '\n', '/* one\ntwo */\n', 'l%d\n', 'k%d = 5\n', ' .fill 3,5\n', '* = $2%d00\n', '\tinx\t; tab\n', ' bne *\n']
BLOCK = ['.if 1\n nop\n.endif\n', '.if 0\n nop\n.else\n inx\n.endif\n', '.ifdef zz\n nop\n.else\n iny\n.endif\n', '.for i = 1 .to 3\n .byte i\n.next i\n', '.for .regx = 1 .to 3\n nop\n.next x\n', ' mm 1,"ab"\n', ' mm l,2\n', '.section s%d\nq .byte 1\n.ends\n', '.repeat\n .word 1\n.until 1\n', ' .load "xx"\n', 'l%d nop\n', '.while 0\n nop\n.wend\n', '.if 1\n.if 1\n .str "abcd"\n.endif\n.endif\n', '.do\n nop\n.while 0\n']
FILES = {'dd/f1': ' ldy #3\n; same name\n sty 8\nq2 inx\n', 'F1': ' ldx #7\n; other\n sta 9\n', 'f1': ' lda #1\n; c1\nq1 nop\n', 'f2': ' .byte 2\n .inc "f3"\n .byte 4\n', 'f3': '; c3\n\n .byte 3\n'}


def families(tier):
    deep = tier == 'thorough'

    def ops():
        for cpu in ('6502', '65c02', 'ill'):
            t = {'6502': opref.N6502, '65c02': opref.C65C02, 'ill': opref.ILLEGAL}[cpu]
            for m in sorted(t):
                for mode in sorted(t[m]):
                    yield (cpu, m, mode)

    def string():
        for n in range(0, 71):
            for d in ('byte', 'word', 'str'):
                for w in range(6):
                    yield ('n', n, d, w)
        for c in range(1, 256):
            for w in range(4):
                yield ('c', c, 'str', w)
        for a, b in itertools.product((1, 9, 10, 31, 32, 34, 36, 39, 44, 65, 92, 126, 127, 255), repeat=2):
            yield ('p', (a, b), 'byte', 0)

    def number():
        for d in ('byte', 'word', 'str'):
            for n in range(1, 41):
                yield ('l', d, n)
            for v in (0, 1, 9, 10, 31, 32, 39, 65, 99, 127, 128, 254, 255, 256, 257, 511, 512, 4095, 4096, 32767, 32768, 65279, 65280, 65534, 65535):
                yield ('v', d, v)
        for v in (0, 1, 32, 255):
            for n in list(range(0, 41)) + list(range(250, 262)):
                yield ('f', v, n)
        for n in list(range(0, 41)) + list(range(250, 262)) + [511, 512, 513]:
            for w in range(2):
                yield ('g', w, n)

    def negative():
        for v in (1, 2, 127, 128, 129, 254, 255, 256, 257, 32767, 32768, 65534):
            for k in range(len(NEG)):
                yield (v, k)

    def shape():
        for n in range(1, 5):
            for s in itertools.product(range(len(KIND)), repeat=n):
                if n == 4 and not deep and len(set(s)) < 4:
                    continue
                if n == 4 and not deep and sum(s) % 5:
                    continue
                yield s

    def blocks():
        for n in range(1, 4):
            for s in itertools.product(range(len(BLOCK)), repeat=n):
                yield s

    def files():
        for n in range(1, 5):
            for s in itertools.product('nc1245sS3', repeat=n):
                s = ''.join(s)
                if s.count('1') <= 1 and s.count('4') <= 1 and s.count('5') <= 1:
                    for w in range(2):
                        yield (s, w)

    def origin():
        for a in (0, 1, 0xFE, 0xFF, 0x100, 0xFFF, 0x1000, 0x7FFE, 0x7FFF, 0x8000, 0xFF00, 0xFFF0, 0xFFFA):
            for w in range(5):
                for c in range(2):
                    yield (a, w, c)

    def pr():
        for n in range(1, 7):
            for s in itertools.product('nfd', repeat=n):
                yield ''.join(s)

    def long():
        for n in list(range(1, 261)) + [2 ** k + d for k in range(9, 11) for d in (-2, -1, 0, 1, 2)] + list(range(1990, 2060)) + [4000, 4090, 4094, 4095, 4096, 4097, 4100, 8000]:
            for w in range(4):
                yield ('l', n, w)
        for n in range(2, 201):
            yield ('f', n, 0)

    def many():
        for n in list(range(1, 401, 1 if deep else 7)) + [1000, 1001, 2000, 3000]:
            yield n
        for n in (9996, 32764, 65532, 99996):
            yield (n,)
    return [('ops', ops()), ('string', string()), ('number', number()), ('negative', negative()), ('shape', shape()), ('blocks', blocks()), ('files', files()), ('origin', origin()), ('print', pr()), ('long', long()), ('many', many())]


NEG = [' lda #-%d\n', ' .byte -%d\n', ' .word -%d\n', ' .str -%d\n', ' lda 0-%d\n', ' jmp 0-%d\n', ' lda 0-%d,x\n', ' lda (0-%d,x)\n', ' jmp (0-%d)\n', 'kk = 0-%d\n .word kk\n', ' .byte -%d,1\n', ' .fill 0-%d+300,2\n', ' lda #<(0-%d)\n']


def lst(t, args=(), files=None, sources=None, lines=False, once=True, timeout=6):
    fs = {'t.a': t.encode('latin-1')}
    fs.update({k: v if isinstance(v, bytes) else v.encode('latin-1') for k, v in (files or {}).items()})

    def extra(o, r):
        if not o.ok:
            return []
        p = listing.check(o, r, fs, ['t.a'] + list(sources or []), once)
        if p or not lines:
            return p
        rows, _ = listing.read(r.outs['out.lst'].decode('latin-1'))
        at = {}
        for f, k, a, d in listing.rows_of_lines(rows, fs):
            for j in range(len(d)):
                at.setdefault(a + j, set()).add((f, k))
        for a, bs, ln in o.segs:
            for j in range(len(bs)):
                if (ln[0], ln[1]) not in at.get(a + j, ()):
                    return ['byte at $%04X is listed beside line %s, it belongs to line %s' % (a + j, sorted(at.get(a + j, ()))[:2], ln[:2])]
        return []
    return ref_test(t, ['-l', 'out.lst'] + list(args), files, ('out.bin', 'out.lst'), extra, timeout)


def esc(b):
    return ''.join('\\x%02x' % c if not 32 <= c < 127 or c in (34, 92) else chr(c) for c in b)


def test(fam, it):
    try:
        if fam == 'ops':
            cpu, m, mode = it
            vals = ['$%X' % v for v in ((0x100, 0x1234, 0xFFFF, 0x8000, 0xFF00, 0xABCD) if mode in WIDEM else (0, 1, 0x7F, 0x80, 0xFF, 0x2A))]
            if mode == 'rel':
                vals = ['*', '*-1', '*+2', '*-50', '*+100', '*+129']
            t = ''
            for f in OPERAND[mode]:
                for v in vals:
                    t += ' %s%s\n' % (m, f % v if '%' in f else f)
            return lst(t, {'6502': [], '65c02': ['-65c02'], 'ill': ['-i']}[cpu], lines=True)
        if fam == 'string':
            k, n, d, w = it
            if k == 'n':
                s = '"%s"' % ''.join(chr(97 + j % 26) for j in range(n))
                if n == 0 and w:
                    return None
                return lst([' .%s %s\n', ' .%s 1,%s\n', ' .%s %s,2\n', ' .%s 1,%s,2,%s\n', 'l .%s %s\n nop\n jmp l\n', ' .%s %s,%s\n inx\n'][w] % ((d, s, s) if w in (3, 5) else (d, s)), lines=True)
            if k == 'c':
                s = [bytes([n, 65]), bytes([65, n]), bytes([65, 66, n]), bytes([65, 66, 67, 68, n])][w]
                return lst(' .str "%s"\n' % esc(s), lines=True)
            return lst(' .byte "%s"\n nop\n' % esc(bytes(n)), lines=True)
        if fam == 'number':
            k, d, n = it
            if k == 'l':
                return lst(' .%s %s\n nop\n' % (d, ','.join(str((j * 37) & 255) for j in range(n))), lines=True)
            if k == 'v':
                return lst(' .%s %d\n .%s 1,%d,%d\n' % (d, n, d, n, n), lines=True)
            if k == 'f':
                return lst(' nop\n .fill %d,%d\n inx\n' % (d, n), lines=True)
            return lst('%s .load "xx"\n inx\n' % ['', ' nop\n'][d], files={'xx': bytes((j * 7) & 255 for j in range(n))}, lines=True)
        if fam == 'negative':
            v, k = it
            return lst(NEG[k] % v, lines=True)
        if fam == 'shape':
            t = ''
            for j, k in enumerate(it):
                t += KIND[k] % j if '%' in KIND[k] else KIND[k]
            return lst(t, lines=True)
        if fam == 'blocks':
            t = '.var i\n.macro mm\n lda \\1\n .byte \\2\n.endm\nl nop\n'
            for j, k in enumerate(it):
                t += BLOCK[k] % j if '%' in BLOCK[k] else BLOCK[k]
            return lst(t + ' nop\n', files={'xx': b'abcdefgh'})
        if fam == 'files':
            s, w = it
            ts, srcs = [''], ['t.a']
            for c in s:
                if c in 'sS':
                    ts.append('')
                    srcs.append('s%d.a' % len(ts))
                    if c == 'S':
                        ts[-1] = '; first\n\n'
                else:
                    ts[-1] += {'n': ' nop\n', 'c': '; comment\n', '1': ' .inc "f1"\n', '2': ' .inc "f2"\n', '3': ' .inc "f3"\n', '4': ' .inc "F1"\n', '5': ' .inc "dd/f1"\n'}[c]
            ts = [x + (' .byte $EE\n' if w else '') for x in ts]
            if not all(ts):
                return None
            files = dict(FILES, **dict(zip(srcs[1:], ts[1:])))
            used = [f for f, c in (('f1', '1'), ('f2', '2'), ('f3', '3'), ('F1', '4'), ('dd/f1', '5')) if c in s or c == '3' and '2' in s]
            return lst(ts[0], srcs[1:], files, used + srcs[1:])
        if fam == 'origin':
            a, w, c = it
            t = ['* = $%X\n nop\n .byte 1,2\n', '.org $%X\n .byte "abc"\nl .byte 1\n', ' nop\n* = $%X\nl bne l\n', '* = $%X\n .fill 1,6\n', '* = $%X\nl .byte 1\n .word l\n'][w] % a
            return lst(t, ['-c64'] if c else [], lines=True)
        if fam == 'print':
            t, on, want, n, pc = '', True, b'', 0, 0x1000
            for c in it:
                if c == 'n':
                    t += ' .print on\n'; on = True
                elif c == 'f':
                    t += ' .print off\n'; on = False
                else:
                    n += 1
                    t += ' .byte %d\n' % n
                    if on:
                        want += bytes([n])
            if not n:
                return None

            def extra(o, r):
                rows, bad = listing.read((r.outs['out.lst'] or b'').decode('latin-1'))
                got = b''.join(x.data for x in rows)
                if got != want:
                    return ['listed bytes are %s, with the listing on were assembled %s' % (got.hex(' '), want.hex(' '))]
                if any(x.addr - 0x1000 != x.data[0] - 1 for x in rows if x.data):
                    return ['address of a row is wrong']
                return bad[:1]
            return ref_test(t, ['-l', 'out.lst'], None, ('out.bin', 'out.lst'), extra)
        if fam == 'long':
            k, n, w = it
            if k == 'f':
                nm = 'n' * n
                return lst(' nop\n .inc "%s"\n inx\n' % nm, files={nm: ' iny\n; c\n'}, sources=[nm])
            if n > 2000 and w > 1:
                return None
            t = ['; %s\n nop\n', ' nop ; %s\n inx\n', ' .byte 1,"%s"\n nop\n', ' nop\n%s nop\n'][w] % ('x' * n if w < 3 else 'l' + 'a' * n)
            return lst(t, lines=True)
        if fam == 'many':
            if isinstance(it, tuple):
                return lst(' nop\n' + '\n' * it[0] + ''.join(' .byte %d\n' % k for k in range(9)) + '; c\n lda $12,x\n', lines=True, timeout=30)
            return lst(''.join('l%d .byte %d\n' % (k, k & 255) if k % 3 else ' nop\n' for k in range(it)), lines=True, timeout=30)
    except refasm.Unsupported:
        return None
    return None
