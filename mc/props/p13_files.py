"""P13 included, loaded and several source files"""
import itertools
from .. import refasm
from ..explore import ref_test, expect, src, agree, Test
from ..execpool import Job

ID = 'P13'
BOUNDS = {
    'tree': 'all include trees: t.a of <= 4 statements, one included file of <= 3, a second of <= 2 (thorough 3) over: a byte, a label, include of each later file',
    'chain': 'include chains of depth 1..39, with statements before and after each include',
    'repeat': 'one file included 1..300 times; 1..100 different files',
    'sources': 'all sequences of 1..4 source files of 4 (thorough 5), options between them; 1..120 source files',
    'buffer': 'includes at every position -12..+12 bytes round the lexer buffer boundaries (8192, 16384, 32768) of the including and of the included file',
    'load': 'loaded files of every length 0..300 and round powers of two to 65536, also at origin 0 and up to the end of the memory; every byte value at each of 4 places; every pair of 12 byte values; loads in blocks, loops, macros and sections',
    'dirs': 'all 1..3 element directory lists x all placements of the file in {plain, d1, d2, d3} x source, include, load x separators',
    'bare': 'all lists of 1..3 of 8 directories named with and without the separator at the end, . and ./ too, x placements of the file x source, include, load',
    'turns': 'two files, each in every subset of {plain, d1, d2}, included and loaded in every order of 2 and 3, from a source that is itself in each of these places, x 3 lists of directories',
    'dirlen': 'directories with a path of every length 2..300 and round powers of two to 2048, and lists of 1..60 directories, the file in the first, the last, both or none x source, include, load',
    'missing': 'a missing file in each place a file can be named',
    'share': 'definitions of 8 kinds in one file used in another, all orders of 2 and 3 files, included or given as sources',
    'carry': 'all sequences of <= 3 of 14 statements that leave something behind (open and closed sections, label scope, origin, processor, variables, macros) and of 4 (thorough 5) of 8, each statement in a file of its own, as one text, as source files and as included files',
    'eof': '12 ways to end a file x included, source, last source',
    'where': 'include as first, middle and last statement of each kind of block, with a label, with a comment',
    'cond': 'all sequences of length <= 5 over conditional borders, bytes and includes (which may themselves hold whole conditionals)',
    'names': 'file names of every length 1..240, with 30 unusual characters, upper and lower case',
}
ASSUMES = ['a file whose last line has no end of line may be refused', 'include of a directory, of the file itself and of an unbalanced block is not specified', '.inc inside a loop is not specified']
SHARE = [('lbl nop\n', ' jmp lbl\n'), ('kk = 5\n', ' lda #kk\n'), ('kz = $80\n', ' lda kz\n'), ('.macro mm\n .byte \\1\n.endm\n', ' mm 3\n'), ('.section s\nq nop\n.ends\n', ' jmp s.q\n'), ('.var v = 3\n', 'v = v + 1\n .byte v\n'), ('* = $2000\n', 'here nop\n .word here\n'), ('.65c02 on\n', ' bra *\n')]
EOFS = ['', '\n', ' \n', '; c', '; c\n', '\n\n\n', '/* c */', '/* c */\n', '\r\n', 'zz', ' nop', '\t']


def families(tier):
    deep = tier == 'thorough'

    def tree():
        c = [''.join(s) for n in range(0, 4 if deep else 3) for s in itertools.product('b', repeat=n)]
        b = [''.join(s) for n in range(0, 4) for s in itertools.product('blC', repeat=n) if s.count('l') <= 1]
        a = [''.join(s) for n in range(1, 5) for s in itertools.product('bBC', repeat=n)]
        for x in a:
            for y in b if 'B' in x else [None]:
                for z in c if 'C' in x or (y and 'C' in y) else [None]:
                    yield (x, y, z)

    def chain():
        for d in range(1, 39):
            for w in range(4):
                yield (d, w)

    def repeat():
        for n in list(range(1, 60)) + [99, 100, 101, 127, 128, 200, 255, 256, 257, 300]:
            for w in range(3):
                yield (n, w)

    def sources():
        for n in range(1, 5):
            for s in itertools.product(range(5 if deep else 4), repeat=n):
                for w in range(3):
                    yield (s, w)
        for n in range(5, 121):
            yield (n, 'n')

    def buffer():
        for size in (8192, 16384, 32768) if not deep else (4096, 8192, 16384, 24576, 32768, 49152, 65536):
            for k in range(-12, 13):
                for w in range(4):
                    yield (size + k, w)

    def load():
        for n in list(range(0, 301)) + [2 ** k + d for k in range(9, 16) for d in (-1, 0, 1)]:
            for w in range(3 if n < 600 else 1):
                yield ('n', n, w)
        for n in [2 ** k + d for k in range(12, 17) for d in (-2, -1, 0, 1)]:
            for w in range(3):
                yield ('o', n, w)
        for v in range(256):
            for w in range(4):
                yield ('v', v, w)
        for a, b in itertools.product((0, 1, 9, 10, 13, 26, 32, 34, 92, 127, 128, 255), repeat=2):
            for w in range(3):
                yield ('p', (a, b), w)
        for k in range(len(LOADS)):
            for n in range(0, 6):
                yield ('b', k, n)

    def dirs():
        for lst in [s for n in range(0, 4) for s in itertools.permutations(('d1/', 'd2/', 'sub/d3/'), n)]:
            for where in range(16):
                for kind in range(3):
                    for sep in range(len(SEPS)) if len(lst) == 2 else (0, 2, 4) if deep else (0,):
                        yield (lst, where, kind, sep)

    def bare():
        for lst in [s for n in range(1, 5 if deep else 4) for s in itertools.product(('d1', 'd1/', 'd2', 'd2/', 'sub/d3', './d1', '.', 'd1d2'), repeat=n)]:
            for where in (1, 2, 4, 8, 6, 12, 15, 16, 32, 63) if len(lst) < 3 else (2, 6, 48):
                for kind in range(3):
                    yield (lst, where, kind)

    def turns():
        for p, q in itertools.product(range(8), repeat=2):
            for o in [s for n in (2, 3) for s in itertools.product((0, 1), repeat=n)]:
                for kind in range(3):
                    for k in range(3):
                        yield (p, q, o, kind, k, (p + q + k) % 4)

    def dirlen():
        for n in list(range(2, 301)) + [k + d for k in (512, 1024, 2048) for d in range(-3, 4)]:
            for where in range(4) if n % 32 in (0, 31, 1) or deep else (1, 2):
                for kind in range(3) if n < 20 or n % 32 in (0, 31, 1) or deep else (n % 3,):
                    yield (n, 0, where, kind)
        for n in range(1, 61):
            for where in range(4):
                yield (n, 1, where, n % 3)

    def missing():
        for k in range(len(MISSING)):
            for w in range(3):
                yield (k, w)

    def share():
        for k in range(len(SHARE)):
            for w in range(8):
                yield (k, w)
        for a, b in itertools.permutations(range(len(SHARE)), 2):
            for w in range(4):
                yield ((a, b), w)

    def carry():
        for n in range(1, 4):
            for q in itertools.product(sorted(CARRY), repeat=n):
                yield ''.join(q)
        for n in (4, 5) if deep else (4,):
            for q in itertools.product('OCGRLglj', repeat=n):
                yield ''.join(q)

    def eof():
        for k in range(len(EOFS)):
            for w in range(4):
                for body in range(4):
                    yield (k, w, body)

    def where():
        for k in range(len(WHERE)):
            for f in range(4):
                yield (k, f)

    def cond():
        for n in range(1, 6):
            for s in itertools.product('dneibI', repeat=n):
                s = ''.join(s)
                dep, ok = 0, True
                for c in s:
                    if c in 'dn':
                        dep += 1
                    elif c == 'e':
                        dep -= 1
                        if dep < 0:
                            ok = False
                if ok and ('i' in s or 'I' in s):
                    yield s + 'e' * dep

    def names():
        for n in list(range(1, 241)):
            for w in range(3):
                yield ('n', n, w)
        for c in range(len(CHARS)):
            for w in range(3):
                yield ('c', c, w)
    return [('tree', tree()), ('chain', chain()), ('repeat', repeat()), ('sources', sources()), ('buffer', buffer()), ('load', load()), ('dirs', dirs()), ('bare', bare()), ('turns', turns()), ('dirlen', dirlen()), ('missing', missing()), ('share', share()), ('carry', carry()), ('eof', eof()), ('where', where()), ('cond', cond()), ('names', names())]


CARRY = {'O': '.section ss\n', 'C': '.endsection\n', 'G': 'gg nop\n', 'g': 'g%(k)d iny\n', 'R': ' .word ss.gg\n', 'L': ' .word gg\n', 'l': '@l\n inx\n', 'j': ' jmp @l\n', 'o': '* = $20%(k)02x\n', '6': '.65c02 on\n',
         's': ' bra *\n', 'v': 'v = v+1\n .byte v\n', 'm': '.macro mm\n dex\n.endm\n', 'M': ' mm\n'}
SEPS = [';', '; ', ';\t', ';;', ';  \t']
CHARS = [' ', '-', '_', '.', '+', '=', ',', '(', ')', '[', ']', '{', '#', '@', '!', '~', '%', '&', "'", '$', '^', ':', ';', '0', 'A', '*', '<', '|']
LOADS = [' .load "ff"\n', '.if 1\n .load "ff"\n .byte 1\n.endif\n', '.var i\n.for i = 1 .to 3\n .load "ff"\n .byte i\n.next i\n', '.macro m\n .load "ff"\n .byte 1\n.endm\n m\n m\n', '.section s\n .load "ff"\nq .byte 1\n.ends\n .word s.q\n', ' jmp e\n .load "ff"\ne nop\n', ' .word e\n .load "ff"\n .load "gg"\ne nop\n', 'l .load "ff"\nl2 .load "gg"\n .word l,l2\n', '* = $1100\n .load "ff"\n* = $1200\n .load "gg"\n', ' .load "ff"\n.org $2000\n .byte 1\n', ' .byte 1\n .load "ff"\n .load "ff"\n .load "ff"\n .word *\n', 'b bne b\n .load "ff"\n bne b\n', '.ifdef q\n .load "zz"\n.else\n .load "ff"\n.endif\n', '.var i = 0\n.repeat\n .load "ff"\ni = i + 1\n.until i == 3\n .byte i\n', '* = $FFFA\n .load "ff"\n', '* = $FFFB\n .load "ff"\n', ' .load "ff" ; comment\n /* x */ .load "gg"\n']
MISSING = [' .inc "no"\n', ' .load "no"\n', ' nop\n .inc "no"\n nop\n', '.if 1\n .load "no"\n.endif\n', '.ifdef zz\n .inc "no"\n.endif\n nop\n', '.ifdef zz\n .load "no"\n.endif\n nop\n', '.if 0\n .inc "no"\n.endif\n nop\n', '.if 0\n .load "no"\n.endif\n nop\n', '.macro m\n .load "no"\n.endm\n nop\n', '.macro m\n .load "no"\n.endm\n m\n', '.section s\n .inc "no"\n.ends\n', '.var i\n.for i = 1 .to 2\n.load "no"\n.next i\n', ' .inc "aa"\n', ' .inc "bb"\n', ' .inc "c/no"\n', ' nop\n.end\n .load "no"\n', '.while 0\n .load "no"\n.wend\n nop\n', ' .inc "NO"\n', ' .inc "no "\n']
WHERE = [' .inc "ff"\n', ' nop\n .inc "ff"\n', ' .inc "ff"\n nop\n', 'lab .inc "ff"\n .word lab\n', 'lab: .inc "ff"\n .word lab\n', ' .inc "ff" ; x\n nop\n', ' .inc "ff" /* x */\n nop\n', '/* x */ .inc "ff"\n nop\n', '\t.INC\t"ff"\n', '.inc "ff"\n.inc "ff"\n', '.if 1\n .inc "ff"\n.endif\n nop\n', '.if 1\n nop\n .inc "ff"\n.endif\n dex\n', '.if 1\n .inc "ff"\n nop\n.endif\n dex\n', '.if 0\n .inc "ff"\n.endif\n nop\n', '.if 0\n nop\n.else\n iny\n .inc "ff"\n.endif\n dex\n', '.if 1\n .inc "ff"\n.else\n nop\n.endif\n dex\n', '.macro m\n nop\n .inc "ff"\n.endm\n m\n dex\n', '.macro m\n nop\n .inc "ff"\n iny\n.endm\n m\n dex\n', '.macro m\n .inc "ff"\n.endm\n m\n m\n', '.section s\n nop\n .inc "ff"\n iny\n.ends\n dex\n', '.ifdef zz\n .inc "ff"\n.else\n .inc "gg"\n.endif\n nop\n', '.ifndef zz\n nop\n .inc "ff"\n iny\n.endif\n dex\n', '* = $20\n .inc "ff"\n .word *\n', ' nop\n .inc "ff"\n.end\n .byte 1\n']
# what the statement list means with the text of the file in place of the .inc
WFILE = [' .byte 9\n', ' .byte 9\n .byte 8\n', '', 'q9 = 7\n .byte q9\n']


def inline(t, files):
    out = []
    for l in t.split('\n')[:-1]:
        k = l.lower().find('.inc')
        if k >= 0 and '"' in l:
            a, b = l.index('"') + 1, l.rindex('"')
            out.append(l[:k])
            out += files[l[a:b]].split('\n')[:-1]
        else:
            out.append(l)
    return '\n'.join(out) + '\n'


def test(fam, it):
    try:
        if fam == 'tree':
            x, y, z = it
            n = [0]

            def body(s):
                t = ''
                for c in s:
                    n[0] += 1
                    t += ' .byte %d\n' % n[0] if c == 'b' else ' .word *\n' if c == 'l' else ' .inc "%s.i"\n' % c.lower()
                return t
            files = {}
            t = body(x) + ' .byte $EE\n'
            if y is not None:
                files['b.i'] = body(y)
            if z is not None:
                files['c.i'] = body(z)
            return ref_test(t, files=files)
        if fam == 'chain':
            d, w = it
            files = {}
            for k in range(1, d + 1):
                b = ' .byte %d\n' % k if w & 1 else ''
                e = 'l%d .byte %d\n .word l%d\n' % (k, 128 + k, max(1, k - 1)) if w & 2 else ''
                files['f%d' % k] = b + (' .inc "f%d"\n' % (k + 1) if k < d else ' .byte $DD\n') + e
            return ref_test(' .byte 0\n .inc "f1"\n .byte $FF\n', files=files)
        if fam == 'repeat':
            n, w = it
            if w == 0:
                return ref_test(' .inc "ff"\n' * n + ' .word *\n', files={'ff': ' .byte 1\n'})
            if w == 1:
                return ref_test(''.join(' .inc "f%d"\n' % k for k in range(n)) + ' .word *\n', files={'f%d' % k: 'l%d .byte %d\n' % (k, k & 255) for k in range(n)})
            return ref_test(''.join(' .byte %d\n .inc "ff"\n' % (k & 255) for k in range(n)), files={'ff': ' .inc "gg"\n nop\n', 'gg': '\n'})
        if fam == 'sources':
            files = {'a.s': 'a1 .byte 1\n', 'b.s': ' .byte 2\n .word *\n', 'c.s': '; nothing\n', 'd.s': ' .byte 4\n .inc "d.i"\n .byte 5\n', 'e.s': ' .byte 6\n.65c02 on\n bra *\n.6502 on\n', 'd.i': ' .byte 7\n'}
            s, w = it
            if w == 'n':
                files = {'s%d' % k: 'l%d .byte %d\n .word l%d\n' % (k, k & 255, (k * 7) % s) for k in range(s)}
                files['t.a'] = '\n'
                return ref_test('\n', ['s%d' % k for k in range(s)], files=files)
            if s.count(0) > 1:
                return None
            names = ['abcde'[k] + '.s' for k in s]
            args = []
            for k, nm in enumerate(names):
                args.append(nm)
                if w == 1 and k == 0:
                    args += ['-c64']
                if w == 2:
                    args += ['-d', 'k%d' % k, str(k)]
            return ref_test(' .byte $EE\n', args, files=files)
        if fam == 'carry':
            if 'M' in it[:it.find('m') + 1 or 9] and 'm' in it:
                return None  # a macro called above its definition is not specified
            parts = ['.var v\nv = 1\n clc\n'] + [CARRY[c] % {'k': k} for k, c in enumerate(it)] + [' sec\n']
            files = {'p%d' % k: x for k, x in enumerate(parts) if k}
            jobs = [src(''.join(parts)), src(parts[0], ['p%d' % k for k in range(1, len(parts))], files), src(parts[0] + ''.join(' .inc "p%d"\n' % k for k in range(1, len(parts))), files=files)]
            o = refasm.assemble(jobs[0].files, jobs[0].args)
            return Test(jobs, lambda rs: [w + b for w, b in zip(('', 'as source files: ', 'as included files: '), [agree(o, r) for r in rs]) if b], o.states or [hash(('err', o.why))], max(1, o.steps))
        if fam == 'buffer':
            pos, w = it
            pad = lambda n: (' nop\n' + '; %s\n' % ('x' * 95)) * (n // 103) + '; %s\n' % ('y' * max(0, n % 103))
            head = pad(pos - 60)
            head = head[:-1] + 'z' * (pos - len(head)) + '\n' if len(head) < pos else head
            # head ends exactly at byte pos
            head = head[:pos - 1] + '\n' if len(head) >= pos else head
            if head.count('\n') and head[-2:-1] == '\n':
                pass
            i = ' .inc "ff"\n .byte 2\n'
            if w == 0:
                return ref_test(head + i + pad(500) + ' .byte 3\n', files={'ff': ' .byte 1\n'})
            if w == 1:
                return ref_test(' .byte 9\n .inc "ff"\n .byte 8\n', files={'ff': head + ' .inc "gg"\nend .byte 2\n .word end\n', 'gg': ' .byte 1\n'})
            if w == 2:
                return ref_test(head + ' .inc "ff"\n .byte 2\n' + pad(9000) + ' .byte 3\n', files={'ff': pad(9000) + ' .byte 1\n .inc "gg"\n .byte 4\n', 'gg': pad(17000) + ' .byte 5\n'})
            return ref_test(head + 'label .byte 1,2,"abc"\n .word label\n jmp label\n' + pad(300))
        if fam == 'load':
            k, n, w = it
            if k == 'n':
                data = bytes((j * 7 + 3) & 255 for j in range(n))
                t = [' .load "ff"\n', ' .byte 1\n .load "ff"\n .byte 2\n .word *\n', 'l .load "ff"\n .load "ff"\ne .word e-l\n'][w]
                return ref_test(t, ['-c64'] if n & 1 else [], files={'ff': data}, timeout=20)
            if k == 'o':
                data = bytes((j * 7 + 3 + (j >> 8)) & 255 for j in range(n))
                t = ['* = 0\n .load "ff"\n', '* = %d\n .load "ff"\n' % max(65536 - n, 0), '* = %d\n .load "ff"\n' % min(max(65537 - n, 0), 65535)][w]
                return ref_test(t, files={'ff': data}, timeout=20)
            if k == 'v':
                data = [bytes([n]), bytes([n, 1, 2]), bytes([1, n]), bytes([1, 2, 3, n, 4])][w]
                return ref_test(' .load "ff"\n nop\n', files={'ff': data})
            if k == 'p':
                return ref_test(' .load "ff"\n nop\n', files={'ff': [bytes(n), bytes(n) * 2, b'\xff' + bytes(n)][w]})
            return ref_test('' if n in (0,) and False else LOADS[n], files={'ff': bytes(range(0x30, 0x30 + w)), 'gg': b'\x01\x02\x03'}) if k == 'b' else None
        if fam == 'dirs':
            lst, where, kind, sep = it
            places = ['', 'd1/', 'd2/', 'sub/d3/']
            files = {p + 'f.x': ' .byte %d\n' % (k + 1) for k, p in enumerate(places) if where >> k & 1}
            files['d1/other'], files['d2/other'], files['sub/d3/other'] = '\n', '\n', '\n'
            args = ['-dir', SEPS[sep].join(lst)] if lst else []
            if kind == 0:
                return ref_test(' .byte $EE\n', args + ['f.x'], files=files)
            return ref_test(' nop\n .%s "f.x"\n .byte $EE\n' % ('inc' if kind == 1 else 'load'), args, files=files)
        if fam == 'bare':
            lst, where, kind = it
            places = ['', 'd1/', 'd2/', 'sub/d3/', 'd1d2/', 'd1']
            files = {p + 'f.x': ' .byte %d\n' % (k + 1) for k, p in enumerate(places) if where >> k & 1}
            files.update({p + 'other': '\n' for p in places[1:5]})
            args = ['-dir', ';'.join(lst)]
            if kind == 0:
                return ref_test(' .byte $EE\n', args + ['f.x'], files=files)
            return ref_test(' nop\n .%s "f.x"\n .byte $EE\n' % ('inc' if kind == 1 else 'load'), args, files=files)
        if fam == 'turns':
            p, q, o, kind, k, src_at = it
            places = ['', 'd1/', 'd2/']
            files = {pl + 'ff': ' .byte %d\n' % (j + 1) for j, pl in enumerate(places) if p >> j & 1}
            files.update({pl + 'gg': ' .byte %d\n' % (j + 11) for j, pl in enumerate(places) if q >> j & 1})
            files.update({pl + 'other': '\n' for pl in places})
            t = ''.join(' .%s "%s"\n' % ('load' if kind == 1 or kind == 2 and j & 1 else 'inc', ('ff', 'gg')[x]) for j, x in enumerate(o)) + ' .byte $EE\n'
            args = ['-dir', ('d1/;d2/', 'd2/;d1/', 'd1/; d2/;d1/')[k]]
            if src_at:
                files[('', '', 'd1/', 'd2/')[src_at] + 's.a'] = t
                return ref_test(' nop\n', args + ['s.a'], files=files)
            return ref_test(t, args, files=files)
        if fam == 'dirlen':
            n, how, where, kind = it
            if how == 0:
                m, d = n - 1, ''
                while m > 200:
                    d += 'd' * 100 + '/'
                    m -= 101
                lst = ['e1/', d + 'f' * m + '/']
                if n & 1:
                    lst.reverse()
            else:
                lst = ['dir%d/' % k for k in range(n)]
            files = {'%so%d' % (p, k): '\n' for k, p in enumerate(lst)}
            if where & 1:
                files[lst[-1] + 'f.x'] = ' .byte 1\n'
            if where & 2:
                files[lst[0] + 'f.x'] = ' .byte 2\n'
            args = ['-dir', ';'.join(lst)]
            if kind == 0:
                return ref_test(' .byte $EE\n', args + ['f.x'], files=files)
            return ref_test(' nop\n .%s "f.x"\n .byte $EE\n' % ('inc' if kind == 1 else 'load'), args, files=files)
        if fam == 'missing':
            k, w = it
            files = {'aa': ' .inc "no"\n', 'bb': ' .byte 1\n .load "no"\n', 'd1/x': '\n'}
            t = MISSING[k]
            if w == 0:
                return ref_test(t, files=files)
            if w == 1:
                return ref_test(t, ['-dir', 'd1/;d2/'], files=files)
            return ref_test('\n', ['u.a', 'last.a'], files=dict(files, **({'u.a': t, 'last.a': ' nop\n'} if k % 2 else {'u.a': t})))
        if fam == 'share':
            k, w = it
            if k == 5 and w in (1, 3, 6) or k != 5 and not isinstance(k, int) and 5 in k and w == 3:
                return None                         # assignment before the .var
            if isinstance(k, int):
                d, u = SHARE[k]
                if w == 0:
                    return ref_test(' .inc "dd"\n .inc "uu"\n', files={'dd': d, 'uu': u})
                if w == 1:
                    return ref_test(' .inc "uu"\n .inc "dd"\n', files={'dd': d, 'uu': u})
                if w == 2:
                    return ref_test(d, ['uu'], files={'uu': u})
                if w == 3:
                    return ref_test(u, ['dd'], files={'dd': d})
                if w == 4:
                    return ref_test('\n', ['dd', 'uu'], files={'dd': d, 'uu': u})
                if w == 5:
                    return ref_test(d + ' .inc "uu"\n' + u, files={'uu': u})
                if w == 6:
                    return ref_test(' .inc "dd"\n' + u, files={'dd': ' .inc "ee"\n' + u, 'ee': d})
                return ref_test(' nop\n .inc "dd"\n', ['uu'], files={'dd': d, 'uu': u + u if 'here' not in u else u})
            a, b = k
            d, u = SHARE[a][0] + SHARE[b][0], SHARE[a][1] + SHARE[b][1]
            if w == 0:
                return ref_test(d, ['uu'], files={'uu': u})
            if w == 1:
                return ref_test(' .inc "dd"\n .inc "ee"\n .inc "uu"\n', files={'dd': SHARE[a][0], 'ee': SHARE[b][0], 'uu': u})
            if w == 2:
                return ref_test(SHARE[a][0], ['bb', 'cc'], files={'bb': ' .inc "c2"\n' + SHARE[a][1], 'cc': SHARE[b][1], 'c2': SHARE[b][0]})
            return ref_test(SHARE[a][1], ['bb'], files={'bb': ' .inc "cc"\n' + SHARE[a][0], 'cc': d.replace(SHARE[a][0], '') + SHARE[b][1]})
        if fam == 'eof':
            k, w, b = it
            body = ['', ' .byte 1\n', 'l .byte 1\n .word l\n', '.macro m\n .byte 1\n.endm\n m\n'][b] + EOFS[k]
            if w == 0:
                t = (' .inc "ff"\n .byte 2\n', [], {'ff': body})
            elif w == 1:
                t = (body, ['gg'], {'gg': ' .byte 2\n'})
            elif w == 2:
                t = (body, [], {})
            else:
                t = ('\n', ['ff', 'gg'], {'ff': ' .inc "hh"\n', 'hh': body, 'gg': ' .byte 3\n'})
            if k in (9, 10):                        # statement without an end of line: may be refused
                j = src(t[0], t[1], t[2])
                o = refasm.assemble({n: d + (b'\n' if not d.endswith(b'\n') else b'') for n, d in j.files.items()}, j.args)

                def judge(rs):
                    r = rs[0]
                    if r.kind == 0 and r.code != 0:
                        return []
                    bad = agree(o, r)
                    return [bad] if bad else []
                return Test([j], judge, o.states, max(1, o.steps))
            return ref_test(t[0], t[1], files=t[2])
        if fam == 'where':
            k, f = it
            files = {'ff': WFILE[f], 'gg': ' .byte 6\n'}
            if k in (18,) and f == 3:
                return None
            o = refasm.assemble({'t.a': inline(WHERE[k], files).encode()}, ['t.a', '-o', 'out.bin'])
            return expect([src(WHERE[k], files=files)], [o.data if o.ok else None], o.states, max(1, o.steps))
        if fam == 'cond':
            t, n = '', 0
            for c in it:
                n += 1
                t += {'d': '.ifdef kk\n', 'n': '.ifndef kk\n', 'e': '.endif\n', 'i': ' .inc "ii"\n', 'b': ' .byte %d\n' % n, 'I': ' .inc "jj"\n'}[c]
            return ref_test('kk = 1\n' + t + ' .byte $EE\n', files={'ii': ' .byte $A0\n.ifdef kk\n .byte $A1\n.else\n .byte $A2\n.endif\n', 'jj': '.ifndef kk\n .byte $B0\n.else\n .inc "ii"\n.endif\n .byte $B1\n'})
        if fam == 'names':
            k, c, w = it
            nm = ('n' * c) if k == 'n' else 'a' + CHARS[c] + 'b'
            if k == 'c' and CHARS[c] == '-':
                nm = 'a-b'
            data = ' .byte 1\n nop\n'
            try:
                nm.encode('latin-1').decode('utf8')
            except UnicodeDecodeError:
                return None
            if w == 0:
                return ref_test(' .inc "%s"\n .byte 2\n' % nm, files={nm: data})
            if w == 1:
                return ref_test(' .load "%s"\n .byte 2\n' % nm, files={nm: data})
            return ref_test(' .byte 3\n', [nm], files={nm: data})
    except refasm.Unsupported:
        return None
    return None
