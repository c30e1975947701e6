"""P16 errors and warnings are reported, at the right place"""
import itertools, re
from .. import refasm
from ..explore import Test, src, first_line
from ..execpool import Job

ID = 'P16'
BOUNDS = {
    'lines': '41 kinds of error on line n = 255..257, 1000, 9999, 10000, 32766..32769, 65534..65538 and 100000, behind empty lines, comments or instructions',
    'place': '41 kinds of error x line 1..50 x 0..3 lines after it',
    'prefix': '11 kinds of error after all sequences of length <= 3 of 15 constructs (comments over several lines, blocks, macros, loops, includes, conditionals, sections)',
    'tree': 'include trees of depth <= 4, error before or after each include, at all line positions <= 6',
    'sources': 'error in each of 1..6 sources at lines 1..6, before and after includes',
    'many': 'all subsets of 8 lines that hold errors x 10 kinds of error that do not stop the reading (each must be reported), all sequences of 4 (thorough 5) of these and good lines; 1..120 errors',
    'block': 'errors in the first, middle and last statement of blocks and macros, at all depths <= 4',
    'warn': 'all sequences of length <= 6 over near and far branches, warnings on, warnings off, x -nowarn, over files',
    'io': 'output, symbol, listing and log files that cannot be opened, each alone and together',
    'full': 'writing fails after every number of bytes 0..n+1 of output, symbol, listing and log file, for outputs of 1..40, 4094..4098 and 8193 bytes (every fault position for the small ones)',
    'long': 'an error on and after lines of every length 1..120 and round powers of two to 8192, file names of every length 1..200',
    'big': 'warnings and late errors at 9 places of sources of 8..60000 bytes (all sizes round the 4096, 8192 and 16384 byte buffers by steps of a line), in the source, an included file and the file around one: all lines after the message are still read',
}
ASSUMES = ['a message names the line an erroneous statement ends on or the line after it; in a block a line from there to the end of the block, for a macro call the line of the call',
           'errors that no single place is at fault for (undefined symbols, doubled definitions, missing files given to .inc) need no place', 'after the first syntax error the rest of the program may go unreported']
# early: found while reading; the message stands at the line itself or the next
ERR = [' lda #256\n', ' lda (5\n', ' .byte 256\n', ' .byte 1/0\n', ' lda #1 2\n', '.endif\n', '.endm\n', ' .load "nono"\n', '.next i\n', ' .fill 256,1\n', '.ends\n', ' phx\n', ' slo 5\n', ' .word "a\n', ' sta #5\n', '* = 70000\n', ' .byte 30000*3\n', '$\n', ' lda #"ab"\n', ' lda 5,z\n', ' .word 70000\n', ' .str 66000\n', ' lda 70000\n', ' jmp (5),y\n', ' stx 5,x\n', ' nop 5\n', ' .byte\n', ' .word 1,\n', ' .wend\n', ' .until 1\n', ' .enddo 1\n', ' .else\n', ' lda ?\n', ' .byte 1,,2\n', ' .fill 1\n', ' .fill 1,0-1\n', ' lda )\n', ' bne\n', ' lda #\n', ' .foo\n', ' inc 5,y\n']
LATE = [0, 2, 11, 12, 14, 16, 20, 21, 22, 24]                  # errors that do not stop the assembly
FIRST = [0, 11, 12, 14, 24]                 # these are found in the first pass, which is then the last
FEW = [0, 1, 2, 3, 4, 10, 15, 20, 24, 26, 17]
PRE = [' nop\n', '; c\n', '\n', '/* a\nb\nc */\n', '.if 1\n nop\n inx\n.endif\n', '.if 0\n nop\n.endif\n', '.ifdef zz\n foo bar (\n\n.endif\n', '.macro m%d\n nop\n nop\n.endm\n m%d\n', '.var i%d\n.for i%d = 1 .to 3\n nop\n.next i%d\n', ' .inc "ff"\n', ' nop\r\n', ' .byte 1,2,3,"abc"\n', '.section s%d\n nop\n.ends\n', ' .inc "gg"\n', ' .load "hh"\n']
PFILES = {'ff': ' nop\n; c\n/* x\ny */\n\n nop\n', 'gg': ' nop\n .inc "ff"\n\n', 'hh': '12345'}
MSG = re.compile(rb'^(.*) File (.*) near line (\d+)$')
CTX = re.compile(rb'^(\d+) {2,}(.*)$')


def families(tier):
    deep = tier == 'thorough'

    def place():
        for k in range(len(ERR)):
            for n in range(1, 51):
                for a in range(4):
                    yield (k, n, a)

    def lines():
        for n in (255, 256, 257, 1000, 9999, 10000, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 65538, 100000):
            for k in range(len(ERR)):
                yield (k, n)

    def prefix():
        for k in FEW:
            for n in range(1, 4):
                for s in itertools.product(range(len(PRE)), repeat=n):
                    if n == 3 and not deep and (sum(s) + k) % 3:
                        continue
                    yield (k, s)

    def tree():
        for k in FEW:
            for d in range(1, 5):
                for at in range(d + 1):
                    for p in range(0, 7):
                        for q in range(0, 3):
                            for after in range(2):
                                yield (k, d, at, p, q, after)

    def sources():
        for k in FEW:
            for n in range(1, 7):
                for at in range(n):
                    for p in range(0, 6):
                        for w in range(2):
                            yield (k, n, at, p, w)

    def many():
        for k in LATE:
            for m in range(1, 256):
                yield (k, m)
        for n in range(9, 121):
            yield ('n', n)
        for q in itertools.product([-1] + LATE, repeat=4 + deep):
            yield ('x', q)

    def block():
        for k in (0, 2, 3, 9, 20, 24):
            for b in range(len(BL)):
                for pos in range(3):
                    for d in range(1, 5):
                        yield (k, b, pos, d)

    def warn():
        for n in range(1, 7):
            for s in itertools.product('bf10' if n > 4 else 'bf10i', repeat=n):
                for w in range(2):
                    yield (''.join(s), w)

    def io():
        for m in range(16):
            for w in range(2):
                yield (m, w)

    def full():
        for n in list(range(1, 41)) + [4094, 4095, 4096, 4097, 4098, 8193]:
            for k in range(n + 2) if n < 41 else sorted({0, 1, 4095, 4096, 4097, 8191, 8192, 8193, n - 2, n - 1, n, n + 1}):
                if k < n + 2:
                    yield ('-o', n, k)
        for o in ('-s', '-l', '-log'):
            for n in (1, 2, 3, 10, 60, 200):
                for k in list(range(0, 200)) + [2 ** j + x for j in range(8, 14) for x in (-1, 0, 1)]:
                    yield (o, n, k)

    def long():
        for n in list(range(1, 121)) + [2 ** j + x for j in range(7, 14) for x in (-3, -2, -1, 0, 1, 2)]:
            for w in range(2):
                yield ('l', n, w)
        for n in range(2, 201):
            yield ('f', n, 0)
    def big():
        ns = set(range(1, 40, 3)) | {k + d for k in (97, 195, 390, 780) for d in range(-4 - 6 * deep, 9 + 6 * deep)} | {250, 600, 1000, 1400}
        for n in sorted(ns):
            for p in range(9):
                for w in range(6):
                    yield (n, p, w)
    return [('place', place()), ('lines', lines()), ('prefix', prefix()), ('tree', tree()), ('sources', sources()), ('many', many()), ('block', block()), ('warn', warn()), ('io', io()), ('full', full()), ('long', long()), ('big', big())]


BL = [('.if 1\n', '.endif\n'), ('.repeat\n', '.until 1\n'), ('.do\n', '.while 0\n'), ('.section sect1\n', '.ends\n'), ('.ifndef zz\n', '.endif\n'), ('.if 0\n nop\n.else\n', '.endif\n')]


def messages(b):
    """[(text, file, line, {context line number: text})]"""
    res = []
    for l in b.split(b'\n'):
        m = MSG.match(l)
        if m:
            res.append((m.group(1), m.group(2).decode('latin-1'), int(m.group(3)), {}))
            continue
        c = CTX.match(l)
        if c and res:
            res[-1][3][int(c.group(1))] = c.group(2)
    return res


def faults(text, args, files, where, all_of=False, timeout=4, upto=None):
    """where: [(file, line)] the program is wrong at; at least the first must be reported (all_of: exactly these)"""
    j = src(text, args, files, timeout=timeout)
    lines = {f: d.split(b'\n') for f, d in j.files.items()}

    def judge(rs):
        r = rs[0]
        if r.kind != 0:
            return ['ended by ' + r.status()]
        if r.code == 0:
            return ['accepted, but line %d of %s is in error' % (where[0][1], where[0][0])]
        ms = messages(r.stderr)
        if not ms:
            return ['no message with a place (%s)' % first_line(r.stderr)]
        fits = lambda m, w: m[1] == w[0] and w[1] <= m[2] <= (upto or w[1]) + 1
        if all_of:
            if len(ms) != len(where) or not all(fits(m, w) for m, w in zip(ms, where)):
                return ['errors are at lines %s, reported near %s' % ([w[1] for w in where][:8], [m[2] for m in ms][:8])]
            if ('%d error(s)' % len(where)).encode() not in r.stderr.split(b'\n'):
                return ['the number of errors is not reported as %d' % len(where)]
        elif not fits(ms[0], where[0]):
            return ['the error is at line %d of %s, reported near line %d of %s' % (where[0][1], where[0][0], ms[0][2], ms[0][1])]
        for m in ms if all_of else ms[:1]:
            src_lines = lines.get(m[1])
            if src_lines and all(len(x) < 1000 for x in src_lines):
                for n, t in m[3].items():
                    have = src_lines[n - 1] if n <= len(src_lines) else b''
                    if t.strip() and t.strip() != have.strip():
                        return ['line %d of %s is shown as %r, it is %r' % (n, m[1], t[:40], have[:40])]
                if not any(w[0] == m[1] and (w[1] in m[3] or upto) for w in where):
                    return ['the line in error is not among the lines shown']
        return []
    return Test([j], judge, [hash((w, first_line(text.encode() if isinstance(text, str) else text))) for w in where], max(1, len(where)))


def test(fam, it):
    if fam == 'place':
        k, n, a = it
        e = ERR[k]
        return faults(' nop\n' * (n - 1) + e + ' nop\n' * a, [], None, [('t.a', n)])
    if fam == 'lines':
        k, n = it
        return faults(['\n', '; c\n', '\n\n; d\n'][k % 2] * (n - 1) + ERR[k] + ' nop\n', [], None, [('t.a', n)], timeout=20)
    if fam == 'prefix':
        k, s = it
        t = ''.join(PRE[x].replace('%d', str(j)) for j, x in enumerate(s))
        return faults(t + ERR[k] + ' nop\n', [], PFILES, [('t.a', t.count('\n') + 1)])
    if fam == 'tree':
        k, d, at, p, q, after = it
        files = {}
        for j in range(d + 1):
            inc = ' .inc "f%d"\n' % (j + 1) if j < d else ''
            a, b = ' nop\n' * p, '; c\n' * q
            body = a + inc + b
            if j == at:
                body = (a + inc + b + ERR[k] if after else a + ERR[k] + inc + b)
                line = body[:body.index(ERR[k])].count('\n') + 1
            files['f%d' % j if j else 't.a'] = body + ' inx\n'
        t = files.pop('t.a')
        return faults(t, [], files, [('f%d' % at if at else 't.a', line)])
    if fam == 'sources':
        k, n, at, p, w = it
        files = {}
        for j in range(n):
            a = ' nop\n' * p + (' .inc "ff"\n; c\n' if w else '')
            files['s%d.a' % j] = a + (ERR[k] if j == at else '') + ' inx\n'
        line = a.count('\n') + 1
        files['ff'] = PFILES['ff']
        return faults('\n', ['s%d.a' % j for j in range(n)], files, [('s%d.a' % at, line)])
    if fam == 'many':
        k, m = it
        if k == 'x':
            if max(m) < 0:
                return None
            return faults(''.join(ERR[x] if x >= 0 else ' .byte 1\n' for x in m), [], None, [('t.a', j + 1) for j, x in enumerate(m) if x in FIRST] or [('t.a', j + 1) for j, x in enumerate(m) if x >= 0], True)
        if k == 'n':
            t = ''.join(ERR[0] + (' nop\n' if j % 3 else '') for j in range(m))
            where = [j + 1 for j, l in enumerate(t.split('\n')) if l == ERR[0].strip('\n')]
            return faults(t, [], None, [('t.a', x) for x in where], True)
        t = ''.join(ERR[k] if m >> j & 1 else ' nop\n' for j in range(8))
        return faults(t, [], None, [('t.a', j + 1) for j in range(8) if m >> j & 1], True)
    if fam == 'block':
        k, b, pos, d = it
        body = ''.join(ERR[k] if j == pos else ' nop\n' for j in range(3))
        o, c = BL[b]
        if b == 3 and d > 1:
            return None
        t = ' nop\n' + o * d + body + c * d + ' nop\n'
        if b in (3, 4):
            return faults(t, [], None, [('t.a', 2 + d * o.count('\n') + pos)])
        return faults(t, [], None, [('t.a', 2 + d * o.count('\n') + pos)], upto=t.count('\n') - 1)
    if fam == 'warn':
        s, w = it
        t, on, want, n = '', not w, [], 0
        for c in s:
            n += 1
            if c == 'f' and on:
                want.append(n)
            if c == '1':
                on = True
            if c == '0':
                on = False
            t += {'b': ' bne *+2\n', 'f': ' bne *+400\n', '1': '.warn on\n', '0': ' .warn off\n', 'i': ' .inc "ff"\n'}[c]
        j = src(t, ['-nowarn'] if w else [], {'ff': ' nop\n'})

        def judge(rs):
            r = rs[0]
            if r.kind != 0 or r.code != 0:
                return ['rejected (%s)' % r.status()]
            ms = messages(r.stderr)
            if len(ms) != len(want) or not all(m[1] == 't.a' and x <= m[2] <= x + 1 for m, x in zip(ms, want)):
                return ['branches out of range with warnings on are at lines %s, warnings are near %s' % (want, [m[2] for m in ms])]
            return []
        return Test([j], judge, [hash(it)], n)
    if fam == 'io':
        m, w = it
        a = []
        for b, o in enumerate(('-o', '-s', '-l', '-log')):
            a += [o, ('nodir/' if m >> b & 1 else '') + 'out.' + o[1:]]
        j = Job({'t.a': b' nop\nl nop\n jmp l\n'}, ['t.a'] + a + (['-v'] if w else []), ('out.o', 'out.s', 'out.l', 'out.log'), 4)

        def judge(rs):
            r = rs[0]
            if r.kind != 0:
                return ['ended by ' + r.status()]
            if (r.code != 0) != (m != 0):
                return ['%s although %s' % (r.status(), 'a file cannot be written' if m else 'all files can be written')]
            if not m and any(r.outs[n] is None for n in r.outs):
                return ['a file that was asked for is missing']
            return []
        return Test([j], judge, [hash(it)], 1)
    if fam == 'full':
        o, n, k = it
        t = ' .fill 1,%d\n' % n if o == '-o' else ''.join('l%d jmp l%d\n' % (j, j) for j in range(n))
        a = Job({'t.a': t.encode()}, ['t.a', o, 'out.bin'], ('out.bin',), 4)
        b = Job(a.files, a.args, a.outs, 4 | k + 1 << 16)

        def judge(rs):
            x, y = rs
            if x.kind or y.kind or x.code:
                return ['ended by ' + x.status() + ', ' + y.status()]
            if y.code == 0 and x.bin != y.bin:
                return ['%d bytes of %d could be written, but the status is 0' % (k, len(x.bin or b''))]
            if y.code != 0 and len(x.bin) <= k and len(x.stdout) <= k:
                return ['everything could be written, but %s' % y.status()]
            return []
        return Test([a, b], judge, [hash(it)], 1)
    if fam == 'big':
        n, p, w = it
        at = sorted({0, n - 1} if p == 8 else {n * p // 9, min(n - 1, n * p // 9 + 1)} if p % 2 else {n * p // 9})
        bad = ' bne *+400\n' if w < 3 else ' .byte 256\n'
        t = ''.join(bad if k in at else ' .byte %d,%d ; %s\n' % (k % 251, k % 7, 'x' * (26 - len('%d%d' % (k % 251, k % 7)))) for k in range(n))
        f, files, text = 't.a', None, t
        if w % 3 == 1:
            f, files, text = 'in.x', {'in.x': t}, ' nop\n .inc "in.x"\n .byte 7,8,9\n'
        if w % 3 == 2:
            text, files = ' .inc "in.x"\n' + t, {'in.x': ' nop\n nop\n'}
        where = [(f, k + 1 + (w % 3 == 2)) for k in at]
        if w > 2:
            return faults(text, [], files, where, all_of=True, timeout=20)
        js = [src(text, a, files, timeout=20) for a in ([], ['-nowarn'])]

        def judge(rs):
            r = rs[0]
            if r.kind != 0 or r.code != 0:
                return ['rejected (%s)' % r.status()]
            ms = messages(r.stderr)
            if len(ms) != len(where) or not all(m[1] == x[0] and x[1] <= m[2] <= x[1] + 1 for m, x in zip(ms, where)):
                return ['branches out of range at lines %s, warnings are near %s' % ([x[1] for x in where], [m[2] for m in ms])]
            if r.outs.get('out.bin') != rs[1].outs.get('out.bin') or not r.outs.get('out.bin'):
                return ['the output is another one than without warnings (%d and %d bytes)' % (len(r.outs.get('out.bin') or b''), len(rs[1].outs.get('out.bin') or b''))]
            if len(r.outs['out.bin']) != 2 * (n - len(at)) + 5 * len(at) + [0, 4, 2][w]:
                return ['lines are missing in the output, it has %d bytes' % len(r.outs['out.bin'])]
            return []
        return Test(js, judge, [hash(it)], n)
    if fam == 'long':
        k, n, w = it
        if k == 'f':
            nm = 'n' * n
            return faults(' nop\n .inc "%s"\n' % nm, [], {nm: ' nop\n lda #256\n'}, [(nm, 2)])
        t = [' nop ; %s\n nop\n lda #256\n', ' nop\n nop\n lda #256 ; %s\n'][w] % ('x' * n)
        return faults(t, [], None, [('t.a', 3)])
    return None
