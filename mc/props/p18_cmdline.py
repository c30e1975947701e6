"""P18 the command line does what its options say"""
import itertools, re
from .. import refasm
from ..explore import Test, src, observed, agree
from ..execpool import Job

ID = 'P18'
BOUNDS = {
    'seq': 'all argument lists of length <= 4 over 19 words (all options, three sources, a value and a name); of length 5 over 8 of them (thorough 13)',
    'subset': 'all subsets of the options that take no operand x each order of up to 3 of them x before, between and after the sources',
    'spell': 'every option with - and / in all case patterns',
    'unknown': 'every string of length <= 2 after - and /, and every option with a character more or less: a source name, not an option',
    'value': 'every value 0..65535 in each notation (quick: of one notation), values outside of it by up to 70000 around and at 32 and 64 bit limits',
    'text': 'every string of length <= 4 over $ % 0 1 x b f - space, and of length <= 3 over 19 more characters, as the value of a definition: a number or refused',
    'defines': '0..60 definitions, the same symbol twice, names of every length 1..100, names in all case patterns, definitions used by conditionals, operands and loops',
    'files': '1..150 sources, the same source several times, sources named like options of the other kind',
    'output': 'outputs of every size 0..40 and round powers of two to 65536 over existing longer, equal and shorter files; the reported number of bytes',
    'over': 'all subsets of the four output files x older file in the place of each (none, a line, 400 lines, 8000 lines) x programs that succeed, warn, print and fail: as without older files',
    'start': 'all combinations of processor option x instruction of each kind x directives that change it',
}
ASSUMES = ['the text of messages and of the usage is not specified beyond there being one', 'values with spaces, with a sign that is not first, or with two prefixes, are not specified', 'what is left in output files after an error is not specified']
TAKES = {'-o': 1, '-s': 1, '-l': 1, '-log': 1, '-dir': 1, '-d': 2, '-c64': 0, '-v': 0, '-65c02': 0, '-6502': 0, '-i': 0, '-nowarn': 0, '-?': 0, '-h': 0}
FILES = {'w.a': ' slo 5\n', 'dd/v.a': ' .byte 77\n'}
FILES['t.a'] = '.ifdef nn\n .byte 9,nn\n.endif\n.ifdef mm\n .byte 8,mm\n.endif\n bne *+300\n'
FILES['u.a'] = ' phx\n'
ALPHA = ['-o', '-s', '-l', '-log', '-dir', '-d', '-c64', '-v', '-65c02', '-6502', '-i', '-nowarn', '-?', 't.a', 'u.a', 'w.a', 'dd', 'nn', '5']


def model(args):
    """(ended early: status or None, {option: operand}, sources, definitions, flags)"""
    opt, srcs, defs, flags = {}, [], [], set()
    k = 0
    while k < len(args):
        a = args[k].lower()
        if a[:1] == '/':
            a = '-' + a[1:]
        if a in ('-?', '-h'):
            return 0, opt, srcs, defs, flags
        if a in TAKES:
            n = TAKES[a]
            if k + n >= len(args) and n:
                return 255, opt, srcs, defs, flags
            f = '-cpu' if a in ('-65c02', '-6502') else a
            if f != '-d' and (f in opt or f in flags):
                return 255, opt, srcs, defs, flags
            if n == 0:
                flags.add(f)
                if f == '-cpu':
                    flags.add(a)
            elif n == 1:
                opt[a] = args[k + 1]
            else:
                v = number(args[k + 2])
                if v is None:
                    if re.search('[ \\t+-]|^(.|0.)0[xXbB]', args[k + 2]):
                        raise refasm.Unsupported('value')
                    return 255, opt, srcs, defs, flags
                if not 0 <= v <= 65535:
                    return 255, opt, srcs, defs, flags
                defs.append((args[k + 1], v))
            k += 1 + n
        else:
            srcs.append(args[k])
            k += 1
    if not srcs:
        return 255, opt, srcs, defs, flags
    return None, opt, srcs, defs, flags


def number(t):
    for pre, base, digits in (('$', 16, '0-9a-fA-F'), ('%', 2, '01'), ('0x', 16, '0-9a-fA-F'), ('0b', 2, '01'), ('', 10, '0-9')):
        if t.startswith(pre) and re.fullmatch('-?[%s]+' % digits, t[len(pre):]):
            return int(t[len(pre):], base)
    return None


def run(args, files=FILES):
    """judge one command line"""
    fs = {k: v if isinstance(v, bytes) else v.encode('latin-1') for k, v in files.items()}
    early, opt, srcs, defs, flags = model(args)
    names = [opt[o] for o in ('-o', '-s', '-l', '-log') if o in opt]
    if len(set(names)) < len(names) or any(n in fs and n != 'out.bin' or n in srcs or n == 'dd' or n == '' for n in names):
        raise refasm.Unsupported('files on top of each other')
    for n, v in defs:
        if not re.fullmatch('[A-Za-z_][A-Za-z0-9_]*', n) or n.lower() in refasm.OPS or n.lower() in ('x', 'y', 'a', 'not'):
            raise refasm.Unsupported('name of a definition')
    if len({n.lower() for n, v in defs}) < len({(n.lower(), v) for n, v in defs}):
        raise refasm.Unsupported('defined twice')
    if early is None:
        ra = [x for x in srcs] + [x for n, v in defs for x in ('-d', n, str(v))] + (['-dir', opt['-dir']] if '-dir' in opt else []) + [f for f in flags if f in ('-65c02', '-6502', '-i', '-c64')]
        o = refasm.assemble({k: v for k, v in fs.items() if k not in names}, ra)
    outs = tuple(dict.fromkeys(names)) + (() if 'out.bin' in names else ('out.bin',))
    j = Job(fs, args, outs, 4)

    def judge(rs):
        r = rs[0]
        if r.kind:
            return ['ended by ' + r.status()]
        if early is not None:
            p = [] if r.code == early else ['%s, expected %d' % (r.status(), early)]
            if early == 0 and b'Usage' not in r.stdout:
                p.append('no usage is shown')
            if early and not r.stderr.strip():
                p.append('nothing says why')
            if any(r.outs[n] is not None for n in names if n not in fs):
                p.append('a file was written')
            return p
        if (r.code == 0) != o.ok:
            return ['%s (%s), expected %s' % (r.status(), r.stderr[:60].decode('latin-1'), 'success' if o.ok else o.why)]
        if not o.ok:
            return []
        p = []
        for opt_, n in opt.items():
            if opt_ != '-dir' and r.outs[n] is None:
                p.append('%s was not written' % n)
        if '-o' in opt and r.outs[opt['-o']] != o.data:
            p.append('the output is %s, expected %s' % ((r.outs[opt['-o']] or b'')[:20].hex(' '), o.data[:20].hex(' ')))
        if '-o' in opt and ('%d bytes written to %s' % (len(o.data), opt['-o'])).encode('latin-1') not in r.stdout:
            p.append('the number of bytes written is not reported as %d' % len(o.data))
        if '-o' not in opt and r.outs.get('out.bin') is not None and 'out.bin' not in names:
            p.append('an output file was written without being asked for')
        if '-l' in opt and b'; Processing ' not in (r.outs[opt['-l']] or b''):
            p.append('the listing file is not a listing')
        if '-s' in opt and any(('%-20s' % n.lower()).strip() not in (r.outs[opt['-s']] or b'').decode('latin-1').lower() for n, v in defs):
            p.append('a definition is missing in the symbol file')
        if ('-v' in flags) != (b'; Processing ' in r.stdout):
            p.append('the verbose report is %s' % ('missing' if '-v' in flags else 'shown'))
        if 't.a' in srcs and fs.get('t.a') == FILES['t.a'].encode() and ('-nowarn' in flags) == (b'near line' in r.stderr):
            p.append('the warning is %s' % ('shown' if '-nowarn' in flags else 'missing'))
        return p
    early_h = hash((early, tuple(sorted(opt)), tuple(srcs), tuple(defs), tuple(sorted(flags))))
    return Test([j], judge, [early_h], max(1, len(args)))


def families(tier):
    deep = tier == 'thorough'

    def seq():
        for n in range(0, 5):
            yield from itertools.product(range(len(ALPHA)), repeat=n)
        few = [ALPHA.index(x) for x in (['-o', '-d', '-c64', '-65c02', 't.a', 'u.a', 'nn', '5'] + (['-s', '-dir', '-i', '-nowarn', 'dd'] if deep else []))]
        yield from itertools.product(few, repeat=5)

    def subset():
        for m in range(64):
            fl = [f for j, f in enumerate(['-c64', '-v', '-65c02', '-i', '-nowarn', '-6502']) if m >> j & 1]
            for s in range(8):
                srcs = [f for j, f in enumerate(['t.a', 'u.a', 'w.a']) if s >> j & 1]
                for at in range(len(srcs) + 1):
                    yield (srcs[:at] + fl + srcs[at:],)
                    yield (srcs[:at] + fl[::-1] + srcs[at:],)
                    yield (srcs[:at] + fl[1:] + srcs[at:] + fl[:1],)

    def spell():
        for o in TAKES:
            for m in range(1 << len(o) - 1):
                w = ''.join(c.upper() if j and m >> j - 1 & 1 else c for j, c in enumerate(o))
                if m and w == o:
                    continue
                for pre in '-/':
                    for ops in (['out.x'], ['nn', '7'], []):
                        if len(ops) == TAKES[o]:
                            yield ([pre + w[1:]] + ops + ['t.a'],)
                            yield (['t.a', pre + w[1:]] + ops,)
                            yield (['t.a', '-o', 'out.bin', pre + w[1:]] + ops + ['dd/v.a'],)

    def unknown():
        al = 'abcdefghilnorsvwx0256?-_.'
        for pre in '-/':
            for n in range(0, 3):
                for s in itertools.product(al, repeat=n):
                    yield (['t.a', pre + ''.join(s), 'zz9'],)
            for o in TAKES:
                for c in al:
                    yield (['t.a', pre + o[1:] + c],)
                    yield (['t.a', pre + c + o[1:]],)
                if len(o) > 2:
                    yield (['t.a', pre + o[1:-1]],)
                    yield (['t.a', pre + o[2:]],)
                yield (['t.a', o[1:]],)

    def value():
        for v in range(65536):
            for f in range(5 if deep else 1):
                yield (v, f)
        for v in sorted({b + x for b in (0, 255, 256, 32767, 65535, 65536, 131072, 1 << 31, (1 << 31) + 65536, 1 << 32, 1 << 63, 1 << 64) for x in range(-6, 7)}):
            for f in range(5):
                yield (v, f)
                if v > 0:
                    yield (-v, f)

    def text():
        for n in range(1, 5):
            for s in itertools.product('$%01xbf- ', repeat=n):
                yield (''.join(s),)
        yield ('',)
        for n in range(1, 4):
            for s in itertools.product('29aAgXB@*._,#h"\'$%0', repeat=n):
                yield (''.join(s),)

    def defines():
        for n in range(61):
            yield ('n', n)
        for n in range(1, 101):
            yield ('l', n)
        for m in range(16):
            for w in range(16):
                yield ('c', m, w)
        for v in (0, 1, 2, 3, 255, 256, 65535):
            for u in range(len(USES)):
                yield ('u', v, u)
        for a in range(3):
            yield ('t', a)

    def files():
        for n in range(1, 151):
            yield ('n', n)
        for s in itertools.product(range(3), repeat=4):
            yield ('s', s)
        for n in ('o', 's', 'd', 'v', 'i', 'c64', '65c02', '6502', 'nowarn', 'log', 'dir', 'a-o', '0', '?'):
            yield ('w', n)

    def output():
        for n in list(range(41)) + [2 ** j + x for j in range(6, 16) for x in (-1, 0, 1)] + [61439, 61440]:
            for k in range(4):
                for h in range(2):
                    yield (n, k, h)

    def over():
        for m in range(1, 16):
            for old in itertools.product(range(4), repeat=bin(m).count('1')):
                if any(old):
                    for p in range(len(OVER)):
                        for v in range(2):
                            yield (m, old, p, v)

    def start():
        for c in range(4):
            for i in range(2):
                for a in itertools.product(range(6), repeat=3 if deep else 2):
                    for ins in range(4):
                        yield (c, i, a, ins)
    return [('seq', seq()), ('subset', subset()), ('spell', spell()), ('unknown', unknown()), ('value', value()), ('text', text()), ('defines', defines()), ('files', files()), ('output', output()), ('over', over()), ('start', start())]


OVER = [' nop\n', '.print "abc", 5\nl nop\n bne *+300\n', '; c\n', ' nop\n lda #256\n']


def over(m, old, p, v):
    """output files replace older ones"""
    fs = {'t.a': OVER[p].encode()}
    args, names, pre, k = ['t.a'], [], dict(fs), 0
    for j, (o, n) in enumerate((('-o', 'o.x'), ('-s', 's.x'), ('-l', 'l.x'), ('-log', 'g.x'))):
        if m >> j & 1:
            args += [o, n]
            names.append(n)
            if old[k]:
                pre[n] = b'OLD LINE OF TEXT\n' * (0, 1, 400, 8000)[old[k]]
            k += 1
    if v:
        args.append('-v')
    a, b = Job(fs, args, tuple(names), 4), Job(pre, args, tuple(names), 4)

    def judge(rs):
        x, y = rs
        if x.status() != y.status():
            return ['over older files: %s, without: %s' % (y.status(), x.status())]
        if x.code:
            return []
        return ['%s over an older file is %d bytes (%r), without %d bytes (%r)' % (n, len(y.outs[n] or b''), (y.outs[n] or b'')[:30], len(x.outs[n] or b''), (x.outs[n] or b'')[:30])
                for n in names if x.outs[n] != y.outs[n]]
    return Test([a, b], judge, [hash((m, old, p, v))], 2)


USES = [' lda #<nn\n', ' lda nn\n', ' .word nn\n', '.if nn > 1\n nop\n.else\n inx\n.endif\n', '.ifdef nn\n nop\n.endif\n', 'k = nn + 1\n .word k\n', ' .byte nn & 3\n', '.var i\n.for i = 1 .to (nn & 7)\n .byte i\n.next i\n', ' .word NN, nN\n', ' jmp nn\n', '.macro mm\n .word \\1+nn\n.endm\n mm nn\n', '.fill nn & 255, 3\n']
FMT = ['%d', '$%x', '%%b', '0x%X', '0b']


def fmt(v, f):
    if f in (2, 4):
        return ('-' if 0 else '') + ('%' if f == 2 else '0b') + format(v, 'b')
    return FMT[f] % v


def test(fam, it):
    try:
        return element(fam, it)
    except refasm.Unsupported:
        return None


def element(fam, it):
    if fam == 'seq':
        return run([ALPHA[x] for x in it])
    if fam in ('subset', 'spell', 'unknown'):
        return run(list(it[0]))
    if fam == 'value':
        v, f = it
        return run(['t.a', '-d', 'nn', fmt(v, f), '-o', 'out.bin'], {'t.a': '.word nn\n'})
    if fam == 'text':
        return run(['t.a', '-d', 'nn', it[0], '-o', 'out.bin'], {'t.a': '.word nn\n'})
    if fam == 'defines':
        if it[0] == 'n':
            n = it[1]
            return run(sum((['-d', 's%d' % j, str(j * 1000)] for j in range(n)), []) + ['t.a', '-o', 'out.bin', '-s', 'out.sym'], {'t.a': ''.join(' .word s%d\n' % j for j in range(n)) + ' nop\n'})
        if it[0] == 'l':
            nm = ('abcdefghij' * 10)[:it[1]]
            nm = 'q_' if nm in ('a',) else nm
            return run(['-d', nm, '513', 't.a', '-o', 'out.bin'], {'t.a': ' .word %s\n' % nm})
        if it[0] == 'c':
            w = lambda m: ''.join(c.upper() if m >> j & 1 else c for j, c in enumerate('abcd'))
            return run(['-d', w(it[1]), '513', 't.a', '-o', 'out.bin'], {'t.a': ' .word %s\n.ifdef %s\n nop\n.endif\n' % (w(it[2]), w(it[2]))})
        if it[0] == 'u':
            return run(['-d', 'nn', str(it[1]), 't.a', '-o', 'out.bin'], {'t.a': USES[it[2]]})
        a = it[1]
        return run(['-d', 'nn', '5', '-d', ['nn', 'NN', 'nn'][a], '5', 't.a', '-o', 'out.bin'], {'t.a': ' .word nn\n'})
    if fam == 'files':
        if it[0] == 'n':
            return run(['f%d' % j for j in range(it[1])] + ['-o', 'out.bin'], {'f%d' % j: ' .byte %d\n' % j for j in range(it[1])})
        if it[0] == 's':
            return run(['f%d' % j for j in it[1]] + ['-o', 'out.bin'], {'f%d' % j: ' .byte %d\n' % j for j in range(3)})
        return run([it[1], '-o', 'out.bin', it[1]], {it[1]: ' .byte 3\n'})
    if fam == 'output':
        n, k, h = it
        fs = {'t.a': ' .fill 7,%d\n' % n if n else '; c\n'}
        if k:
            fs['out.bin'] = 'z' * [0, n + 100, n, n // 2][k]
        return run(['t.a', '-o', 'out.bin'] + (['-c64'] if h else []), fs)
    if fam == 'over':
        return over(*it)
    if fam == 'start':
        c, i, a, ins = it
        t = ''
        for x in a:
            t += ['', '.6502 on\n', '.65c02 on\n', '.illegal on\n', '.illegal off\n', ' nop\n'][x] + [' phx\n', ' slo 5\n', ' inx\n', ' stz $1234\n'][ins]
        return run([[], ['-6502'], ['-65c02'], ['-6502', '-65c02']][c] + (['-i'] if i else []) + ['t.a', '-o', 'out.bin'], {'t.a': t})
    return None
