"""P17 spelling, output files, repetition and surroundings do not change the output"""
import itertools
from .. import refasm
from ..explore import Test, ref_test, src, observed
from ..execpool import Job

ID = 'P17'
BOUNDS = {
    'gap': 'each gap between two tokens of 78 programs x 14 kinds of white space and comment, and every gap at once',
    'gaps': 'all combinations of {none, one space, tab and space} over the gaps of all windows of 5 (thorough 8) neighbouring gaps',
    'word': 'every keyword, mnemonic and register in all its upper and lower case patterns (up to 6 letters; beyond that each single letter, and all alternations)',
    'name': 'all pairs of case patterns of a name in its definition and use x 9 kinds of name',
    'eol': 'all combinations of LF and CRLF over 6 lines x programs; whole programs in both, with includes of files of both kinds; blank and comment lines at all sets of positions',
    'comment': 'every character 1..255 in each kind of comment; comments of every length 0..80 and round powers of two to 8192 (in lines) and 32768 (in blocks); all strings of length <= 5 over / * ; newline " letter in comments',
    'observe': 'all subsets of {-l, -s, -log, -v, -nowarn, -o} x 78 programs, 20 programs in error and 81 long ones (of up to 19 passes, with many symbols, lines, labels, errors, nested blocks): same output, listing, symbol file and status with each',
    'again': 'each of these programs with 6 fillings of fresh and freed memory, and twice',
    'place': 'each program under 9 kinds of source file name, in a directory, and after 1..3 empty sources',
}
ASSUMES = ['the parts of an origin assignment, of a condition on a definition and of on/off directives are separated by white space, not by comments', 'symbols are the same in any letter case']
# tokens are separated by one space; '~' is white space that stays
PROG = ['nop', 'lda # 5', 'lda # < $1234 + 2', 'lda $12 , x', 'lda ( $12 ) , y', 'lda ( $12 , x )', 'ldx $1234 , y', 'jmp ( $1234 )', 'asl a', 'asl', 'lab nop\n jmp lab', 'lab : nop\nbne lab', 'lab\njmp lab', 'kk = 5\nlda # kk', 'kk .equ 5\nsta kk', '* = $2000\nlab jmp lab', '* .equ $2000\nlab jmp lab',
        '.org $2000\nlab jmp lab', '.byte 1 , 2 , 3', '.byte "ab" , 1', ".byte 'a' , ';'", '.word 1 + 2 * 3 , ( 4 - 1 ) / 2', '.word lab\nlab nop', '.str "ab" , 300', '.ds 3\nlab = *\n.org lab', '.fill 3 , 5', '.fill 1 + 1 , 2 + 3', '.word 6 & 3 , 6 | 3 , 6 ^ 3', '.word 1 << 4 , 256 >> 2', '.word 1 < 2 , 1 > 2 , 1 <= 2 , 1 >= 2',
        '.word 1 == 2 , 1 != 2 , 1 <> 2', '.word 1 && 2 , 0 || 1', '.word not 1 , ~ 5 , - 5', '.word 5 | - 3 , 5 & - 3 , 5 ^ - 3', '.word 5 * - 3 , 5 << - 0 , 6 / - 2', '.word 1 || - 3 , 1 && - 3', '.word 0 == - 3 , 0 < - 3 , 0 > - 3', '.if 1\nnop\n.endif', '.if 1 > 2\nnop\n.else\ninx\n.endif', '.ifdef~zz\nnop\n.else\ninx\n.endif', '.ifndef~zz\nnop\n.else\ninx\n.endif',
        '.var i\n.for i = 1 .to 3 .step 2\n.byte i\n.next i', '.var i\n.for i = 3 .downto 1\n.byte i\n.next i', '.var i = 0\n.while i < 3\n.byte i\ni = i + 1\n.wend', '.var i = 0\n.do\n.byte i\ni = i + 1\n.while i < 3', '.var i = 0\n.repeat\n.byte i\ni = i + 1\n.until i == 3', '.for .regx = 1 .to 3\nnop\n.next x', '.for .regy = 3 .downto 1\nnop\n.next y',
        '.macro mm\nlda # \\1\nsta \\2 , x\n.endm\nmm 1 , 2\nmm $300 , $400', '.mac mm\n@l bne @l\n.endmacro\nmm\nmm', '.macro mm\n.byte \\1 + \\2 , \\3\n.endm\nmm 1 , 2 , "ab"', '.section s1\nqq nop\njmp qq\n.ends\njmp s1.qq', '.sect s1\nkk = 3\n.endsection\nlda # s1.kk', '- nop\nbne -\n- nop\nbne --', 'bne +\nnop\n+ nop', 'lab nop\n@l nop\nbne @l', '.inc "ff"\njmp fl', '.load "gg"\nnop', '.65c02~on\nphx\n.6502~on\nnop', '.warn~off\nlab bne lab + 300\n.warn~on', '.illegal~on\nslo 5\n.illegal~off', '.print~off\nnop\n.print~on\nnop', '.c64\nnop', 'bne * + 300', 'bcs * + 4', 'brk', '.65c02~on\nbra * + 4\nstz $1234 , x\nlda ( 5 )\ninc a',
        '.byte $ff , %101 , 0b11 , 12', '.word -5 , -1', 'lda # -1', 'lda # - 1', '.byte "a" , "b" , \'\\n\'', '.end', '.var v = 5 , w = v\n.byte v , w', 'kk = lab + 2\nlda kk\nlab nop', '.byte lab - *\nlab nop', 'lda lab\n* = $10\nlab nop', '.word * , * + 1 , * * 2', '.do\n.do\nnop\n.while 0\n.while 0', '.text "abc" , 1\n.string "x1"\n.dw 3\n.dcw 4\n.db 5']
FIRST = ['l%d nop\n bne l%d\n', ' nop\n', '- nop\n bne -\n', '+ nop\n bne -\n- bne +\n+ nop\n', 'k%d = 5\n lda #k%d\n', '.macro m%d\n nop\n.endm\n m%d\n', '.section s%d\nq jmp q\n.ends\n', '\n', '; c\n', '/* c */ l%d jmp l%d\n', '.ifdef zz\n nop\n.else\n inx\n.endif\n', 'g%d nop\n@x bne @x\n']
FILES = {'ff': 'fl nop\n', 'gg': 'xyz'}
BAD = ['lda # 256', 'foo bar', 'lda (', 'jmp nowhere', '.byte 1 / 0', 'l nop\nl inx', '.endif', '.if 1', '.macro m', '.inc "zz"', '.load "zz"', '* = 70000\nnop', '.word 70000', '.for x', '.next q', 'a1 = a1 + 1\nlda a1', '.ds 5\nnop', '.byte "abc', '.fill 1', 'phx']
# keyword: program with % for it
WORDS = [('nop', '%\n'), ('lda', ' % #1\n'), ('bne', ' % *+2\n'), ('jmp', ' % $1234\n'), ('x', ' lda $12,%\n'), ('y', ' lda ($12),%\n'), ('x', ' lda ($12,%)\n'), ('a', ' asl %\n'), ('y', ' ldx $12,%\n'), ('not', ' .byte % 1\n'), ('.byte', ' % 5\n'), ('.db', ' % 5\n'), ('.word', ' % 5\n'), ('.dw', ' % 5\n'), ('.dcw', ' % 5\n'), ('.ds', ' % 5\n'), ('.equ', 'kk % 5\n lda #kk\n'), ('.equ', '* % $2000\nl jmp l\n'),
         ('.repeat', ' %\n nop\n.until 1\n'), ('.until', '.repeat\n nop\n % 1\n'), ('.end', ' nop\n %\n'), ('.for', '.var i\n % i = 1 .to 3\n nop\n.next i\n'), ('.to', '.var i\n.for i = 1 % 3\n nop\n.next i\n'), ('.downto', '.var i\n.for i = 3 % 1\n nop\n.next i\n'), ('.step', '.var i\n.for i = 1 .to 5 % 2\n nop\n.next i\n'), ('.next', '.var i\n.for i = 1 .to 3\n nop\n % i\n'), ('.regx', '.for % = 1 .to 3\n nop\n.next x\n'), ('.regy', '.for % = 1 .to 3\n nop\n.next y\n'), ('x', '.for .regx = 1 .to 3\n nop\n.next %\n'), ('y', '.for .regy = 1 .to 3\n nop\n.next %\n'),
         ('.str', ' % 5,"ab"\n'), ('.text', ' % 5,"ab"\n'), ('.string', ' % 5,"ab"\n'), ('.org', ' % $2000\nl jmp l\n'), ('.section', ' % s1\nq jmp q\n.ends\n'), ('.sect', ' % s1\nq jmp q\n.ends\n'), ('.ends', '.section s1\nq jmp q\n %\n'), ('.endsection', '.section s1\nq jmp q\n %\n'), ('.inc', ' % "ff"\n'), ('.load', ' % "gg"\n'), ('.fill', ' % 3,4\n'), ('.while', '.var i = 0\n % i < 3\ni = i + 1\n nop\n.wend\n'), ('.wend', '.var i = 0\n.while i < 3\ni = i + 1\n nop\n %\n'), ('.do', ' %\n nop\n.while 0\n'), ('.while', '.do\n nop\n % 0\n'),
         ('.macro', ' % mm\n nop\n.endm\n mm\n'), ('.mac', ' % mm\n nop\n.endm\n mm\n'), ('.endm', '.macro mm\n nop\n %\n mm\n'), ('.endmacro', '.macro mm\n nop\n %\n mm\n'), ('.var', ' % i = 3\n .byte i\n'), ('.if', ' % 1\n nop\n.endif\n'), ('.else', '.if 0\n nop\n % \n inx\n.endif\n'), ('.endif', '.if 0\n nop\n %\n inx\n'), ('.ifdef', ' % zz\n nop\n.endif\n inx\n'), ('.ifndef', ' % zz\n nop\n.endif\n inx\n'), ('.else', '.ifdef zz\n nop\n % \n inx\n.endif\n'), ('.endif', '.ifdef zz\n nop\n %\n inx\n'), ('.endif', '.ifdef zz\n.if 1\n nop\n.endif\n %\n inx\n'), ('.if', '.ifdef zz\n % 1\n nop\n.endif\n.endif\n inx\n'),
         ('.6502', '.65c02 on\n % on\n nop\n'), ('.65c02', ' % on\n phx\n'), ('on', '.65c02 %\n phx\n'), ('.illegal', ' % on\n slo 5\n'), ('off', '.illegal %\n nop\n'), ('.warn', ' % off\n bne *+300\n'), ('off', '.warn %\n bne *+300\n'), ('.c64', ' %\n nop\n'), ('.print', ' % off\n nop\n'), ('off', '.print %\n nop\n'), ('on', '.print %\n nop\n')]
MNEM = 'ora and eor adc sbc cmp cpx cpy dec dex dey inc inx iny asl rol lsr ror lda sta ldx stx ldy sty tax txa tay tya tsx txs pla pha plp php bpl bmi bvc bvs bcc bcs bne beq brk rti jsr rts jmp bit clc sec cld sed cli sei clv nop slo rla sre rra sax lax dcp isc anc anc2 alr arr xaa axs usbc ahx shy shx tas las bra phx phy plx ply stz trb tsb stp wai rmb3 smb3'.split()
FORMS = ['', ' #5', ' 5', ' $1234', ' 5,y', ' $1234,y', ' *+2', ' $1234,x']
NAMEK = [('%s nop\n', ' jmp %s\n'), ('%s = 5\n', ' lda #%s\n'), ('.var %s = 3\n', ' .byte %s\n'), ('.macro %s\n nop\n.endm\n', ' %s\n'), ('.section %s\nq nop\n.ends\n', ' jmp %s.q\n'), ('.section s1\n%s nop\n.ends\n', ' jmp s1.%s\n'), ('g nop\n@%s nop\n', ' bne @%s\n'), ('.var %s = 0\n', '%s = 4\n .byte ab1\n'), ('%s = 5\n', '.ifdef %s\n nop\n.endif\n')]
WS = [' ', '\t', '  ', ' \t ', ' ' * 40, ' ' * 300, '/**/', '/* c */', ' /* c */ ', '/* * / ** x */', '/*\n*/', '/* one\n two */', '/***/', '/* "x */']
BIG = ([''.join('c%d = c%d + 1\n' % (k, k + 1) for k in range(n)) + 'c%d = 5\n .byte c0\n' % n for n in range(1, 20)] + [''.join(' lda c%d\n' % k for k in range(n)) + 'e nop\n' + ''.join('c%d = c%d\n' % (k, k + 1) for k in range(n)) + 'c%d = e-$1000\n' % n for n in range(1, 20)]
       + [''.join('l%d jmp l%d\n' % (k, n - 1 - k) for k in range(n)) for n in (50, 186, 187, 400)] + [' nop\n' * n for n in (300, 2000)] + ['.fill %d,7\n nop\n' % n for n in (5000, 40000)] + ['.fill 7,%d\n nop\n' % n for n in (5000, 40000)]
       + [''.join('-\n bne -\n+\n beq +\n' for k in range(n)) + '+ nop\n' for n in (20, 60)] + [''.join('@a\n bne @a\nm%d nop\n' % k for k in range(n)) for n in (30, 100)]
       + ['* = $1000\n' + ''.join(' bne l%d\n' % k for k in range(n)) + ' .fill 0,130\n' + ''.join('l%d nop\n' % k for k in range(n)) for n in (1, 20, 60)] + [''.join(' bne l%d\nf%d\n' % (k, k) for k in range(n)) + ' .fill 0,%d\n' % f + ''.join('l%d beq f%d\n' % (k, k) for k in range(n)) for n in (5, 12) for f in (100, 110, 120)]
       + ['.macro m0\n .byte \\1\n.endm\n' + ''.join('.macro m%d\n m%d \\1+1\n.endm\n' % (k, k - 1) for k in range(1, n)) + ' m%d 5\n m%d 7\n' % (n - 1, n - 1) for n in (5, 40)] + ['.if 1\n' * n + ' nop\n' + '.endif\n' * n for n in (10, 60)]
       + ['.var i\n.for i = 1 .to %d\n .byte i & 255\n.next i\n' % n for n in (100, 3000)] + ['%s nop\n jmp %s\n' % ('n' * n, 'n' * n) for n in (30, 100, 250)] + [' .byte "%s"\n nop\n' % ('s' * n) for n in (60, 200, 600)] + [' nop ; %s\n inx\n' % ('c' * n) for n in (100, 1000)]
       + ['.print *,"x"\n' * n + ' nop\n' for n in (1, 30)] + [' lda # 256\n' * n for n in (2, 40)] + ['* = $FFF0\n' + ' nop\n' * n for n in (16, 17)])
OBS = [['-l', 'out.lst'], ['-s', 'out.sym'], ['-log', 'out.log'], ['-v'], ['-nowarn'], ['-o', 'out.bin']]


def wordish(c):
    return c.isalnum() or c in '_.@$%\\"\'~'


def may_join(a, b):
    """tokens a, b can stand without white space between"""
    if a in '\n' or b in '\n' or not a or not b:
        return True
    if wordish(a[-1]) and wordish(b[0]):
        return False
    if a[-1] in '+-|&<>=!*/~' and b[0] in '+-|&<>=!*/':
        # runs of plus and minus are names, and operators must not merge; | - and similar pairs are safe
        return a in ('|', '&', '^', '||', '&&', '==', '<', '>', '<=', '>=', '<<', '>>') and b[0] in '+-' or a == '*' and b == '=' or a == '=' and b == '*'
    if a[-1] in '+-' and b[0] == '-':
        return False
    return True


def lex(p):
    return [t for l in p.split('\n') for t in l.split(' ') + ['\n']]


def fix(t):
    return t.replace('~', ' ')


def gaps(toks):
    """indices before which white space may stand (also at the start of lines); comments are not allowed inside * ="""
    return [i for i, t in enumerate(toks)]


def solid(toks, i):
    """a lexeme of its own: * = """
    return i > 0 and toks[i - 1] == '*' and toks[i] in ('=', '.equ') and (i < 2 or toks[i - 2] == '\n')


def render(toks, sep):
    """sep: {gap: white space}; elsewhere the least that is needed"""
    out = ''
    for i, t in enumerate(toks):
        s = sep.get(i)
        prev = toks[i - 1] if i else '\n'
        if s is None or ('/' in s and solid(toks, i)):
            s = '' if may_join(prev, t) else ' '
        elif s == '' and not may_join(prev, t):
            s = ' '
        # a slash next to a comment makes another comment
        if s.startswith('/') and prev == '/' or s.endswith('/') and t == '/' or prev == '*' and s.startswith('/') or s.endswith('/') and t == '*':
            s = ' ' + s + ' '
        out += s + fix(t)
    return out


def plain(p):
    return '\n'.join(' ' + fix(l) for l in p.split('\n')) + '\n'


def cases(w):
    n = sum(c.isalpha() for c in w)
    if n <= 6:
        for m in range(1 << n):
            k = 0
            s = ''
            for c in w:
                if c.isalpha():
                    c = c.upper() if m >> k & 1 else c
                    k += 1
                s += c
            yield s
    else:
        yield w
        yield w.upper()
        for q in range(2):
            yield ''.join(c.upper() if (i + q) % 2 else c for i, c in enumerate(w))
        for i in range(len(w)):
            yield w[:i] + w[i:i + 1].upper() + w[i + 1:]
            yield w[:i].upper() + w[i:]
            yield w[:i].upper() + w[i:i + 1] + w[i + 1:].upper()


def families(tier):
    deep = tier == 'thorough'

    def gap():
        for p in range(len(PROG)):
            n = len(gaps(lex(PROG[p])))
            for w in range(len(WS)):
                yield (p, -1, w)
                for g in range(n):
                    yield (p, g, w)
            yield (p, -2, 0)

    def gapsf():
        for p in range(len(PROG)):
            n = len(gaps(lex(PROG[p])))
            m = min(n, 8 if deep else 5)
            for at in range(0, n - m + 1):
                for s in itertools.product(range(3), repeat=m):
                    if at and s[-1] == 0:
                        continue                # seen with the window before
                    yield (p, at, s)

    def word():
        for k in range(len(WORDS)):
            for c in cases(WORDS[k][0]):
                yield (k, c)
        for m in MNEM:
            for c in cases(m):
                yield (m, c)

    def name():
        for k in range(len(NAMEK)):
            for n in ('ab1', 'z_qx'):
                for a in cases(n):
                    for b in cases(n):
                        if len(n) == 3 or deep or a == n or b == n:
                            for o in range(2):
                                yield (k, n, a, b, o)

    def eol():
        for p in range(0, len(PROG)):
            for m in range(64):
                yield ('e', p, m)
            for b in range(4):
                for m in range(16):
                    yield ('b', p, b, m)
        for p in range(len(PROG) + len(BAD)):
            for n in range(4):
                yield ('m', p, n)
        for a in range(len(FIRST)):
            for d in range(1, 4):
                for m in range(1 << d + 1):
                    yield ('f', a, d, m)

    def comment():
        for c in range(1, 256):
            for k in range(4):
                yield ('c', c, k)
        for n in list(range(81)) + [2 ** j + x for j in range(7, 16) for x in (-2, -1, 0, 1, 2)]:
            for k in range(4):
                if n < 16380 or k == 2:
                    yield ('n', n, k)
        for n in range(1, 6):
            for s in itertools.product('/*;\n"q', repeat=n):
                for k in range(2):
                    yield ('s', ''.join(s), k)

    def observe():
        for p in range(len(PROG) + len(BAD) + len(BIG)):
            for m in range(64):
                yield (p, m)

    def again():
        for p in range(len(PROG) + len(BAD) + len(BIG)):
            for v in (1, 0x55, 0x80, 0xaa, 0xfe, 0xff):
                yield (p, v)

    def place():
        for p in range(len(PROG)):
            for k in range(12):
                yield (p, k)
    return [('gap', gap()), ('gaps', gapsf()), ('word', word()), ('name', name()), ('eol', eol()), ('comment', comment()), ('observe', observe()), ('again', again()), ('place', place())]


def same(a, b, what):
    """two jobs must come out alike"""
    def judge(rs):
        x, y = rs
        if x.kind or y.kind:
            return ['ended by ' + (x if x.kind else y).status()]
        if x.code != y.code:
            return ['%s, but %s %s' % (x.status(), y.status(), what)]
        for n in x.outs:
            if n in y.outs and x.outs[n] != y.outs[n]:
                return ['%s differs %s' % (n, what)]
        return []
    return Test([a, b], judge, [hash((str(a.args), str(b.args), a.files.get('t.a')))], 2)


def test(fam, it):
    try:
        return element(fam, it)
    except refasm.Unsupported:
        return None


def element(fam, it):
    if fam == 'gap':
        p, g, w = it
        toks = lex(PROG[p])
        n = len(toks)
        if g == -2:
            return ref_test(render(toks, {}), [], FILES)
        return ref_test(render(toks, {i: WS[w] for i in (range(n) if g < 0 else [g])}), [], FILES)
    if fam == 'gaps':
        p, at, s = it
        toks = lex(PROG[p])
        return ref_test(render(toks, {at + i: ('', ' ', '\t ')[x] for i, x in enumerate(s)}), [], FILES)
    if fam == 'word':
        k, c = it
        if isinstance(k, int):
            return ref_test(WORDS[k][1].replace('%', c), [], FILES)
        pre, f = legal(k)
        return ref_test(pre + ' ' + c + f + '\n', [], FILES)
    if fam == 'name':
        k, n, a, b, o = it
        d, u = NAMEK[k]
        d, u = d % a, u.replace('%s', b).replace('ab1', n if k == 7 else 'ab1')
        if o and k in (2, 3, 6, 7, 8):
            return None
        return ref_test(u + d if o else d + u, [], FILES)
    if fam == 'eol':
        if it[0] == 'e':
            _, p, m = it
            ls = plain(PROG[p]).split('\n')[:-1]
            ls += [' .byte %d' % j for j in range(6 - len(ls))]
            if m >= 1 << len(ls):
                return None
            return ref_test(''.join(l + ('\r\n' if m >> min(j, 5) & 1 else '\n') for j, l in enumerate(ls)), [], FILES)
        if it[0] == 'm':                        # the whole program, n lines down
            t = ' nop\n; c\n\n'[:5 * it[2]] * it[2] + plain((PROG + BAD)[it[1]])
            fs = {k: v.encode() for k, v in FILES.items()}
            a, b = (Job({'t.a': x.encode(), **fs}, ['t.a', '-o', 'out.bin', '-s', 'out.sym'], ('out.bin', 'out.sym')) for x in (t, t.replace('\n', '\r\n')))

            def judge(rs):
                if [r.kind for r in rs] != [0, 0] or rs[0].code != rs[1].code or rs[0].outs != rs[1].outs:
                    return ['LF: %s, CRLF: %s' % (observed(rs[0]), observed(rs[1]))]
                x, y = ([l for l in r.stderr.replace(b'\r', b'').split(b'\n') if l.strip()] for r in rs)
                return ['LF: %s, CRLF: %s' % (x[:2], y[:2])] if x != y else []
            return Test([a, b], judge, [hash(it)], 2)
        if it[0] == 'f':
            _, a, d, m = it
            fs = {}
            for j in range(d + 1):
                t = FIRST[a].replace('%d', str(j)) + (' nop\n .inc "f%d"\n' % (j + 1) if j < d else '') + ' inx\n'
                fs['f%d' % j if j else 't.a'] = t.replace('\n', '\r\n') if m >> j & 1 else t
            return ref_test(fs.pop('t.a'), [], fs)
        _, p, b, m = it
        ls = plain(PROG[p]).split('\n')[:-1]
        ins = ['\n', '; c\n', ' \t\n', '/* c\n c */\n'][b]
        t = ''
        for j, l in enumerate(ls):
            t += (ins if m >> min(j, 3) & 1 else '') + l + '\n'
        return ref_test(t + (ins if m & 8 else ''), [], FILES)
    if fam == 'comment':
        x, c, k = it
        s = chr(c) if x == 'c' else 'q' * c if x == 'n' else c
        if x == 's':
            t = [' nop ;%s\n inx\n', ' nop /*%s*/\n inx\n'][k] % s
        elif s == '\n' and k != 2:
            return None
        else:
            t = [' nop ;%s\n inx\n', ' nop //%s\n inx\n', ' nop /*%s*/\n inx\n', ';%s\n nop\n'][k] % s
        return ref_test(t, [], FILES)
    if fam in ('observe', 'again'):
        p, m = it
        n = p - len(PROG) - len(BAD)
        text = BIG[n] if n >= 0 else plain(PROG[p] if p < len(PROG) else BAD[p - len(PROG)])
        text = text.encode()
        fs = {'t.a': text, **{k: v.encode() for k, v in FILES.items()}}
        full = sum(OBS, [])
        if fam == 'again':
            outs = ('out.bin', 'out.lst', 'out.sym')
            a = Job(fs, ['t.a'] + full, outs, 4)
            return same(a, Job(fs, ['t.a'] + full, outs, 4 | m << 8), 'when fresh memory is filled with %d' % m)
        # the order of symbols of one value in the symbol file is not promised; compare as a set of lines
        args = sum((o for j, o in enumerate(OBS) if m >> j & 1), [])
        a = Job(fs, ['t.a', '-o', 'out.bin', '-l', 'out.lst', '-s', 'out.sym'], ('out.bin', 'out.lst', 'out.sym'), 4)
        outs = tuple(o[1] for j, o in enumerate(OBS) if m >> j & 1 and j in (0, 1, 5))
        b = Job(fs, ['t.a'] + args, outs, 4)

        def judge(rs):
            x, y = rs
            if x.kind or y.kind:
                return ['ended by ' + (x if x.kind else y).status()]
            if x.code != y.code:
                return ['%s, but %s with %s' % (x.status(), y.status(), ' '.join(args) or 'no options')]
            if x.code == 0:
                for n in y.outs:
                    if (x.outs[n] or b'') != (y.outs[n] or b''):
                        return ['%s differs with %s' % (n, ' '.join(args))]
                # the verbose report shows what the files show
                if m >> 3 & 1:
                    for n in ('out.lst', 'out.sym'):
                        if (x.outs[n] or b'').strip() not in y.stdout:
                            return ['the verbose report does not show what %s does with %s' % (n, ' '.join(args))]
            if not m >> 4 & 1:
                mx, my = ([l for l in r.stdout.split(b'\n') + r.stderr.split(b'\n') if b' near line ' in l] for r in rs)
                if mx != my:
                    return ['messages %s, but %s with %s' % (mx[:3], my[:3], ' '.join(args))]
            return []
        return Test([a, b], judge, [hash(it)], 2)
    if fam == 'place':
        p, k = it
        t = plain(PROG[p]).encode()
        fs = {n: v.encode() for n, v in FILES.items()}
        nm = ['a', 'A.ASM', 'x' * 100, 'a b.a', 'dd/t.a', 'dd/ee/t.a', '.t', 'T.a', "t'.a", 't.a', 't.a', 't.a'][k]
        arg = [nm]
        if k >= 9:
            for j in range(k - 8):
                fs['e%d.a' % j] = [b'\n', b'; c\n', b'/* c\n */\n'][j]
            arg = ['e%d.a' % j for j in range(k - 8)] + arg
        fs[nm] = t
        a = src(t, [], {n: v.encode() for n, v in FILES.items()})
        return same(a, Job(fs, arg + ['-o', 'out.bin'], ('out.bin',), 4), 'as ' + nm[:20])
    return None


_legal = {}


def legal(m):
    """(processor, operand) the instruction is legal with"""
    if m not in _legal:
        _legal[m] = next((p, f) for p in ('', '.65c02 on\n', '.illegal on\n') for f in FORMS if refasm.assemble({'t.a': (p + ' ' + m + f + '\n').encode()}, ['t.a', '-o', 'out.bin']).ok)
    return _legal[m]
