"""P01 instruction encoding"""
from .. import opref
from ..explore import ref_test, expect, src

ID = 'P01'
FORMS = {'imp': '', 'acc': ' a', 'imm': ' #%s', 'e': ' %s', 'x': ' %s,x', 'y': ' %s,y', 'ind': ' (%s)', 'indx': ' (%s,x)', 'indy': ' (%s),y'}
VALS = ('0', '1', '$12', '$7f', '$80', '$ff', '$100', '$1234', '$8000', '$ffff', '$10000', '-1', '-128', '-129')
MODES = {'none': [], '65c02': ['-65c02'], '6502': ['-6502'], 'ill': ['-i']}
SWITCH = {'c': '.65c02 on', 'n': '.6502 on', 'i': '.illegal on', 'o': '.illegal off', 's': ' stz 5', 'l': ' lax 5', 'd': ' dec $1234', 'b': ' bit 5,x', 'I': ' inc a'}
BOUNDS = {
    'table': 'every mnemonic (documented, 65C02, undocumented) x 9 operand forms x 14 operand values x 4 processor settings',
    'values': 'every 16-bit (8-bit for immediate and zero page) operand value for one instruction per addressing mode',
    'symbol': 'the same forms with the operand as a symbol defined before or after, and as the sum of two, 8 values',
    'switch': 'all sequences of length <= 4 over 4 processor directives and 5 probe instructions',
    'target': 'every relative branch with every reachable displacement, both processors',
    'bbr': 'each bit branch once',
}
ASSUMES = ['undocumented instructions are specified for the NMOS processor only',
           'negative operands of instructions with an absolute form use the absolute form (two bytes, modulo 65536)']
REPR = (('lda', 'e', 0x10000, 0), ('lda', 'x', 0x10000, 0), ('lda', 'y', 0x10000, 0), ('ldx', 'y', 0x10000, 0), ('jmp', 'e', 0x10000, 0), ('jmp', 'ind', 0x10000, 0),
        ('jsr', 'e', 0x10000, 0), ('jmp', 'indx', 0x10000, 1), ('stz', 'x', 0x10000, 1), ('sty', 'x', 0x100, 0), ('lda', 'imm', 0x100, 0),
        ('lda', 'indx', 0x100, 0), ('lda', 'indy', 0x100, 0), ('lda', 'ind', 0x100, 1), ('stx', 'y', 0x100, 0), ('smb7', 'e', 0x100, 1))


def families(tier):
    deep = tier == 'thorough'

    def table():
        for m in opref.ALL:
            for md in MODES:
                if md == '65c02' and m in opref.ILLEGAL:
                    continue
                for f in FORMS:
                    if f in ('imp', 'acc'):
                        yield (m, md, f, '')
                        continue
                    if f == 'e' and (m in opref.BRANCHES):
                        continue
                    for v in VALS:
                        if v[0] == '-' and f == 'ind' and m != 'jmp':
                            continue  # a negative zero page pointer: not specified
                        yield (m, md, f, v)

    def values():
        reps = REPR
        if deep:
            reps = []
            for c, t in ((0, opref.N6502), (1, opref.C65C02)):
                for m, modes in sorted(t.items()):
                    for f in FORMS:
                        if f in ('imp', 'acc') or 'rel' in modes:
                            continue
                        if f == 'imm':
                            if 'imm' in modes:
                                reps.append((m, f, 0x100, c))
                            continue
                        z, a = opref.FORMS[f]
                        if any(x in modes for x in a):
                            reps.append((m, f, 0x10000, c))
                        elif any(x in modes for x in z):
                            reps.append((m, f, 0x100, c))
        for m, f, hi, c in reps:
            for lo in range(0, hi, 4096 if hi > 256 else 256):
                yield (m, f, lo, min(hi, lo + 4096), c)

    def symbol():
        for c in (0, 1):
            t = opref.C65C02 if c else opref.N6502
            for m in sorted(t):
                if 'rel' in t[m]:
                    continue
                for f in FORMS:
                    if f in ('imp', 'acc'):
                        continue
                    for v in (0, 5, 255, 256, 0x1234, 65535):
                        for how in ('before', 'after', 'sum', 'fwdsum'):
                            yield (m, c, f, v, how)

    def switch():
        ks = ''.join(SWITCH)
        seq = ['']
        for n in range(4):
            seq = [s + k for s in seq for k in ks]
            for s in seq:
                if s[-1] in 'sldbI':
                    for md in ('none', '65c02'):
                        yield (s, md)

    def target():
        for m in opref.BRANCHES:
            for c in (0, 1):
                if m == 'bra' and not c:
                    yield (m, c, 0)
                    continue
                for d in range(-128, 128):
                    yield (m, c, d)

    def bbr():
        for m in opref.UNENCODABLE:
            yield (m,)
    return [('table', table()), ('values', values()), ('symbol', symbol()), ('switch', switch()), ('target', target()), ('bbr', bbr())]


def test(fam, it):
    if fam == 'table':
        m, md, f, v = it
        x = FORMS[f] % v if v else FORMS[f]
        return ref_test('* = $1000\n %s%s\nend_l nop\n .word end_l\n' % (m, x), MODES[md])
    if fam == 'values':
        m, f, lo, hi, c = it
        org = 0x200
        return ref_test('* = $200\n' + ''.join(' %s%s\n' % (m, FORMS[f] % ('$%x' % v)) for v in range(lo, hi)), ['-65c02'] if c else [])
    if fam == 'symbol':
        m, c, f, v, how = it
        use = ' %s%s\n' % (m, FORMS[f] % {'before': 'v1', 'after': 'v1', 'sum': 'v1+v2', 'fwdsum': 'v1+v2'}[how])
        d = 'v1 = %d\n' % (v if how in ('before', 'after') else v - v // 2) + ('v2 = %d\n' % (v // 2) if 'sum' in how else '')
        t = '* = $1000\n' + (use + d if how in ('after', 'fwdsum') else d + use) + 'e1 .word e1\n'
        return ref_test(t, ['-65c02'] if c else [])
    if fam == 'switch':
        s, md = it
        t = '* = $1000\n' + ''.join(SWITCH[k] + '\n' for k in s)
        if 'l' in s and (md == '65c02' or 'c' in s):
            return None  # undocumented instruction on the 65C02: not specified
        return ref_test(t, MODES[md])
    if fam == 'target':
        m, c, d = it
        if m == 'bra' and not c:
            return ref_test('* = $1000\nl1 bra l1\n')
        if d < 0:
            n = -d - 2
            t = ('* = $1000\nl1 .fill 234,%d\n %s l1\n' % (n, m)) if n >= 0 else '* = $1000\n %s $1001\n' % m
        else:
            t = '* = $1000\n %s l1\n .fill 234,%d\nl1 nop\n' % (m, d)
        return ref_test(t, ['-65c02'] if c else [])
    if fam == 'bbr':
        m, = it
        op = (0x0f if m[2] == 'r' else 0x8f) + 16 * int(m[3])
        return expect([src('* = $1000\n %s $12,l1\n nop\nl1 nop\n' % m, ['-65c02'])], [bytes((op, 0x12, 1, 0xEA, 0xEA))])
