"""Reference instruction tables, written from the 6502/65C02 decode structure
(aaabbbcc columns), not from the assembler's own tables.

ENC[cpu][mnemonic] = {mode: opcode byte}; modes:
  imp imm zp zpx zpy abs abx aby izx izy ind zpi iax rel acc"""

ILLEGAL = {}
N6502, C65C02 = {}, {}


def _put(t, m, mode, op):
    t.setdefault(m, {})[mode] = op


def _make():
    # group one: cc = 01
    col1 = {'izx': 0x01, 'zp': 0x05, 'imm': 0x09, 'abs': 0x0D, 'izy': 0x11, 'zpx': 0x15, 'aby': 0x19, 'abx': 0x1D}
    for k, m in enumerate(('ora', 'and', 'eor', 'adc', 'sta', 'lda', 'cmp', 'sbc')):
        for mode, b in col1.items():
            if (m, mode) != ('sta', 'imm'):
                _put(N6502, m, mode, b + 0x20 * k)
    # group two: cc = 10
    for k, m in enumerate(('asl', 'rol', 'lsr', 'ror')):
        for mode, b in {'zp': 6, 'acc': 0x0A, 'imp': 0x0A, 'abs': 0x0E, 'zpx': 0x16, 'abx': 0x1E}.items():
            _put(N6502, m, mode, b + 0x20 * k)
    for k, m in ((6, 'dec'), (7, 'inc')):
        for mode, b in {'zp': 6, 'abs': 0x0E, 'zpx': 0x16, 'abx': 0x1E}.items():
            _put(N6502, m, mode, b + 0x20 * k)
    for mode, b in {'zp': 0x86, 'abs': 0x8E, 'zpy': 0x96}.items():
        _put(N6502, 'stx', mode, b)
    for mode, b in {'imm': 0xA2, 'zp': 0xA6, 'abs': 0xAE, 'zpy': 0xB6, 'aby': 0xBE}.items():
        _put(N6502, 'ldx', mode, b)
    # group three: cc = 00
    for mode, b in {'zp': 0x84, 'abs': 0x8C, 'zpx': 0x94}.items():
        _put(N6502, 'sty', mode, b)
    for mode, b in {'imm': 0xA0, 'zp': 0xA4, 'abs': 0xAC, 'zpx': 0xB4, 'abx': 0xBC}.items():
        _put(N6502, 'ldy', mode, b)
    for k, m in ((6, 'cpy'), (7, 'cpx')):
        for mode, b in {'imm': 0, 'zp': 4, 'abs': 0x0C}.items():
            _put(N6502, m, mode, b + 0x20 * k)
    for mode, b in {'zp': 0x24, 'abs': 0x2C}.items():
        _put(N6502, 'bit', mode, b)
    _put(N6502, 'jmp', 'abs', 0x4C); _put(N6502, 'jmp', 'ind', 0x6C); _put(N6502, 'jsr', 'abs', 0x20)
    for k, m in enumerate(('bpl', 'bmi', 'bvc', 'bvs', 'bcc', 'bcs', 'bne', 'beq')):
        _put(N6502, m, 'rel', 0x10 + 0x20 * k)
    for k, m in enumerate(('php', 'clc', 'plp', 'sec', 'pha', 'cli', 'pla', 'sei', 'dey', 'tya', 'tay', 'clv', 'iny', 'cld', 'inx', 'sed')):
        _put(N6502, m, 'imp', 0x08 + 0x10 * k)
    for m, b in (('brk', 0), ('rti', 0x40), ('rts', 0x60), ('txa', 0x8A), ('txs', 0x9A), ('tax', 0xAA), ('tsx', 0xBA), ('dex', 0xCA), ('nop', 0xEA)):
        _put(N6502, m, 'imp', b)

    # 65C02 = NMOS + additions
    for m, d in N6502.items():
        C65C02[m] = dict(d)
    for k, m in enumerate(('ora', 'and', 'eor', 'adc', 'sta', 'lda', 'cmp', 'sbc')):
        _put(C65C02, m, 'zpi', 0x12 + 0x20 * k)
    for m, b in (('inc', 0x1A), ('dec', 0x3A)):
        _put(C65C02, m, 'imp', b); _put(C65C02, m, 'acc', b)
    _put(C65C02, 'bit', 'imm', 0x89); _put(C65C02, 'bit', 'zpx', 0x34); _put(C65C02, 'bit', 'abx', 0x3C)
    _put(C65C02, 'jmp', 'iax', 0x7C); _put(C65C02, 'bra', 'rel', 0x80)
    for m, b in (('phx', 0xDA), ('phy', 0x5A), ('plx', 0xFA), ('ply', 0x7A), ('wai', 0xCB), ('stp', 0xDB)):
        _put(C65C02, m, 'imp', b)
    for mode, b in {'zp': 0x64, 'zpx': 0x74, 'abs': 0x9C, 'abx': 0x9E}.items():
        _put(C65C02, 'stz', mode, b)
    _put(C65C02, 'tsb', 'zp', 4); _put(C65C02, 'tsb', 'abs', 0x0C)
    _put(C65C02, 'trb', 'zp', 0x14); _put(C65C02, 'trb', 'abs', 0x1C)
    for n in range(8):
        _put(C65C02, 'rmb%d' % n, 'zp', 0x07 + 0x10 * n)
        _put(C65C02, 'smb%d' % n, 'zp', 0x87 + 0x10 * n)

    # undocumented NMOS instructions: cc = 11 column = cc 01 + cc 10 combined
    col3 = {'izx': 0x03, 'zp': 0x07, 'abs': 0x0F, 'izy': 0x13, 'zpx': 0x17, 'aby': 0x1B, 'abx': 0x1F}
    for k, m in ((0, 'slo'), (1, 'rla'), (2, 'sre'), (3, 'rra'), (6, 'dcp'), (7, 'isc')):
        for mode, b in col3.items():
            _put(ILLEGAL, m, mode, b + 0x20 * k)
    for mode, b in {'izx': 0x83, 'zp': 0x87, 'abs': 0x8F, 'zpy': 0x97}.items():
        _put(ILLEGAL, 'sax', mode, b)
    for mode, b in {'izx': 0xA3, 'zp': 0xA7, 'imm': 0xAB, 'abs': 0xAF, 'izy': 0xB3, 'zpy': 0xB7, 'aby': 0xBF}.items():
        _put(ILLEGAL, 'lax', mode, b)
    for m, b in (('anc', 0x0B), ('anc2', 0x2B), ('alr', 0x4B), ('arr', 0x6B), ('xaa', 0x8B), ('axs', 0xCB), ('usbc', 0xEB)):
        _put(ILLEGAL, m, 'imm', b)
    _put(ILLEGAL, 'ahx', 'izy', 0x93); _put(ILLEGAL, 'ahx', 'aby', 0x9F)
    _put(ILLEGAL, 'shy', 'abx', 0x9C); _put(ILLEGAL, 'shx', 'aby', 0x9E)
    _put(ILLEGAL, 'tas', 'aby', 0x9B); _put(ILLEGAL, 'las', 'aby', 0xBB)


_make()
BRANCHES = ('bpl', 'bmi', 'bvc', 'bvs', 'bcc', 'bcs', 'bne', 'beq', 'bra')
INVERSE = {'bpl': 'bmi', 'bmi': 'bpl', 'bvc': 'bvs', 'bvs': 'bvc', 'bcc': 'bcs', 'bcs': 'bcc', 'bne': 'beq', 'beq': 'bne'}
UNENCODABLE = ['bbr%d' % i for i in range(8)] + ['bbs%d' % i for i in range(8)]
ALL = sorted(set(C65C02) | set(ILLEGAL))
ONLY_C02 = sorted(set(C65C02) - set(N6502))
SIZE = {'imp': 1, 'acc': 1, 'imm': 2, 'zp': 2, 'zpx': 2, 'zpy': 2, 'izx': 2, 'izy': 2, 'zpi': 2, 'rel': 2,
        'abs': 3, 'abx': 3, 'aby': 3, 'ind': 3, 'iax': 3}


def table(cpu, illegal):
    """the mnemonics a program may use -> modes"""
    base = N6502 if cpu == '6502' else C65C02
    if not illegal:
        return base
    t = dict(base)
    t.update(ILLEGAL)
    return t


# syntactic operand form -> (zero page mode, absolute mode)
FORMS = {'e': (('zp',), ('abs',)), 'x': (('zpx',), ('abx',)), 'y': (('zpy',), ('aby',)),
         'ind': (('zpi',), ('ind',)), 'indx': (('izx',), ('iax',)), 'indy': (('izy',), ())}
