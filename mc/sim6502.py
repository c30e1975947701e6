"""A small 6502 simulator: just what register loops and simple bodies need.

run(mem, pc, stop, regs) executes until pc == stop; stores to the port are recorded.
Raises Stuck when an instruction is unknown, the step limit is reached or the
program leaves its image."""

PORT = 0xd000


class Stuck(Exception):
    pass


def run(code, org, pc, stop, a=0, x=0, y=0, c=0, limit=600000):
    end = org + len(code)
    trace, n = [], 0
    z = neg = v = 0
    stack = []
    while pc != stop:
        n += 1
        if n > limit:
            raise Stuck('does not terminate')
        if not org <= pc < end:
            raise Stuck('runs out of the program at $%04x' % pc)
        k = pc - org
        op = code[k]
        b1 = code[k + 1] if k + 1 < len(code) else 0
        w = b1 | (code[k + 2] << 8 if k + 2 < len(code) else 0)
        pc += 1
        r = None
        if op in BR:
            pc += 1
            f, want = BR[op]
            if {'c': c, 'z': z, 'n': neg, 'v': v}[f] == want:
                pc = (pc + (b1 - 256 if b1 > 127 else b1)) & 0xffff
            continue
        if op == 0x4c:
            pc = w
            continue
        if op == 0x20:
            stack.append(pc + 2)
            pc = w
            continue
        if op == 0x60:
            if not stack:
                raise Stuck('rts')
            pc = stack.pop()
            continue
        if op == 0xea: pass
        elif op == 0x18: c = 0
        elif op == 0x38: c = 1
        elif op == 0xb8: v = 0
        elif op == 0xe8: x = r = (x + 1) & 255
        elif op == 0xca: x = r = (x - 1) & 255
        elif op == 0xc8: y = r = (y + 1) & 255
        elif op == 0x88: y = r = (y - 1) & 255
        elif op == 0xaa: x = r = a
        elif op == 0xa8: y = r = a
        elif op == 0x8a: a = r = x
        elif op == 0x98: a = r = y
        elif op == 0xa9: a = r = b1; pc += 1
        elif op == 0xa2: x = r = b1; pc += 1
        elif op == 0xa0: y = r = b1; pc += 1
        elif op in (0xe0, 0xc0, 0xc9):
            g = {0xe0: x, 0xc0: y, 0xc9: a}[op]
            pc += 1
            c = 1 if g >= b1 else 0
            r = (g - b1) & 255
        elif op in (0x8d, 0x8e, 0x8c):
            pc += 2
            trace.append(((w - PORT) & 0xffff, {0x8d: a, 0x8e: x, 0x8c: y}[op]))
        elif op == 0x9d:
            pc += 2
            trace.append(((w + x - PORT) & 0xffff, a))
        elif op == 0x99:
            pc += 2
            trace.append(((w + y - PORT) & 0xffff, a))
        else:
            raise Stuck('opcode $%02x at $%04x' % (op, pc - 1))
        if r is not None:
            z, neg = int(r == 0), r >> 7
    return trace, (a, x, y), n


BR = {0x10: ('n', 0), 0x30: ('n', 1), 0x50: ('v', 0), 0x70: ('v', 1), 0x90: ('c', 0), 0xb0: ('c', 1), 0xd0: ('z', 0), 0xf0: ('z', 1)}
