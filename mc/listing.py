"""Reader of listing files: rows of (address, bytes, disassembly, source text)."""
import re
from . import opref

ROW = re.compile(r'\$([0-9A-F]{4}):((?: \$[0-9A-F]{2})+) +')
INDENT = 45
DIS = [('imm', re.compile(r'#\$([0-9A-F]+)$')), ('izx', re.compile(r'\(\$([0-9A-F]+),x\)$')), ('izy', re.compile(r'\(\$([0-9A-F]+)\),y$')),
       ('ind', re.compile(r'\(\$([0-9A-F]+)\)$')), ('zpx', re.compile(r'\$([0-9A-F]+),x$')), ('zpy', re.compile(r'\$([0-9A-F]+),y$')), ('zp', re.compile(r'\$([0-9A-F]+)$'))]
WIDE = {'zpx': 'abx', 'zpy': 'aby', 'zp': 'abs', 'izx': 'iax', 'ind': 'ind'}


class Row:
    __slots__ = ('file', 'addr', 'data', 'dis', 'src')

    def __init__(self, file, addr, data, dis, src):
        self.file, self.addr, self.data, self.dis, self.src = file, addr, data, dis, src


def read(text):
    """listing text -> (rows, problems)"""
    rows, bad, cur = [], [], None
    lines = text.split('\n')
    if lines and lines[0] == '':
        lines = lines[1:]
    if lines and lines[-1] == '':
        lines = lines[:-1]
    for l in lines:
        if l.startswith('; Processing '):
            cur = l[13:]
            continue
        m = ROW.match(l)
        if m:
            data = bytes(int(x[1:], 16) for x in m.group(2).split())
            rows.append(Row(cur, int(m.group(1), 16), data, l[m.end():INDENT].rstrip() if len(l) > INDENT else l[m.end():].rstrip(), l[INDENT:]))
        elif l[:INDENT].strip() == '':
            rows.append(Row(cur, None, b'', '', l[INDENT:]))
        else:
            bad.append('line of unknown form: %r' % l[:80])
    return rows, bad


def db(text):
    out = b''
    k = 0
    while k < len(text):
        if text[k] == "'":
            if text[k + 2:k + 3] != "'":
                return None
            out += bytes([ord(text[k + 1]) & 255]); k += 3
        else:
            m = re.match(r'\$([0-9A-F]{2})', text[k:])
            if not m:
                return None
            out += bytes([int(m.group(1), 16)]); k += 3
        if k < len(text):
            if text[k:k + 2] != ', ':
                return None
            k += 2
    return out


def encode(addr, dis, tables):
    """what the disassembly column of a row means, as the set of possible bytes"""
    w = dis.split(None, 1)
    m, arg = w[0].lower(), (w[1].strip() if len(w) > 1 else '')
    res = set()
    for t in tables:
        modes = t.get(m)
        if not modes:
            continue
        if not arg:
            for k in ('imp', 'acc'):
                if k in modes:
                    res.add(bytes([modes[k]]))
            continue
        for k, rx in DIS:
            g = rx.match(arg)
            if not g:
                continue
            h = g.group(1)
            v = int(h, 16)
            if k == 'zp' and 'rel' in modes:
                d = v - (addr + 2)
                if -128 <= d <= 127:
                    res.add(bytes([modes['rel'], d & 255]))
            elif len(h) == 2:
                k2 = 'zpi' if k == 'ind' else k
                if k2 in modes and opref.SIZE[k2] == 2:
                    res.add(bytes([modes[k2], v]))
            elif len(h) == 4 and k in WIDE and WIDE[k] in modes:
                res.add(bytes([modes[WIDE[k]], v & 255, v >> 8]))
            break
    return res


TABLES = [opref.N6502, opref.C65C02, opref.ILLEGAL]


def check(o, r, files, sources, once=True, name='out.lst'):
    """problems of the listing of a successful run with specification outcome o"""
    t = r.outs.get(name)
    if t is None:
        return ['no listing file']
    rows, bad = read(t.decode('latin-1'))
    if bad:
        return bad[:1]
    want = [(a + k, b, ln) for a, bs, ln in o.segs for k, b in enumerate(bs)]
    got = [(row.addr + k, b) for row in rows for k, b in enumerate(row.data)]
    if [(a, b) for a, b, _ in want] != got:
        k = next((i for i in range(min(len(want), len(got))) if want[i][:2] != got[i]), min(len(want), len(got)))
        f = lambda l: ' '.join('%04X:%02X' % x[:2] for x in l[k:k + 4]) or 'the end'
        return ['the listing differs from the output at byte %d: expected %s, listed %s' % (k, f(want), f(got))]
    for row in rows:
        if row.data:
            if row.dis.startswith('.db '):
                d = db(row.dis[4:])
                if d != row.data:
                    return ['data text of a row does not mean its bytes: $%04X %s %r' % (row.addr, row.data.hex(' '), row.dis)]
            elif row.data not in encode(row.addr, row.dis, TABLES):
                return ['disassembly of a row does not mean its bytes: $%04X %s %r' % (row.addr, row.data.hex(' '), row.dis)]
    # every line of every source, once and in order
    if once:
        shown = {}
        for row in rows:
            shown.setdefault(row.file, []).append(row.src)
        for f in sources:
            ls = files[f].decode('latin-1').replace('\r\n', '\n').split('\n')
            if ls[-1] == '':
                ls.pop()
            have = [s.rstrip('\r') for s in shown.get(f, [])]
            k = 0
            for s in have:
                if k < len(ls) and s == ls[k]:
                    k += 1
                elif s.strip() != '':
                    return ['source line listed out of place in %s: %r where line %d %r is due' % (f, s[:60], k + 1, (ls[k] if k < len(ls) else 'end')[:60])]
            while k < len(ls) and ls[k].strip() == '':
                k += 1
            if k < len(ls):
                return ['line %d of %s is not in the listing: %r' % (k + 1, f, ls[k][:60])]
    return []


def rows_of_lines(rows, files):
    """[(file, line number of the latest source line shown, addr, bytes)]"""
    pos, res, text = {}, [], {}
    for row in rows:
        if row.file not in text:
            text[row.file] = files.get(row.file, b'').decode('latin-1').replace('\r\n', '\n').split('\n')
        ls = text[row.file]
        k = pos.get(row.file, 0)
        if k < len(ls) and row.src == ls[k] and (row.src.strip() or not row.data):
            pos[row.file] = k = k + 1
        if row.data:
            res.append((row.file, k, row.addr, row.data))
    return res
