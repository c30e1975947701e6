"""Reference assembler: the executable specification the real program is
checked against.  Written from the language's rules, not from the code of the
assembler; deliberately boring.  `assemble` returns an Outcome; programs the
specification does not speak about raise Unsupported (a generator bug).

The interpreter is also the transition system whose states are counted: every
statement execution is one transition, the state after it is
(pc, symbols, output so far, open scopes)."""
import re
from functools import lru_cache
from . import opref


class Fail(Exception):
    """the program is in error: the assembler must say so and exit non-zero"""


class Unsupported(Exception):
    pass


class Unknown(Exception):
    """value of a symbol not known yet (resolved by a later pass)"""


MAXPASS = 16
TOK = re.compile(r'''\s*(?:
   (?P<str>"(?:[^"\\\n]|\\.)*")
 | (?P<chr>'(?:\\x[0-9a-fA-F]+|\\[0-7]{3}|\\.|[^\\])')
 | (?P<hex>\$[0-9a-fA-F]+) | (?P<bin>%[01]+|0b[01]+) | (?P<dec>[0-9]+)
 | (?P<par>\\[1-9][0-9]*)
 | (?P<dir>\.[A-Za-z][A-Za-z0-9]*|\.6502|\.65C02|\.65c02)
 | (?P<sym>@?[A-Za-z_][A-Za-z0-9_.]*:?)
 | (?P<pm>[+-]+)
 | (?P<op>>=|<=|==|!=|<>|<<|>>|\|\||&&|\?\?|[-<>=+*/\#,()~^|&?])
 )''', re.X)
ESC = {'n': 10, 't': 9, 'r': 13, 'a': 7, 'b': 8, 'f': 12, 'v': 11, "'": 39, '"': 34, '\\': 92, '?': 63}
OPS = set(opref.ALL) | set(opref.UNENCODABLE)


def unescape(body):
    out, k = [], 0
    while k < len(body):
        c = body[k]
        if c != '\\':
            out.append(ord(c)); k += 1; continue
        k += 1
        c = body[k]
        if c == 'x':
            m = re.match(r'[0-9a-fA-F]+', body[k + 1:])
            if len(m.group(0)) & 1:
                raise Unsupported('odd number of hexadecimal digits')
            out += bytes.fromhex(m.group(0)); k += 1 + len(m.group(0))
        elif c in ESC:
            out.append(ESC[c]); k += 1
        else:
            raise Unsupported('escape ' + c)
    return bytes(out)


@lru_cache(200000)
def tokenize(line):
    toks, k, n = [], 0, len(line)
    while True:
        while k < n and line[k] in ' \t':
            k += 1
        if k >= n:
            return tuple(toks)
        m = TOK.match(line, k)
        if not m:
            raise Fail('bad character')
        kind = m.lastgroup
        t = m.group(kind)
        k = m.end()
        if kind == 'hex':
            toks.append(('int', int(t[1:], 16)))
        elif kind == 'bin':
            toks.append(('int', int(t.lstrip('%').replace('0b', '', 1) if t[0] != '%' else t[1:], 2)))
        elif kind == 'dec':
            toks.append(('int', int(t)))
        elif kind == 'chr':
            b = t[1:-1]
            if b[0] == '\\' and len(b) > 1 and b[1] in '01234567':
                toks.append(('int', int(b[1:], 8)))
            elif b[:2] == '\\x':
                toks.append(('int', int(b[2:], 16)))
            else:
                toks.append(('int', unescape(b)[0]))
        elif kind == 'str':
            b = unescape(t[1:-1])
            toks.append(('int', b[0]) if len(b) == 1 else ('str', b))
        elif kind == 'sym':
            low = t.rstrip(':').lower()
            if low in ('x', 'y', 'a') or low == 'not' or low in OPS:
                toks.append(('kw', low))
            else:
                toks.append(('sym', low))
        elif kind == 'dir':
            toks.append(('dir', t.lower()))
        elif kind == 'par':
            toks.append(('par', int(t[1:])))
        elif kind == 'pm':
            if len(t) == 1:
                toks.append(('op', t))
            else:
                toks.append(('anon', t))
        else:
            toks.append(('op', t))


LEVEL = {'<<': 1, '>>': 1, '||': 2, '&&': 2, '>=': 2, '<=': 2, '==': 2, '!=': 2, '<>': 2, '>': 2, '<': 2,
         '|': 3, '&': 3, '^': 3, '+': 4, '-': 4, '*': 5, '/': 5}


class ExprParser:
    def __init__(self, toks, pos=0):
        self.t, self.p = toks, pos

    def peek(self):
        return self.t[self.p] if self.p < len(self.t) else ('end', '')

    def take(self, v):
        if self.peek() != ('op', v):
            raise Fail('expected ' + v)
        self.p += 1

    def primary(self):
        k, v = self.peek()
        self.p += 1
        if k == 'int':
            return ('n', v)
        if k == 'sym':
            return ('s', v)
        if k == 'par':
            return ('par', v)
        if k == 'anon':
            return ('anon', v)
        if k == 'kw' and v == 'not':
            return ('un', 'not', self.expr(1))
        if k == 'op':
            if v == '*':
                return ('pc',)
            if v == '(':
                e = self.expr(1)
                self.take(')')
                return ('grp', e)
            if v in ('<', '>', '~'):
                return ('un', v, self.expr(1))
            if v == '-':
                k2, v2 = self.peek()
                if k2 == 'int':
                    self.p += 1
                    return ('un', '-', ('n', v2))
                if (k2, v2) == ('op', '('):
                    self.p += 1
                    e = self.expr(1)
                    self.take(')')
                    return ('un', '-', e)
                return ('anon', '-')
            if v == '+':
                return ('anon', '+')
        raise Fail('syntax')

    def expr(self, lo):
        e = self.primary()
        while True:
            k, v = self.peek()
            l = LEVEL.get(v, 0) if k == 'op' else 0
            if l < lo or l == 0:
                return e
            self.p += 1
            e = ('bin', v, e, self.expr(l + 1))


def parse_expr(toks):
    p = ExprParser(toks)
    e = p.expr(1)
    if p.p != len(toks):
        raise Fail('syntax: trailing')
    return e


def split_commas(toks):
    """top-level comma separated items"""
    items, depth, cur = [], 0, []
    for t in toks:
        if t == ('op', '('):
            depth += 1
        elif t == ('op', ')'):
            depth -= 1
        if t == ('op', ',') and depth == 0:
            items.append(cur); cur = []
        else:
            cur.append(t)
    items.append(cur)
    return items


I32 = 1 << 31


def chk(v):
    if not -I32 <= v < I32:
        raise Unsupported('32 bit overflow')
    return v


def strip_comments(text):
    """line comments and /* */ blocks, outside strings and characters"""
    out, k, n = [], 0, len(text)
    while k < n:
        c = text[k]
        if c == '"':
            m = re.compile(r'"(?:[^"\\\n]|\\.)*"').match(text, k)
            if m:
                out.append(m.group(0)); k = m.end(); continue
        elif c == "'":
            m = re.compile(r"'(?:\\x[0-9a-fA-F]+|\\[0-7]{3}|\\.|[^\\\n])'").match(text, k)
            if m:
                out.append(m.group(0)); k = m.end(); continue
        elif c == ';' or text.startswith('//', k):
            while k < n and text[k] != '\n':
                k += 1
            continue
        elif text.startswith('/*', k):
            e = text.find('*/', k + 2)
            if e < 0:
                raise Fail('unterminated comment')
            out.append(' ' + '\1' * text.count('\n', k, e))        # keeps the line numbers
            k = e + 2
            continue
        out.append(c); k += 1
    return ''.join(out)


def mentions(nm, text):
    """is the name in the text outside of blocks that are skipped while it is not defined"""
    name = r'(?<![A-Za-z0-9_.@])' + re.escape(nm) + r'(?![A-Za-z0-9_.])'
    rest, depth = [], 0
    for line in text.split('\n'):
        words = [w.lower() for w in re.findall(r'\.(?:ifdef|ifndef|if|else|endif)(?![A-Za-z0-9_])', line, re.I)]
        if depth == 0 and re.fullmatch(r'\s*\.ifdef\s+' + re.escape(nm) + r'\s*', line, re.I):
            depth = 1
        elif depth:
            if '"' in line or "'" in line or '*' in line and '/' in line or len(words) > 1:
                rest.append(line)       # a word may stand in text
            if words and (words[0] == '.endif' or words[0] == '.else' and depth == 1):
                depth -= 1
            elif words and words[0] != '.else':
                depth += 1
        else:
            rest.append(line)
    rest = '\n'.join(rest)
    return len(re.findall(name, rest, re.I)) > len(re.findall(r'\.ifn?def\s+' + re.escape(nm) + r'(?![A-Za-z0-9_.])', rest, re.I))


class Outcome:
    __slots__ = ('ok', 'data', 'why', 'segs', 'syms', 'states', 'steps', 'prints', 'labels', 'passes', 'log', 'used')

    def __init__(self):
        self.ok, self.data, self.why, self.segs, self.syms = True, b'', '', [], {}
        self.states, self.steps, self.prints, self.labels, self.passes, self.log, self.used = [], 0, [], [], 0, [], set()


BLOCK_OPEN = {'.if': '.endif', '.repeat': '.until', '.do': '.while', '.for': '.next', '.macro': '.endmacro', '.mac': '.endmacro'}
ALIAS = {'.db': '.byte', '.dw': '.word', '.dcw': '.word', '.text': '.str', '.string': '.str', '.mac': '.macro', '.endm': '.endmacro',
         '.sect': '.section', '.ends': '.endsection'}


class FileName(str):
    """name of a source file; a file that is read twice has two instances"""
    instance = 0


class Parser:
    """source text -> statement tree (conditional assembly decided while reading)"""

    def __init__(self, files, defines, dirs, all_text):
        self.files, self.defined, self.dirs = files, set(defines), dirs
        self.macros = set()
        self.all_text = all_text
        self.seen = set(defines)
        self.anon = 0
        self.instances = 0
        self.depth_inc = 0
        self.psect = []
        self.ended = False

    def lines(self, text):
        return strip_comments(text.replace('\r', '')).split('\n')

    def parse_file(self, name):
        if name not in self.files:
            for d in self.dirs:
                if d + name in self.files:
                    name = d + name
                    break
            else:
                raise Fail('no file ' + name)
        name = FileName(name)
        self.instances += 1
        name.instance = self.instances
        self.depth_inc += 1
        if self.depth_inc > 40:
            raise Unsupported('recursive include')
        save = getattr(self, 'L', None), getattr(self, 'i', None)
        self.L, num = [], 0
        for s in self.lines(self.files[name].decode('latin-1')):
            num += 1 + s.count('\1')
            self.L.append((name, num, s.replace('\1', '')))
        self.i = 0
        self.cond = []
        body = self.block(None)
        if self.cond:
            if self.depth_inc > 1:
                raise Unsupported('conditional open at the end of an included file')
            raise Fail('unterminated conditional')
        self.L, self.i = save
        self.depth_inc -= 1
        return body

    def nextline(self):
        """next line that conditional assembly keeps"""
        while self.i < len(self.L):
            ln = self.L[self.i]
            self.i += 1
            toks = tokenize(ln[2])
            if toks and toks[0][0] == 'dir':
                d = toks[0][1]
                if d in ('.ifdef', '.ifndef'):
                    if len(toks) != 2:
                        raise Unsupported('ifdef form')
                    nm = toks[1][1]
                    known = nm in self.seen or '.'.join(self.psect + [nm]) in self.seen
                    if not known and mentions(nm, self.all_text):
                        raise Unsupported('ifdef of a symbol defined later')
                    if known == (d == '.ifdef'):
                        self.cond.append(True)
                    else:
                        self.skip(True)
                    continue
                if d == '.else' and self.cond and self.cond[-1] is True:
                    self.cond.pop()
                    self.skip(False)
                    continue
                if d == '.endif' and self.cond and self.cond[-1] is True:
                    self.cond.pop()
                    continue
            return ln, toks
        return None, None

    def skip(self, else_ok):
        depth = 0
        while self.i < len(self.L):
            s = self.L[self.i][2]
            self.i += 1
            for m in re.finditer(r'"(?:[^"\\\n]|\\.)*"|\.(if|ifdef|ifndef|else|endif)(?![A-Za-z0-9_])', s, re.I):
                w = (m.group(1) or '').lower()
                if w in ('if', 'ifdef', 'ifndef'):
                    depth += 1
                elif w == 'endif':
                    if depth == 0:
                        return
                    depth -= 1
                elif w == 'else' and depth == 0:
                    if not else_ok:
                        raise Unsupported('second else')
                    self.cond.append(True)
                    return
        if self.depth_inc > 1:
            raise Unsupported('conditional open at the end of an included file')
        raise Fail('unterminated conditional')

    def note(self, name):
        self.seen.add('.'.join(self.psect + [name]))

    def block(self, enders, inmacro=False):
        body = []
        while True:
            ln, toks = self.nextline()
            if ln is None:
                if enders:
                    if self.depth_inc > 1:
                        raise Unsupported('block open at the end of an included file')
                    raise Fail('block not closed')
                return body
            if not toks:
                continue
            if toks[0][0] == 'dir':
                d = ALIAS.get(toks[0][1], toks[0][1])
                if enders and d in enders:
                    self.endtoks = toks
                    return body
                if d in ('.endif', '.until', '.wend', '.next', '.endmacro', '.else'):
                    raise Fail('stray ' + d)
            self.stmt(ln, toks, body, enders is None, inmacro)

    def stmt(self, ln, toks, body, top, inmacro):
        k, v = toks[0]
        add = lambda *s: body.append((ln,) + s)
        # labels and assignments
        if k == 'sym' and v not in self.macros or (k == 'kw' and False):
            if len(toks) > 1 and (toks[1] == ('op', '=') or toks[1] == ('dir', '.equ')):
                self.note(v)
                return add('equ', v, parse_expr(toks[2:]))
            if not top and len(toks) > 1:
                raise Fail('label with a statement inside a block')
            if not top and not inmacro:
                raise Unsupported('label in a block')
            self.note(v)
            add('label', v)
            if len(toks) == 1:
                return
            return self.stmt(ln, toks[1:], body, top, inmacro)
        if (k == 'anon' or (k == 'op' and v in ('+', '-'))) and top:
            self.anon += 1
            add('anon', v, self.anon)
            if len(toks) == 1:
                return
            return self.stmt(ln, toks[1:], body, top, inmacro)
        if k == 'op' and v == '*' and len(toks) > 1 and (toks[1] == ('op', '=') or toks[1] == ('dir', '.equ')):
            return add('pc', parse_expr(toks[2:]))
        if k == 'sym':  # macro call
            args = [] if len(toks) == 1 else [self.item(x) for x in split_commas(toks[1:])]
            return add('call', v, args)
        if k == 'kw' and v in OPS:
            return add(*self.op(v, toks[1:]))
        if k == 'op' and v in ('?', '??'):
            return add('print', [self.item(x) for x in split_commas(toks[1:])] if len(toks) > 1 else [])
        if k != 'dir':
            raise Fail('syntax')
        d = ALIAS.get(v, v)
        rest = toks[1:]
        if d == '.org':
            return add('org', parse_expr(rest))
        if d == '.ds':
            return add('ds', parse_expr(rest))
        if d in ('.byte', '.word', '.str'):
            return add('data', d[1:], [self.item(x) for x in split_commas(rest)])
        if d == '.fill':
            it = split_commas(rest)
            if len(it) != 2:
                raise Fail('fill')
            return add('fill', parse_expr(tuple(it[0])), parse_expr(tuple(it[1])))
        if d in ('.print', '.printall'):
            if rest and rest[0][0] == 'sym' and rest[0][1] in ('on', 'off'):
                return add('nop')
            return add('print', [self.item(x) for x in split_commas(rest)] if rest else [])
        if d == '.section':
            if len(rest) != 1 or rest[0][0] != 'sym':
                raise Fail('section')
            self.psect.append(rest[0][1])
            return add('section', rest[0][1])
        if d == '.endsection':
            if rest:
                raise Fail('end of section with a name')
            if self.psect:
                self.psect.pop()
            return add('endsection')
        if d == '.end':
            return add('end')
        if d == '.var':
            vs = []
            for it in split_commas(rest):
                if not it or it[0][0] != 'sym':
                    raise Fail('var')
                self.note(it[0][1])
                if len(it) == 1:
                    vs.append((it[0][1], None))
                elif it[1] == ('op', '='):
                    vs.append((it[0][1], parse_expr(tuple(it[2:]))))
                else:
                    raise Fail('var')
            return add('var', vs)
        if d in ('.inc', '.load'):
            if len(rest) != 1 or rest[0][0] != 'str':
                raise Unsupported('file name')
            nm = rest[0][1].decode('latin-1')
            if d == '.load':
                return add('load', nm)
            if not top:
                raise Unsupported('.inc inside a block')
            sv = self.L, self.i, self.cond
            inner = self.parse_file(nm)
            self.L, self.i, self.cond = sv
            body.extend(inner)
            return
        if d == '.c64':
            return add('mode', 'c64', True)
        if d in ('.65c02', '.6502', '.illegal', '.warn'):
            w = rest[0][1] if rest else ''
            if d == '.illegal':
                return add('mode', 'illegal', w == 'on')
            if d == '.warn':
                return add('nop')
            return add('mode', 'cpu', d[1:])
        if d == '.if':
            self.cond.append(False)
            c = parse_expr(rest)
            b1 = self.block(('.else', '.endif'), inmacro)
            b2 = []
            if self.endtoks[0][1] == '.else':
                b2 = self.block(('.endif',), inmacro)
            self.cond.pop()
            return add('if', c, b1, b2)
        if d == '.repeat':
            b = self.block(('.until',), inmacro)
            return add('repeat', b, parse_expr(self.endtoks[1:]))
        if d == '.do':
            b = self.block(('.while',), inmacro)
            return add('do', b, parse_expr(self.endtoks[1:]))
        if d == '.while':
            b = self.block(('.wend',), inmacro)
            return add('while', parse_expr(rest), b)
        if d == '.for':
            if rest and rest[0][0] == 'dir':
                raise Unsupported('register loop')
            t = [j for j, x in enumerate(rest) if x == ('dir', '.to')]
            if not t or rest[0][0] != 'sym':
                raise Fail('for')
            s = [j for j, x in enumerate(rest) if x == ('dir', '.step')]
            var, init = rest[0][1], parse_expr(rest[2:t[0]])
            to = parse_expr(rest[t[0] + 1:s[0] if s else len(rest)])
            step = parse_expr(rest[s[0] + 1:]) if s else None
            b = self.block(('.next',), inmacro)
            if len(self.endtoks) != 2 or self.endtoks[1] != ('sym', var):
                raise Fail('next does not match')
            return add('for', var, init, to, step, b)
        if d == '.macro':
            if inmacro:
                raise Unsupported('nested macro definition')
            if len(rest) != 1 or rest[0][0] != 'sym':
                raise Fail('macro')
            nm = rest[0][1]
            b = self.block(('.endmacro',), True)
            self.macros.add(nm)
            return add('macro', nm, b)
        raise Unsupported(d)

    def item(self, toks):
        if len(toks) == 1 and toks[0][0] == 'str':
            return ('str', toks[0][1])
        return parse_expr(tuple(toks))

    def op(self, m, t):
        t = tuple(t)
        if not t:
            return ('op', m, 'imp', None)
        if t == (('kw', 'a'),):
            return ('op', m, 'acc', None)
        if t[0] == ('op', '#'):
            return ('op', m, 'imm', parse_expr(t[1:]))
        it = split_commas(t)
        X, Y = ('kw', 'x'), ('kw', 'y')
        if len(it) == 2 and it[1] == [X]:
            form, e = 'x', parse_expr(tuple(it[0]))
        elif len(it) == 2 and it[1] == [Y]:
            e = parse_expr(tuple(it[0]))
            form = 'indy' if e[0] == 'grp' else 'y'
        elif len(it) == 1:
            if len(t) >= 4 and t[0] == ('op', '(') and t[-3:] == (('op', ','), X, ('op', ')')):
                form, e = 'indx', parse_expr(t[1:-3])
            else:
                e = parse_expr(t)
                form = 'ind' if e[0] == 'grp' else 'e'
        else:
            raise Fail('operand')
        if form == 'x' and e[0] == 'grp':
            raise Unsupported('(e),x')
        return ('op', m, form, e[1] if form in ('ind', 'indy') else e)


class Machine:
    def __init__(self, args_defs, cpu, c64, stmts, files, dirs, macrodefs=None):
        self.defs = {k.lower(): v for k, v in args_defs.items()}
        self.cpu0, self.c64, self.stmts, self.files, self.dirs = cpu, c64, stmts, files, dirs
        self.ill0 = False
        self.prev, self.prev_plus, self.passno = {}, [], 0
        self.widen = {}
        self.consts = None
        self.used = set()

    # ---- symbols
    def key_candidates(self, name):
        if name[0] == '@':
            return (('@', self.scope, name, tuple(self.sect)),)
        if self.sect:
            return (('.'.join(self.sect) + '.' + name), name)
        return (name,)

    def lookup(self, name):
        cands = self.key_candidates(name)
        for k in cands:
            if k in self.cur:
                self.used.add(k)
                return self.cur[k]
            if k in self.prev:
                self.used_prev = True
                self.used.add(k)
                return self.prev[k]
            if isinstance(k, str) and k in self.vars:
                return self.vars[k]
        if name[0] == '@' and any(isinstance(q, tuple) and q[:3] == cands[0][:3] for q in list(self.cur) + list(self.prev)):
            raise Unsupported('local label of another section')
        self.unknown = True
        raise Unknown(name)

    def define(self, name, val, label=False):
        k = self.key_candidates(name)[0]
        if k in self.vars:
            if label:
                raise Unsupported('label is a variable')
            self.vars[k] = val
        elif isinstance(k, str) and name in self.vars and not label:
            raise Unsupported('global variable assigned in a section')
        else:
            if self.final and k in self.cur and self.cur[k] != val:
                raise Fail('symbol redefined')
            if k in self.cur and label and self.cur[k] == val:
                raise Unsupported('label repeated')
            self.cur[k] = val
        self.h ^= hash((k, val))

    def ev(self, e):
        k = e[0]
        if k == 'n':
            return chk(e[1])
        if k == 's':
            return self.lookup(e[1])
        if k == 'grp':
            return self.ev(e[1])
        if k == 'unk':
            self.unknown = True
            raise Unknown('argument')
        if k == 'pc':
            return self.pc_star
        if k == 'par':
            a = self.args
            if a is None or e[1] > len(a[0]):
                raise Fail('no such macro parameter')
            arg = a[0][e[1] - 1]
            if arg[0] == 'str':
                raise Unsupported('string in expression')
            sv = self.args, self.scope
            self.args, self.scope = a[1], a[2]
            try:
                return self.ev(arg)
            finally:
                self.args, self.scope = sv
        if k == 'anon':
            return self.anon(e[1])
        if k == 'un':
            v = self.ev(e[2])
            o = e[1]
            if o == '-':
                return chk(-v)
            if o == '<':
                return v & 0xFF
            if o == '>':
                return (v >> 8) & 0xFF
            if o == 'not':
                return 0 if v else 1
            if o == '~':
                if not -0x8000 <= v <= 0xFFFF:
                    raise Unsupported('~ of ' + str(v))
                return ~v & (0xFF if 0 <= v < 0x100 else 0xFFFF)
        o = e[1]
        a, b = self.ev(e[2]), self.ev(e[3])
        if o == '+':
            return chk(a + b)
        if o == '-':
            return chk(a - b)
        if o == '*':
            return chk(a * b)
        if o == '/':
            if b == 0:
                raise Fail('divide by zero')
            q = abs(a) // abs(b)
            return chk(q if (a < 0) == (b < 0) else -q)
        if o == '&':
            return a & b
        if o == '|':
            return a | b
        if o == '^':
            return a ^ b
        if o in ('<<', '>>'):
            if not 0 <= b <= 31:
                raise Unsupported('shift')
            return chk(a << b) if o == '<<' else a >> b
        return int({'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '==': a == b, '!=': a != b, '<>': a != b,
                    '||': bool(a or b), '&&': bool(a and b)}[o])

    def anon(self, t):
        n = len(t)
        if len(set(t)) != 1:
            raise Fail('mixed')
        # labels stand outside of blocks, a use in a macro is one at the place of the call
        f = self.topln[0].instance
        if t[0] == '-':
            have = [v for g, v in self.minus if g == f]
            if len(have) < n:
                raise Fail('no such - label')
            return have[-n]
        j = sum(1 for g, _ in self.plus if g == f) + n - 1
        prev = [v for g, v in self.prev_plus if g == f]
        if j < len(prev):
            self.used_prev = True
            return prev[j]
        if self.passno > 1:
            raise Fail('no such + label')
        self.unknown = True
        raise Unknown('+')

    # ---- output
    def emit(self, bs):
        if not bs:
            return
        if self.gap:
            raise Fail('gap before output')
        if not self.pcset:
            self.pc, self.pcset = 0x1000, True
        if self.pc < 0 or self.pc + len(bs) > 0x10000:
            raise Fail('outside 64K')
        if not self.first:
            self.first = True
            if self.c64:
                self.out += bytes((self.pc & 255, self.pc >> 8))
        self.segs.append((self.pc, bs, self.ln))
        self.out += bs
        self.h ^= hash((self.pc, bs))
        self.pc += len(bs)

    def val(self, e, default=None):
        """value, or the default while unknown (early pass)"""
        try:
            return self.ev(e)
        except Unknown:
            return default

    def need(self, e):
        try:
            return self.ev(e)
        except Unknown:
            # with constants there is one solution, with labels there may be several or none
            if self.final:
                raise Fail('undefined symbol')
            if not self.constant(e, self.args, ()):
                raise Unsupported('layout depends on a forward reference')
            return 0

    def constant(self, e, args, path):
        """does e depend on numbers and constants of the outermost level only"""
        if self.consts is None:
            self.consts = {}

            def walk(stmts, top):
                for st in stmts:
                    if st[1] == 'equ':
                        self.consts.setdefault(st[2].split('.')[-1], []).append(st[3] if top else None)
                    elif st[1] in ('label', 'for'):
                        self.consts.setdefault(st[2].split('.')[-1], []).append(None)
                    elif st[1] == 'var':
                        for v, _ in st[2]:
                            self.consts.setdefault(v.split('.')[-1], []).append(None)
                    for x in st[2:]:
                        if isinstance(x, list) and x and isinstance(x[0], tuple) and len(x[0]) > 1 and isinstance(x[0][1], str) and st[1] in ('if', 'repeat', 'do', 'while', 'for', 'macro'):
                            walk(x, False)
            walk(self.stmts, True)
        k = e[0]
        if k == 's':
            n = e[1].split('.')[-1]
            return e[1][0] != '@' and n not in path and all(d is not None and self.constant(d, None, path + (n,)) for d in self.consts.get(n, ()))
        if k == 'par':
            if args is None or e[1] > len(args[0]):
                return False
            return self.constant(args[0][e[1] - 1], args[1], path)
        if k == 'n':
            return True
        if k in ('grp', 'un', 'bin'):
            return all(self.constant(x, args, path) for x in e[1:] if isinstance(x, tuple))
        return False

    def start(self):
        if not self.pcset:
            self.pc, self.pcset = 0x1000, True

    def one(self, v):
        if v is None:
            return b'\0'
        if not -254 <= v <= 255:
            if self.final:
                raise Fail('byte value out of range')
            return b'\0'
        return bytes((v & 255,))

    def two(self, v):
        if v is None:
            return b'\0\0'
        if not -65534 <= v <= 65535:
            if self.final:
                raise Fail('word value out of range')
            return b'\0\0'
        return bytes((v & 255, v >> 8 & 255))

    # ---- statements
    def run_block(self, body):
        for s in body:
            self.step(s)
            if self.stop:
                return

    def step(self, s):
        self.ln = s[0]
        k = s[1]
        self.pc_star = self.pc if self.pcset else 0x1000
        self.steps += 1
        if self.steps > 200000:
            raise Unsupported('too long')
        getattr(self, 's_' + k)(*s[2:])
        if self.final:
            self.states.append(hash((self.pc, self.h, len(self.out), tuple(self.sect), k)))

    def s_nop(self):
        pass

    def s_mode(self, what, v):
        if what == 'cpu':
            self.cpu = v
        elif what == 'c64':
            self.c64 = True
        else:
            self.illegal = v

    def s_label(self, name):
        if self.depth:
            raise Unsupported('label in loop')
        self.start()
        if name[0] != '@' and self.args is None:
            self.scope = name if not self.sect else '.'.join(self.sect) + '.' + name
        self.define(name, self.pc, True)
        if self.args is None and name[0] != '@':
            self.labels.append((self.key_candidates(name)[0], self.pc))

    def s_anon(self, t, idx):
        self.start()
        if len(t) != 1:
            raise Fail('double anonymous label')
        if t == '-':
            self.minus.append((self.ln[0].instance, self.pc))
        else:
            self.plus.append((self.ln[0].instance, self.pc))

    def s_equ(self, name, e):
        try:
            v = self.ev(e)
        except Unknown:
            return
        if self.final and not 0 <= v <= 0xFFFF and self.key_candidates(name)[0] not in self.vars and name not in self.vars:
            raise Fail('symbol out of range')
        self.define(name, v)

    def s_var(self, vs):
        for name, e in vs:
            k = self.key_candidates(name)[0]
            self.vars[k] = 0 if e is None else self.need(e)
            self.h ^= hash((k, self.vars[k]))

    def s_org(self, e):
        v = self.need(e)
        if self.orgdone:
            raise Fail('second origin')
        self.orgdone = True
        self.s_pc(None, v)

    def s_pc(self, e, v=None):
        v = self.need(e) if e is not None else v
        if not 0 <= v <= 0xFFFF:
            raise Fail('origin outside 64K')
        self.pc, self.pcset, self.gap = v, True, False
        self.h ^= hash(('pc', v))

    def s_ds(self, e):
        n = self.need(e)
        if n < 0:
            if self.final:
                raise Fail('negative reservation')
            return
        if not n:
            return
        if n > 0x10000:
            if self.final:
                raise Fail('reservation larger than the address space')
            return
        if not self.pcset:
            raise Unsupported('.ds before any origin or output')
        self.pc += n
        if self.pc > 0x10000:
            raise Unsupported('.ds past 64K')
        self.gap = True

    def s_fill(self, e, n):
        n = self.need(n)
        v = self.val(e)
        if self.final and (n < 0 or not 0 <= v <= 255):
            raise Fail('fill out of range')
        self.emit((self.one(v) if v is None or 0 <= v <= 255 else b'\0') * n)

    def s_data(self, kind, items):
        out = b''
        base = self.pc_star
        for it in items:
            a = it
            if it[0] == 'par':
                if self.args is None or it[1] > len(self.args[0]):
                    raise Fail('no such macro parameter')
                if self.args[0][it[1] - 1][0] == 'str':
                    a = self.args[0][it[1] - 1]
            if a[0] == 'str':
                b = a[1]
                if kind == 'word' and len(b) & 1:
                    b += b'\0'
                out += b
                continue
            # the location counter in a list is the address of the item
            self.pc_star = base + len(out)
            v = self.val(it)
            if kind == 'byte':
                out += self.one(v)
            elif kind == 'word':
                out += self.two(v)
            else:
                out += self.two(v) if v is None or not 0 <= v <= 255 else self.one(v)
        self.pc_star = base
        self.emit(out)

    def s_load(self, name):
        if name not in self.files:
            for d in self.dirs:
                if d + name in self.files:
                    name = d + name
                    break
            else:
                raise Fail('no file')
        self.emit(self.files[name])

    def s_print(self, items):
        r = []
        for it in items:
            r.append(it[1].decode('latin-1') if it[0] == 'str' else self.val(it))
        if self.final:
            self.prints.append(r)

    def s_section(self, name):
        self.sect.append(name)
        self.sections_seen.add(name)

    def s_endsection(self):
        if not self.sect:
            raise Fail('unmatched end of section')
        self.sect.pop()

    def s_end(self):
        self.stop = True

    def s_if(self, c, a, b):
        v = self.need(c)
        self.run_block(a if v else b)

    def loop(self, body):
        self.depth += 1
        self.run_block(body)
        self.depth -= 1

    def guard(self, n):
        if n > 20000:
            raise Unsupported('endless loop')

    def s_repeat(self, body, cond):
        n = 0
        while True:
            self.loop(body)
            n += 1; self.guard(n)
            self.pc_star = self.pc
            if self.stop or self.need(cond):
                return

    def s_do(self, body, cond):
        n = 0
        while True:
            self.loop(body)
            n += 1; self.guard(n)
            if self.stop or not self.need(cond):
                return

    def s_while(self, cond, body):
        n = 0
        while self.need(cond):
            self.loop(body)
            n += 1; self.guard(n)
            if self.stop:
                return

    def s_for(self, var, init, to, step, body):
        # step, start and end are evaluated once, in this order
        st = 1 if step is None else self.need(step)
        self.define(var, self.need(init))
        lim = self.need(to)
        n = 0
        if st == 0:
            raise Unsupported('step 0')
        while True:
            v = self.lookup(var)
            if (st > 0 and v > lim) or (st < 0 and v < lim):
                return
            self.loop(body)
            n += 1; self.guard(n)
            if self.stop:
                return
            self.define(var, self.lookup(var) + st)

    def s_macro(self, name, body):
        self.macro[name] = body

    def s_call(self, name, args):
        body = self.macro.get(name)
        if body is None:
            raise Fail('no macro')
        if any(a[0] == 'str' for a in args):
            raise Fail('string as a macro argument')
        args = [('n', v) if v is not None else ('unk',) for v in [self.val(a) for a in args]]
        sv = self.args, self.scope, self.depth
        self.ncall += 1
        self.args = (args, sv[0], sv[1])
        self.scope = ('macro', self.ncall)
        self.depth_call += 1
        if self.depth_call > 50:
            raise Unsupported('recursive macro')
        d = self.depth
        self.depth = 0
        self.run_block(body)
        self.depth_call -= 1
        self.args, self.scope, self.depth = sv

    def s_op(self, m, form, e):
        tab = opref.table(self.cpu, self.illegal)
        if m not in tab:
            if self.cpu == '65c02' and m in opref.ILLEGAL:
                raise Unsupported('undocumented instructions of the 65C02')
            raise Fail('no such instruction')
        modes = tab[m]
        if form in ('imp', 'acc', 'imm'):
            if form not in modes:
                raise Fail('mode')
            self.emit(bytes((modes[form],)) + (self.one(self.val(e)) if form == 'imm' else b''))
            return
        if form == 'e' and 'rel' in modes:
            return self.branch(m, modes['rel'], e)
        z, a = opref.FORMS[form]
        zm = next((x for x in z if x in modes), None)
        am = next((x for x in a if x in modes), None)
        if zm is None and am is None:
            raise Fail('mode')
        v = self.val(e)
        if zm and (am is None or (v is not None and 0 <= v <= 255)):
            if am is None and v is not None and v > 255 and self.final:
                raise Fail('operand does not fit')
            return self.emit(bytes((modes[zm],)) + self.one(v))
        self.emit(bytes((modes[am],)) + self.two(v))

    def branch(self, m, op, e):
        self.start()
        v = self.val(e)
        site = (id(e), self.nbranch)
        self.nbranch += 1
        if v is None:
            return self.emit(bytes((op, 0)))
        d = v - (self.pc + 2)
        if -128 <= d <= 127 and (site not in self.widen or self.passno < 12):
            return self.emit(bytes((op, d & 255)))
        self.widen[site] = True
        if not -65534 <= v <= 65535:
            if self.final:
                raise Fail('branch target')
            v = 0
        jmp = bytes((0x4C, v & 255, v >> 8 & 255))
        if m == 'bra':
            return self.emit(jmp)
        self.emit(bytes((self.cpu_op(opref.INVERSE[m]), 3)) + jmp)

    def cpu_op(self, m):
        return opref.N6502[m]['rel']

    def one_pass(self, final):
        self.final = final
        self.pc, self.pcset, self.gap, self.first, self.orgdone = 0, False, False, False, False
        self.out, self.segs = b'', []
        self.cur, self.vars = dict(self.defs), {}
        self.sect, self.scope, self.args, self.depth, self.depth_call, self.ncall = [], None, None, 0, 0, 0
        self.minus, self.plus = [], []
        self.cpu, self.illegal = self.cpu0, self.ill0
        self.macro, self.stop, self.steps, self.h = {}, False, 0, 0
        self.unknown = self.used_prev = False
        self.states, self.prints, self.labels, self.nbranch = [], [], [], 0
        self.sections_seen = set()
        self.ln = self.topln = None
        for st in self.stmts:
            self.topln = st[0]
            self.step(st)
            if self.stop:
                break




def parse_args(args):
    """command line -> (sources, defs, cpu, c64, dirs); only well-formed ones"""
    src, defs, cpu, c64, dirs, k, ill = [], {}, '6502', False, [], 0, False
    while k < len(args):
        a = args[k]
        if a[0] in '-/':
            o = a[1:].lower()
            if o in ('o', 's', 'l', 'log'):
                k += 1
            elif o == 'd':
                v = args[k + 2]
                n = int(v[1:], 16) if v[0] == '$' else int(v[1:], 2) if v[0] == '%' else int(v[2:], 16) if v[:2].lower() == '0x' else int(v[2:], 2) if v[:2].lower() == '0b' else int(v)
                defs[args[k + 1]] = n
                k += 2
            elif o == 'dir':
                dirs += [d if n == 0 else d.lstrip(' \t') for n, d in enumerate(args[k + 1].split(';'))]
                dirs = [re.sub(r'^(\./+)+', '', d if not d or d[-1] in '/\\' else d + '/') for d in dirs]
                k += 1
            elif o == '65c02':
                cpu = '65c02'
            elif o == '6502':
                cpu = '6502'
            elif o == 'c64':
                c64 = True
            elif o == 'i':
                ill = True
            elif o in ('v', 'nowarn'):
                pass
            else:
                src.append(a)
        else:
            src.append(a)
        k += 1
    return src, defs, cpu, c64, dirs, ill


def assemble(files, args):
    """files {name: bytes}; args without argv[0]"""
    o = Outcome()
    src, defs, cpu, c64, dirs, ill = parse_args(args)
    mc = None
    try:
        stmts = []
        alltext = '\n'.join(f.decode('latin-1') for f in files.values())
        ps = Parser(files, [d.lower() for d in defs], dirs, alltext)
        for s in src:
            stmts += ps.parse_file(s)
        mc = Machine(defs, cpu, c64, stmts, files, dirs)
        mc.ill0 = ill
        last = None
        for n in range(1, MAXPASS + 1):
            mc.passno = n
            mc.one_pass(False)
            snap = (dict(mc.cur), list(mc.plus), mc.out)
            mc.prev, mc.prev_plus = mc.cur, mc.plus
            if n > 1 and snap[0] == last[0] and snap[1] == last[1] and snap[2] == last[2] and not mc.unknown:
                break
            if n > 1 and snap == last and mc.unknown:
                raise Fail('undefined symbol')
            last = snap
        else:
            raise Fail('layout does not settle')
        o.passes = n
        mc.passno = n + 1
        mc.used = set()
        mc.one_pass(True)
        if mc.sect:
            raise Unsupported('section left open')
        o.data, o.segs, o.syms, o.prints, o.labels, o.used = mc.out, mc.segs, mc.cur, mc.prints, mc.labels, mc.used
    except Fail as f:
        o.ok, o.why = False, str(f)
    if mc is not None:
        o.states, o.steps = mc.states, mc.steps
    return o


def consistent(files, args, values, out):
    """is out the output of the program in which the symbols have these values and no others"""
    src, defs, cpu, c64, dirs, ill = parse_args(args)
    alltext = '\n'.join(f.decode('latin-1') for f in files.values())
    ps = Parser(files, [d.lower() for d in defs], dirs, alltext)
    stmts = []
    for s in src:
        stmts += ps.parse_file(s)
    mc = Machine(defs, cpu, c64, stmts, files, dirs)
    mc.ill0 = ill
    mc.prev, mc.passno = dict(values), 2
    try:
        mc.one_pass(True)
    except Fail as f:
        return str(f)
    except Unknown as u:
        return 'unknown symbol'
    for k, v in values.items():
        if mc.cur.get(k) != v:
            return '%s is %s, used as %d' % (k, mc.cur.get(k), v)
    if mc.out != out:
        return 'output would be ' + mc.out.hex(' ')
    return ''
