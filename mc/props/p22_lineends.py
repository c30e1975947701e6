"""P22 the samples are converted to the line ends of the platform and not changed otherwise"""
import itertools, json, os, shutil, subprocess, sys, time
from .. import build, explore

ID = 'P22'
HARNESSES = ()
BOUNDS = {
    'runs': 'all texts of <= 8 (thorough 10) of the pieces: letter, CR, LF',
    'mixed': 'all texts of <= 5 (thorough 6) of the pieces: letter, tab, blank, CR, LF, CRLF, NUL, byte 0x80',
    'byte': 'every byte value alone, and at the first, middle and last place of a text, before and after each line end',
    'long': 'texts of every length 0..70 and round the powers of two to 65536 with each kind of line end and a binary byte at the start, middle, end or nowhere',
    'tree': 'all trees of <= 4 nested directories with files in every subset of them; names with dots, blanks, no extension, hidden',
    'twice': 'every element of runs and mixed converted a second time',
    'none': 'directories without samples, with a file in their place, empty',
}
ASSUMES = ['LF directly followed by a lone CR is one or two line ends', 'a text has printable ASCII, tab, CR and LF', 'links are not specified', 'the Windows part is not compiled']
EOLS = (13, 10)


def is_text(b):
    return all(32 <= x <= 126 or x in (9, 10, 13) for x in b)


def counts(run):
    """numbers of line ends a run of CR and LF can stand for"""
    a = run.replace(b'\r\n', b'n')
    n, i = 0, 0
    while i < len(run):
        i += 2 if run[i:i + 2] in (b'\r\n', b'\n\r') else 1
        n += 1
    return {len(a)} | ({n} if b'\n\r' in run else set())


def good(old, new):
    """is new an allowed conversion of old"""
    if not is_text(old):
        return new == old
    i = j = 0
    while i < len(old):
        if old[i] not in EOLS:
            if j >= len(new) or new[j] != old[i]:
                return False
            i += 1; j += 1
            continue
        k = i
        while k < len(old) and old[k] in EOLS:
            k += 1
        m = j
        while m < len(new) and new[m] == 10:
            m += 1
        if m - j not in counts(old[i:k]):
            return False
        i, j = k, m
    return j == len(new)


def elements(tier):
    deep = tier == 'thorough'
    for n in range((10 if deep else 8) + 1):
        for t in itertools.product((b'a', b'\r', b'\n'), repeat=n):
            yield 'runs', b''.join(t)
    for n in range((6 if deep else 5) + 1):
        for t in itertools.product((b'a', b'\t', b' ', b'\r', b'\n', b'\r\n', b'\0', b'\x80'), repeat=n):
            yield 'mixed', b''.join(t)
    for b in range(256):
        c = bytes([b])
        yield 'byte', c
        for e in (b'\n', b'\r', b'\r\n'):
            for t in (c + e, e + c, c + b'xx' + e + b'yy', b'xx' + c + e + b'yy', b'xx' + e + c + b'yy', b'xx' + e + b'yy' + c):
                yield 'byte', t
    for n in list(range(71)) + sorted({2 ** k + d for k in range(7, 17) for d in (-2, -1, 0, 1)}):
        for e in (b'\n', b'\r', b'\r\n'):
            for w in range(4):
                t = bytearray((b'abcdefgh' + e) * (n // (8 + len(e)) + 1))[:n]
                if w and n:
                    t[(0, n // 2, n - 1)[w - 1]] = 7
                yield 'long', bytes(t)


def trees(tier):
    names = ['a.asm', 'b', '.hid', 'c d.txt', 'e.x.y', 'F.ASM']
    dirs = ['d1', 'd.2', 'd 3', '.d4']
    shapes = [p for n in range(5) for p in itertools.product(range(-1, n), repeat=n) if all(p[i] < i for i in range(n))]
    for s in shapes:
        paths = ['']
        for i, p in enumerate(s):
            paths.append(paths[p + 1] + dirs[i] + '/')
        for m in range(1 << len(paths)):
            yield {paths[i] + names[(i + k) % len(names)]: b'x\r\n%d\r' % i + (b'\0' if k else b'') for i in range(len(paths)) if m >> i & 1 for k in range(2)}, paths


def convert(exe, root):
    """run as nobody in the scratch directory; only files in it can be written"""
    kw = {}
    if os.getuid() == 0:
        subprocess.run(['chown', '-R', '65534:65534', root], check=True)
        kw = {'user': 65534, 'group': 65534, 'extra_groups': []}
    p = subprocess.run([exe], cwd=root + '/build/bin', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300, **kw)
    return p


class Tree:
    def __init__(self, base):
        self.base, self.n = base, 0

    def make(self, files, dirs=(), samples=True):
        self.n += 1
        r = os.path.join(self.base, 't%d' % self.n)
        os.makedirs(r + '/build/bin')
        s = r + '/CMakePasm/samples/'
        os.makedirs(s if samples else r + '/CMakePasm')
        for d in dirs:
            os.makedirs(s + d, exist_ok=True)
        for f, b in files.items():
            os.makedirs(os.path.dirname(s + f), exist_ok=True)
            with open(s + f, 'wb') as o:
                o.write(b)
        return r, s


def read_all(s):
    res = {}
    for d, _, fs in os.walk(s):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, 'rb') as i:
                res[os.path.relpath(p, s)] = i.read()
    return res


def compare(files, got, p):
    """[(name, text)] of the differences"""
    bad = []
    if p.returncode:
        bad.append((None, 'exit status %d %s' % (p.returncode, p.stdout[-300:].decode('latin-1'))))
    for f, b in files.items():
        if f not in got:
            bad.append((f, '%r is gone' % b[:60]))
        elif not good(b, got[f]):
            bad.append((f, '%r (%d bytes) became %r (%d)' % (b[:60], len(b), got[f][:60], len(got[f]))))
    for f in got:
        if f not in files:
            bad.append((f, 'file %r was added' % f))
    return bad


def run_custom(tier, exes, t0):
    d = build.scratch('eol')
    fam, viol, outcomes = {}, [], set()
    try:
        exe = os.path.join(d, 'eolconvert')
        build.run(['g++', '-w', '-std=c++17', '-O1', '-g', '-fsanitize=address,undefined', os.path.join(build.REPO, 'CMakePasm/eolconvert/eolconvert.cc'), '-o', exe], d)
        os.chmod(d, 0o755)
        tr = Tree(d)

        def add(f, n, m):
            c = fam.setdefault(f, [0, 0])
            c[0] += n; c[1] += m

        def one(name, files, dirs=()):
            r, s = tr.make(files, dirs)
            p = convert(exe, r)
            got = read_all(s)
            for f, t in compare(files, got, p):
                fl = name if isinstance(name, str) else name.get(f, 'runs')
                viol.append({'family': fl, 'item': [files[f].decode('latin-1') if f in files else f], 'problems': [t], 'observed': t})
            for b in got.values():
                outcomes.add(b if len(b) < 40 else hash(b))
            shutil.rmtree(r)
            return got

        flat, names = {}, {}
        for k, (f, b) in enumerate(elements(tier)):
            n = 'd%d/f%d' % (k // 2000, k)
            flat[n], names[n] = b, f
            add(f, 1, len(b))
        got = one(names, flat)
        # a converted text stays as it is
        again = {n: got[n] for n in got if names.get(n) in ('runs', 'mixed')}
        r, s = tr.make(again)
        convert(exe, r)
        after = read_all(s)
        for n in again:
            if after.get(n) != again[n]:
                t = '%r became %r the second time' % (again[n], after.get(n))
                viol.append({'family': 'twice', 'item': [again[n].decode('latin-1')], 'problems': [t], 'observed': t})
        shutil.rmtree(r)
        add('twice', len(again), sum(map(len, again.values())))
        for files, paths in trees(tier):
            one('tree', files, [p for p in paths if p])
            add('tree', 1, len(files))
        for k in range(3):
            r, s = tr.make({}, samples=k == 2)
            if k == 1:
                with open(r + '/CMakePasm/samples', 'w') as o:
                    o.write('x\r\n')
            p = convert(exe, r)
            if p.returncode:
                viol.append({'family': 'none', 'item': [k], 'problems': ['exit status %d' % p.returncode], 'observed': p.stdout[-300:].decode('latin-1')})
            add('none', 1, 1)
            shutil.rmtree(r)
    finally:
        build.clean(d)
    viol.sort(key=lambda v: (len(str(v['item'])), str(v['item'])))
    cov = {'states': len(outcomes), 'transitions': sum(c[1] for c in fam.values()), 'traces_validated_against_impl': sum(c[0] for c in fam.values()),
           'families': {k: {'elements': c[0], 'steps': c[1], 'bound': BOUNDS[k]} for k, c in fam.items()}, 'exhaustive': True,
           'enumeration': 'every text and tree within the bounds is converted by the real tool in a scratch directory; nothing sampled',
           'samples': [{'family': f, 'item': repr(b)} for f, b in itertools.islice(elements(tier), 100, 140)],
           'rule': 'states: distinct converted texts; transitions: bytes of the texts read by the line end automaton of the model; traces: files converted by the real tool and compared'}
    ev = {'property': ID, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking', 'coverage': cov,
          'assumptions': ASSUMES, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    e = os.path.join(explore.VERIF, 'evidence')
    os.makedirs(e, exist_ok=True)
    json.dump(ev, open(os.path.join(e, ID + '.json'), 'w'), indent=1)
    print('%s %s: %d families, %d texts and trees, %d outcomes, %.1f s' % (ID, tier, len(fam), cov['traces_validated_against_impl'], len(outcomes), time.time() - t0))
    for v in viol[:5]:
        explore.report_violation(ID, tier, v)
    return 1 if viol else 0


def replay(v):
    d = build.scratch('eol')
    try:
        exe = os.path.join(d, 'eolconvert')
        build.run(['g++', '-w', '-std=c++17', '-O1', '-g', os.path.join(build.REPO, 'CMakePasm/eolconvert/eolconvert.cc'), '-o', exe], d)
        os.chmod(d, 0o755)
        b = str(v['item'][0]).encode('latin-1')
        r, s = Tree(d).make({'f': b})
        p = convert(exe, r)
        got = read_all(s)
        print(p.stdout.decode('latin-1'), repr(b), '->', got)
        return 1 if compare({'f': b}, got, p) else 0
    finally:
        build.clean(d)
