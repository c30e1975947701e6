"""One executor process = one scratch directory = one stream of jobs."""
import os, struct, subprocess
from . import build

OUTS = ('out.bin', 'out.sym', 'out.lst')


class Result:
    __slots__ = ('kind', 'code', 'stdout', 'stderr', 'outs')

    def __init__(self, kind, code, stdout, stderr, outs):
        self.kind, self.code, self.stdout, self.stderr, self.outs = kind, code, stdout, stderr, outs

    @property
    def bin(self):
        return self.outs.get('out.bin')

    @property
    def ok(self):
        return self.kind == 0 and self.code == 0

    @property
    def clean_fail(self):
        return self.kind == 0 and self.code != 0

    def status(self):
        return ('exit %d' % self.code, 'signal %d' % self.code, 'timeout')[self.kind]

    def key(self):
        return (self.kind, self.code, self.stdout, self.stderr, tuple(sorted(self.outs.items(), key=lambda x: x[0])))


class Job:
    """files: {name: bytes}, args: argv without argv[0], outs: names read back"""
    __slots__ = ('files', 'args', 'outs', 'timeout')

    def __init__(self, files, args, outs=('out.bin',), timeout=4):
        self.files, self.args, self.outs, self.timeout = files, args, outs, timeout

    def encode(self):
        b = [struct.pack('<I', self.timeout), struct.pack('<I', len(self.files))]
        s = lambda x: b.append(struct.pack('<I', len(x)) + x)
        for k, v in self.files.items():
            s(k.encode()); s(v)
        b.append(struct.pack('<I', len(self.args) + 1)); s(b'pasm')
        for a in self.args:
            s(a if isinstance(a, bytes) else a.encode('latin-1'))
        b.append(struct.pack('<I', len(self.outs)))
        for o in self.outs:
            s(o.encode())
        return b''.join(b)

    def to_json(self):
        return {'files': {k: v.decode('latin-1') for k, v in self.files.items()},
                'args': [a.decode('latin-1') if isinstance(a, bytes) else a for a in self.args],
                'outs': list(self.outs), 'timeout': self.timeout}

    @staticmethod
    def from_json(d):
        return Job({k: v.encode('latin-1') for k, v in d['files'].items()}, d['args'], tuple(d['outs']), d.get('timeout', 4))


class Executor:
    def __init__(self, exe, env=None):
        self.dir = build.scratch('run')
        e = dict(os.environ)
        e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_segv=0:quarantine_size_mb=1:malloc_context_size=0'
        e['UBSAN_OPTIONS'] = 'print_stacktrace=0'
        if env:
            e.update(env)
        self.p = subprocess.Popen([exe], cwd=self.dir, stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=e)

    def _rd(self, n):
        b = self.p.stdout.read(n) if n else b''
        if len(b) != n:
            raise RuntimeError('executor died')
        return b

    def _str(self):
        return self._rd(struct.unpack('<I', self._rd(4))[0])

    def run(self, jobs):
        self.p.stdin.write(struct.pack('<I', len(jobs)) + b''.join(j.encode() for j in jobs))
        self.p.stdin.flush()
        res = []
        for j in jobs:
            kind, code = struct.unpack('<II', self._rd(8))
            so, se = self._str(), self._str()
            outs = {}
            for o in j.outs:
                present, = struct.unpack('<I', self._rd(4))
                d = self._str()
                outs[o] = d if present else None
            res.append(Result(kind, code, so, se, outs))
        return res

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()
        build.clean(self.dir)
