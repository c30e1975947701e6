"""Builds the executor (and ADT harnesses) from /repo's current working tree.

Every source file of the assembler is compiled, with flex/bison run on the
grammar files; only `main` of main.cc is renamed so that the executor can call
it.  Nothing is written below /repo."""
import glob, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('PASM_REPO', '/repo')
SRC = os.path.join(REPO, 'CMakePasm', 'source')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class BuildError(Exception):
    pass


def scratch(prefix):
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    return tempfile.mkdtemp(prefix='pasmmc_' + prefix, dir=base)


def run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout.decode(errors='replace')[-4000:])


def build(out, asan=False, extra=('executor',)):
    """compile the assembler + each harness/<extra>.cc; returns {name: exe}"""
    os.makedirs(out, exist_ok=True)
    run(['bison', '-Wno-other', '-Wno-conflicts-sr', '-Wno-conflicts-rr', '-d', '-o', 'pasm.tab.cc', '--defines=pasm.tab.h',
         os.path.join(SRC, 'pasm.y')], out)
    run(['flex', '-o', 'pasm.flex.cc', os.path.join(SRC, 'pasm.l')], out)
    flags = ['-w', '-std=c++17', '-O1', '-g', '-DNDEBUG', '-I' + SRC, '-I' + out]
    if asan:
        flags += ['-fsanitize=address,undefined', '-fno-sanitize=vptr', '-DMC_ASAN', '-fno-omit-frame-pointer']
    units = sorted(glob.glob(os.path.join(SRC, '*.cc')) + glob.glob(os.path.join(SRC, '*.cpp')))
    units += [os.path.join(out, 'pasm.tab.cc'), os.path.join(out, 'pasm.flex.cc')]
    objs, jobs = [], []
    for u in units:
        o = os.path.join(out, os.path.basename(u) + '.o')
        objs.append(o)
        ex = ['-Dmain=pasm_main'] if os.path.basename(u) == 'main.cc' else []
        jobs.append(['g++'] + flags + ex + ['-c', u, '-o', o])
    hobj = {}
    for e in extra:
        o = os.path.join(out, 'h_' + e + '.o')
        hobj[e] = o
        jobs.append(['g++'] + flags + ['-c', os.path.join(HERE, 'harness', e + '.cc'), '-o', o])
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for f in [ex.submit(run, j, out) for j in jobs]:
            f.result()
    exes = {}
    for e in extra:
        exe = os.path.join(out, e)
        link = ['g++'] + (['-fsanitize=address,undefined','-static-libasan','-static-libubsan'] if asan else ['-static']) + [hobj[e]] + objs + ['-o', exe]
        run(link, out)
        exes[e] = exe
    return exes


def clean(d):
    shutil.rmtree(d, ignore_errors=True)
