"""Exhaustive bounded explorer.

A property module lists families; a family is a finite, deterministically
enumerated space of programs (or command lines, file trees, operation
sequences).  Every element is executed on the real program and judged against
the executable specification.  Nothing is sampled and nothing is skipped: a run
that stops early (because it already found violations) says so."""
import array, importlib, json, multiprocessing as mp, os, sys, time, traceback
from . import build, execpool, refasm
from .execpool import Job

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(VERIF, 'known_findings.txt')
WORKERS = int(os.environ.get('MC_WORKERS', '0')) or min(8, os.cpu_count() or 1)
BATCH = 96
STOP_AFTER = int(os.environ.get("MC_STOP", "6"))


class Test:
    """one element of a family: jobs to execute, judge(results) -> [problems]"""
    __slots__ = ('jobs', 'judge', 'states', 'steps', 'note')

    def __init__(self, jobs, judge, states=(), steps=1, note=''):
        self.jobs, self.judge, self.states, self.steps, self.note = jobs, judge, states, steps, note


def describe(o):
    return 'ok ' + o.data[:48].hex(' ') + (' ...(%d bytes)' % len(o.data) if len(o.data) > 48 else '') if o.ok else 'error: ' + o.why


def observed(r):
    b = r.bin
    return r.status() + ' ' + ('no file' if b is None else b[:48].hex(' ') + (' ...(%d bytes)' % len(b) if len(b) > 48 else ''))


def agree(o, r):
    """specification outcome vs observed result"""
    if r.kind != 0:
        return 'ended by ' + r.status()
    if o.ok:
        if r.code != 0:
            return 'rejected (%s: %s)' % (r.status(), first_line(r.stderr))
        if (r.bin or b'') != o.data:
            b = r.bin or b''
            k = next((i for i in range(min(len(b), len(o.data))) if b[i] != o.data[i]), min(len(b), len(o.data)))
            return 'output differs at byte %d: expected %s, got %s' % (k, o.data[k:k + 8].hex(' '), b[k:k + 8].hex(' ')) + ' (lengths %d, %d)' % (len(o.data), len(b))
        return None
    if r.code == 0:
        return 'accepted, but it is in error (%s)' % o.why
    return None


def first_line(b):
    return b.decode('latin-1').strip().split('\n')[0][:100]


def src(text, args=(), files=None, outs=('out.bin',), timeout=4, name='t.a'):
    f = {name: text if isinstance(text, bytes) else text.encode('latin-1')}
    if files:
        f.update({k: v if isinstance(v, bytes) else v.encode('latin-1') for k, v in files.items()})
    return Job(f, [name, '-o', 'out.bin'] + list(args), outs, timeout)


def ref_test(text, args=(), files=None, outs=('out.bin',), extra=None, timeout=4):
    """compare one program with the reference assembler"""
    j = src(text, args, files, outs, timeout)
    o = refasm.assemble(j.files, j.args)

    def judge(rs):
        bad = agree(o, rs[0])
        p = [bad] if bad else []
        if extra and not bad:
            p += extra(o, rs[0]) or []
        return p
    return Test([j], judge, o.states or [hash(('err', o.why, o.steps))], max(1, o.steps))


def expect(jobs, want, states=None, steps=1):
    """want: list (per job) of bytes (must succeed with it) or None (must fail cleanly)"""
    def judge(rs):
        p = []
        for r, w in zip(rs, want):
            o = refasm.Outcome()
            o.ok, o.data, o.why = w is not None, w or b'', 'by the language rules'
            bad = agree(o, r)
            if bad:
                p.append(bad)
        return p
    return Test(jobs, judge, states if states is not None else [hash(str(want))], steps)


def load(pid):
    for f in sorted(os.listdir(os.path.join(VERIF, 'mc', 'props'))):
        if f.lower().startswith(pid.lower()) and f.endswith('.py'):
            return importlib.import_module('mc.props.' + f[:-3])
    raise SystemExit('unknown property ' + pid)


def findings(pid):
    out = {}
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            if l.startswith('finding: property=%s ' % pid):
                head, what = l.rstrip('\n').split(' :: ', 1)
                d = head.split(' key=', 1)[1]
                key, obs = d.split(' observed=', 1)
                out[key] = (obs, what)
    return out


def key_of(fam, item):
    return fam + '|' + json.dumps(item, separators=(',', ':'))


def tupled(x):
    return tuple(tupled(y) for y in x) if isinstance(x, (list, tuple)) else x


def worker(w, n, mod, tier, exes, q, stop, nviol):
    try:
        ex = execpool.Executor(exes['executor'])
        rep = {'fam': {}, 'steps': 0, 'samples': [], 'viol': [], 'known': [], 'stopped': False}
        states, outcomes = set(), set()
        kf = findings(mod.ID)

        def flush(batch):
            jobs = [j for _, _, t in batch for j in t.jobs]
            t0 = time.time()
            try:
                rs = ex.run(jobs)
            except Exception:
                raise
            k = 0
            for fam, item, t in batch:
                r = rs[k:k + len(t.jobs)]
                k += len(t.jobs)
                f = rep['fam'].setdefault(fam, [0, 0])
                f[0] += 1
                f[1] += len(t.jobs)
                rep['steps'] += t.steps
                states.update(t.states)
                for x in r:
                    outcomes.add(hash((x.kind, x.code, x.bin)))
                bad = t.judge(r)
                if not bad:
                    if len(rep['samples']) < 400 and f[0] == 1:
                        rep['samples'].append((fam, item, t.jobs[0].to_json(), observed(r[0])))
                    continue
                # replay alone, fresh process, generous limit, twice
                ok = confirm(exes['executor'], t)
                if not ok:
                    continue
                obs = ok[1]
                kk = key_of(fam, item)
                if kk in kf and kf[kk][0] == obs:
                    rep['known'].append((kk, kf[kk][1]))
                    continue
                rep['viol'].append({'family': fam, 'item': item, 'problems': ok[0], 'observed': obs, 'jobs': [j.to_json() for j in t.jobs], 'note': t.note})
                with nviol.get_lock():
                    nviol.value += 1
                if nviol.value >= STOP_AFTER:
                    stop.set()

        batch, nj, idx = [], 0, 0
        only = os.environ.get('MC_FAM')
        for fam, gen in mod.families(tier):
            if only and fam != only:
                continue
            for item in gen:
                idx += 1
                if idx % n != w:
                    continue
                try:
                    t = mod.test(fam, item)
                except refasm.Unsupported:          # outside of what the reference specifies
                    t = None
                if t is None:
                    continue
                batch.append((fam, item, t))
                nj += len(t.jobs)
                if nj >= BATCH:
                    flush(batch)
                    batch, nj = [], 0
                    if stop.is_set():
                        rep['stopped'] = True
                        break
            if rep['stopped']:
                break
        if batch and not rep['stopped']:
            flush(batch)
        ex.close()
        rep['states'] = array.array('q', [s & ((1 << 63) - 1) for s in states]).tobytes()
        rep['outcomes'] = array.array('q', [s & ((1 << 63) - 1) for s in outcomes]).tobytes()
        rep['total'] = idx
        q.put(rep)
    except BaseException:
        q.put({'error': traceback.format_exc()})


def confirm(exe, t, timeout=20):
    """replay twice in fresh executors; a violation must repeat identically"""
    seen = []
    for _ in range(2):
        ex = execpool.Executor(exe)
        try:
            jobs = [Job(j.files, j.args, j.outs, max(timeout, j.timeout & 255) | j.timeout & ~255) for j in t.jobs]
            rs = ex.run(jobs)
        finally:
            ex.close()
        bad = t.judge(rs)
        if not bad:
            return None
        seen.append((bad, ' ; '.join(observed(r) for r in rs)))
    return seen[0]


def report_violation(pid, tier, v):
    d = os.path.join(VERIF, 'out', 'replays')
    os.makedirs(d, exist_ok=True)
    k = 0
    while os.path.exists(os.path.join(d, '%s_%d.json' % (pid, k))):
        k += 1
    p = os.path.join(d, '%s_%d.json' % (pid, k))
    v = dict(v)
    v['property'], v['tier'] = pid, tier
    json.dump(v, open(p, 'w'), indent=1)
    print('VIOLATION property=%s replay=%s' % (pid, p))
    print('  family %s item %s' % (v['family'], json.dumps(v['item'])[:300]))
    for b in v['problems'][:4]:
        print('  ' + b)
    print('  observed: ' + v['observed'][:200], flush=True)


def check(pid, tier):
    mod = load(pid)
    t0 = time.time()
    d = build.scratch('build')
    try:
        exes = build.build(d, getattr(mod, 'ASAN', False), getattr(mod, 'HARNESSES', ('executor',)))
        if hasattr(mod, 'run_custom'):
            return mod.run_custom(tier, exes, t0)
        ctx = mp.get_context('fork')
        q, stop, nviol = ctx.Queue(), ctx.Event(), ctx.Value('i', 0)
        ps = [ctx.Process(target=worker, args=(w, WORKERS, mod, tier, exes, q, stop, nviol), daemon=True) for w in range(WORKERS)]
        for p in ps:
            p.start()
        reps = [q.get() for _ in ps]
        for p in ps:
            p.join()
        return finish(mod, tier, t0, reps)
    finally:
        build.clean(d)


def finish(mod, tier, t0, reps, extra=None):
    for r in reps:
        if 'error' in r:
            print(r['error'], file=sys.stderr)
            return 2
    states, outcomes, fam, steps, samples, viol, known = set(), set(), {}, 0, {}, [], {}
    stopped = any(r['stopped'] for r in reps)
    for r in reps:
        a = array.array('q'); a.frombytes(r['states']); states.update(a)
        a = array.array('q'); a.frombytes(r['outcomes']); outcomes.update(a)
        for k, (i, j) in r['fam'].items():
            f = fam.setdefault(k, [0, 0]); f[0] += i; f[1] += j
        steps += r['steps']
        for s in r['samples']:
            samples.setdefault(s[0], s)
        viol += r['viol']
        known.update(dict(r['known']))
    viol.sort(key=lambda v: (len(json.dumps(v['item'])), json.dumps(v['item'])))
    execs = sum(f[1] for f in fam.values())
    cov = {'states': len(states), 'transitions': steps, 'traces_validated_against_impl': execs,
           'elements': sum(f[0] for f in fam.values()), 'distinct_outcomes': len(outcomes),
           'families': {k: {'elements': f[0], 'executions': f[1], 'bound': mod.BOUNDS.get(k, '')} for k, f in fam.items()},
           'samples': [{'family': s[0], 'item': s[1], 'files': s[2]['files'], 'args': s[2]['args'], 'observed': s[3]} for s in list(samples.values())[:40]],
           'exhaustive': not stopped,
           'enumeration': 'every element of every family listed, within its stated bound; nothing sampled' + ('; STOPPED EARLY after violations' if stopped else ''),
           'rule': 'states: distinct states of the reference machine (location counter, symbols, output length, scope, statement kind) reached by the programs; transitions: statements executed by it; traces: executions of the real program compared with it'}
    if extra:
        cov.update(extra)
    ev = {'property': mod.ID, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking',
          'coverage': cov, 'assumptions': getattr(mod, 'ASSUMES', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', mod.ID + '.json'), 'w'), indent=1, default=str)
    for k in sorted(known):
        print('KNOWN-FINDING: property=%s %s' % (mod.ID, known[k]))
    print('%s %s: %d families, %d elements, %d executions, %d states, %d transitions, %d outcomes, %.1f s%s' % (
        mod.ID, tier, len(fam), cov['elements'], execs, len(states), steps, len(outcomes), time.time() - t0, ' (stopped early)' if stopped else ''))
    if os.environ.get('MC_DUMP'):
        json.dump(viol, open(os.environ['MC_DUMP'], 'w'), indent=1)
    for v in viol[:5]:
        report_violation(mod.ID, tier, v)
    return 1 if viol else 0
