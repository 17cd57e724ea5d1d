#!/usr/bin/env python3
"""Decides one property: builds the encoding of /repo's current sources, explores it with the symbolic
executor, replays what the solver found against the real code. See DESIGN.md.
usage: check.py PROPERTY [--tier quick|thorough] [--keep] [--only ENTRY] [--secs N]"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, os.path.join(VERIF, 'bin'))
import props  # noqa: E402

T0 = time.time()
args = sys.argv[1:]
PID = args[0]
tier = os.environ.get('VERIF_TIER', 'quick')
keep = '--keep' in args
if '--tier' in args:
    tier = args[args.index('--tier') + 1]
only = args[args.index('--only') + 1].split(',') if '--only' in args else None
seed = int(os.environ.get('VERIF_SEED', '1') or 1)
P = props.PROPS[PID]
secs = P.get('secs', {}).get(tier, 150 if tier == 'quick' else 600)
if '--secs' in args:
    secs = float(args[args.index('--secs') + 1])
W = tempfile.mkdtemp(prefix='vp_' + PID + '_')
CXX = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
LINK = 'llvm-link-18' if shutil.which('llvm-link-18') else 'llvm-link'
NCPU = os.cpu_count() or 4


def finish(code):
    if keep:
        print('kept', W)
    else:
        shutil.rmtree(W, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


def run(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace',
                          timeout=timeout, **kw)


# ---------------------------------------------------------------- entries
def entries():
    out = []  # (file, entry)
    for f in sorted(glob.glob(os.path.join(VERIF, 'harness', '*.cpp'))):
        for m in re.finditer(r'^ENTRY\((\w+)\)', open(f).read(), re.M):
            e = m.group(1)
            if not e.startswith(PID.lower() + '_'):
                continue
            if e.endswith('_deep') and tier == 'quick':
                continue
            out.append((os.path.basename(f), e))
    return out


ENT = [x for x in entries() if only is None or x[1] in only]
HARN = sorted({f for f, _ in ENT})
KF = [e for _, e in ENT if '_kf_' in e]
MAIN = [e for _, e in ENT if '_kf_' not in e]
if not MAIN:
    print('no entries for', PID)
    finish(2)

# ---------------------------------------------------------------- build
SRC = sorted(glob.glob(os.path.join(REPO, 'src', '**', '*.cpp'), recursive=True))
BCF = ('-std=c++17 -O2 -fno-pic -fno-pie -emit-llvm -c -fno-vectorize -fno-slp-vectorize -fno-finite-loops -D_GLIBCXX_ASSERTIONS '
       '-D_GLIBCXX_EXTERN_TEMPLATE=0 -gline-tables-only -Wno-everything').split()
SAN = '-fsanitize=' + P.get('san', 'address,null')
NAF = '-std=c++17 -O0 -g1 @SAN@ -D_GLIBCXX_ASSERTIONS -Wno-everything -c'.replace('@SAN@', SAN).split()
TD = ['-DTIER=%d' % (1 if tier == 'thorough' else 0)]
os.makedirs(W + '/nat')
r = run([sys.executable, VERIF + '/native/mk_simdjson.py', W + '/nat/simdjson.h'])
if r.returncode:
    print(r.stderr)
    finish(2)
INC_S = ['-I' + VERIF + '/model', '-I' + VERIF + '/shim', '-I' + REPO + '/include', '-I' + VERIF + '/harness']
INC_N = ['-I' + W + '/nat', '-I' + VERIF + '/shim', '-I' + REPO + '/include', '-I' + VERIF + '/harness']
jobs = [('engine', ['bash', VERIF + '/engine/build.sh', W + '/symex'])]
bcs, objs = [], []
for i, s in enumerate(SRC):
    b = '%s/s%d.bc' % (W, i)
    o = '%s/s%d.o' % (W, i)
    bcs.append(b)
    objs.append(o)
    jobs.append(('bc ' + s, [CXX] + BCF + INC_S + [s, '-o', b]))
    jobs.append(('native ' + s, [CXX] + NAF + INC_N + [s, '-o', o]))
for i, h in enumerate(HARN):
    b = '%s/h%d.bc' % (W, i)
    o = '%s/h%d.o' % (W, i)
    bcs.append(b)
    objs.append(o)
    jobs.append(('bc ' + h, [CXX] + BCF + TD + INC_S + [VERIF + '/harness/' + h, '-o', b]))
    jobs.append(('native ' + h, [CXX] + NAF + TD + INC_N + [VERIF + '/harness/' + h, '-o', o]))
bcs.append(W + '/rt.bc')
jobs.append(('bc rt', [CXX] + BCF + ['-fno-builtin', '-I' + VERIF + '/model', VERIF + '/model/rt.cpp', '-o', W + '/rt.bc']))
objs.append(W + '/main.o')
jobs.append(('native main', [CXX] + NAF + [VERIF + '/native/native_main.cpp', '-o', W + '/main.o']))
jobs.sort(key=lambda j: 0 if j[0] == 'engine' else 1 if j[0].startswith('bc') else 2)


def do_job(j):
    r = run(j[1])
    return j[0], r.returncode, r.stderr


fail = []
ex = cf.ThreadPoolExecutor(NCPU + 2)
first = [j for j in jobs if not j[0].startswith('native')]
second = [j for j in jobs if j[0].startswith('native')]
fut_n = None
for name, rc, err in ex.map(do_job, first):
    if rc:
        fail.append((name, err))
if fail:
    for n, e in fail:
        print('BUILD FAILED:', n, '\n', e[-3000:])
    finish(2)
fut_n = [ex.submit(do_job, j) for j in second]
r = run([LINK] + bcs + ['-o', W + '/all.bc'])
if r.returncode:
    print('LINK FAILED', r.stderr[-3000:])
    finish(2)
for f in fut_n:
    name, rc, err = f.result()
    if rc:
        fail.append((name, err))
if not fail:
    r = run([CXX, SAN, '-rdynamic'] + objs +
            ['-o', W + '/native', '-lsimdjson', '-licui18n', '-licuuc', '-licudata', '-ldl', '-lpthread'])
    if r.returncode:
        fail.append(('native link', r.stderr))
if fail:
    for n, e in fail:
        print('BUILD FAILED:', n, '\n', e[-3000:])
    finish(2)
build_s = time.time() - T0

# ---------------------------------------------------------------- explore
# A bounded number of entries share one run so that no entry starves the others.
os.makedirs(W + '/out')
pr = run([W + '/symex', W + '/all.bc', W + '/out', str(secs), str(NCPU), '-prefix=' + REPO + '/'] +
         P.get('flags', []) + MAIN + KF, timeout=secs + 240)
if not os.path.exists(W + '/out/stats.json'):
    print('ENGINE FAILED', pr.returncode, pr.stdout[-2000:], pr.stderr[-2000:])
    finish(2)
stats = json.load(open(W + '/out/stats.json'))
recs = []
rp = W + '/out/records.jsonl'
if os.path.exists(rp):
    for l in open(rp):
        try:
            recs.append(json.loads(l))
        except ValueError:
            pass

# ---------------------------------------------------------------- replay against the real code


def obs_hash(obs):
    h = 1469598103934665603
    for v in obs[:4000]:
        h = ((h ^ v) * 1099511628211) & 0xffffffffffffffff
    return h


TMO = 10
# The thread sanitizer does not see ICU's own synchronization: what it says there counts only for what the executor found
open(W + '/tsan.supp', 'w').write(''.join('%s:%s\n' % (k, l) for k in ('called_from_lib', 'race') for l in ('libicuuc', 'libicui18n')))
ENV_FOUND = dict(os.environ)
ENV_SAMPLED = dict(os.environ, TSAN_OPTIONS='suppressions=%s/tsan.supp' % W)
_seq = [0]


def native(rs, found=False):
    """rs: list of records -> list of result strings"""
    if not rs:
        return []
    n = min(NCPU, max(1, len(rs) // 4))
    chunks = [rs[i::n] for i in range(n)]

    def one(a):
        k, ch = a
        fn = '%s/cases_%d_%d.txt' % (W, _seq[0], k)
        with open(fn, 'w') as f:
            for i, r in enumerate(ch):
                f.write('case %d %s %s\n' % (i, r['entry'], ' '.join(str(v) for _, v in r['inputs'])))
        p = run([W + '/native', fn, str(TMO)], timeout=60 + TMO * len(ch), env=ENV_FOUND if found else ENV_SAMPLED)
        res = {}
        for l in p.stdout.splitlines():
            a = l.split(' ', 1)
            if len(a) == 2 and a[0].isdigit():
                res[int(a[0])] = a[1]
        return [res.get(i, 'lost') for i in range(len(ch))]
    _seq[0] += 1
    outs = list(cf.ThreadPoolExecutor(n).map(one, enumerate(chunks)))
    res = [None] * len(rs)
    for k in range(n):
        for i, o in enumerate(outs[k]):
            res[k + i * n] = o
    return res


def bad(s):
    return s.startswith('viol') or s.startswith('crash')


def confirm(r):
    """a crash or hang must show up twice"""
    return bad(native([r])[0])


viol = [r for r in recs if r['kind'] == 'violation']
inc = [r for r in recs if r['kind'] == 'incomplete']
paths = [r for r in recs if r['kind'] == 'path']
# at most 12 per entry and message
cnt = {}
vsel = []
for r in viol:
    k = (r['entry'], r['msg'][:60])
    cnt[k] = cnt.get(k, 0) + 1
    if cnt[k] <= 6:
        vsel.append(r)
vres = native(vsel, True)
isel = inc[:200]
ires = native(isel)
psel = paths[:1200]
pres = native(psel)
confirmed, spurious, mismatches, validated = [], [], [], 0
for r, s in list(zip(vsel, vres)) + list(zip(isel, ires)):
    if bad(s):
        confirmed.append((r, s))
    elif r['kind'] == 'violation':
        spurious.append((r, s))
for r, s in zip(psel, pres):
    if bad(s):
        confirmed.append((r, s))
    elif s.startswith('ok'):
        h = int(s.split()[1])
        if h == obs_hash(r['obs']):
            validated += 1
        else:
            mismatches.append((r, s))
    else:
        mismatches.append((r, s))
kf_conf = [(r, s) for r, s in confirmed if r['entry'] in KF]
confirmed = [(r, s) for r, s in confirmed if r['entry'] not in KF]
spurious = [(r, s) for r, s in spurious if r['entry'] not in KF]

# ---------------------------------------------------------------- report
EN = stats['entries']


def tot(k):
    return sum(e.get(k, 0) for e in EN.values())


def sample(r):
    return {'entry': r['entry'], 'inputs': r['inputs'][:60], 'observations': r['obs'][:30]}


unknown_reasons = {}
for r in inc:
    unknown_reasons[r['msg'][:100]] = unknown_reasons.get(r['msg'][:100], 0) + 1
vacuous = [e for e in MAIN if EN[e]['completed'] == 0 and EN[e]['violations'] == 0]
exhaustive = (tot('incomplete') == 0 and tot('aborted') == 0 and tot('unknown') == 0 and stats['crashed'] == 0 and
              not spurious and not mismatches)
funcs = {k: v for k, v in stats.get('functions', {}).items()}
reach = {e: EN[e]['reach'] for e in EN}
ev = {
    'property': PID, 'tier': tier, 'seed': seed, 'level': 'model_checking',
    'coverage': {
        'explanation': 'symbolic execution of the LLVM IR of the current sources; every path decision and every '
                       'assertion is decided by Z3 over all values within the bounds. states = complete symbolic '
                       'paths (each stands for all inputs meeting its path condition), transitions = branch decisions '
                       'on symbolic values; traces_validated_against_impl = paths whose solver model was run '
                       'through the natively compiled code and gave the same observations.',
        'states': tot('paths'), 'transitions': tot('branches'),
        'paths_completed': tot('completed'), 'paths_outside_assumptions': tot('assumed_out'),
        'traces_validated_against_impl': validated,
        'model_mismatches': [{'record': sample(r), 'native': s} for r, s in mismatches[:5]],
        'model_mismatch_count': len(mismatches),
        'queries': tot('queries'), 'queries_sat': tot('sat'), 'queries_unsat': tot('unsat'),
        'queries_unknown': tot('unknown'), 'query_cache_hits': tot('cachehits'),
        'assertions_checked': tot('asserts'), 'assertion_queries': tot('assert_queries'),
        'solver_s': round(tot('solver_s'), 2), 'instructions': tot('steps'),
        'incomplete_paths': tot('incomplete'), 'incomplete_reasons': unknown_reasons,
        'paths_cut_by_time': tot('aborted'), 'engine_crashes': stats['crashed'],
        'exhaustive': exhaustive,
        'bounds': P['bounds'][tier] if isinstance(P['bounds'], dict) else P['bounds'],
        'entries': {e: {k: EN[e][k] for k in ('paths', 'completed', 'assumed_out', 'violations', 'incomplete', 'aborted', 'queries', 'solver_s')} for e in EN},
        'reached': reach,
        'functions_encoded': {k: {'blocks_reached': v[0], 'blocks': v[1]} for k, v in sorted(funcs.items())},
        'unconfirmed_counterexamples': [{'record': sample(r), 'msg': r['msg'], 'where': r['where'], 'native': s} for r, s in spurious[:5]],
        'samples': [sample(r) for r in psel[:3]] or [sample(r) for r, _ in confirmed[:1]] or [sample(r) for r in recs[:1]],
        'build_s': round(build_s, 1), 'run_s': stats['run_s'],
    },
    'assumptions': props.COMMON_ASSUMPTIONS + P.get('assumptions', []),
    'wall_s': 0, 'violations': len(confirmed),
}
os.makedirs(VERIF + '/evidence', exist_ok=True)
lines = []
code = 0
if confirmed:
    code = 1
    replay = 'evidence/%s.replay.json' % PID
    with open(os.path.join(VERIF, replay), 'w') as f:
        json.dump([{'entry': r['entry'], 'inputs': r['inputs'], 'message': r['msg'] or s, 'where': r['where'],
                    'native_result': s,
                    'how_to_replay': 'build as check.py does; echo "case 0 %s %s" > f; native f 10' % (
                        r['entry'], ' '.join(str(v) for _, v in r['inputs']))} for r, s in confirmed[:20]], f, indent=1)
    seen = set()
    for r, s in confirmed:
        k = (r['entry'], s[:80])
        if k in seen or len(seen) > 8:
            continue
        seen.add(k)
        print('counterexample %s: %s | %s | %s' % (r['entry'], s[:200], r['where'][:160], [v for _, v in r['inputs']][:40]))
    lines.append('VIOLATION property=%s replay=%s' % (PID, replay))
kf_seen = {}
for r, s in kf_conf:
    kf_seen.setdefault(r['entry'], s)
for l in open(VERIF + '/known_findings.txt'):
    m = re.match(r'known: property=(\w+) entry=(\w+) (.*)', l)
    if m and m.group(1) == PID and m.group(2) in kf_seen:
        lines.append('KNOWN-FINDING: property=%s %s' % (PID, m.group(3)))
        kf_seen.pop(m.group(2))
for e, s in kf_seen.items():  # a reproduction entry that fails but is not listed
    code = 1
    lines.append('VIOLATION property=%s replay=%s' % (PID, 'harness entry ' + e))
if code == 0 and vacuous:
    print('VACUOUS entries (no path completed):', vacuous, unknown_reasons)
    code = 2
ev['wall_s'] = round(time.time() - T0, 2)
with open('%s/evidence/%s.json' % (VERIF, PID), 'w') as f:
    json.dump(ev, f, indent=1)
print('%s %s: entries=%d paths=%d completed=%d queries=%d unsat=%d solver=%.1fs incomplete=%d aborted=%d '
      'validated=%d mismatches=%d spurious=%d exhaustive=%s wall=%.1fs' % (
          PID, tier, len(EN), tot('paths'), tot('completed'), tot('queries'), tot('unsat'), tot('solver_s'),
          tot('incomplete'), tot('aborted'), validated, len(mismatches), len(spurious), exhaustive, ev['wall_s']))
if os.environ.get('VP_DEBUG'):
    for e in EN:
        print('  ', e, {k: v for k, v in EN[e].items() if v})
    for k, v in unknown_reasons.items():
        print('   incomplete:', v, k, [r['where'][:200] for r in inc if r['msg'].startswith(k)][:2])
for r, s in spurious[:5]:
    print('unconfirmed: %s %s %s native=%s %s' % (r['entry'], r['msg'], r['where'][:200], s, [v for _, v in r['inputs']][:50]))
for r, s in mismatches[:5]:
    print('mismatch: %s native=%s engine obs=%s %s' % (r['entry'], s, r['obs'][:40], [v for _, v in r['inputs']][:50]))
for l in lines:
    print(l)
finish(code)
