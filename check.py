#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--entry NAME] [--keep]: decides one property."""
import argparse, glob, json, os, queue, shutil, subprocess, sys, tempfile, threading, time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import build
import bounds
from props import PROPS

VERIF = build.VERIF
ap = argparse.ArgumentParser()
ap.add_argument('id')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
ap.add_argument('--entry')
ap.add_argument('--budget', type=float)
ap.add_argument('--ll', help='use this IR and native binary instead of building (development only)')
ap.add_argument('-v', action='store_true')
A = ap.parse_args()
PID, TIER = A.id, A.tier
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
BUDGET = A.budget or (780 if TIER == 'quick' else 6 * 3600)
T0 = time.time()
NCPU = min(8, os.cpu_count() or 8)
ents = [e for e in PROPS[PID] if (e['quick'] or TIER == 'thorough') and (not A.entry or e['name'] in A.entry.split(','))]
known_file = os.path.join(VERIF, 'known_findings.txt')
KNOWN = {}
if os.path.exists(known_file):
    for l in open(known_file):
        l = l.strip()
        # known: property=<id> code=<n> <what fails>
        if l.startswith('known:'):
            w = l.split(None, 3)
            if w[1] == 'property=' + PID:
                KNOWN[int(w[2].split('=')[1])] = w[3]

os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
os.makedirs(build.TGT, exist_ok=True)
EVID = os.path.join(VERIF, 'evidence', PID + '.json')
for f in glob.glob(os.path.join(VERIF, 'evidence', PID + '*.json')) + glob.glob(os.path.join(VERIF, 'evidence', PID + '.replay*')):
    if os.path.basename(f).split('.')[0] == PID:
        os.remove(f)
work = tempfile.mkdtemp(prefix='w.', dir=build.TGT)


def fail(msg):
    print('ERROR property=%s %s' % (PID, msg))
    finish(2)


def finish(rc):
    shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def replay_text(v, entry):
    l = ['# entry %s' % entry, '# run: check.py replays it with the native build of the harness', 'tier %d' % (TIER == 'thorough')]
    l += ['sym %d %d' % (i, x) for i, x in v['vars']]
    l += ['choice %d %d' % (i, x) for i, x in v['choices']]
    return '\n'.join(l) + '\n'


def native(nat, entry, text, timeout=60):
    p = os.path.join(work, 'r.%d.%d' % (os.getpid(), threading.get_ident()))
    with open(p, 'w') as f:
        f.write(text)
    e = {'PATH': '/usr/bin:/bin', 'LANG': 'C.UTF-8', 'SX_BIN': os.path.join(work, 'bin')}
    try:
        r = subprocess.run([nat, entry, p], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           cwd=work, stdin=subprocess.DEVNULL)
        return r.returncode, r.stdout.decode('utf-8', 'replace').splitlines()
    except subprocess.TimeoutExpired:
        return 'timeout', []


def reproduces(nat, e, v):
    """replay a counterexample against the real code; returns a description or None"""
    t = replay_text(v, e['name'])
    for _ in range(e['repeat']):
        rc, out = native(nat, e['name'], t)
        if rc == 6 or (isinstance(rc, int) and rc < 0):
            return ' '.join([l for l in out if l.startswith('PANIC')] or ['process died (%s)' % rc])
        if rc == 5:
            return [l for l in out if l.startswith('CHECKFAIL')][0]
        if rc == 'timeout':
            return 'no termination within 60 s'
    return None


try:
    ll = os.path.join(work, 'a.ll')
    if A.ll:
        ll = A.ll
        nat = A.ll + '.nat'
    else:
        nat = build.all([e['name'] for e in ents], ll, feat=sorted({e['feat'] for e in ents if e.get('feat')}))
except build.BuildError as x:
    fail('build: %s' % x)
t_build = time.time() - T0

# ---- run ----
jobs = queue.Queue()
order = []
for e in ents:
    cd = os.path.join(work, 'claim.' + e['name'])
    os.makedirs(cd)
    for k in range(e['workers']):
        jobs.put((e, k, cd))
results, errors, viols, open_ = [], [], [], []
live = set()
mu = threading.Lock()
stop = threading.Event()


def worker():
    while not stop.is_set():
        try:
            e, k, cd = jobs.get_nowait()
        except queue.Empty:
            return
        left = BUDGET - (time.time() - T0)
        if left < 5:
            with mu:
                open_.append((e['name'], 'time budget used up'))
            return
        out = os.path.join(work, '%s.%d.json' % (e['name'], k))
        cmd = [build.SXE, '--ll', ll, '--entry', e['name'], '--out', out, '--claim', cd, '--time', '%d' % left,
               '--tier', '1' if TIER == 'thorough' else '0', '--seed', str(SEED), '--samples', '6', '--max-viol', '3']
        cmd += e.get('args', [])
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
        with mu:
            live.add(p)
        _, err = p.communicate()
        with mu:
            live.discard(p)
        if stop.is_set():
            return
        if p.returncode != 0:
            with mu:
                ls = (err or '').strip().splitlines()
                k = next((i for i, l in enumerate(ls) if 'SXE-ERROR' in l or 'panicked' in l), max(0, len(ls) - 4))
                errors.append((e['name'], ' | '.join(l.strip()[:200] for l in ls[k:k + 8])[:900] or 'engine exit %s' % p.returncode))
            continue
        r = json.load(open(out))
        r['_e'] = e
        with mu:
            results.append(r)
        if r['timed_out'] or r['undecided']:
            with mu:
                open_.append((e['name'], 'time budget used up' if r['timed_out'] else
                              'the solver gave up on %d queries' % r['undecided']))
        for v in r['violations']:
            v['entry'] = e['name']
            d = reproduces(nat, e, v)
            with mu:
                viols.append((e, v, d))
            if d:
                stop.set()
                with mu:
                    for q in list(live):
                        q.kill()
                return


ts = [threading.Thread(target=worker) for _ in range(NCPU)]
for t in ts:
    t.start()
for t in ts:
    t.join()

# ---- known findings ----
known_seen = {}
for r in results:
    for v in r['known']:
        known_seen.setdefault(v['code'], (r['_e'], v))
# ---- replay sample paths against the real code ----
validated = mism = 0
samples = []
if not [1 for x in viols if x[2]]:
    seen = set()
    todo = []
    per = {}
    for r in results:
        for s in r['samples']:
            k = (r['entry'], json.dumps(s['choices']), json.dumps(s['vars']))
            if k in seen or per.get(r['entry'], 0) >= (16 if TIER == 'quick' else 64):
                continue
            seen.add(k)
            per[r['entry']] = per.get(r['entry'], 0) + 1
            todo.append((r['_e'], s))

    def val(x):
        e, s = x
        rc, out = native(nat, e['name'], replay_text(s, e['name']))
        got = [l[5:] for l in out if l.startswith('NOTE ')]
        ok = rc == 0 and (got == s['notes'] or e.get('nonotes'))
        return ok, e, s, rc, out

    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(NCPU) as ex:
        for ok, e, s, rc, out in ex.map(val, todo):
            if ok:
                validated += 1
                if len(samples) < 12 and sum(x['entry'] == e['name'] for x in samples) < 3:
                    samples.append({'entry': e['name'], 'vars': s['vars'][:12], 'choices': s['choices'][:12],
                                    'result': [bytes.fromhex(n).decode('utf-8', 'replace')[:80] for n in s['notes'][:3]]})
            else:
                mism += 1
                errors.append((e['name'], 'sample path does not replay natively: %s rc=%s got=%r want=%r' % (
                    replay_text(s, ''), rc, out[-3:], s['notes'][:3])))


def tot(k):
    return sum(r[k] for r in results)


fn = set()
for r in results:
    fn.update(r['own_functions'])
checks = {}
for r in results:
    for k, n in r['checks'].items():
        checks[r['entry'] + ':' + k] = checks.get(r['entry'] + ':' + k, 0) + n
done = {}
for r in results:
    d = done.setdefault(r['entry'], dict(paths=0, units=0, queries=0, z3_ms=0.0, wall_s=0.0))
    d['paths'] += r['paths']
    d['units'] += r['units']
    d['queries'] += r['z3_queries']
    d['z3_ms'] = round(d['z3_ms'] + r['z3_ms'], 1)
    d['wall_s'] = round(max(d['wall_s'], r['wall_s']), 1)
confirmed = [x for x in viols if x[2]]
# a check that was never reached would be vacuous
if not confirmed and not errors:
    for e in ents:
        if e['name'] not in [o[0] for o in open_] and not any(r['entry'] == e['name'] and (sum(r['checks'].values()) or r['known']) for r in results):
            errors.append((e['name'], 'no check reached (vacuous)'))
    for c in known_seen:
        if c not in KNOWN:
            errors.append((known_seen[c][0]['name'], 'finding %d is not in known_findings.txt' % c))
ev = {
    'property': PID, 'tier': TIER, 'seed': SEED, 'level': 'model_checking',
    'coverage': {
        'states': tot('paths') if results else 0,
        'transitions': tot('insts') if results else 0,
        'traces_validated_against_impl': validated,
        'samples': samples,
        'state_meaning': 'symbolic end states (each stands for all inputs of its path condition); transitions are IR instructions executed symbolically',
        'bounds': [bounds.B.get(e['name'], '') for e in ents],
        'entries': done,
        'functions_encoded': sorted(fn)[:250],
        'functions_total': max([r['functions'] for r in results] or [0]),
        'forks': tot('forks'), 'merges': tot('merges'), 'paths_assumed_away': tot('assumed_out'),
        'checks_reached': checks,
        'checks_proved_by_solver': tot('checks_proved'), 'checks_constant_after_folding': tot('checks_constant'),
        'solver_queries': tot('z3_queries'), 'solver_sat': tot('z3_sat'), 'solver_unsat': tot('z3_unsat'),
        'solver_s': round(tot('z3_ms') / 1000.0, 2),
        'domain_decisions': tot('domain_sat') + tot('domain_unsat'), 'model_reuse': tot('model_hits'),
        'units_with_input_coverage_proved': tot('covered_units'),
        'solver': 'z3 ' + (results[0]['z3'] if results else ''),
        'build_s': round(t_build, 1),
        'complete': not open_,
        'left_open': sorted(set('%s: %s' % o for o in open_)),
    },
    'assumptions': bounds.assumptions(PID),
    'wall_s': round(time.time() - T0, 1),
    'violations': len(confirmed),
}
with open(EVID, 'w') as f:
    json.dump(ev, f, indent=1, ensure_ascii=False)
    f.write('\n')
if A.v:
    for k, d in done.items():
        print(k, d)
    print('build %.1fs wall %.1fs states %d queries %d solver %.1fs validated %d' % (
        t_build, time.time() - T0, tot('paths'), tot('z3_queries'), tot('z3_ms') / 1000, validated))
for c, (e, v) in known_seen.items():
    if c in KNOWN and not confirmed:
        print('KNOWN-FINDING: property=%s %s' % (PID, KNOWN[c]))
if confirmed:
    e, v, d = confirmed[0]
    p = os.path.join(VERIF, 'evidence', '%s.replay.txt' % PID)
    with open(p, 'w') as f:
        f.write(replay_text(v, e['name']) + '# %s: %s %s\n# %s\n' % (d, v['kind'], v['msg'], v['stack'][:8]))
    if A.v:
        print(open(p).read())
    print('  %s: %s (%s)' % (e['name'], d, v['msg']))
    print('VIOLATION property=%s replay=%s' % (PID, p))
    finish(1)
unconf = [x for x in viols if not x[2]]
if unconf:
    e, v, d = unconf[0]
    fail('a counterexample did not reproduce natively: %s %s %s' % (e['name'], v['msg'], replay_text(v, e['name'])))
if errors:
    fail('%s: %s' % errors[0])
whole = [e['name'] for e in ents if e['name'] not in [o[0] for o in open_]]
if not results or not whole:
    fail('no entry was explored within the limits: %s' % (open_[:1],))
for n, w in sorted(set(open_)):
    # part of this entry's inputs are undecided; the verdict is about the rest
    print('INCOMPLETE property=%s %s: %s' % (PID, n, w))
print('OK property=%s states=%d queries=%d solver=%.1fs validated=%d wall=%.1fs' % (
    PID, tot('paths'), tot('z3_queries'), tot('z3_ms') / 1000, validated, time.time() - T0))
finish(0)
