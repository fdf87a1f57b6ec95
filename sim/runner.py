"""Coordinator: hands out seeds, collects results, confirms and minimises violations, writes evidence."""
import importlib
import json
import os
import subprocess
import sys
import threading
import time

from . import env, kernel, shrink

CLASSES = 8                      # hash-seed classes; run i belongs to class i % CLASSES
RUN_TIMEOUT = 45
HARD_LIMIT = {'quick': 780, 'thorough': 6 * 3600}
BUDGET = 30_000_000


class HarnessError(Exception):
    pass


class Worker:
    def __init__(self, prop, hashseed):
        self.hashseed = hashseed
        self.p = subprocess.Popen([env.python(), '-B', os.path.join(env.VERIF, 'run.py'), 'worker', prop], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env.child_env(hashseed), cwd=env.VERIF, text=True, bufsize=1)
        line = self.p.stdout.readline()
        msg = json.loads(line) if line.strip() else {'fatal': 'worker did not start'}
        if 'fatal' in msg:
            self.close()
            raise HarnessError(msg['fatal'] + '\n' + msg.get('tb', ''))

    def run(self, task):
        self.p.stdin.write(json.dumps(task) + '\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise HarnessError('worker died')
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
        except Exception:
            pass
        try:
            self.p.wait(5)
        except Exception:
            self.p.kill()


def hashseed_of(cls):
    return cls * 7919 % 4294967295


def task_for(prop, tier, seed, i):
    return {'i': i, 'tier': tier, 'seed': kernel.seed_of(prop, seed, i), 'timeout': RUN_TIMEOUT}


def settle(w, res, task):
    """A run that gave no answer is repeated under a deterministic step budget before anything is said about it."""
    if res['status'] in ('timeout', 'crash'):
        t = dict(task, budget=BUDGET, timeout=180)
        r2 = w.run(t)
        if r2['status'] == 'crash' and res['status'] == 'crash':
            # the interpreter itself died twice on the same input (e.g. stack exhaustion)
            r2 = dict(r2, status='violation', cls='crash', msg='the process died twice: ' + r2['msg'])
        return r2
    return res


def batch(prop, tier, seed, count, workers, limit, want=(), stop_on=12, extra=None):
    """Runs scenarios 0..count-1.  Returns list of results (by index)."""
    results = [None] * count
    classes = list(range(CLASSES))
    lock = threading.Lock()
    errors = []
    t0 = time.monotonic()
    stop = threading.Event()
    bad = [0]
    known = {k['signature'] for k in known_findings() if k.get('property') == prop}

    def serve():
        while True:
            with lock:
                if not classes or stop.is_set():
                    return
                c = classes.pop(0)
            try:
                w = Worker(prop, hashseed_of(c))
            except Exception as e:
                errors.append(str(e))
                stop.set()
                return
            try:
                for i in range(c, count, CLASSES):
                    if stop.is_set():
                        break
                    if time.monotonic() - t0 > limit:
                        errors.append('wall limit of %d s reached' % limit)
                        stop.set()
                        break
                    t = task_for(prop, tier, seed, i)
                    if i in want:
                        t['want_scenario'] = True
                    r = settle(w, w.run(t), t)
                    r['hashseed'] = w.hashseed
                    results[i] = r
                    if r['status'] == 'violation' and r['cls'] not in known:
                        bad[0] += 1
                        if bad[0] >= stop_on:
                            stop.set()
                    elif r['status'] not in ('ok', 'trivial', 'violation'):
                        errors.append('run %d: %s %s' % (i, r['status'], r.get('msg', '')))
                        if len(errors) > 5:
                            stop.set()
            except Exception as e:
                errors.append('coordinator: %r' % (e,))
                stop.set()
            finally:
                w.close()
    ts = [threading.Thread(target=serve) for _ in range(workers)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return results, errors


def known_findings():
    out = []
    path = os.path.join(env.VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: '):
                d = dict(part.split('=', 1) for part in line[len('finding: '):].split(' ', 2)[:2])
                d['text'] = line[len('finding: '):].split(' ', 2)[2]
                out.append(d)
    return out


def report(prop, module, tier, seed, r, workers=8, budget=100):
    """Minimise, confirm in a fresh process, write the replay file."""
    w = Worker(prop, r['hashseed'])
    try:
        best, tries = shrink.minimise(module, w, r, budget)
    finally:
        w.close()
    base = {'i': r['i'], 'tier': tier, 'scenario': best['scenario'], 'timeout': RUN_TIMEOUT}
    w = Worker(prop, r['hashseed'])
    try:
        conf = settle(w, w.run(base), base)
    finally:
        w.close()
    same = conf['status'] == 'violation' and conf['cls'] == best['cls']
    d = os.path.join(env.VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%d-%d.json' % (prop, seed, r['i']))
    doc = {'property': prop, 'verif_seed': seed, 'run': r['i'], 'run_seed': r['scenario'].get('seed'), 'tier': tier, 'hashseed': r['hashseed'],
           'violation': {'class': conf.get('cls', best['cls']), 'message': conf.get('msg', best['msg'])}, 'log': conf.get('log'),
           'scenario': best['scenario'], 'events': conf.get('tail', []), 'traceback': conf.get('tb'), 'minimisation_runs': tries,
           'original_scenario': r['scenario'] if best['scenario'] != r['scenario'] else None,
           'replay_with': 'cd /verif && python3 run.py replay ' + path}
    with open(path, 'w') as f:
        json.dump(doc, f, indent=1)
    return path, same, doc


def check(prop, tier, seed, workers=None, count=None):
    t0 = time.monotonic()
    module = importlib.import_module('sim.props.' + prop)
    workers = workers or int(os.environ.get('VERIF_WORKERS', '0')) or min(8, os.cpu_count() or 4)
    count = count or module.RUNS[tier]
    results, errors = batch(prop, tier, seed, count, workers, HARD_LIMIT[tier], want=(0, 1, 2))
    done = [r for r in results if r]
    viol = [r for r in done if r['status'] == 'violation']
    known = {k['signature']: k for k in known_findings() if k.get('property') == prop}
    found_known = sorted({r['cls'] for r in viol if r['cls'] in known})
    new = [r for r in viol if r['cls'] not in known]
    code = 0
    seen = {}
    for r in new:
        seen.setdefault(r['cls'], r)
    shown = 0
    flaky = []
    if new:
        for cls, r in list(seen.items())[:3]:
            path, same, doc = report(prop, module, tier, seed, r, budget=90 if tier == 'quick' else 300)
            if same:
                print('VIOLATION property=%s replay=%s' % (prop, path))
                print('  %s: %s' % (doc['violation']['class'], doc['violation']['message']))
                shown += 1
            else:
                flaky.append(path)
        code = 1 if shown else 2
    for s in found_known:
        print('KNOWN-FINDING: property=%s %s' % (prop, known[s]['text']))
    if errors and not shown:
        code = 2
    if not done:
        code = 2
    wall = time.monotonic() - t0
    evidence(prop, module, tier, seed, done, viol, wall, workers, count, errors)
    ok = sum(r['status'] == 'ok' for r in done)
    print('%s %s: %d runs (%d non-trivial), %d violating, %.1f s, %d workers' % (prop, tier, len(done), ok, len(viol), wall, workers))
    for e in errors[:5]:
        print('ERROR ' + e)
    for p in flaky:
        print('ERROR violation did not replay: ' + p)
    return code


def evidence(prop, module, tier, seed, done, viol, wall, workers, count, errors):
    faults, probes, states, logs = {}, {}, set(), set()
    for r in done:
        for k, v in r.get('faults', {}).items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r.get('probes', {}).items():
            probes[k] = probes.get(k, 0) + v
        states.update(r.get('states', []))
        if r['status'] in ('ok', 'violation'):
            logs.add(r.get('log'))
    samples = [{'run': r['i'], 'scenario': r['scenario'], 'status': r['status'], 'log': r.get('log')} for r in done if r.get('scenario') and r['i'] < 3][:3]
    trivial = sum(r['status'] == 'trivial' for r in done)
    for k in getattr(module, 'FAULTS', []):
        faults.setdefault(k, 0)
    for k in getattr(module, 'PROBES', []):
        probes.setdefault(k, 0)
    doc = {'property': prop, 'tier': tier, 'seed': seed, 'level': module.LEVEL, 'wall_s': round(wall, 2), 'violations': len(viol),
           'assumptions': list(getattr(module, 'ASSUMPTIONS', [])),
           'coverage': {
               'evaluations': len(done), 'distinct_nontrivial': len(logs),
               'rule': module.RULE + ' Two runs count as distinct when the hashes of their event logs (every step, result summary and fault) differ; '
                       'runs that never reach the checked situation are trivial and not counted.',
               'samples': samples, 'runs_requested': count, 'trivial_runs': trivial,
               'simulated_runs_per_hour': int(len(done) / wall * 3600) if wall > 0 else 0,
               'seeds_per_hour': int(len(done) / wall * 3600) if wall > 0 else 0,
               'faults_fired': dict(sorted(faults.items())), 'probes_hit': dict(sorted(probes.items())),
               'probes_at_zero': sorted(k for k, v in probes.items() if v == 0) + sorted('fault:' + k for k, v in faults.items() if v == 0),
               'distinct_states_or_interleavings': len(states), 'state_measure': module.STATE_MEASURE,
               'events_logged': sum(r.get('events', 0) for r in done),
               'library_line_steps_under_scheduler': sum(r.get('steps', 0) for r in done),
               'simulated_time': {'unit': getattr(module, 'SIMTIME_UNIT', 'pulse widths of accumulated photon delay (the only time the library models)'),
                                  'total': round(sum(r.get('simtime', 0) for r in done), 3)},
               'real_components': getattr(module, 'REAL', 'fock_state_circuit (all modules the scenario reaches, unmodified from /repo/src), numpy'),
               'stub_components': getattr(module, 'STUB', 'randomness (seeded stream), stdout'),
               'workers': workers, 'hash_seed_classes': CLASSES, 'errors': errors[:5]}}
    d = os.path.join(env.VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.tmp' % prop)
    with open(tmp, 'w') as f:
        json.dump(doc, f, indent=1)
    os.replace(tmp, os.path.join(d, prop + '.json'))


def replay(path):
    doc = json.load(open(path))
    prop = doc['property']
    w = Worker(prop, doc['hashseed'])
    t = {'i': doc['run'], 'tier': doc['tier'], 'scenario': doc['scenario'], 'timeout': RUN_TIMEOUT}
    try:
        r = settle(w, w.run(t), t)
    finally:
        w.close()
    if r['status'] == 'violation':
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  %s: %s' % (r['cls'], r['msg']))
        print('  log %s (%s)' % (r['log'], 'identical to the recorded run' if r['log'] == doc.get('log') else 'recorded run: %s' % doc.get('log')))
        return 1
    print('%s: replay ended with %s %s' % (prop, r['status'], r.get('msg', '')))
    return 0 if r['status'] in ('ok', 'trivial') else 2


def selftest(props, n, seed):
    """Determinism: same seeds twice, at two worker counts, in fresh interpreters, under a different PYTHONHASHSEED."""
    bad = 0
    for prop in props:
        module = importlib.import_module('sim.props.' + prop)
        t0 = time.monotonic()
        global hashseed_of
        keep = hashseed_of
        runs = []
        for workers, shift in ((8, 0), (3, 0), (8, 424242)):
            hashseed_of = (lambda c, s=shift: keep(c) + s * (c + 1))
            res, err = batch(prop, 'quick', seed, n, workers, 3600, stop_on=10 ** 9)
            if err:
                print(prop, 'ERROR', err[:3])
                bad += 1
            runs.append([(r or {}).get('log') for r in res])
        hashseed_of = keep
        d = [i for i in range(n) if len({r[i] for r in runs}) != 1]
        bad += bool(d)
        print('%s: %d seeds x 3 executions, %d differing event logs %s (%.1f s)' % (prop, n, len(d), d[:10], time.monotonic() - t0))
        sys.stdout.flush()
    return 1 if bad else 0


def setup():
    """Nothing to compile; one worker is started to show that the working tree can be imported and a run can be forked."""
    w = Worker('H01', 0)
    try:
        r = w.run(task_for('H01', 'quick', 1, 0))
    finally:
        w.close()
    print('setup: %s, run 0 of H01: %s' % (env.python(), r['status']))
    return 0
