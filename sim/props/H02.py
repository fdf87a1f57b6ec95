"""Probability bookkeeping observed after every single step of a history, incl. the default threshold and time delays."""
from .. import build as B, chaos, gen as G, model as M, common as C
from ..kernel import Trivial, Violation

LEVEL = 'exploration'
RUNS = {'quick': 1500, 'thorough': 40000}
FAULTS = ['rejected_call', 'user_function_raises', 'interrupt', 'allocation_failure', 'rejected_lookup', 'display_failure', 'output_write_error']
PROBES = ['default_threshold', 'tight_threshold', 'time_delay', 'measured', 'mixture', 'steps_checked', 'merged_label', 'photon_resolved_histogram']
RULE = ('A seeded generator draws circuits, ensembles and histories of 1-14 physical steps (also with the default drop threshold and with time '
        'delays); the history is executed one node at a time and the probability invariants are checked after every step.')
STATE_MEASURE = 'distinct (configuration, step kind, branch-count bucket) at which the invariants were checked'
ASSUMPTIONS = ['single-precision tolerance 1e-4 per quantity plus, per step, what the configured drop threshold allows to be lost']


def gen(rng, tier):
    mode = rng.wpick([('tight', 5), ('default', 4), ('delay', 1.5)])
    if mode == 'delay':
        cfg = G.config(rng, sizes=[((3, 2), 3), ((3, 3), 1), ((2, 3), 1)], thr=1e-10, c=2)
        st = G.states(rng, cfg, 1, 2, max_comps=2, cap=1, total=cfg['L'] - 1)
        ops = []
        for _ in range(rng.randint(1, 5)):
            ops.append(rng.wpick([(['delayf', sorted(rng.sample(range(cfg['n']), rng.randint(1, cfg['n'] - 1))), round(rng.uniform(-2, 2), 2)], 3),
                                  (G.one_op(rng, cfg, 'mix', C.branches(st), range(cfg['n']), [0]), 2),
                                  (['ps', rng.randrange(cfg['n']), rng.angle()], 1)]))
        if not any(o[0] == 'delayf' for o in ops):
            ops.insert(0, ['delayf', [0], 0.7])
        ops.append(['meas', list(range(cfg['n']))[:2], [0, 1]])
        return {'cfg': cfg, 'states': st, 'ops': ops, 'chaos': [], 'mode': mode}
    cfg = G.config(rng, thr=1e-10 if mode == 'tight' else None, c_max=4)
    st = G.states(rng, cfg, 1, 4)
    ops, _ = G.ops(rng, cfg, C.branches(st), rng.randint(1, 10), kinds=[k for k in G.ALL if k != 'grelabel'])
    return {'cfg': cfg, 'states': st, 'ops': ops, 'chaos': chaos.gen(rng, cfg, len(ops), 0.4), 'mode': mode}


def check(brs, start, where, tol, ctx, raw):
    sums = {}
    for b in brs:
        sums[b['init']] = sums.get(b['init'], 0.0) + b['p']
        if not -1e-4 <= b['p'] <= 1 + tol:
            raise Violation('probability-range', '%s: a branch of %r has probability %.6f' % (where, b['init'], b['p']))
        n = M.norm2(b['vec'])
        if not abs(n - 1) <= tol:
            raise Violation('norm', '%s: a branch of %r (probability %.4g) has norm %.6f' % (where, b['init'], b['p'], n))
        for _, q in b['hist']:
            if not -1e-4 <= q <= 1 + tol:
                raise Violation('recorded-probability', '%s: recorded probability %.6f' % (where, q))
    for k in set(sums) | set(start):
        if not abs(sums.get(k, 0) - start.get(k, 0)) <= tol:
            raise Violation('not-conserved', '%s: probabilities of the branches of %r add up to %.6f, it started with %.6f'
                            % (where, k, sums.get(k, 0), start.get(k, 0)))
    for st in raw:
        for name, ap in st.optical_components.items():
            a = abs(B.num(ap['amplitude'], 'amplitude')) ** 2
            p = B.num(ap['probability'], 'component probability').real
            if not abs(a - p) <= 1e-4:
                raise Violation('component-probability', '%s: component %s has amplitude^2 %.6f but probability %.6f' % (where, name, a, p))


def run(s, ctx):
    cfg, ops = s['cfg'], s['ops']
    if not s['states']:
        raise Trivial('no states')
    circ = B.build(cfg, ops)
    coll = B.collection(circ, cfg, s['states'])
    start = {}
    for st in s['states']:
        start[st['init']] = start.get(st['init'], 0.0) + st['p']
    if s['mode'] == 'delay':
        return run_delay(s, ctx, circ, coll, start)
    thr = cfg['thr'] if cfg['thr'] is not None else 1e-4
    ctx.probe('default_threshold' if cfg['thr'] is None else 'tight_threshold')
    if any(sum(x['init'] == y['init'] for y in s['states']) > 1 for x in s['states']):
        ctx.probe('mixture')
    tol = 1e-4
    original = coll
    for i, op in enumerate(ops):
        chaos.run(s['chaos'], i, ctx, cfg, circ, coll)
        comps = max([len(st.optical_components) for st in coll] or [1])
        coll = C.evaluate(circ, coll, [i])
        got = B.read(coll, cfg)
        comps = max(comps, cfg['L'] ** cfg['n'])
        tol += 2e-5 + thr * comps * (1.0 if op[0] != 'meas' else 0)
        if tol > 0.2:
            break
        check(got, start, 'after step %d (%s)' % (i, op[0]), tol, ctx, list(coll))
        ctx.log('step', i, op[0], len(got), C.summary(got, 2))
        ctx.probe('steps_checked')
        ctx.state(cfg['L'], cfg['n'], cfg['full'], op[0], len(got).bit_length())
        if op[0] == 'meas':
            ctx.probe('measured')
    # and in one go
    got = B.read(C.evaluate(circ, original), cfg)
    if tol <= 0.2:
        check(got, start, 'evaluated in one go', tol, ctx, [])


def run_delay(s, ctx, circ, coll, start):
    cfg, ops = s['cfg'], s['ops']
    ctx.probe('time_delay')
    for i, op in enumerate(ops):
        coll = C.evaluate(circ, coll, [i])
        if op[0] == 'delayf':
            ctx.simtime += abs(op[2])
        resolved = coll.is_photon_resolved()
        if op[0] == 'meas' or not resolved:
            h = coll.plot(histo_output_instead_of_plot=True)
            for k, v in h.items():
                t = sum(float(x['probability']) for x in v)
                if any(float(x['probability']) < -1e-3 for x in v) or not abs(t - start.get(k, 0)) <= 2e-3:
                    raise Violation('not-conserved', 'after step %d (%s): histogram of %r adds up to %.6f, it started with %.6f: %r'
                                    % (i, op[0], k, t, start.get(k, 0), v))
            if set(h) != set(start):
                raise Violation('not-conserved', 'after step %d: initial states %r, started with %r' % (i, sorted(h), sorted(start)))
            ctx.probe('photon_resolved_histogram')
            ctx.log('hist', i, sorted((k, sorted((x['output_state'], round(float(x['probability']), 2)) for x in v)) for k, v in h.items()))
        ctx.state(cfg['L'], cfg['n'], op[0], 'delay')
    ctx.log('end', len(coll))
