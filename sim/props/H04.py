"""Ownership: nothing an evaluation is given may change, nothing it returns may be shared."""
from .. import build as B, gen as G, model as M, common as C
from ..kernel import Trivial, Violation

LEVEL = 'exploration'
RUNS = {'quick': 1200, 'thorough': 30000}
FAULTS = ['user_function_raises', 'result_spoilt', 'input_spoilt']
PROBES = ['records_in_input', 'auxiliary_information', 'time_delay', 'pr_gate', 'bridge', 'in_place_user_function', 'shared_list_user_function', 'selection', 'empty_selection',
          'default_input', 'kept_lists_spoilt']
RULE = ('A seeded generator draws a circuit (all step kinds incl. delays, boxes, bridges and user functions that modify what they are given), an input '
        'with earlier records and user information, and a history of evaluations, selections and in-place changes of results and inputs; after every '
        'action the exact content of every other collection and of the circuit is compared with what it was.')
STATE_MEASURE = 'distinct (step kinds, action kinds)'
SHRINK = ('ops', 'states', 'actions', 'ops2')


def gen(rng, tier):
    special = rng.wpick([('plain', 6), ('delay', 1.5), ('quick', 1), ('pr', 1), ('bridge', 2)])
    ops2, cfg2 = [], None
    if special == 'delay':
        cfg = G.config(rng, sizes=[((3, 2), 2), ((3, 3), 1)], thr=1e-10, c=2)
        st = G.states(rng, cfg, 1, 2, cap=1, total=2, max_comps=2)
        ops = [['delayf', [rng.randrange(cfg['n'])], 0.5], ['mix', 0, 1]]
        if rng.chance(0.5):
            ops.insert(1, ['setpw', [0], 1.5])
        if rng.chance(0.7):
            ops.append(['meas', [0, 1], [0, 1]])
    elif special == 'quick':
        cfg = G.config(rng, sizes=[((3, 2), 2), ((3, 3), 1)], thr=1e-10, c=2)
        st = G.states(rng, cfg, 1, 2, cap=1, max_comps=2, total=2)
        ops = [['delay', [0], 0.6], ['mix', 0, 1], ['meas', [0], [1]]]
        if rng.chance(0.5):
            ops[0] = ['cdelay', [0], 0]
    elif special == 'pr':
        cfg = G.config(rng, sizes=[((2, 4), 1)], thr=1e-10, c=4)
        st = G.states(rng, cfg, 1, 2, total=0, max_comps=1)
        ops = [['pr', [[[0, 1, 2, 3], 1.0]]], ['wp', 0, 1, 0.3, 3.14159], ['wp', 2, 3, 0.5, 3.14159]]
        if rng.chance(0.7):
            ops.append(['meas', [0, 1, 2, 3], [0, 1, 2, 3]])
    else:
        cfg, st, ops = C.history(rng, lo=1, hi=6, states_hi=3)
        if special == 'bridge':
            cfg2 = G.config(rng, sizes=[((cfg['L'], 2), 1), ((cfg['L'], 3), 1)])
            cfg2['left'] = cfg['left']
            ops2 = [['mix', 0, 1], ['meas', [0], [0]]]
            if cfg['L'] ** cfg['n'] > 130:
                cfg2, ops2, special = None, [], 'plain'
    for s in st:
        if rng.chance(0.4):
            s['hist'] = [[[round(rng.uniform(0, 2), 1)] * cfg['c'], round(rng.uniform(0.1, 1), 2)] for _ in range(rng.randint(1, 2))]
        if rng.chance(0.4):
            s['aux'] = {'note': ['u', [1, 2, {'k': [3]}]], 'n': 4}
    actions = []
    for _ in range(rng.randint(2, 6)):
        k = rng.wpick([('eval', 4), ('select', 1.5), ('spoil_result', 3), ('spoil_input', 1), ('fail', 1), ('kept', 1), ('default', 0.5), ('add', 0.7), ('empty', 0.4)])
        a = {'kind': k, 'x': rng.randint(0, 10 ** 6)}
        if k == 'select':
            a['nodes'] = [rng.randrange(len(ops)) for _ in range(rng.randint(1, 3))] if ops else []
        actions.append(a)
    return {'cfg': cfg, 'states': st, 'ops': ops, 'actions': actions, 'special': special, 'cfg2': cfg2, 'ops2': ops2}


def prepare(s, hooks=None):
    cfg = s['cfg']
    circ = B.build(cfg, s['ops'], hooks)
    nxt = None
    if s['cfg2'] is not None:
        nxt = B.build(s['cfg2'], s['ops2'])
        circ.bridge(nxt)
    coll = B.collection(circ, cfg, s['states'])
    for st, spec in zip(coll, s['states']):
        if 'hist' in spec:
            st.measurement_results = [{'measurement_results': list(v), 'probability': q} for v, q in spec['hist']]
        if 'aux' in spec:
            st.auxiliary_information = dict(st.auxiliary_information, **C.deepcopy(spec['aux']))
    return circ, coll, nxt


def content(coll):
    """Physical content without identifiers, for comparing two evaluations."""
    out = []
    for st in coll:
        out.append([st.initial_state, C.rnd(st.cumulative_probability, 5),
                    sorted([k, C.rnd(v['amplitude'], 5), C.rnd(v['probability'], 5)] for k, v in st.optical_components.items()),
                    [C.rnd(v, 5) for v in st.classical_channel_values],
                    [[[C.rnd(v, 5) for v in m['measurement_results']], C.rnd(m['probability'], 5)] for m in st.measurement_results]])
    return out


def run(s, ctx):
    cfg = s['cfg']
    if not s['states']:
        raise Trivial('no states')
    hooks = B.Hooks()
    circ, coll, nxt = prepare(s, hooks)
    probes(s, ctx)
    base = B.snapshot(coll)
    cpic = C.circuit_picture(circ)
    npic = C.circuit_picture(nxt) if nxt is not None else None
    results = []                 # [collection, snapshot, spoilt, nodes]
    want = {}

    def keep(res, nodes):
        c = content(res)
        key = str(nodes)
        if key in want:
            d = C.first_difference(want[key], C.jsonable(c))
            if d:
                raise Violation('second-evaluation-differs', 'nodes %s: %s' % (nodes or 'all', d))
        else:
            want[key] = C.jsonable(c)
        if res is coll:
            raise Violation('shared', 'the returned collection is the input collection itself')
        results.append([res, B.snapshot(res), False, nodes])

    state = {'input_spoilt': False}

    def verify(what, except_result=None):
        nonlocal base
        if not state['input_spoilt']:
            d = B.snapdiff(base, B.snapshot(coll))
            if d:
                raise Violation('input-changed', '%s changed the input collection: %s' % (what, d))
        C.same_circuit(cpic, circ, what)
        if npic is not None:
            C.same_circuit(npic, nxt, what + ' (linked circuit)')
        for i, r in enumerate(results):
            if i == except_result or r[2]:
                continue
            d = B.snapdiff(r[1], B.snapshot(r[0]))
            if d:
                raise Violation('result-changed', '%s changed result %d: %s' % (what, i, d))

    for n, a in enumerate([{'kind': 'eval', 'x': 0}] + s['actions']):
        k = a['kind']
        ctx.log('action', n, k)
        what = 'action %d (%s)' % (n, k)
        skip = None
        if k == 'eval' and not state['input_spoilt']:
            keep(C.evaluate(circ, coll), None)
        elif k == 'select' and not state['input_spoilt']:
            keep(C.evaluate(circ, coll, a['nodes']), a['nodes'])
            ctx.probe('selection')
        elif k == 'empty' and not state['input_spoilt']:
            keep(C.evaluate(circ, coll, []), [])
            ctx.probe('empty_selection')
        elif k == 'default':
            if cfg['L'] ** cfg['n'] <= 27 and s['special'] == 'plain':
                r = circ.evaluate_circuit()
                results.append([r, B.snapshot(r), False, 'default'])
                ctx.probe('default_input')
        elif k == 'spoil_result' and results:
            skip = a['x'] % len(results)
            C.spoil(results[skip][0], a['x'])
            results[skip][2] = True
            ctx.fault('result_spoilt')
        elif k == 'add' and results:
            skip = a['x'] % len(results)
            r = results[skip][0]
            if len(r):
                r.add_state(list(r)[0].copy(), identifier='added')
                r.delete_state(identifier=list(r.keys())[0])
            results[skip][2] = True
            ctx.fault('result_spoilt')
        elif k == 'spoil_input' and not state['input_spoilt']:
            C.spoil(coll, a['x'])
            state['input_spoilt'] = True
            ctx.fault('input_spoilt')
        elif k == 'kept':
            for lst in hooks.kept:
                for i in range(len(lst)):
                    lst[i] = -99
            hooks.kept = []
            if any(o[0] == 'cfun' for o in s['ops']):
                ctx.probe('kept_lists_spoilt')
        elif k == 'fail' and not state['input_spoilt']:
            def boom(*a):
                raise RuntimeError('simulated user failure')
            hooks.on_call = boom
            try:
                r = C.evaluate(circ, coll)
                keep(r, None)
            except RuntimeError:
                ctx.fault('user_function_raises')
            hooks.on_call = None
        verify(what, skip)
        if state['input_spoilt']:
            # a fresh, equal input still gives the same results
            c2 = prepare(s)[1]
            r = C.evaluate(circ, c2)
            keep(r, None)
            coll = c2
            base = B.snapshot(coll)
            state['input_spoilt'] = False
    keep(C.evaluate(circ, coll), None)
    verify('the last evaluation')
    ctx.log('end', len(results), [len(r[0]) for r in results])
    ctx.state(s['special'], sorted({o[0] for o in s['ops']}), sorted({a['kind'] for a in s['actions']}))


def probes(s, ctx):
    if any('hist' in x for x in s['states']):
        ctx.probe('records_in_input')
    if any('aux' in x for x in s['states']):
        ctx.probe('auxiliary_information')
    if s['special'] in ('delay', 'quick'):
        ctx.probe('time_delay')
    if s['special'] == 'pr':
        ctx.probe('pr_gate')
    if s['special'] == 'bridge':
        ctx.probe('bridge')
    for o in s['ops']:
        if o[0] == 'cfun' and o[4] == 'inplace':
            ctx.probe('in_place_user_function')
        if o[0] == 'cfun' and o[4] == 'shared':
            ctx.probe('shared_list_user_function')
