"""Random experiment histories, refined against the reference model."""
from .. import build as B, chaos, gen as G, model as M
from ..kernel import Trivial, Violation

LEVEL = 'exploration'
RUNS = {'quick': 1600, 'thorough': 40000}
FAULTS = ['rejected_call', 'user_function_raises', 'interrupt', 'allocation_failure', 'rejected_lookup', 'display_failure', 'output_write_error']
PROBES = ['measured', 'many_branches', 'overflow_pair', 'two_digit_names', 'coarse_threshold', 'second_channel_zero', 'fed_forward', 'wide', 'operator_list']
RULE = ('A seeded generator draws a circuit configuration, an initial ensemble and a history of 1-14 steps from all step kinds, plus (half of the '
        'runs) environment faults between building and evaluating; the evaluated ensemble is compared with the exact reference model.')
STATE_MEASURE = 'distinct (configuration, multiset of step kinds, number of branches) reached'
ASSUMPTIONS = ['tolerance 2e-4 on probabilities and 5e-4 on density entries (library computes in single precision)',
               'operator gates only where the photons fit the limit; operator lists hold one Hamiltonian (see known finding)']


def gen(rng, tier):
    mode = rng.wpick([('hamlist', 0.2), ('mixed', 7), ('coarse', 2), ('wide', 1), ('long', 1), ('many', 0.6)])
    if mode == 'hamlist':
        # several Hamiltonians in one operator gate: documented to be applied in list order
        cfg = G.config(rng, sizes=[((3, 2), 1), ((4, 2), 1), ((3, 3), 1)])
        st = G.states(rng, cfg, 1, 2, cap=1, max_comps=2)
        a, b = G.two(rng, list(range(cfg['n'])))
        spec = [['bs', round(rng.uniform(0.4, 1.0), 3)], ['bsi', round(rng.uniform(0.4, 1.0), 3)], ['bs', round(rng.uniform(0.4, 1.0), 3)]][:rng.randint(2, 3)]
        if rng.chance(0.5):
            spec = [spec[0], ['kerr', round(rng.uniform(0.2, 0.45), 3)], ['numc', round(rng.uniform(0.2, 1.4), 3)]][:rng.randint(2, 3)]
            rng.shuffle(spec)
        ops = [['swap', a, b]] if rng.chance(0.5) else []
        return {'cfg': cfg, 'states': st, 'ops': ops + [['ham', [a, b]] + spec], 'chaos': [], 'mode': mode}
    if mode == 'wide':
        L, n = rng.pick([(6, 2), (3, 4), (2, 6), (4, 3)])
        cfg = G.config(rng, sizes=[((L, n), 1)], c=n)
        bs = M.basis(L, n)
        rng.shuffle(bs)
        bs = bs[:rng.randint(27, min(60, len(bs)))]
        am = G.amps(rng, len(bs))
        st = [{'id': 'w', 'init': 'wide', 'p': 1.0, 'vec': [[list(t), [a.real, a.imag]] for t, a in zip(bs, am)], 'cl': [0] * n}]
        chs = list(range(n))
        rng.shuffle(chs)
        ops = [['meas', chs, list(range(n))]]
        if rng.chance(0.5):
            ops.insert(0, ['swap', chs[0], chs[1]])
        return {'cfg': cfg, 'states': st, 'ops': ops, 'chaos': chaos.gen(rng, cfg, len(ops) + 1), 'mode': mode}
    if mode == 'many':
        cfg = G.config(rng, sizes=[((2, 2), 1), ((2, 3), 1), ((3, 2), 1)])
        st = G.states(rng, cfg, 38, 60, max_comps=2)
        br = B_branches(st)
        ops, _ = G.ops(rng, cfg, br, rng.randint(1, 4), kinds=[k for k in G.ALL if k not in ('perm',)], max_branches=70)
        return {'cfg': cfg, 'states': st, 'ops': ops, 'chaos': chaos.gen(rng, cfg, len(ops) + 1, 0.3), 'mode': mode}
    if mode == 'coarse':
        cfg = G.config(rng, sizes=G.SMALL, thr=None)
        st = G.states(rng, cfg, 1, 3, max_comps=2)
        br = B_branches(st)
        ops, _ = G.ops(rng, cfg, br, rng.randint(1, 6),
                       kinds=['mix', 'hwp225', 'hwp45', 'qwp45', 'qwp225', 'swap', 'ps', 'pbs', 'npbs', 'shift', 'shiftd', 'cshift', 'cshiftd', 'perm', 'meas', 'setc', 'cfun', 'cps',
                              'mixg', 'kerr'])
        return {'cfg': cfg, 'states': st, 'ops': ops, 'chaos': chaos.gen(rng, cfg, len(ops) + 1, 0.3), 'mode': mode}
    cfg = G.config(rng, c_max=5)
    st = G.states(rng, cfg, 1, 4)
    br = B_branches(st)
    kinds = G.ALL + ['couple']
    ops, _ = G.ops(rng, cfg, br, rng.randint(10, 16) if mode == 'long' else rng.randint(1, 8), kinds=kinds)
    return {'cfg': cfg, 'states': st, 'ops': ops, 'chaos': chaos.gen(rng, cfg, len(ops) + 1), 'mode': mode}


def B_branches(st):
    return [M.branch(s['init'], s.get('p', 1.0), {tuple(v): complex(*a) for v, a in s['vec']}, s['cl']) for s in st]


def run(s, ctx):
    cfg, ops = s['cfg'], s['ops']
    low = [1.0]

    def track(p):
        if p > 1e-12:
            low[0] = min(low[0], p)
    ref = M.run(B_branches(s['states']), ops, cfg['L'], cfg['n'], track)
    coarse = cfg['thr'] is None
    if coarse and low[0] < 3e-4:
        # components of the order of the default threshold may legitimately be dropped
        raise Trivial('components near the threshold')
    if not ref:
        raise Trivial('no states')
    circ = B.circuit(cfg)
    coll = None
    for i, op in enumerate(ops):
        chaos.run(s['chaos'], i, ctx, cfg, circ, coll)
        B.add_op(circ, op, cfg)
    coll = B.collection(circ, cfg, s['states'])
    chaos.run(s['chaos'], len(ops), ctx, cfg, circ, coll)
    for rnd in range(2):
        got = B.read(circ.evaluate_circuit(collection_of_states_input=coll), cfg)
        ctx.log('result', rnd, len(got), summary(got))
        d = M.diff(got, ref, phase=True)
        if d and s['mode'] == 'hamlist':
            back = ops[:-1] + [ops[-1][:2] + ops[-1][:1:-1]]
            if M.diff(got, M.run(B_branches(s['states']), back, cfg['L'], cfg['n']), phase=True) is None:
                raise Violation('ham-list-order', 'the Hamiltonians of an operator gate are applied last to first: ' + d)
        if d:
            raise Violation('not-the-physics', d)
        if not s['chaos']:
            break
        chaos.run(s['chaos'], len(ops) + 1, ctx, cfg, circ, coll)
    probes(ctx, s, ref, ops)


def summary(branches):
    out = []
    for (i, c, h), e in sorted(M.aggregate(branches).items(), key=repr):
        out.append((i, c, h, round(e['p'], 3)))
    return out


def probes(ctx, s, ref, ops):
    cfg = s['cfg']
    kinds = [o[0] for o in ops]
    if 'meas' in kinds:
        ctx.probe('measured')
    if len(ref) > 26:
        ctx.probe('many_branches')
    if cfg['L'] > 10:
        ctx.probe('two_digit_names')
    if cfg['thr'] is None:
        ctx.probe('coarse_threshold')
    if s.get('mode') == 'hamlist':
        ctx.probe('operator_list')
    if s.get('mode') == 'wide':
        ctx.probe('wide')
    if any(k in G.CONTROLLED for k in kinds):
        ctx.probe('fed_forward')
    if any(k in G.OPTICAL2 and o[2] == 0 for k, o in zip(kinds, ops)):
        ctx.probe('second_channel_zero')
    if any(t[0] + t[1] >= cfg['L'] for b in ref for t in b['vec']):
        ctx.probe('overflow_pair')
    ctx.state(cfg['L'], cfg['n'], cfg['left'], cfg['full'], sorted(kinds), len(ref))
