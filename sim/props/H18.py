"""The same experiment side by side in several representations; results translated back to photon numbers and compared."""
from .. import build as B, chaos, gen as G, model as M, common as C
from ..kernel import Trivial, Violation

LEVEL = 'exploration'
RUNS = {'quick': 800, 'thorough': 25000}
FAULTS = ['rejected_call', 'user_function_raises', 'interrupt', 'allocation_failure']
PROBES = ['naming_reversed', 'other_matrices', 'larger_limit', 'two_digit_limit', 'idle_optical', 'idle_classical', 'optical_relabelled', 'classical_relabelled', 'renamed',
          'full_record_printed', 'measured', 'fed_forward', 'resolved', 'quick_delay', 'boxes', 'overflowing', 'all_basis_states', 'reduced', 'cleaned_up', 'length_adjusted',
          'extended', 'tabulated', 'user_functions', 'mixture', 'handed_over', 'in_pieces', 'density']
RULE = ('A seeded generator draws an experiment and several representations of it (naming direction, full or reduced matrices, photon limit, idle channels, relabelled '
        'optical and classical channels, state names and identifiers, printing); all are executed in one process with environment faults in between. Results, surgery on '
        'results and tables, translated back to photon numbers per original channel, must agree branch by branch.')
STATE_MEASURE = 'distinct (mode, step kinds, combination of representation changes)'
SHRINK = ('chaos', 'variants', 'ops', 'states')
ASSUMPTIONS = ['a larger photon limit is compared only when all photons fit the smaller one and no step is defined modulo the limit',
               'operator gates keep within reach of their documented Taylor series: photon limit at most 4',
               'single-channel phase shifters, which share the photon limit of two channels by design, only where all photons fit']
MODULAR = ('shift', 'shiftd', 'cshift', 'cshiftd', 'couple', 'perm')
FITKINDS = [k for k in G.ALL if k not in MODULAR]


def gen(rng, tier):
    mode = rng.wpick([('plain', 6), ('overflow', 2), ('default', 1), ('delayf', 2), ('delay', 1), ('pr', 1.5)])
    if mode == 'pr':
        cfg = G.config(rng, sizes=[((2, 4), 1)], thr=1e-10, c=4)
        st = G.states(rng, cfg, 1, 3, total=0, max_comps=1, angles=False)
        for x in st:
            x['cl'] = [min(y, 1) for y in x['cl']]
        ops = [['pr', [[rng.sample(range(4), 4), round(rng.uniform(0.3, 6), 2)]]]]
        pairs = [ops[0][1][0][0][:2], ops[0][1][0][0][2:]]
        for _ in range(rng.randint(1, 4)):
            ops.append([rng.pick(['hwp', 'hwp', 'qwp']), *rng.pick(pairs), rng.angle()])
        ops.append(['meas', rng.sample(range(4), 4), rng.sample(range(4), 4)])
    elif mode in ('delayf', 'delay'):
        cfg = G.config(rng, sizes=[((3, 2), 4), ((3, 3), 2)], thr=1e-10, c=3)
        st = G.states(rng, cfg, 1, 3, cap=1, total=2, max_comps=2, angles=False)
        ops = []
        for _ in range(rng.randint(1, 3) if mode == 'delayf' else 1):
            ops.append([mode, [rng.randrange(cfg['n'])], round(rng.uniform(-2, 2), 2)])
            ops.append(G.one_op(rng, cfg, rng.pick(['mix', 'wp', 'hwp', 'cust', 'swap']), C.branches(st), range(cfg['n']), [0]))
        if rng.chance(0.4):
            ops.append(['setc', [1], [rng.randrange(3)]])
        for x in st:
            x['cl'] = [min(y, cfg['L'] - 1) for y in x['cl']]
        ops.append(['meas', rng.sample(range(cfg['n']), cfg['n']), rng.sample(range(3), cfg['n'])])
    else:
        cfg = G.config(rng, sizes=[((2, 2), 2), ((2, 3), 3), ((2, 4), 2), ((3, 2), 5), ((3, 3), 4), ((4, 2), 4), ((5, 2), 2), ((4, 3), 1), ((11, 2), 1)], thr=1e-10)
        if mode == 'default' and cfg['L'] ** cfg['n'] > 30:
            cfg['L'] = 2
        if mode == 'plain':
            top = cfg['L'] - 1
            st = []
            for x in G.states(rng, cfg, 1, 4):
                vec = [[v, a] for v, a in x['vec'] if sum(v) <= top]
                s = sum(a[0] ** 2 + a[1] ** 2 for _, a in vec) ** 0.5
                if vec and s > 0:
                    st.append(dict(x, vec=[[v, [a[0] / s, a[1] / s]] for v, a in vec]))
            if not st:
                st = [{'id': None, 'init': 'in', 'p': 1.0, 'vec': [[[top] + [0] * (cfg['n'] - 1), [1.0, 0.0]]], 'cl': [0] * cfg['c']}]
        elif mode == 'overflow':
            st = G.states(rng, cfg, 1, 4)
        else:
            st = [{'id': None, 'init': str(i), 'p': 1.0, 'vec': [[list(t), [1.0, 0.0]]], 'cl': [0] * cfg['c']} for i, t in enumerate(M.basis(cfg['L'], cfg['n']))]
        kinds = FITKINDS if mode == 'plain' else [k for k in G.ALL if k not in ('perm', 'ps', 'cps')]
        ops, _ = G.ops(rng, cfg, C.branches(st), rng.randint(1, 9 if mode != 'default' else 4), kinds=kinds, max_branches=40)
    variants = []
    for _ in range(rng.randint(2, 4)):
        v = variant(rng, cfg, mode)
        if any(o[0] in ('ham', 'hamwp', 'chamwp') for o in ops):
            v['L'] = min(v['L'], max(4, cfg['L']))
        variants.append(v)
    post = []
    if mode in ('plain', 'overflow', 'default'):
        for _ in range(rng.randint(0, 2)):
            post.append(rng.wpick([(['reduce', rng.sample(range(cfg['n']), rng.randint(2, cfg['n'])), rng.sample(range(cfg['c']), rng.randint(1, cfg['c']))], 2), (['clean'], 1),
                                   (['length', rng.randint(1, 3)], 1), (['extend'], 1)]))
            if post[-1][0] == 'reduce':
                break                    # the numbers of channels change
    return {'mode': mode, 'cfg': cfg, 'states': st, 'ops': ops, 'variants': variants, 'post': post, 'density': rng.chance(0.3),
            'cut': rng.randint(0, len(ops)) if rng.chance(0.3) else 0, 'chaos': chaos.gen(rng, cfg, len(variants), 0.35, hi=2)}


def variant(rng, cfg, mode):
    n, c, L = cfg['n'], cfg['c'], cfg['L']
    v = {'left': rng.chance(0.5), 'full': rng.chance(0.4), 'L': L, 'opt': list(range(n)), 'n': n, 'cl': list(range(c)), 'c': c, 'prefix': rng.pick(['', 'v ', '00', 'x->']),
         'ids': rng.pick([None, None, 'name', 'num']), 'print': rng.chance(0.2), 'name': rng.pick([None, 'other']), 'hand': rng.chance(0.2)}
    if rng.chance(0.4) and mode != 'default':
        v['n'] = n + rng.randint(1, 2)
    if rng.chance(0.5):
        v['c'] = c + rng.randint(1, 2)
    if rng.chance(0.6):
        v['opt'] = rng.sample(range(v['n']), n)
    if rng.chance(0.6):
        v['cl'] = rng.sample(range(v['c']), c)
    if mode not in ('overflow', 'default') and rng.chance(0.5):
        v['L'] = rng.pick([L + 1, L + 1, L + 2, 11, 12])
    lim = 1500 if mode == 'pr' else 400
    while v['L'] ** v['n'] > lim and (v['n'] > n or v['L'] > L):
        if v['n'] > n:
            v['n'] = n
            v['opt'] = [x for x in v['opt'] if x < n] + [x for x in range(n) if x not in v['opt']]
            v['opt'] = v['opt'][:n]
        else:
            v['L'] = L if v['L'] == L + 1 else L + 1
    if v['L'] ** v['n'] > 150:
        v['full'] = False
    return v


def remap(op, P, K):
    """The same step on relabelled channels."""
    k = op[0]
    o = list(op)
    if k in ('mix', 'mixg', 'swap', 'wp', 'hwp', 'hwp45', 'hwp225', 'qwp', 'qwp45', 'qwp225', 'cust', 'kerr', 'hamwp'):
        o[1], o[2] = P[op[1]], P[op[2]]
    elif k == 'ps':
        o[1] = P[op[1]]
    elif k in ('pbs', 'npbs', 'npbsg'):
        o[1:5] = [P[x] for x in op[1:5]]
    elif k in ('shift', 'shiftd', 'delayf', 'delay', 'ham'):
        o[1] = [P[x] for x in op[1]]
    elif k in ('cshift', 'cshiftd', 'couple'):
        o[1], o[2] = [P[x] for x in op[1]], [P[x] for x in op[2]]
    elif k == 'meas':
        o[1], o[2] = [P[x] for x in op[1]], [K[x] for x in op[2]]
    elif k in ('setc', 'cfun'):
        o[2] = [K[x] for x in op[2]]
    elif k == 'cps':
        o[1], o[2] = P[op[1]], K[op[2]]
    elif k in ('cwp', 'chamwp'):
        o[1:5] = [P[op[1]], P[op[2]], K[op[3]], K[op[4]]]
    elif k == 'gsplit':
        o[1] = K[op[1]]
    elif k == 'pr':
        o[1] = [[[P[x] for x in b[0]], b[1]] for b in op[1]]
    elif k not in ('gident', 'grelabel'):
        raise ValueError(k)
    return o


def back(coll, cfg, v, P, K, what, KH=None):
    """Content in original terms.  KH: the channels of the register that was recorded."""
    KH = K if KH is None else KH
    out = []
    for b in B.read(coll, cfg):
        if v['prefix'] and not b['init'].startswith(v['prefix']):
            raise Violation('label-changed', '%s: state called %r' % (what, b['init']))
        vec = {}
        for t, a in b['vec'].items():
            if any(x for i, x in enumerate(t) if i not in P):
                raise Violation('idle-channel-used', '%s: photons %s in an idle channel' % (what, t))
            vec[tuple(t[i] for i in P)] = a
        for vals, keep in [(b['cl'], K)] + [(h[0], KH) for h in b['hist']]:
            if any(abs(x) > 1e-9 for i, x in enumerate(vals) if i not in keep):
                raise Violation('idle-channel-used', '%s: classical values %s: an idle channel was written' % (what, vals))
        out.append({'init': b['init'][len(v['prefix']):], 'p': b['p'], 'vec': vec, 'cl': [b['cl'][i] for i in K], 'hist': [(tuple(h[0][i] for i in KH), h[1]) for h in b['hist']]})
    return out


def table(coll, cfg, v, K):
    """Histogram in original terms: label -> {outcome values: probability}."""
    out = {}
    h = coll.plot(histo_output_instead_of_plot=True, classical_channels=list(K))
    for lb, rows in h.items():
        d = out.setdefault(lb[len(v['prefix']):], {})
        for r in rows:
            t = M.values_of(r['output_state'], cfg['L'], cfg['left'])
            d[t] = d.get(t, 0.0) + float(r['probability'])
    return out


def mode_overflows(s):
    return s['mode'] in ('overflow', 'default') and any(o[0] in ('ps', 'cps') for o in s['ops'])


def execute(s, v, ctx):
    cfg = dict(s['cfg'], left=v['left'], full=v['full'], L=v['L'], n=v['n'], c=v['c'], name=v['name'])
    P, K = v['opt'], v['cl']
    ops = [remap(o, P, K) for o in s['ops']]
    spec = []
    for i, x in enumerate(s['states']):
        vec = []
        for t, a in x['vec']:
            full = [0] * v['n']
            for c, k in zip(P, t):
                full[c] = k
            vec.append([full, a])
        cl = [0] * v['c']
        for c, k in zip(K, x['cl']):
            cl[c] = k
        spec.append({'id': {None: x['id'], 'name': 'state called %d' % i, 'num': str(i)}[v['ids']], 'init': v['prefix'] + x['init'], 'p': x['p'], 'vec': vec, 'cl': cl})
    what = 'representation %s' % {k: v[k] for k in ('left', 'full', 'L', 'n', 'opt', 'c', 'cl', 'prefix')}
    if v['hand'] and 0 < s['cut'] < len(ops) and s['mode'] not in ('delay', 'pr'):
        other = dict(cfg, left=not cfg['left'], full=not cfg['full'] if cfg['L'] ** cfg['n'] <= 150 else False)
        f = B.lib()
        a, b = B.build(cfg, ops[:s['cut']]), B.build(other, ops[s['cut']:])
        circ = f.CompoundFockStateCircuit([a, b])
        coll = B.collection(a, cfg, spec)
        cfg = other
        ctx.probe('handed_over')
    else:
        circ = B.build(cfg, ops)
        coll = B.collection(circ, cfg, spec)
    if s['mode'] == 'default':
        coll.initialize_to_default()
        for st in coll:
            t = M.values_of(st.initial_state, cfg['L'], v['left'])
            st.initial_state = v['prefix'] + str(sum(t[c] * s['cfg']['L'] ** i for i, c in enumerate(P)))
    if v['print']:
        coll.print_only_last_measurement = False
    if s['cut'] and not v['hand'] and s['mode'] in ('plain', 'overflow', 'delayf') and len(circ.node_list) > 1:
        at = 1 + s['cut'] % (len(circ.node_list) - 1)
        res = C.evaluate(circ, C.evaluate(circ, coll, range(at)), range(at, len(circ.node_list)))
        ctx.probe('in_pieces')
    else:
        res = circ.evaluate_circuit(collection_of_states_input=coll)
    out = {'what': what}
    if s['mode'] in ('plain', 'overflow', 'default'):
        out['branches'] = back(res, cfg, v, P, K, what)
        if s['density'] and cfg['L'] ** cfg['n'] <= 130:
            out['trace'] = {k[len(v['prefix']):]: [float(x['trace']), float(x['trace_dm_squared'])] for k, x in res.density_matrix(decimal_places_for_trace=6).items()}
            ctx.probe('density')
    if mode_overflows(s):
        raise Trivial('phase shifters share the limit of two channels')
    low = min([s['cfg']['L']] + [w['L'] for w in s['variants']])
    if s['mode'] in ('delay', 'delayf', 'pr') or all(abs(x - round(x)) < 1e-9 and 0 <= x < low for b in out['branches'] for x in b['cl']):
        out['table'] = table(res, cfg, v, K)
        ctx.probe('tabulated')
    res2, c2, P2, K2 = res.copy(), dict(cfg), list(P), list(K)
    if v['print'] and len(res2) and any(len(st.measurement_results) > 1 for st in res2):
        ctx.probe('full_record_printed')
        str(res2)
    for i, p in enumerate(s['post']):
        w = '%s, then %s' % (what, p)
        if p[0] == 'reduce':
            if len(set(p[1]) & set(range(len(P2)))) < 2 or not p[2]:
                continue
            keep, kc = [P2[x] for x in p[1]], [K2[x] for x in p[2]]
            res2.reduce(optical_channels_to_keep=keep, classical_channels_to_keep=kc)
            c2.update(n=len(keep), c=len(kc))
            P2, K2 = list(range(len(keep))), list(range(len(kc)))
            ctx.probe('reduced')
        elif p[0] == 'clean':
            res2.clean_up()
            ctx.probe('cleaned_up')
        elif p[0] == 'length':
            if (c2['L'] + p[1]) ** c2['n'] > 1500:
                continue
            res2.adjust_length_of_fock_state(c2['L'] + p[1])
            c2['L'] += p[1]
            ctx.probe('length_adjusted')
        elif p[0] == 'extend':
            if c2['L'] ** (c2['n'] + 1) > 1500:
                continue
            res2.extend(extra_optical_channels=1, extra_classical_channels=1)
            c2['n'] += 1
            c2['c'] += 1
            ctx.probe('extended')
        got = back(res2, c2, v, P2, K2, w, K)
        out['post%d' % i] = got
        if p[0] == 'clean':
            # which of several merged states survives, with its classical values and records, is not prescribed
            out['post%d' % i] = ('clean', got)
            break
    return out


def run(s, ctx):
    if not s['states'] or not s['ops'] or len(s['variants']) < 1:
        raise Trivial('nothing to compare')
    mode = s['mode']
    if mode == 'pr' and (s['ops'][0][0] != 'pr' or s['ops'][-1][0] != 'meas') or mode in ('delay', 'delayf') and s['ops'][-1][0] != 'meas':
        raise Trivial('not measured')
    n, c = s['cfg']['n'], s['cfg']['c']
    base = {'left': s['cfg']['left'], 'full': s['cfg']['full'] if s['cfg']['L'] ** n <= 150 else False, 'L': s['cfg']['L'], 'opt': list(range(n)), 'n': n, 'cl': list(range(c)), 'c': c,
            'prefix': '', 'ids': None, 'print': False, 'name': s['cfg']['name'], 'hand': False}
    first = None
    for i, v in enumerate([base] + s['variants']):
        chaos.run(s['chaos'], i - 1, ctx, s['cfg'], None, None) if i else None
        got = execute(s, v, ctx)
        if first is None:
            first = got
            ctx.log('base', C.summary(got['branches']) if 'branches' in got else sorted((k, sorted((t, round(p, 4)) for t, p in d.items() if p > 1e-5)) for k, d in got['table'].items()))
            continue
        for key in sorted(set(first) & set(got) - {'what'}):
            a, b = got[key], first[key]
            if key == 'table':
                d = tables(a, b)
            elif key == 'trace':
                d = None if C.close(a, b, 2e-4) else 'traces of the density matrices %s and %s' % (a, b)
            elif isinstance(a, tuple):
                d = M.diff(a[1], b[1], use_hist=False, use_cl=False, nameA='here', nameB='original')
            else:
                d = M.diff(a, b, phase=True, nameA='here', nameB='original')
            if d:
                raise Violation('representation-matters', '%s, %s: %s' % (got['what'], key, d))
        ctx.log('same', i)
        diffs = [k for k in ('left', 'full', 'L', 'n', 'opt', 'c', 'cl', 'prefix', 'hand') if v[k] != base[k]]
        ctx.state(mode, sorted({o[0] for o in s['ops']}), diffs)
        for k, pr in (('left', 'naming_reversed'), ('full', 'other_matrices'), ('L', 'larger_limit'), ('n', 'idle_optical'), ('c', 'idle_classical'),
                      ('prefix', 'renamed')):
            if k in diffs:
                ctx.probe(pr)
        if v['opt'] != sorted(v['opt']):
            ctx.probe('optical_relabelled')
        if v['cl'] != sorted(v['cl']):
            ctx.probe('classical_relabelled')
        if v['L'] > 10 >= base['L']:
            ctx.probe('two_digit_limit')
    kinds = {o[0] for o in s['ops']}
    if 'meas' in kinds:
        ctx.probe('measured')
    if kinds & {'cps', 'cwp', 'chamwp'}:
        ctx.probe('fed_forward')
    if kinds & {'cfun', 'gsplit', 'grelabel'}:
        ctx.probe('user_functions')
    if mode in ('delayf', 'delay', 'pr', 'overflow', 'default'):
        ctx.probe({'delayf': 'resolved', 'delay': 'quick_delay', 'pr': 'boxes', 'overflow': 'overflowing', 'default': 'all_basis_states'}[mode])
    if len({x['init'] for x in s['states']}) < len(s['states']):
        ctx.probe('mixture')
    for o in s['ops']:
        if o[0] in ('delayf', 'delay'):
            ctx.simtime += abs(o[2])


def tables(a, b):
    for lb in sorted(set(a) | set(b)):
        if lb not in a or lb not in b:
            return 'label %r only on one side' % lb
        for t in sorted(set(a[lb]) | set(b[lb])):
            x, y = a[lb].get(t, 0.0), b[lb].get(t, 0.0)
            if not abs(x - y) <= 2e-4:
                return 'tabulated probability of %s for %r: here %.5f, original %.5f' % (t, lb, x, y)
    return None
