"""Twin execution: a probe in a process without history against the same probe after an arbitrary history."""
from .. import build as B, chaos, gen as G, model as M, common as C, seams
from ..kernel import Rng, Trivial, Violation

LEVEL = 'exploration'
RUNS = {'quick': 900, 'thorough': 25000}
FAULTS = ['rejected_call', 'user_function_raises', 'interrupt', 'allocation_failure', 'rejected_lookup', 'display_failure', 'output_write_error', 'rejected_state']
PROBES = ['probe_built_before_history', 'probe_built_after_history', 'basis_listed', 'other_work', 'lookups_on_probe', 'matrix', 'explicit_identifiers',
          'basis_iteration_mid_history']
RULE = ('A seeded generator draws an experiment (probe) and a history of unrelated and failing activity; the probe is executed in a forked process '
        'that has no history and again after the history (its objects built before or after it) and every answer - complete basis listing in order, '
        'translations, default collections, evaluation, matrices, histogram, density matrix - is compared.')
STATE_MEASURE = 'distinct (probe configuration, history event kinds, placement)'
ASSUMPTIONS = ['numbers are compared to 2e-5, names and their order exactly; random identifiers are excluded, chosen ones are compared']


NAMED = G.OPTICAL + ['meas', 'cwp', 'cps', 'setc', 'cfun']      # steps that derive identifiers from the given ones


def gen(rng, tier):
    cfg, st, ops = C.history(rng, lo=1, hi=5, states_hi=3)
    if rng.chance(0.3):
        st = [dict(s, id='named %d' % i) for i, s in enumerate(st)]
        ops = [o for o in ops if o[0] in NAMED]
    hist = []
    for _ in range(rng.randint(1, 7)):
        k = rng.wpick([('event', 4), ('work', 3), ('names', 4), ('badstate', 1), ('listing', 1), ('default', 1)])
        e = {'kind': k, 'x': rng.randint(0, 10 ** 6)}
        if k == 'event':
            e['ev'] = {'at': 0, 'kind': rng.pick(chaos.KINDS), 'x': rng.randint(0, 10 ** 6), 'frac': round(rng.random(), 4)}
            e['own'] = rng.chance(0.5)
        if k == 'work':
            c2, s2, o2 = C.history(rng, lo=0, hi=4, states_hi=2, sizes=G.SMALL)
            if rng.chance(0.5) and ops:       # the same experiment with settings next to these
                c2 = dict(cfg, left=cfg['left'] if rng.chance(0.7) else not cfg['left'])
                s2 = st
                o2 = [G.vary(rng, o) or o if rng.chance(0.7) else o for o in ops]
            elif rng.chance(0.4):
                c2 = dict(cfg, left=not cfg['left'] if rng.chance(0.5) else cfg['left'], name='twin')
                s2, o2 = st, ops[:2]
            e.update(cfg=c2, states=s2, ops=o2)
        if k in ('names', 'badstate', 'listing'):
            e['alt'] = rng.chance(0.4)
        hist.append(e)
    return {'cfg': cfg, 'states': st, 'ops': ops, 'history': hist, 'early': rng.chance(0.5), 'lookup_seed': rng.randint(0, 10 ** 6),
            'adversary': rng.pick([None, None, 'constant:3', 'cycle:2'])}


def names_for(cfg, x, n=8):
    L, ch, left = cfg['L'], cfg['n'], cfg['left']
    r = Rng(x)
    d = M.digits(L)
    out = []
    for _ in range(n):
        k = r.randrange(9)
        vals = [r.randrange(L) for _ in range(ch)]
        if k < 4:
            out.append(M.name_of(vals, L, left))
        elif k == 4:
            out.append(M.name_of(vals, L, left) + '0' * d)
        elif k == 5:
            out.append(M.name_of(vals, L, left)[:-d])
        elif k == 6:
            out.append('9' * (d * ch))
        elif k == 7:
            out.append(' ' + M.name_of(vals, L, left)[1:])
        else:
            out.append('+' + M.name_of(vals, L, left)[1:])
    return out


def lookups(circ, cfg, x, ctx):
    b = circ.basis()
    for nm in names_for(cfg, x):
        for fn in (lambda: nm in b, lambda: b[nm], lambda: b.index_of(nm)):
            try:
                fn()
            except Exception:
                ctx.fault('rejected_lookup')
    coll = B.lib().CollectionOfStates(circ, dict([]))
    ov = getattr(coll, '_dict_of_optical_values', None)
    if ov is not None:
        r = Rng(x)
        for _ in range(4):
            t = tuple(r.randrange(cfg['L'] + 1) for _ in range(cfg['n'] + r.randrange(-1, 2)))
            try:
                ov[t]
                t in ov
                ov.index_of(t)
            except Exception:
                ctx.fault('rejected_lookup')


def picture(cfg, circ, coll, s, nums):
    """Everything a user can ask about this experiment."""
    f = B.lib()
    size = cfg['L'] ** cfg['n']
    p = {}
    b = circ.basis()
    p['basis'] = list(b)
    p['basis items'] = [[k, list(v)] for k, v in b.items()]
    p['basis size'] = len(b)
    p['basis values'] = [list(v) for v in b.values()]
    for nm in names_for(cfg, s['lookup_seed'], 6):
        try:
            p['lookup ' + nm] = [list(b[nm]), b.index_of(nm), nm in b]
        except Exception as e:
            p['lookup ' + nm] = 'refused'
    p['at'] = [b.at_index(i) for i in range(size)] if size <= 300 else [b.at_index(i * 7 % size) for i in range(60)]
    p['names'] = coll.generate_allowed_components_names_as_list_of_strings()
    if size <= 130:
        d = f.CollectionOfStates(circ)
        p['default'] = [[k, st.initial_state, list(st.optical_components), list(st.classical_channel_values)] for k, st in d.items()]
    p['text'] = str(circ)
    ids = all(x['id'] for x in s['states'])
    p['input'] = C.collection_picture(coll, cfg, ids=ids)
    out = circ.evaluate_circuit(collection_of_states_input=coll)
    p['result'] = C.collection_picture(out, cfg, ids=ids and all(o[0] in NAMED for o in s['ops']))
    p['histogram'] = sorted([k, sorted([x['output_state'], C.rnd(x['probability'], 6)] for x in v if x['probability'] > 1e-5)]
                            for k, v in out.plot(histo_output_instead_of_plot=True).items())
    if size <= 40:
        dm = out.density_matrix()
        p['density'] = sorted([k, [[C.rnd(z, 6) for z in row] for row in v['density_matrix'].tolist()]] for k, v in dm.items())
    opt = [i for i, n in enumerate(s['ops']) if n[0] in G.OPTICAL2]
    idx = [i for i, n in enumerate(list(circ.node_list)) if isinstance(n, dict) and n.get('node_type') == 'optical']
    if size <= 40 and opt and len(idx) == len(list(circ.node_list)):
        m = circ.get_fock_state_matrix(idx)
        p['matrix'] = [[C.rnd(z, 6) for z in row] for row in m.tolist()]
    return p


def make(s):
    circ = B.build(s['cfg'], s['ops'])
    return circ, B.collection(circ, s['cfg'], s['states'])


def run(s, ctx):
    cfg = s['cfg']
    if not s['states']:
        raise Trivial('no states')

    def fresh():
        circ, coll = make(s)
        return picture(cfg, circ, coll, s, None)
    want = C.in_fork(fresh)
    # the reference itself must list the basis as documented
    if want['basis'] != [M.name_of(t, cfg['L'], cfg['left']) for t in M.basis(cfg['L'], cfg['n'])]:
        raise Violation('basis-listing', 'the basis of a fresh circuit is %r' % (want['basis'][:12],))
    circ = coll = None
    if s['early']:
        circ, coll = make(s)
        ctx.probe('probe_built_before_history')
    else:
        ctx.probe('probe_built_after_history')
    if s['adversary']:
        seams.set_random(s['adversary'], 5, hold=100)
    for e in s['history']:
        event(e, s, ctx, circ, coll)
        ctx.log('history', e['kind'])
    if not s['early']:
        circ, coll = make(s)
    got = C.jsonable(picture(cfg, circ, coll, s, None))
    d = C.first_difference(want, got)
    ctx.log('probe', len(got['result']), got['basis size'], [r[:3] for r in got['result']][:6])
    if d:
        raise Violation('history-shows', 'after %s (objects built %s): %s' % ([e['kind'] + (':' + e['ev']['kind'] if 'ev' in e else '') for e in s['history']],
                                                                             'before' if s['early'] else 'after', d))
    # and once more: the probe itself is history too
    again = C.jsonable(picture(cfg, circ, coll, s, None))
    d = C.first_difference(got, again)
    if d:
        raise Violation('history-shows', 'asked a second time: ' + d)
    ctx.probe('basis_listed')
    if 'matrix' in got:
        ctx.probe('matrix')
    if all(x['id'] for x in s['states']):
        ctx.probe('explicit_identifiers')
    ctx.state(cfg['L'], cfg['n'], cfg['left'], cfg['full'], s['early'], sorted(e['kind'] for e in s['history']), sorted(o[0] for o in s['ops']))


def event(e, s, ctx, circ, coll):
    cfg = s['cfg']
    f = B.lib()
    k, x = e['kind'], e['x']
    if k == 'event':
        if e['own'] and circ is not None:
            chaos.one(e['ev'], ctx, cfg, circ, coll)
        else:
            c2, l2 = make(s)
            chaos.one(e['ev'], ctx, cfg, c2, l2)
        if s['adversary'] is None and e['ev']['kind'] == 'rng':
            pass
    elif k == 'work':
        c2 = B.build(e['cfg'], e['ops'])
        l2 = B.collection(c2, e['cfg'], e['states'])
        C.evaluate(c2, l2)
        c2.basis()
        ctx.probe('other_work')
    elif k == 'names':
        if circ is not None and not e['alt']:
            lookups(circ, cfg, x, ctx)
            ctx.probe('lookups_on_probe')
        else:
            alt = dict(cfg)
            if e['alt']:
                alt['left'] = not cfg['left']
            lookups(B.circuit(alt), alt, x, ctx)
    elif k == 'badstate':
        c2, l2 = (circ, coll) if circ is not None and not e['alt'] else make(s)
        st = f.State(collection_of_states=l2)
        for nm in names_for(cfg, x, 5):
            try:
                st.optical_components = {nm: {'amplitude': 1.0, 'probability': 1.0}}
            except Exception:
                ctx.fault('rejected_state')
            try:
                st.optical_components = [(nm, 0.6), ('7' * cfg['n'] * 3, 0.8)]
            except Exception:
                ctx.fault('rejected_state')
    elif k == 'listing':
        c2 = circ if circ is not None and not e['alt'] else B.circuit(cfg)
        b = c2.basis()
        it = iter(b)
        next(it)
        lookups(c2, cfg, x, ctx)
        lst = list(b)
        if lst:
            lst.reverse()
        for kk, v in b.items():
            if isinstance(v, list):
                v.append(99)
        for v in b.values():
            if isinstance(v, list):
                v[0] = 55
        ctx.probe('basis_iteration_mid_history')
    elif k == 'default':
        c2 = circ if circ is not None else B.circuit(cfg)
        if cfg['L'] ** cfg['n'] <= 130:
            d = f.CollectionOfStates(c2)
            C.spoil(d, x)
            d.clear()
