"""Copies under arbitrary operation sequences on any member of the family of copies."""
from .. import build as B, gen as G, model as M, common as C, seams
from ..kernel import Rng, Trivial, Violation

LEVEL = 'exploration'
RUNS = {'quick': 1500, 'thorough': 40000}
FAULTS = ['member_spoilt', 'failing_operation']
PROBES = ['collection_copied', 'state_copied', 'copy_of_copy', 'photon_resolved', 'pr_correlated', 'records', 'auxiliary_information', 'reduced', 'extended',
          'evaluated', 'empty_template', 'full_record_print', 'default_collection']
RULE = ('A seeded generator draws a collection (fresh, evaluated, photon resolved, with box correlations, with records and nested user information), copies '
        'of it and of its states, copies of copies, and a history of operations - every changing method, assignment and in-place change - on arbitrary '
        'members; after each one the exact content and printed form of all other members is compared with what it was.')
STATE_MEASURE = 'distinct (source kind, operation kinds in order up to 4)'
SHRINK = ('ops', 'states', 'actions')

ACTIONS = [('copy', 3), ('copy_state', 1.5), ('spoil', 2), ('set', 3), ('item', 1), ('add', 1), ('delete', 1), ('clear', .5), ('default', .5), ('filter', 1), ('reduce', 1),
           ('extend', 1), ('adjust', .7), ('clean', .7), ('mixture', .7), ('flag', .7), ('evaluate', 1), ('vector', .7), ('init', .4), ('template', .5), ('fromdict', .5), ('bad', .7),
           ('iter', .5), ('move', .5)]


def gen(rng, tier):
    source = rng.wpick([('fresh', 4), ('evaluated', 4), ('delay', 1.2), ('pr', 1), ('default', 1)])
    if source == 'delay':
        cfg = G.config(rng, sizes=[((3, 2), 2), ((3, 3), 1)], thr=1e-10, c=2)
        st = G.states(rng, cfg, 1, 2, cap=1, total=2, max_comps=2)
        ops = [['delayf', [0], 0.5], ['mix', 0, 1]]
        if rng.chance(0.4):
            ops.append(['meas', [0], [1]])
    elif source == 'pr':
        cfg = G.config(rng, sizes=[((2, 4), 1)], thr=1e-10, c=4)
        st = G.states(rng, cfg, 1, 1, total=0, max_comps=1)
        ops = [['pr', [[[0, 1, 2, 3], 1.0]]], ['wp', 0, 1, 0.3, 3.14159]]
        if rng.chance(0.4):
            ops.append(['meas', [0, 1, 2, 3], [0, 1, 2, 3]])
    else:
        cfg, st, ops = C.history(rng, lo=1, hi=4, states_hi=3, sizes=G.SMALL)
    for s in st:
        if rng.chance(0.5):
            s['hist'] = [[[round(rng.uniform(0, 2), 1)] * cfg['c'], round(rng.uniform(0.1, 1), 2)] for _ in range(rng.randint(1, 3))]
        if rng.chance(0.5):
            s['aux'] = {'note': ['u', [1, 2, {'k': [3]}]], 'n': 4}
    acts = [{'kind': 'copy', 'm': 0, 'x': 0}]
    for _ in range(rng.randint(2, 9)):
        acts.append({'kind': rng.wpick(ACTIONS), 'm': rng.randint(0, 10 ** 6), 'x': rng.randint(0, 10 ** 6)})
    return {'cfg': cfg, 'states': st, 'ops': ops, 'source': source, 'actions': acts, 'flag': rng.chance(0.5)}


class Member:
    def __init__(self, obj, cfg, what):
        self.obj, self.cfg, self.what = obj, cfg, what
        self.take()

    def snap(self):
        if self.what == 'coll':
            f = getattr(self.obj, 'print_only_last_measurement', None)
            return (B.snapshot(self.obj), self.obj.generate_allowed_components_names_as_list_of_strings()[:40], f)
        st = self.obj
        return (st.initial_state, B.freeze(st.cumulative_probability), B.freeze(st.optical_components), B.freeze(st.classical_channel_values),
                B.freeze(st.measurement_results), B.freeze(dict(st.auxiliary_information)), str(st), st.photon_number() if st.optical_components else None)

    def take(self):
        self.s = self.snap()

    def diff(self):
        n = self.snap()
        if n == self.s:
            return None
        if self.what == 'coll':
            d = B.snapdiff(self.s[0], n[0])
            return d or ('settings %r -> %r' % (self.s[1:], n[1:]))[:300]
        names = ['initial_state', 'cumulative_probability', 'optical_components', 'classical_channel_values', 'measurement_results', 'auxiliary_information', 'printed form', 'photon number']
        for f, u, v in zip(names, self.s, n):
            if u != v:
                return '%s: %s -> %s' % (f, repr(u)[:160], repr(v)[:160])


def run(s, ctx):
    cfg = s['cfg']
    f = B.lib()
    if not s['states']:
        raise Trivial('no states')
    circ = B.build(cfg, s['ops'])
    coll = B.collection(circ, cfg, s['states'])
    for st, spec in zip(coll, s['states']):
        if 'hist' in spec:
            st.measurement_results = [{'measurement_results': list(v), 'probability': q} for v, q in spec['hist']]
            ctx.probe('records')
        if 'aux' in spec:
            st.auxiliary_information = dict(st.auxiliary_information, **C.deepcopy(spec['aux']))
            ctx.probe('auxiliary_information')
    coll.print_only_last_measurement = bool(s['flag'])
    if not s['flag']:
        ctx.probe('full_record_print')
    if s['source'] in ('evaluated', 'delay', 'pr'):
        coll = C.evaluate(circ, coll)
        if s['source'] == 'delay':
            ctx.probe('photon_resolved')
        if s['source'] == 'pr':
            ctx.probe('pr_correlated')
    elif s['source'] == 'default':
        coll = f.CollectionOfStates(circ)
        ctx.probe('default_collection')
    if len(coll) > 40:
        raise Trivial('too many states')
    fam = [Member(coll, cfg, 'coll')]
    for n, a in enumerate(s['actions']):
        me = fam[a['m'] % len(fam)]
        ctx.log('action', n, a['kind'], a['m'] % len(fam), me.what)
        new = act(a, me, ctx, f, circ, s)
        for j, o in enumerate(fam):
            if o is me:
                continue
            d = o.diff()
            if d:
                raise Violation('copy-not-independent', 'action %d (%s on member %d, a %s) changed member %d (a %s): %s'
                                % (n, a['kind'], fam.index(me), me.what, j, o.what, d))
        if a['kind'] in ('copy', 'copy_state', 'evaluate', 'iter', 'template'):
            d = me.diff()
            if d:
                raise Violation('copying-changed-original', 'action %d (%s) changed the object itself: %s' % (n, a['kind'], d))
        me.take()
        fam.extend(new)
    ctx.log('end', [len(m.obj) if m.what == 'coll' else -1 for m in fam])
    ctx.state(s['source'], [a['kind'] for a in s['actions']][:4])


def act(a, me, ctx, f, circ, s):
    k, x = a['kind'], a['x']
    r = Rng(x)
    obj, cfg = me.obj, me.cfg
    new = []
    if me.what == 'state':
        st = obj
        if k in ('copy', 'copy_state'):
            c = st.copy()
            if c is st:
                raise Violation('shared', 'copy() returned the state itself')
            m = Member(c, cfg, 'state')
            compare(me, m)
            ctx.probe('state_copied')
            return [m]
        if k not in ('evaluate', 'iter', 'template'):
            change_state(k, x, st, cfg, ctx, r)
        return []
    coll = obj
    L, n, c = cfg['L'], cfg['n'], cfg['c']
    keys = list(coll.keys())
    pick = coll[keys[x % len(keys)]] if keys else None
    if k == 'copy':
        c2 = coll.copy()
        if c2 is coll:
            raise Violation('shared', 'copy() returned the collection itself')
        m = Member(c2, dict(cfg), 'coll')
        compare(me, m)
        ctx.probe('collection_copied')
        if a['m']:
            ctx.probe('copy_of_copy')
        new.append(m)
    elif k == 'template':
        c2 = coll.copy(empty_template=True)
        if len(c2) != 0:
            raise Violation('copy-content', 'empty template holds %d states' % len(c2))
        m = Member(c2, dict(cfg), 'coll')
        if m.s[1:] != me.s[1:]:
            raise Violation('copy-content', 'settings of the template differ: %r, original %r' % (m.s[1:], me.s[1:]))
        ctx.probe('empty_template')
        new.append(m)
    elif k == 'copy_state' and pick is not None:
        c2 = pick.copy()
        m0, m = Member(pick, cfg, 'state'), Member(c2, dict(cfg), 'state')
        compare(m0, m)
        ctx.probe('state_copied')
        new.append(m)
    elif k == 'spoil':
        C.spoil(coll, x)
        ctx.fault('member_spoilt')
    elif k in ('set', 'item', 'vector', 'init', 'bad') and pick is not None:
        change_state(k, x, pick, cfg, ctx, r)
    elif k == 'add' and pick is not None:
        coll.add_state(pick.copy(), identifier='added %d' % (x % 3))
    elif k == 'move' and pick is not None:
        t = f.State(coll)
        t.initial_state = 'moved'
        coll.add_state(t)
    elif k == 'delete' and keys:
        if x % 2:
            coll.delete_state(identifier=keys[x % len(keys)])
        else:
            coll.delete_state(initial_state=pick.initial_state)
    elif k == 'clear':
        coll.clear()
    elif k == 'default' and L ** n <= 27:
        coll.initialize_to_default()
    elif k == 'filter' and keys:
        if x % 3 == 0:
            coll.filter_on_initial_state([pick.initial_state])
        elif x % 3 == 1:
            coll.filter_on_identifier(keys[:2])
        else:
            coll.filter_on_classical_channel([0], [pick.classical_channel_values[0]])
    elif k == 'reduce' and n > 2 and not coll.is_photon_resolved() and not coll.has_pr_correlations() and ok_components(coll):
        keep = sorted(r.sample(range(n), n - 1))
        ck = sorted(r.sample(range(c), max(1, c - 1)))
        coll.reduce(optical_channels_to_keep=keep, classical_channels_to_keep=ck)
        me.cfg = dict(cfg, n=len(keep), c=len(ck))
        ctx.probe('reduced')
    elif k == 'extend' and L ** n <= 27 and len(keys) < 30:
        coll.extend(extra_optical_channels=1, extra_classical_channels=x % 2)
        me.cfg = dict(cfg, n=n + 1, c=c + x % 2)
        ctx.probe('extended')
    elif k == 'adjust' and L ** n <= 81:
        coll.adjust_length_of_fock_state(L + 1)
        me.cfg = dict(cfg, L=L + 1)
    elif k == 'clean' and not stale(coll) and not coll.is_photon_resolved() and not coll.has_pr_correlations() and ok_components(coll):
        coll.clean_up()
    elif k == 'mixture' and keys:
        coll.set_collection_as_statistical_mixture([(coll[i], 1 / len(keys)) for i in keys])
    elif k == 'flag':
        coll.print_only_last_measurement = not coll.print_only_last_measurement
    elif k == 'evaluate' and (cfg['L'], cfg['n'], cfg['c']) == (s['cfg']['L'], s['cfg']['n'], s['cfg']['c']) and s['source'] not in ('delay', 'pr') and ok_components(coll):
        res = circ.evaluate_circuit(collection_of_states_input=coll)
        C.spoil(res, x)
        ctx.probe('evaluated')
    elif k == 'fromdict' and keys:
        coll.collection_from_dict({'only': pick.copy()})
    elif k == 'iter':
        for st in coll:
            st.photon_number() if st.optical_components else None
        list(coll.items()), list(coll.values()), coll.initial_states_as_list(), coll.state_identifiers_as_list()
    return new


def stale(coll):
    """Weights that were edited to more than one altogether cannot be merged."""
    tot = {}
    for st in coll:
        tot[st.initial_state] = tot.get(st.initial_state, 0) + float(st.cumulative_probability)
    return any(v > 1 + 1e-5 for v in tot.values())


def ok_components(coll):
    """Only collections that still hold physical states (not spoilt ones) are handed to physics routines."""
    for st in coll:
        p = sum(abs(complex(v['amplitude'])) ** 2 for v in st.optical_components.values())
        if not 0.9 < p < 1.1 or not all(-6.4 < float(v) < 6.4 for v in st.classical_channel_values):
            return False
    return True


def compare(a, b):
    if a.s != b.s:
        x = a.s
        a.s = b.s                       # report the difference in the copy
        d = a.diff()
        a.s = x
        raise Violation('copy-content', 'the copy differs from the original: %s' % (d or (repr(a.s)[:200] + ' / ' + repr(b.s)[:200])))


def change_state(k, x, st, cfg, ctx, r):
    L, n, c, left = cfg['L'], cfg['n'], cfg['c'], cfg['left']
    name = M.name_of([r.randrange(L) for _ in range(n)], L, left)
    w = x % 7
    if k == 'bad':
        for fn in (lambda: setattr(st, 'optical_components', {'zz': {'amplitude': 1}}), lambda: setattr(st, 'classical_channel_values', [1] * (c + 1)),
                   lambda: setattr(st, 'optical_components', [(name, 0.5), ('9' * (n + 3), 1)]), lambda: setattr(st, 'measurement_results', 5)):
            try:
                fn()
            except Exception:
                ctx.fault('failing_operation')
    elif k == 'item':
        st['initial_state'] = 'item %d' % x
        st['classical_channel_values'][0] = 4 + w
        st['cumulative_probability'] = 0.33
    elif k == 'vector':
        v = [0] * (L ** n)
        v[x % len(v)] = 1
        st.set_state_components_from_vector(v)
    elif k == 'init':
        st.initialize_this_state()
    elif w == 0:
        st.initial_state = 'set %d' % x
    elif w == 1:
        st.optical_components = [(name, 1.0)]
    elif w == 2:
        st.optical_components = {name: {'amplitude': 1.0, 'probability': 1.0}}
        st.optical_components[name]['amplitude'] = -1.0
    elif w == 3:
        st.classical_channel_values[r.randrange(c)] = 3
    elif w == 4:
        st.cumulative_probability = 0.5
    elif w == 5:
        st.measurement_results.append({'measurement_results': [1] * c, 'probability': 0.5})
        st.measurement_results[0]['measurement_results'][0] = 9
    else:
        st.auxiliary_information['mine'] = [x]
        C.deep(st.auxiliary_information)
