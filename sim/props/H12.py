"""Identifiers drawn from adversarial random streams: state accounting against a reference ledger, experiments against the model and against each other."""
from .. import build as B, gen as G, model as M, common as C, seams
from ..kernel import Trivial, Violation

LEVEL = 'exploration'
RUNS = {'quick': 1000, 'thorough': 30000}
FAULTS = ['stream_constant', 'stream_cycle', 'stream_high', 'stream_replay', 'stream_reseeded']
PROBES = ['unnamed_add', 'named_add', 'overwritten', 'found_by_name', 'found_by_label', 'not_found', 'deleted', 'mixture', 'evaluated', 'extended', 'reduced', 'filtered',
          'copied', 'other_length', 'many_states', 'time_delay', 'quick_delay', 'pr_boxes', 'plain_experiment', 'name_like_a_drawn_one']
RULE = ('A seeded generator draws a program of state accounting (add, name, find, delete, mix, filter, copy, extend, reduce, evaluate) and switches the stream of '
        'random numbers the library sees between ordinary, constant, cyclic, extreme and restarting ones in between; a ledger kept by the simulator is compared '
        'with the collection after every action. Experiments (also with time delays and non-signalling boxes) are run under several streams and compared.')
STATE_MEASURE = 'distinct (mode, stream kinds, action kinds, number of states)'
SHRINK = ('actions', 'pool', 'ops', 'states', 'streams')
STUB = ['random number generator (simulated streams)']
ASSUMPTIONS = ['a stream repeats itself for at most 400 draws before it turns ordinary, so that drawing until a free name is found can end']
KINDS = ['constant', 'cycle', 'high', 'replay', 'seeded']
NAMES = ['identifier_a', 'identifier_b', 'identifier_9', 'identifier_aa', 'identifier_z', 'identifier_', 'identifier_a-M1a', 'alice', 'x', '', '0', 'identifier_99',
         'mixture-aaaaa', 'identifier_aaa']
SAFE = ['mix', 'wp', 'hwp', 'swap', 'meas', 'setc', 'cfun', 'kerr', 'shift', 'cshift', 'gident', 'gsplit', 'perm', 'ps']


def stream(rng):
    k = rng.wpick([('constant', 4), ('cycle', 2), ('high', 2), ('replay', 3), ('seeded', 1)])
    if k == 'constant':
        k += ':%d' % rng.pick([0, 0, 35, 9, 10, rng.randint(0, 35)])
    elif k in ('cycle', 'replay'):
        k += ':%d' % rng.randint(1, 6)
    return [k, rng.randint(0, 5), rng.pick([400, 400, 100, 20])]


def gen(rng, tier):
    mode = rng.wpick([('ledger', 6), ('plain', 3), ('delay', 1), ('quick', 1), ('pr', 1.5)])
    streams = [stream(rng) for _ in range(rng.randint(2, 3))]
    if mode == 'ledger':
        cfg = G.config(rng, sizes=[((2, 2), 4), ((2, 3), 3), ((3, 2), 4), ((3, 3), 1), ((4, 2), 2), ((11, 2), 1)], thr=1e-10, c_max=3)
        pool = [dict(s, p=round(rng.uniform(0.05, 1), 3)) for s in G.states(rng, cfg, 3, 8, angles=False)]
        actions = []
        burst = rng.chance(0.3)
        for _ in range(rng.randint(4, 22)):
            k = rng.wpick([('stream', 2), ('add', 14 if burst else 6), ('name', 3), ('get', 3), ('del', 2), ('mix', 1), ('evaluate', 1.2), ('copy', 0.7),
                           ('extend', 0.5), ('reduce', 0.5), ('filter', 0.7), ('length', 0.4)])
            a = {'kind': k, 'i': rng.randrange(len(pool)), 'x': rng.randint(0, 10 ** 6)}
            if k == 'stream':
                a['stream'] = stream(rng)
            if k == 'name':
                a['name'] = rng.pick(NAMES)
            if k == 'mix':
                idx = rng.sample(range(len(pool)), rng.randint(1, len(pool)))
                a['list'] = [[i, round(rng.uniform(0.05, 1), 3)] for i in idx]
            if k == 'evaluate':
                fake = [M.branch('x', 1.0, {tuple([1] * cfg['n']): 1.0}, [0] * cfg['c'])]
                a['ops'] = [o for o in (G.one_op(rng, cfg, rng.pick(SAFE), fake, range(cfg['n']), range(cfg['c']), 30) for _ in range(rng.randint(1, 3))) if o]
            if k == 'extend':
                a['opt'], a['cl'] = rng.pick([(0, 1), (1, 0), (1, 1)])
                a['dist'] = rng.chance(0.5)
            actions.append(a)
        return {'mode': mode, 'cfg': cfg, 'pool': pool, 'actions': actions, 'streams': streams}
    if mode == 'plain':
        cfg, st, ops = C.history(rng, lo=1, hi=6, states_hi=5)
    elif mode == 'pr':
        cfg = G.config(rng, sizes=[((2, 4), 3), ((2, 8), 1)], thr=1e-10, c=4)
        st = G.states(rng, cfg, 1, 4 if cfg['n'] == 4 else 2, total=0, max_comps=1)
        boxes = [[[0, 1, 2, 3], round(rng.uniform(0.3, 6), 2)]] + ([[[4, 5, 6, 7], round(rng.uniform(0.3, 6), 2)]] if cfg['n'] == 8 else [])
        ops = [['pr', boxes]]
        for _ in range(rng.randint(1, 3)):
            ops.append(['hwp', *rng.pick([(i, i + 1) for i in range(0, cfg['n'], 2)]), rng.angle()])
        ops.append(['meas', rng.sample(range(cfg['n']), 4), [0, 1, 2, 3]])
    else:
        cfg = G.config(rng, sizes=[((3, 2), 2), ((3, 3), 1)], thr=1e-10, c=3)
        st = G.states(rng, cfg, 1, 3, cap=1, total=2, max_comps=2)
        ops = []
        for _ in range(rng.randint(1, 3) if mode == 'delay' else 1):
            ops.append(['delayf' if mode == 'delay' else 'delay', [rng.randrange(cfg['n'])], round(rng.uniform(-2, 2), 2)])
            ops.append(G.one_op(rng, cfg, rng.pick(['mix', 'wp']), C.branches(st), range(cfg['n']), [0]))
        ops.append(['meas', list(range(cfg['n'])), list(range(cfg['n']))])
        if rng.chance(0.4):
            ops.append(['setc', [1], [cfg['n'] - 1]])
    return {'mode': mode, 'cfg': cfg, 'states': st, 'ops': ops, 'streams': streams, 'names': rng.chance(0.3)}


def use(spec, ctx, last=[None]):
    s = seams.set_random(spec[0], spec[1], hold=spec[2])
    k = spec[0].split(':')[0]
    if k != 'seeded':
        ctx.fault('stream_' + k)
    if last[0] == spec:
        ctx.fault('stream_reseeded')
    last[0] = spec
    return s


def same_branch(x, y, tol=1e-6):
    if x['init'] != y['init'] or len(x['cl']) != len(y['cl']) or len(x['hist']) != len(y['hist']):
        return False
    if abs(x['p'] - y['p']) > tol or any(abs(u - v) > tol for u, v in zip(x['cl'], y['cl'])):
        return False
    if any(abs(x['vec'].get(t, 0) - y['vec'].get(t, 0)) > tol for t in set(x['vec']) | set(y['vec'])):
        return False
    return all(len(u[0]) == len(v[0]) and all(abs(a - b) <= tol for a, b in zip(u[0], v[0])) for u, v in zip(x['hist'], y['hist']))


def check(coll, cfg, ledger, what):
    got = B.read(coll, cfg, ids=True)
    if len(got) != len(coll) or len(set(b['id'] for b in got)) != len(got):
        raise Violation('identifiers-not-unique', '%s: identifiers %r' % (what, [b['id'] for b in got]))
    have = {b['id']: b for b in got}
    for ident, b in ledger.items():
        if ident not in have:
            raise Violation('state-lost', '%s: the state with identifier %r is gone (identifiers now: %r)' % (what, ident, list(have)))
        if not same_branch(b, have[ident]):
            raise Violation('state-confused', '%s: identifier %r should hold %s, it holds %s' % (what, ident, show(b), show(have[ident])))
    extra = [i for i in have if i not in ledger]
    if extra:
        raise Violation('state-invented', '%s: unexpected states %r' % (what, extra))


def show(b):
    return str((b['init'], round(b['p'], 4), sorted((t, C.rnd(a, 4)) for t, a in b['vec'].items())[:4], [round(v, 3) for v in b['cl']]))


def run(s, ctx):
    return ledger(s, ctx) if s['mode'] == 'ledger' else experiment(s, ctx)


def ledger(s, ctx):
    cfg, pool = dict(s['cfg']), s['pool']
    if not pool:
        raise Trivial('no states')
    for k in s['streams'][:1]:
        use(k, ctx)
    circ = B.build(cfg, [])
    cfg0 = dict(cfg)
    coll = B.collection(circ, cfg, [])
    book = {}
    kinds = set()
    for n, a in enumerate(s['actions']):
        k, x = a['kind'], a['x']
        what = 'action %d (%s)' % (n, k)
        spec = dict(pool[a['i'] % len(pool)])
        fits = cfg['n'] == cfg0['n'] and cfg['c'] == cfg0['c'] and cfg['L'] == cfg0['L']
        if k in ('add', 'name', 'mix') and not fits:
            continue
        kinds.add(k)
        if k == 'stream':
            use(a['stream'], ctx)
        elif k == 'add':
            before = list(coll.keys())
            coll.add_state(B.make_state(coll, cfg, spec))
            new = [i for i in coll.keys() if i not in book]
            if len(new) != 1 or any(i not in coll.keys() for i in before):
                raise Violation('state-lost', '%s: adding a state to %r gave %r' % (what, before, list(coll.keys())))
            if new[0] in NAMES:
                ctx.probe('name_like_a_drawn_one')
            book[new[0]] = C.branches([spec])[0]
            ctx.probe('unnamed_add')
            if len(book) > 8:
                ctx.probe('many_states')
        elif k == 'name':
            ctx.probe('overwritten' if a['name'] in book else 'named_add')
            coll.add_state(B.make_state(coll, cfg, spec), identifier=a['name'])
            book[a['name']] = C.branches([spec])[0]
        elif k == 'get':
            ids, labels = list(book) + ['nobody'], [b['init'] for b in book.values()] + ['no label']
            ident = ids[x % len(ids)] if x % 3 else None
            label = labels[x % len(labels)] if x % 3 != 1 else None
            st = coll.get_state(identifier=ident, initial_state=label)
            if ident in book:
                want = [book[ident]]
                ctx.probe('found_by_name')
            elif label is not None:
                want = [b for b in book.values() if b['init'] == label]
                ctx.probe('found_by_label' if want else 'not_found')
            else:
                want = []
            if (st is None) != (not want):
                raise Violation('state-confused', '%s: looking for %r / %r found %r' % (what, ident, label, 'nothing' if st is None else st.initial_state))
            if st is not None and not any(same_branch(w, picture(st, cfg)) for w in want):
                raise Violation('state-confused', '%s: looking for %r / %r found %s' % (what, ident, label, show(picture(st, cfg))))
        elif k == 'del':
            ids = list(book) + ['nobody']
            if x % 3:
                ident = ids[x % len(ids)]
                coll.delete_state(identifier=ident)
                book.pop(ident, None)
            else:
                labels = [b['init'] for b in book.values()] + ['no label']
                label = labels[x % len(labels)]
                coll.delete_state(initial_state=label)
                left = set(coll.keys())
                gone = [i for i in book if i not in left]
                match = [i for i in book if book[i]['init'] == label]
                if len(gone) != min(1, len(match)) or (gone and gone[0] not in match):
                    raise Violation('state-lost', '%s: deleting one state labelled %r removed %r' % (what, label, gone))
                for i in gone:
                    del book[i]
            ctx.probe('deleted')
        elif k == 'mix':
            lst = [[i, w] for i, w in a['list'] if i < len(pool)]
            states = [(B.make_state(coll, cfg, pool[i]), w) for i, w in lst]
            coll.set_collection_as_statistical_mixture(states)
            got = B.read(coll, cfg, ids=True)
            if len(got) != len(lst):
                raise Violation('state-lost', '%s: a mixture of %d states holds %d' % (what, len(lst), len(got)))
            if len(set(b['init'] for b in got)) > 1:
                raise Violation('state-confused', '%s: the states of one mixture carry different labels' % what)
            rest = [dict(C.branches([pool[i]])[0], p=w, init=got[0]['init'] if got else '') for i, w in lst]
            for b in got:
                m = [r for r in rest if same_branch(r, b)]
                if not m:
                    raise Violation('state-confused', '%s: the mixture holds %s, which is not listed (or listed with another weight)' % (what, show(b)))
                rest.remove(m[0])
            book = {b['id']: b for b in got}
            ctx.probe('mixture')
        elif k == 'evaluate':
            if not a['ops'] or not book or len(book) > 25 or cfg['n'] < cfg0['n'] or cfg['L'] != cfg0['L'] or cfg['c'] < cfg0['c']:
                continue
            if cfg['n'] > cfg0['n'] and any(o[0] in ('kerr', 'perm', 'shift', 'cshift') for o in a['ops']):
                continue
            ref = list(book.values())
            for o in a['ops']:
                ref = M.step(ref, o, cfg['L'], cfg['n'])
            if len(ref) > 90:
                continue
            c2 = B.build(cfg, a['ops'])
            before = dict(book)
            res = c2.evaluate_circuit(coll)
            check(coll, cfg, before, what + ' (input)')
            got = B.read(res, cfg, ids=True)
            C.expect(got, ref, 'experiment-differs', what)
            coll, book = res, {b['id']: b for b in got}
            ctx.probe('evaluated')
        elif k == 'copy':
            coll = coll.copy()
            ctx.probe('copied')
        elif k in ('extend', 'reduce', 'length') and book and len(book) <= 20:
            ref = list(book.values())
            if k == 'extend':
                if a['opt'] and (cfg['n'] > 3 or cfg['L'] ** (cfg['n'] + 1) > 300):
                    continue
                dist = [0.5, 0.5] + [0.0] * (cfg['L'] - 2) if a['dist'] else None
                coll.extend(extra_optical_channels=a['opt'], extra_classical_channels=a['cl'], **({'statistical_distribution': dist} if dist else {}))
                ref = M.extend(ref, a['opt'], a['cl'], cfg['L'], dist if a['opt'] else None)
                cfg = dict(cfg, n=cfg['n'] + a['opt'], c=cfg['c'] + a['cl'])
                ctx.probe('extended')
            elif k == 'reduce':
                if cfg['n'] < 3:
                    continue
                keep = [c for c in range(cfg['n']) if c != x % cfg['n']]
                coll.reduce(optical_channels_to_keep=keep)
                ref = M.reduce(ref, keep, range(cfg['c']))
                cfg = dict(cfg, n=len(keep))
                ctx.probe('reduced')
            else:
                cfg = dict(cfg, L=cfg['L'] + 1 + x % 3)
                if cfg['L'] ** cfg['n'] > 600:
                    cfg = dict(cfg, L=cfg['L'] - 1 - x % 3)
                    continue
                coll.adjust_length_of_fock_state(cfg['L'])
                ctx.probe('other_length')
            got = B.read(coll, cfg, ids=True)
            C.expect(got, ref, 'experiment-differs', what)
            if k != 'reduce' and len(got) != len(ref):
                raise Violation('state-lost', '%s: %d states became %d' % (what, len(ref), len(got)))
            book = {b['id']: b for b in got}
        elif k == 'filter':
            keep = [i for j, i in enumerate(book) if (x >> j) % 2]
            coll.filter_on_identifier(keep)
            book = {i: b for i, b in book.items() if i in keep}
            ctx.probe('filtered')
        check(coll, cfg, book, what)
        ctx.log(k, len(book), sorted(book))
    if not kinds - {'stream'}:
        raise Trivial('nothing done')
    ctx.state('ledger', sorted(kinds), len(book), [x[0] for x in s['streams']][:1])


def picture(st, cfg):
    vec = {}
    for name, ap in st.optical_components.items():
        vec[M.values_of(name, cfg['L'], cfg['left'])] = complex(ap['amplitude'])
    return {'init': st.initial_state, 'p': float(st.cumulative_probability), 'vec': vec, 'cl': [float(v) for v in st.classical_channel_values],
            'hist': [(tuple(r['measurement_results']), r['probability']) for r in st.measurement_results]}


def experiment(s, ctx):
    cfg, mode = s['cfg'], s['mode']
    if not s['states'] or not s['ops']:
        raise Trivial('empty')
    spec = [dict(st, id=None) for st in s['states']]
    if s['names']:
        spec = [dict(st, id=NAMES[i]) for i, st in enumerate(spec)]
    results = []
    for st in [['seeded', 1, 0]] + s['streams']:
        seams.set_random(st[0], st[1], hold=st[2]) if not results else use(st, ctx)
        circ = B.build(cfg, s['ops'])
        coll = B.collection(circ, cfg, spec)
        if len(coll) != len(spec):
            raise Violation('state-lost', 'stream %s: %d states were added, the collection holds %d' % (st[0], len(spec), len(coll)))
        res = circ.evaluate_circuit(coll)
        if mode == 'plain':
            got = B.read(res, cfg)
            C.expect(got, M.run(C.branches(spec), s['ops'], cfg['L'], cfg['n']), 'experiment-differs', 'stream %s' % st[0])
            results.append(None)
            ctx.log(st[0], C.summary(got))
            continue
        h = {}
        for k, v in res.plot(histo_output_instead_of_plot=True, classical_channels=list(range(cfg['c']))).items():
            for x in v:
                h[k + ' -> ' + x['output_state']] = h.get(k + ' -> ' + x['output_state'], 0.0) + float(x['probability'])
        results.append(h)
        ctx.log(st[0], sorted((k, round(v, 4)) for k, v in h.items() if v > 1e-6))
        for k in sorted(set(h) | set(results[0])):
            if abs(h.get(k, 0) - results[0].get(k, 0)) > 1e-4:
                raise Violation('experiment-differs', '%s experiment: with identifiers drawn from stream %s the probability of %s is %.5f, with ordinary ones %.5f' % (
                    mode, st[0], k, h.get(k, 0), results[0].get(k, 0)))
    ctx.probe({'plain': 'plain_experiment', 'delay': 'time_delay', 'quick': 'quick_delay', 'pr': 'pr_boxes'}[mode])
    for o in s['ops']:
        if o[0] in ('delayf', 'delay'):
            ctx.simtime += abs(o[2])
    ctx.state(mode, [x[0] for x in s['streams']], len(spec), sorted({o[0] for o in s['ops']}))
