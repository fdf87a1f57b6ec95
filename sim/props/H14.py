"""Threads under a deterministic scheduler (switches at library lines, calls and returns) and user functions that re-enter the library."""
from copy import deepcopy

from .. import build as B, gen as G, model as M, common as C, seams, threads
from ..kernel import Rng, Trivial, Violation

LEVEL = 'exploration'
RUNS = {'quick': 700, 'thorough': 20000}
FAULTS = ['thread_interrupted', 'user_function_raises']
PROBES = ['shared_circuit', 'shared_input', 'own_circuit', 'switched_inside_evaluation', 'user_function_reenters', 'nested_same_circuit', 'nested_twice', 'time_delay', 'pr_boxes',
          'basis_iterated', 'copied_while_evaluated', 'three_threads', 'many_switches', 'other_thread_failed', 'one_circuit_two_collections', 'focused_switching']
RULE = ('A seeded generator draws circuits, inputs and per thread a list of calls (evaluations, basis listings and look-ups, copies, surgery on copies, histograms, matrices, building own '
        'circuits), and user functions that evaluate circuits themselves. Real threads run under a baton-passing scheduler that decides at every library line, call and return who goes on; '
        'some threads are interrupted half way. Every answer is compared with the answer of the same call in a forked process that makes the calls one after the other without re-entry.')
STATE_MEASURE = 'distinct schedules (hash of switch points and targets)'
ASSUMPTIONS = ['switching happens at library lines, calls and returns, not inside numpy', 'no thread changes an object that another thread uses']
STUB = ['thread scheduler (seeded baton passing)', 'locks the library would create (simulated, so that waiting is part of the schedule)']
SHRINK = ('threads', 'states', 'nested')
REENTRANT = ['cfun', 'gident', 'grelabel', 'gsplit']


def before_import():
    threads.own_locks()


def one_experiment(rng, mode):
    if mode == 'pr':
        cfg = G.config(rng, sizes=[((2, 4), 1)], thr=1e-10, c=4)
        st = G.states(rng, cfg, 1, 2, total=0, max_comps=1)
        ops = [['pr', [[[0, 1, 2, 3], round(rng.uniform(0.3, 5), 2)]]], ['hwp', *rng.pick([(0, 1), (2, 3)]), rng.angle()], ['meas', [0, 1, 2, 3], [0, 1, 2, 3]]]
    elif mode == 'delay':
        cfg = G.config(rng, sizes=[((3, 2), 1)], thr=1e-10, c=2)
        st = G.states(rng, cfg, 1, 2, cap=1, total=2, max_comps=2)
        ops = [['delayf', [rng.randrange(2)], round(rng.uniform(-2, 2), 2)], ['mix', 0, 1], ['meas', [0, 1], [0, 1]]]
    else:
        cfg = G.config(rng, sizes=G.SMALL, thr=1e-10)
        st = G.states(rng, cfg, 1, 3)
        kinds = G.swarm(rng, [k for k in G.ALL if k not in ('perm',)], base=('mix', 'meas', 'cfun', 'gident'))
        ops, _ = G.ops(rng, cfg, C.branches(st), rng.randint(1, 5), max_branches=12)
        if rng.chance(0.5):
            ops.insert(rng.randint(0, len(ops)), rng.pick([['gident'], ['cfun', 'set', [0], [1], 'new'], ['gident']]))
    for o in ops:
        if o[0] == 'cfun' and o[4] == 'shared':
            o[4] = 'new'
        if rng.chance(0.3) and cfg['n'] > 1:
            ops.insert(rng.randint(0, len(ops)), ['cwp', *G.two(rng, list(range(cfg['n']))), rng.randrange(cfg['c']), rng.randrange(cfg['c'])])
    for i, x in enumerate(st):
        x['id'] = 'state %d' % i
    return {'cfg': cfg, 'states': st, 'ops': ops, 'mode': mode}


def other_states(rng, e):
    """A second collection for the same circuit: other classical values and weights."""
    out = deepcopy(e['states'])
    for x in out:
        x['cl'] = G.cl_values(rng, e['cfg'])
        if rng.chance(0.3):
            x['init'] = x['init'] + "'"
    rng.shuffle(out)
    for i, x in enumerate(out):
        x['id'] = 'state %d' % i
    return out


def follow(e, states=None):
    """Does the history still fit after the insertion?  (sum limits of operator gates)"""
    br = C.branches(states or e['states'])
    for o in e['ops']:
        if o[0] in ('chamwp',) and any(abs(b['cl'][x]) > 4.5 / (e['cfg']['L'] - 1) for b in br for x in o[3:5]):
            return False
        br = M.step(br, o, e['cfg']['L'], e['cfg']['n'])
        if len(br) > 60:
            return False
    return True


class Simulated(Exception):
    pass


CALLS = [('evaluate', 6), ('piece', 1.5), ('basis', 2), ('iterate', 1.5), ('lookup', 2), ('copy', 2), ('histogram', 1), ('density', 1), ('build', 2), ('matrix', 1), ('text', 1), ('surgery', 1.5),
         ('default', 0.7), ('names', 1)]


def call(rng, exps):
    e = rng.randrange(len(exps))
    return {'call': rng.wpick(CALLS), 'e': e, 'x': rng.randint(0, 10 ** 6)}


def gen(rng, tier):
    exps = []
    for _ in range(rng.randint(1, 2)):
        for _ in range(20):
            e = one_experiment(rng, rng.wpick([('plain', 8), ('delay', 1), ('pr', 1)]))
            if e['mode'] != 'plain' or follow(e):
                exps.append(e)
                break
    if len(exps) == 1 and exps[0]['mode'] == 'plain' and rng.chance(0.5):
        for _ in range(6):
            s2 = other_states(rng, exps[0])
            if follow(exps[0], s2):
                exps.append(dict(exps[0], states=s2, circuit_of=0))
                break
    mode = rng.pick(['threads', 'threads', 'reentry', 'both'])
    n = 1 if mode == 'reentry' else rng.wpick([(2, 5), (3, 2)])
    ths = [[call(rng, exps) for _ in range(rng.randint(1, 3))] for _ in range(n)]
    nested = [call(rng, exps) for _ in range(rng.randint(1, 4))] if mode != 'threads' else []
    if mode != 'reentry' and len(exps) > 1 and exps[1].get('circuit_of') == 0 and rng.chance(0.6):    # the threads evaluate one circuit for different collections
        for i, th in enumerate(ths):
            th[rng.randrange(len(th))].update(call='evaluate', e=i % 2)
    focus = rng.pick([None, None, 10, 30, 100])
    return {'focus': [focus, rng.randrange(focus)] if focus else None, 'mode': mode, 'exps': exps, 'threads': ths, 'nested': nested, 'rate': rng.pick([0.3, 0.1, 0.03, 0.01, 0.003]), 'sched': rng.randint(0, 10 ** 6),
            'interrupt': [rng.randrange(n), round(rng.random(), 4)] if mode == 'threads' and rng.chance(0.15) else None,
            'fail': rng.randint(1, 6) if nested and rng.chance(0.15) else None, 'rebuild': rng.chance(0.3)}


def circuits(exps, hooks):
    out = []
    for e in exps:
        out.append(out[e['circuit_of']] if e.get('circuit_of') is not None and e['circuit_of'] < len(out) else B.build(e['cfg'], e['ops'], hooks))
    return out


def perform(t, circs, colls, exps, hooks):
    e = exps[t['e']]
    cfg, circ, coll, x, k = e['cfg'], circs[t['e']], colls[t['e']], t['x'], t['call']
    f = B.lib()
    size = cfg['L'] ** cfg['n']

    def outcome(res):
        if e['mode'] == 'plain':
            return C.collection_picture(res, cfg)
        return hist(res)

    def hist(res):
        h = res.plot(histo_output_instead_of_plot=True)
        return sorted([i, sorted([r['output_state'], C.rnd(r['probability'], 6)] for r in v if r['probability'] > 1e-6)] for i, v in h.items())
    if k == 'evaluate':
        return outcome(circ.evaluate_circuit(collection_of_states_input=coll))
    if k == 'piece':
        nodes = list(range(len(circ.node_list)))[:1 + x % 3]
        return C.collection_picture(circ.evaluate_circuit(coll, nodes_to_be_evaluated=nodes), cfg) if e['mode'] == 'plain' else len(coll)
    if k == 'basis':
        return list(circ.basis())
    if k == 'iterate':
        out = []
        for i, nm in enumerate(circ.basis()):
            out.append(nm)
            if i > x % (size + 2):
                break
        return out + [len(circ.basis())]
    if k == 'lookup':
        b = circ.basis()
        r = Rng(x)
        out = []
        for _ in range(5):
            nm = M.name_of([r.randrange(cfg['L']) for _ in range(cfg['n'])], cfg['L'], cfg['left'])
            out.append([nm, list(b[nm]), b.index_of(nm), nm in b, b.at_index(r.randrange(size))])
        return out
    if k == 'names':
        return coll.generate_allowed_components_names_as_list_of_strings()
    if k == 'copy':
        c = coll.copy()
        pic = C.collection_picture(c, cfg, ids=True)
        C.spoil(c, x % 3)
        return pic
    if k == 'histogram':
        return hist(coll) if e['mode'] == 'plain' else len(coll)
    if k == 'density':
        if size > 40:
            return None
        return sorted([i, [[C.rnd(z, 6) for z in row] for row in v['density_matrix'].tolist()]] for i, v in coll.density_matrix().items())
    if k == 'build':
        own = B.build(cfg, e['ops'], hooks)
        return outcome(own.evaluate_circuit(B.collection(own, cfg, e['states'])))
    if k == 'matrix':
        idx = [i for i, n in enumerate(list(circ.node_list)) if n.get('node_type') == 'optical'][:1 + x % 2]
        if not idx or size > 40:
            return None
        return [[C.rnd(z, 6) for z in row] for row in circ.get_fock_state_matrix(idx).tolist()]
    if k == 'text':
        return [str(coll), str(circ)]
    if k == 'surgery':
        c = coll.copy()
        if x % 3 == 0:
            c.extend(extra_classical_channels=1)
            return C.collection_picture(c, dict(cfg, c=cfg['c'] + 1))
        if x % 3 == 1 and cfg['n'] > 2:
            c.reduce(optical_channels_to_keep=[0, 1])
            return C.collection_picture(c, dict(cfg, n=2))
        c.adjust_length_of_fock_state(cfg['L'] + 1)
        return C.collection_picture(c, dict(cfg, L=cfg['L'] + 1))
    if k == 'default':
        if size > 100:
            return None
        return C.collection_picture(f.CollectionOfStates(circ), cfg, ids=True)
    raise ValueError(k)


def run(s, ctx):
    exps = s['exps']
    if not exps or not s['threads'] or not any(s['threads']):
        raise Trivial('nothing to do')
    hooks = B.Hooks()
    circs = circuits(exps, hooks)
    colls = [B.collection(c, e['cfg'], e['states']) for c, e in zip(circs, exps)]

    def alone():
        return [[perform(t, circs, colls, exps, hooks) for t in th] for th in s['threads'] + [s['nested']]]
    want = C.in_fork(alone)
    nested_want = want.pop()
    if s['rebuild']:
        circs = circuits(exps, hooks)
        colls = [B.collection(c, e['cfg'], e['states']) for c, e in zip(circs, exps)]
    before = [B.snapshot(c) for c in colls]
    pics = [C.circuit_picture(c) for c in circs]
    sched = threads.Scheduler(Rng(s['sched']), s['rate'], max_switches=3000, focus=s['focus'])
    import threading
    depth = {}
    nest_count = [0]
    wrong = []

    def on_call(kind, info):
        me = threading.get_ident()
        if not s['nested'] or depth.get(me, 0) >= 2 or nest_count[0] > 24:
            return
        depth[me] = depth.get(me, 0) + 1
        i = nest_count[0] % len(s['nested'])
        nest_count[0] += 1
        if nest_count[0] == s['fail']:
            depth[me] -= 1
            ctx.fault('user_function_raises')
            raise Simulated('user function fails')
        try:
            got = C.jsonable(perform(s['nested'][i], circs, colls, exps, hooks))
            if depth[me] == 2:
                ctx.probe('nested_twice')
            d = C.first_difference(nested_want[i], got)
            if d:
                wrong.append('%s made from inside a user function: %s' % (s['nested'][i]['call'], d))
            ctx.probe('user_function_reenters')
            if s['nested'][i]['call'] in ('evaluate', 'piece'):
                ctx.probe('nested_same_circuit')
        finally:
            depth[me] -= 1
    hooks.on_call = on_call

    def body(th):
        def f():
            return [C.jsonable(perform(t, circs, colls, exps, hooks)) for t in th]
        return f
    stop = None
    if s['interrupt'] and s['interrupt'][0] < len(s['threads']) and len(s['threads']) > 1:
        stop = s['interrupt'][0]
        sched.kill = (stop, 1 + int(s['interrupt'][1] * 4000))
    results = sched.run([body(th) for th in s['threads']])
    hooks.on_call = None
    ctx.steps += sched.points
    for i, r in enumerate(results):
        if r is None:
            raise Violation('no-progress', 'thread %d never finished' % i)
        ok, val = r
        if not ok:
            if i == stop and sched.killed and isinstance(val, seams.Interrupt):
                ctx.fault('thread_interrupted')
                ctx.probe('other_thread_failed')
                continue
            if isinstance(val, Simulated):
                continue
            raise val
        d = C.first_difference(want[i], val)
        if d:
            raise Violation('concurrent-result-differs' if len(s['threads']) > 1 else 'nested-result-differs',
                            'thread %d of %d, calls %r: %s' % (i, len(s['threads']), [t['call'] for t in s['threads'][i]], d))
    if wrong:
        raise Violation('nested-result-differs', wrong[0])
    for i in range(len(exps)):
        d = B.snapdiff(before[i], B.snapshot(colls[i]))
        if d:
            raise Violation('input-changed', 'shared input %d: %s' % (i, d))
        C.same_circuit(pics[i], circs[i], 'after the threads')
    after = C.in_fork(alone)[:-1]
    d = C.first_difference(want, after)
    if d:
        raise Violation('later-result-differs', 'after the threads the same calls give something else: ' + d)
    flat = [(t['e'], t['call']) for th in s['threads'] for t in th]
    if len(s['threads']) > 1:
        by = [set(t['e'] for t in th if t['call'] in ('evaluate', 'piece')) for th in s['threads']]
        if any(by[i] & by[j] for i in range(len(by)) for j in range(i)):
            ctx.probe('shared_circuit')
            ctx.probe('shared_input')
        if sched.switches:
            ctx.probe('switched_inside_evaluation')
        if sched.switches > 200:
            ctx.probe('many_switches')
        if len(s['threads']) > 2:
            ctx.probe('three_threads')
        if any(c == 'copy' for _, c in flat) and any(c == 'evaluate' for _, c in flat):
            ctx.probe('copied_while_evaluated')
        if any(e.get('circuit_of') is not None for e in exps):
            ctx.probe('one_circuit_two_collections')
        if s['focus'] and sched.switches:
            ctx.probe('focused_switching')
    if any(c == 'build' for _, c in flat):
        ctx.probe('own_circuit')
    if any(c in ('basis', 'iterate') for _, c in flat):
        ctx.probe('basis_iterated')
    for e in exps:
        if e['mode'] != 'plain':
            ctx.probe({'delay': 'time_delay', 'pr': 'pr_boxes'}[e['mode']])
    ctx.log('threads', len(s['threads']), sched.switches, sched.points, sched.sig[:20], nest_count[0])
    ctx.state(sched.sig[:200], nest_count[0], [[t['call'] for t in th] for th in s['threads']])
