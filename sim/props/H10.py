"""Circuits linked by bridges or combined in compounds against the same circuits run one after the other."""
from .. import build as B, gen as G, model as M, common as C, seams
from ..kernel import Trivial, Violation

LEVEL = 'exploration'
RUNS = {'quick': 800, 'thorough': 25000}
FAULTS = ['user_function_raises', 'interrupt', 'allocation_failure', 'display_failure', 'result_spoilt', 'rejected_call']
PROBES = ['compound', 'bridge_chain', 'shared_tail', 'member_twice', 'shared_member', 'optical_traced_out', 'optical_added', 'classical_cut', 'classical_added', 'no_classical',
          'longer_limit', 'shorter_limit', 'other_naming', 'more_digits', 'member_grown', 'list_changed_in_place', 'list_replaced', 'cleared', 'default_list', 'empty_member',
          'time_delay_over_bridge', 'pr_box_over_bridge', 'nested']
RULE = ('A seeded generator draws circuits of different shapes (channels, registers, photon limits, naming direction) and a history of building, changing, '
        'refreshing, clearing, drawing, running, failing and interrupting several combinations that share members; every run is compared with the reference '
        'ensemble handed from circuit to circuit, and after every action all members still are and behave as before.')
STATE_MEASURE = 'distinct (shapes linked, action kinds)'
SHRINK = ('actions', 'ops', 'states', 'list')
KINDS = [k for k in G.OPTICAL] + ['meas', 'setc', 'cfun', 'cwp', 'cps', 'kerr', 'cshiftd', 'grelabel', 'gident']


def reshape(brs, a, b):
    """What is handed on from a circuit with configuration a to one with configuration b (reference)."""
    if b['n'] < a['n'] or b['c'] < a['c']:
        brs = M.reduce(brs, list(range(min(a['n'], b['n']))), list(range(min(a['c'], b['c']))))
    if b['n'] > a['n'] or b['c'] > a['c']:
        brs = M.extend(brs, max(0, b['n'] - a['n']), max(0, b['c'] - a['c']), a['L'])
    return brs


def expected(members, seq, brs):
    for j, m in enumerate(seq):
        cfg = members[m]['cfg']
        if j:
            brs = reshape(brs, members[seq[j - 1]]['cfg'], cfg)
        if any(max(t) >= cfg['L'] for b in brs for t in b['vec']):
            return None
        for op in members[m]['ops']:
            brs = M.step(brs, op, cfg['L'], cfg['n'])
            if len(brs) > 80 or max(len(b['vec']) for b in brs) > 120 or any(abs(v) > 1e3 for b in brs for v in b['cl']):
                return None
    return brs


def gen(rng, tier):
    r = rng.random()
    if r < 0.12:
        return gen_special(rng)
    members = []
    base = G.config(rng, sizes=G.SMALL, thr=1e-10)
    for i in range(rng.randint(2, 4)):
        cfg = G.config(rng, sizes=[((2, 2), 3), ((2, 3), 4), ((3, 2), 4), ((3, 3), 3), ((2, 4), 2), ((4, 2), 2), ((11, 2), 1)], thr=1e-10, c_max=3)
        if rng.chance(0.15):
            cfg['c'] = 0
        if rng.chance(0.5):
            cfg['L'], cfg['n'] = base['L'], base['n']
        fake = [M.branch('x', 1.0, {G.photons(rng, cfg['L'], cfg['n'], cap=1): 1.0}, [0] * cfg['c'])]
        ops = []
        w = G.swarm(rng, KINDS)
        for _ in range(rng.randint(0, 5)):
            op = G.one_op(rng, cfg, rng.wpick(w), fake, range(cfg['n']), list(range(cfg['c'])))
            if op:
                ops.append(op)
        members.append({'cfg': cfg, 'ops': ops})
    inputs = []
    for i, m in enumerate(members):
        k = rng.random()
        inputs.append(G.states(rng, m['cfg'], 1, 2, total=rng.randint(0, 2) if k < 0.7 else None, max_comps=3))
    lists = []
    for _ in range(rng.randint(1, 3)):
        for _try in range(8):
            seq = [rng.randrange(len(members)) for _ in range(rng.randint(1, 4))]
            if expected(members, seq, C.branches(inputs[seq[0]])) is not None:
                lists.append(seq)
                break
    actions = []
    n_combo = 0
    for _ in range(rng.randint(3, 9)):
        k = rng.wpick([('build', 3), ('run', 4), ('edit', 1.5), ('grow', 1), ('clear', 0.7), ('draw', 0.4), ('fail', 0.8), ('interrupt', 0.7), ('alloc', 0.5),
                       ('spoil', 1), ('alone', 1), ('chain', 2.5), ('tail', 1), ('default', 0.5), ('refresh', 0.7), ('str', 0.3), ('reject', 0.4)])
        if not n_combo and k in ('run', 'edit', 'clear', 'fail', 'interrupt', 'alloc', 'refresh', 'str', 'draw'):
            k = 'build'
        a = {'kind': k, 'x': rng.randint(0, 10 ** 6), 'frac': round(rng.random(), 4)}
        if k in ('build', 'edit', 'chain', 'tail', 'default'):
            if not lists:
                continue
            a['list'] = list(rng.pick(lists)) if rng.chance(0.7) else [rng.randrange(len(members)) for _ in range(rng.randint(1, 4))]
        if k in ('build', 'default'):
            n_combo += 1
        if k == 'grow':
            a['m'] = rng.randrange(len(members))
            cfg = members[a['m']]['cfg']
            fake = [M.branch('x', 1.0, {(0,) * cfg['n']: 1.0}, [0] * cfg['c'])]
            a['op'] = G.one_op(rng, cfg, rng.pick(['mix', 'wp', 'swap', 'hwp', 'cust']), fake, range(cfg['n']), [])
        actions.append(a)
    return {'mode': 'general', 'members': members, 'inputs': inputs, 'actions': actions}


def gen_special(rng):
    mode = rng.pick(['delay', 'pr'])
    if mode == 'pr':
        cfg = G.config(rng, sizes=[((2, 4), 1)], thr=1e-10, c=4)
        st = G.states(rng, cfg, 1, 2, total=0, max_comps=1)
        ops = [['pr', [[[0, 1, 2, 3], rng.pick([0.5, 1.0, 0.7071])]]]]
        for _ in range(rng.randint(1, 3)):
            ops.append(['hwp', *rng.pick([(0, 1), (2, 3)]), rng.angle()])
        ops.append(['meas', [0, 1, 2, 3], [0, 1, 2, 3]])
    else:
        cfg = G.config(rng, sizes=[((3, 2), 2), ((3, 3), 1)], thr=1e-10, c=3)
        st = G.states(rng, cfg, 1, 2, cap=1, total=2, max_comps=2)
        ops = []
        for _ in range(rng.randint(1, 2)):
            ops.append(['delayf', [rng.randrange(cfg['n'])], round(rng.uniform(-2, 2), 2)])
            ops.append(G.one_op(rng, cfg, rng.pick(['mix', 'wp']), C.branches(st), range(cfg['n']), [0]))
        ops.append(['meas', list(range(cfg['n'])), list(range(cfg['n']))])
    cuts = sorted({rng.randint(1, len(ops) - 1) for _ in range(rng.randint(1, 3))})
    shapes = [{'left': rng.chance(0.5), 'L': rng.randint(0, 2), 'c': rng.randint(0, 2)} for _ in range(len(cuts) + 1)]
    c = L = 0
    for s in shapes:                     # limits and registers only grow, so nothing is lost on the way
        L, c = L + s['L'] * (mode == 'delay'), c + s['c']
        s['L'], s['c'] = min(L, 2), c
    return {'mode': mode, 'cfg': cfg, 'states': st, 'ops': ops, 'cuts': cuts, 'shapes': shapes, 'how': rng.pick(['compound', 'bridge'])}


def reach(s, circ_cfg, b, ctx):
    a = circ_cfg
    if b['n'] < a['n']:
        ctx.probe('optical_traced_out')
    if b['n'] > a['n']:
        ctx.probe('optical_added')
    if b['c'] < a['c']:
        ctx.probe('classical_cut')
    if b['c'] > a['c']:
        ctx.probe('classical_added')
    if b['c'] == 0:
        ctx.probe('no_classical')
    if b['L'] > a['L']:
        ctx.probe('longer_limit')
    if b['L'] < a['L']:
        ctx.probe('shorter_limit')
    if b['left'] != a['left']:
        ctx.probe('other_naming')
    if M.digits(a['L']) != M.digits(b['L']):
        ctx.probe('more_digits')


def run(s, ctx):
    if s['mode'] != 'general':
        return special(s, ctx)
    f = B.lib()
    members, inputs = C.deepcopy(s['members']), s['inputs']
    hooks = B.Hooks()
    circs = [B.build(m['cfg'], m['ops'], hooks) for m in members]
    pics = [C.circuit_picture(c) for c in circs]
    combos = []                  # [compound object, member list, stale, cleared]
    results = []                 # [collection, snapshot]
    done = set()

    def want(seq):
        if not inputs[seq[0]]:
            return None
        return expected(members, seq, C.branches(inputs[seq[0]]))

    def execute(evaluate, seq, what):
        ref = want(seq)
        if ref is None:
            return None
        cfg0, cfg1 = members[seq[0]]['cfg'], members[seq[-1]]['cfg']
        coll = B.collection(circs[seq[0]], cfg0, inputs[seq[0]])
        before = B.snapshot(coll)
        res = evaluate(coll)
        d = B.snapdiff(before, B.snapshot(coll))
        if d:
            raise Violation('input-changed', '%s: %s' % (what, d))
        got = B.read(res, cfg1)
        C.expect(got, ref, 'differs-from-running-in-turn', '%s of members %r' % (what, seq), phase=True)
        for x, y in zip(seq, seq[1:]):
            reach(s, members[x]['cfg'], members[y]['cfg'], ctx)
        if len(set(seq)) < len(seq):
            ctx.probe('member_twice')
        for m in seq:
            if not members[m]['ops']:
                ctx.probe('empty_member')
        results.append([res, B.snapshot(res)])
        ctx.log('ran', what, seq, C.summary(got))
        done.add((tuple((members[m]['cfg']['L'], members[m]['cfg']['n'], members[m]['cfg']['c']) for m in seq)))
        return res

    def fresh(seq):
        """Circuits of their own, linked by bridges."""
        cs = [B.build(members[m]['cfg'], members[m]['ops'], hooks) for m in seq]
        for x, y in zip(cs, cs[1:]):
            x.bridge(y)
        return cs

    def verify(what, skip=None):
        for i, c in enumerate(circs):
            C.same_circuit(pics[i], c, '%s (member %d)' % (what, i))
        for i, r in enumerate(results):
            if i == skip or r[1] is None:
                continue
            d = B.snapdiff(r[1], B.snapshot(r[0]))
            if d:
                raise Violation('result-changed', '%s changed result %d: %s' % (what, i, d))

    for n, a in enumerate(s['actions']):
        k, x = a['kind'], a['x']
        what = 'action %d (%s)' % (n, k)
        ctx.log('action', n, k)
        skip = None
        live = [c for c in combos if not c[3]]
        combo = live[x % len(live)] if live else None
        if combo and combo[2] and k in ('run', 'fail', 'interrupt', 'alloc', 'draw'):
            combo[0].refresh()
            combo[2] = False
        if k == 'build' and want(a['list']) is not None:
            combos.append([f.CompoundFockStateCircuit([circs[m] for m in a['list']], compound_circuit_name='combo %d' % n), list(a['list']), False, False])
            ctx.probe('compound')
            if len(combos) > 1:
                ctx.probe('shared_member')
            verify(what)
            execute(lambda c: combos[-1][0].evaluate_circuit(c), a['list'], what)
        elif k == 'default' and want(a['list']) is not None:
            comp = f.CompoundFockStateCircuit()
            if len(comp.list_of_circuits):
                raise Violation('combination-altered', '%s: a new combination without members starts with %d members' % (what, len(comp.list_of_circuits)))
            for m in a['list']:
                comp.list_of_circuits.append(circs[m])
            comp.refresh()
            combos.append([comp, list(a['list']), False, False])
            ctx.probe('default_list')
            execute(lambda c: comp.evaluate_circuit(c), a['list'], what)
        elif k == 'run' and combo:
            execute(lambda c: combo[0].evaluate_circuit(collection_of_states_input=c), combo[1], what)
        elif k == 'edit' and combo and want(a['list']) is not None:
            if x % 2:
                combo[0].list_of_circuits = [circs[m] for m in a['list']]
                ctx.probe('list_replaced')
            else:
                combo[0].list_of_circuits[:] = [circs[m] for m in a['list']]
                ctx.probe('list_changed_in_place')
            combo[0].refresh()
            combo[1], combo[2] = list(a['list']), False
            execute(lambda c: combo[0].evaluate_circuit(c), combo[1], what)
        elif k == 'refresh' and combo:
            for _ in range(1 + x % 3):
                combo[0].refresh()
            combo[2] = False
        elif k == 'str' and combo:
            if str(combo[0]) != str(combo[0]):
                raise Violation('print-differs', what)
        elif k == 'clear' and combo:
            combo[0].clear()
            ctx.probe('cleared')
            if x % 2:
                combo[0].refresh()
                combo[2] = False
            else:
                combo[3] = True
        elif k == 'grow' and a['op'] is not None:
            B.add_op(circs[a['m']], a['op'], members[a['m']]['cfg'], hooks, 99)
            members[a['m']]['ops'] = members[a['m']]['ops'] + [a['op']]
            pics[a['m']] = C.circuit_picture(circs[a['m']])
            for c in combos:
                if a['m'] in c[1]:
                    c[2] = True
            ctx.probe('member_grown')
        elif k == 'draw' and combo and all(circs[m].node_list for m in combo[1]):
            with seams.Display(fail_at=1 + int(a['frac'] * 12)) as d:
                try:
                    combo[0].draw()
                except seams.DisplayFailure:
                    pass
            if d.fired:
                ctx.fault('display_failure')
        elif k == 'fail' and combo and inputs[combo[1][0]]:
            left = [1 + x % 3]

            def on_call(kind, info):
                left[0] -= 1
                if left[0] == 0:
                    raise RuntimeError('simulated user failure')
            hooks.on_call = on_call
            try:
                combo[0].evaluate_circuit(B.collection(circs[combo[1][0]], members[combo[1][0]]['cfg'], inputs[combo[1][0]]))
            except RuntimeError as e:
                if 'simulated' not in str(e):
                    raise
                ctx.fault('user_function_raises')
            finally:
                hooks.on_call = None
        elif k in ('interrupt', 'alloc') and combo and want(combo[1]) is not None:
            coll = B.collection(circs[combo[1][0]], members[combo[1][0]]['cfg'], inputs[combo[1][0]])
            before = B.snapshot(coll)
            seam = seams.StepCounter if k == 'interrupt' else seams.AllocFaults
            with seam() as sc:
                combo[0].evaluate_circuit(coll)
            at = 1 + int(a['frac'] * sc.n)
            ok = None
            with (seams.StepCounter(at=at, exc=seams.Interrupt()) if k == 'interrupt' else seams.AllocFaults(at=at)) as sc2:
                try:
                    ok = combo[0].evaluate_circuit(coll)
                except BaseException:
                    if not sc2.fired:
                        raise
            ctx.steps += sc2.n
            if sc2.fired:
                ctx.fault('interrupt' if k == 'interrupt' else 'allocation_failure')
                if ok is not None:
                    raise Violation('failure-hidden', '%s: the run returned a result although it was %s' % (what, 'interrupted' if k == 'interrupt' else 'refused memory'))
            d = B.snapdiff(before, B.snapshot(coll))
            if d:
                raise Violation('input-changed', '%s: %s' % (what, d))
            execute(lambda c: combo[0].evaluate_circuit(c), combo[1], what + ' retry')
        elif k == 'spoil' and results:
            skip = x % len(results)
            C.spoil(results[skip][0], x)
            results[skip][1] = None
            ctx.fault('result_spoilt')
        elif k == 'alone':
            m = x % len(members)
            execute(lambda c: circs[m].evaluate_circuit(c), [m], what)
        elif k == 'reject' and combo:
            try:
                f.CompoundFockStateCircuit([circs[combo[1][0]], 'no circuit'])
            except Exception:
                ctx.fault('rejected_call')
        elif k == 'chain' and want(a['list']) is not None:
            cs = fresh(a['list'])
            execute(lambda c: cs[0].evaluate_circuit(c), a['list'], what)
            ctx.probe('bridge_chain')
            if x % 2:
                execute(lambda c: cs[0].evaluate_circuit(c), a['list'], what + ' again')
                if len(cs) > 1:
                    execute(lambda c: cs[1].evaluate_circuit(c), a['list'][1:], what + ' rest alone')
        elif k == 'tail' and want(a['list']) is not None and len(a['list']) > 1:
            cs = fresh(a['list'][1:])
            heads = []
            for _ in range(2):
                h = B.build(members[a['list'][0]]['cfg'], members[a['list'][0]]['ops'], hooks)
                h.bridge(cs[0])
                heads.append(h)
            for h in heads:
                execute(lambda c: h.evaluate_circuit(c), a['list'], what)
            if want(a['list'][1:]) is not None:
                execute(lambda c: cs[0].evaluate_circuit(c), a['list'][1:], what)
            ctx.probe('shared_tail')
        verify(what, skip)
    # at the end everything still works as its members say
    for c in combos:
        if c[2] and not c[3]:
            c[0].refresh()
        if not c[3]:
            execute(lambda q: c[0].evaluate_circuit(q), c[1], 'at the end, combination')
    for i in range(len(circs)):
        execute(lambda q: circs[i].evaluate_circuit(q), [i], 'at the end, member')
    verify('the end')
    if not results:
        raise Trivial('nothing ran')
    ctx.state(sorted(done)[:6], sorted({a['kind'] for a in s['actions']}))


# ------------------------------------------------------------------ delays and boxes across bridges
def histogram(coll, cfg):
    out = {}
    h = coll.plot(histo_output_instead_of_plot=True, classical_channels=list(range(cfg['n'])))
    for k, v in h.items():
        for x in v:
            vals = M.values_of(x['output_state'], cfg['L'], cfg['left'])
            if vals is None:
                raise Violation('malformed', 'outcome %r is not a basis state' % (x['output_state'],))
            out[k + ' -> ' + str(vals)] = out.get(k + ' -> ' + str(vals), 0.0) + float(x['probability'])
    return {k: v for k, v in out.items() if abs(v) > 1e-9}


def special(s, ctx):
    cfg = s['cfg']
    if not s['states'] or not s['ops']:
        raise Trivial('empty')
    f = B.lib()
    single = B.build(cfg, s['ops'])
    ref = histogram(single.evaluate_circuit(B.collection(single, cfg, s['states'])), cfg)
    cuts = [c for c in s['cuts'] if 0 < c < len(s['ops'])] + [len(s['ops'])]
    cs, a = [], 0
    for j, e in enumerate(cuts):
        c2 = dict(cfg, left=s['shapes'][j]['left'], L=cfg['L'] + s['shapes'][j]['L'], c=cfg['c'] + s['shapes'][j]['c'])
        if j == 0:
            c2 = dict(cfg)
        cs.append((c2, B.build(c2, s['ops'][a:e])))
        a = e
    if s['how'] == 'compound':
        comp = f.CompoundFockStateCircuit([c for _, c in cs])
        res = comp.evaluate_circuit(B.collection(cs[0][1], cfg, s['states']))
    else:
        for (_, x), (_, y) in zip(cs, cs[1:]):
            x.bridge(y)
        res = cs[0][1].evaluate_circuit(B.collection(cs[0][1], cfg, s['states']))
    got = histogram(res, cs[-1][0])
    for k in sorted(set(ref) | set(got)):
        if abs(ref.get(k, 0) - got.get(k, 0)) > 3e-4:
            raise Violation('differs-from-running-in-turn', '%s over bridges (%s): %s has probability %.5f, in one circuit %.5f' % (
                s['mode'], s['how'], k, got.get(k, 0), ref.get(k, 0)))
    for o in s['ops']:
        if o[0] == 'delayf':
            ctx.simtime += abs(o[2])
    ctx.probe('time_delay_over_bridge' if s['mode'] == 'delay' else 'pr_box_over_bridge')
    ctx.log('special', s['mode'], sorted((k, round(v, 3)) for k, v in got.items()))
    ctx.state(s['mode'], len(cuts), s['how'], [x['left'] for x in s['shapes']])
