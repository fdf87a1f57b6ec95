"""Measurement records over whole histories: append-only, truthful, repeatable, product rule, order independence."""
from .. import build as B, chaos, gen as G, model as M, common as C
from ..kernel import Rng, Trivial, Violation

LEVEL = 'exploration'
RUNS = {'quick': 1000, 'thorough': 30000}
FAULTS = ['rejected_call', 'user_function_raises', 'interrupt', 'allocation_failure', 'rejected_lookup', 'display_failure', 'output_write_error', 'kept_lists_spoilt']
PROBES = ['measured', 'measured_again', 'three_or_more_records', 'order_swapped', 'registers_overwritten', 'reduced', 'extended', 'product_checked', 'time_delay', 'pr_boxes',
          'partial_timed_measurement', 'chunked', 'unmeasured_register_kept']
RULE = ('A seeded generator draws an ensemble and a history of measurements of arbitrary channel sets mixed with gates, classical functions that overwrite '
        'registers (also in place or through a shared list), traces and extensions; each branch is tagged so that its parent is known and after every '
        'step the records are checked against the parent and against the amplitudes; all collections seen on the way are re-checked at the end.')
STATE_MEASURE = 'distinct (configuration, step kind, number of records, number of branches bucket)'
ASSUMPTIONS = ['recorded probabilities are compared to 2e-4 (single precision)']
SHRINK = ('steps', 'states', 'chaos')


def gen(rng, tier):
    mode = rng.wpick([('plain', 8), ('delay', 1.2), ('pr', 0.8)])
    if mode == 'delay':
        cfg = G.config(rng, sizes=[((3, 2), 3), ((3, 3), 2), ((4, 3), 1)], thr=1e-10, c=4)
        st = G.states(rng, cfg, 1, 2, cap=1, total=2, max_comps=1)
        steps = []
        for _ in range(rng.randint(1, 3)):
            steps.append(['delayf', [rng.randrange(cfg['n'])], round(rng.uniform(-2, 2), 2)])
            steps.append(G.one_op(rng, cfg, 'mix', C.branches(st), range(cfg['n']), [0]))
        chs = list(range(cfg['n']))
        rng.shuffle(chs)
        cut = rng.randint(1, len(chs))
        steps.append(['meas', chs[:cut], list(range(cut))])
        if rng.chance(0.5):
            steps.append(['setc', [7.0], [3]])
        if cut < len(chs) and rng.chance(0.7):
            steps.append(['meas', chs[cut:], list(range(cut, len(chs)))])
        if rng.chance(0.5):
            steps.append(['meas', chs[:cut], list(range(cut))])
        return {'mode': mode, 'cfg': cfg, 'states': st, 'steps': steps, 'chaos': []}
    if mode == 'pr':
        cfg = G.config(rng, sizes=[((2, 4), 1)], thr=1e-10, c=5)
        st = G.states(rng, cfg, 1, 3, total=0, max_comps=1)
        if rng.chance(0.6):     # members of one ensemble that can be told apart
            for j, x in enumerate(st):
                x['init'], x['p'] = 'm%d' % j, round(rng.uniform(0.15, 0.9), 3)
        steps = [['pr', [[rng.sample([0, 1, 2, 3], 4), round(rng.uniform(0.2, 1), 2)]]]]
        for _ in range(rng.randint(1, 3)):
            steps.append(['wp', *rng.pick([(0, 1), (2, 3)]), rng.angle(), 3.141592653589793])
        ch = steps[0][1][0][0]
        steps[1:] = [['wp', *rng.pick([(ch[0], ch[1]), (ch[2], ch[3])]), s[3], s[4]] for s in steps[1:]]
        cl = rng.sample(range(5), 4)
        chs = [0, 1, 2, 3]
        rng.shuffle(chs)
        steps.append(['meas', chs, cl])
        if rng.chance(0.5):
            steps.append(['setc', [7.0], [cl[0]]])
        if rng.chance(0.5):
            steps.append(['meas', chs, cl])
        return {'mode': mode, 'cfg': cfg, 'states': st, 'steps': steps, 'chaos': []}
    cfg, st, _ = C.history(rng, lo=0, hi=0, c_max=4, states_hi=3, sizes=G.SMALL + [((3, 4), 1), ((2, 5), 2)])
    br = C.branches(st)
    kinds = rng.sample(G.OPTICAL2, 3) + ['ps', 'cfun', 'cfun', 'setc', 'meas', 'meas', 'meas', 'perm', 'cshift', 'cps', 'cwp', 'kerr', 'ham', 'gident']
    steps = []
    cur = dict(cfg)
    for _ in range(rng.randint(2, 11)):
        chans, cls = list(range(cur['n'])), list(range(cur['c']))
        r = rng.random()
        if r < 0.05 and cur['n'] > 2:
            k = rng.sample(chans, rng.randint(2, cur['n']))
            kc = rng.sample(cls, rng.randint(1, cur['c']))
            br2 = M.reduce(br, k, kc)
            op = ['reduce', k, kc]
            cur['n'], cur['c'] = len(k), len(kc)
        elif r < 0.10 and cur['n'] < 5 and cur['L'] ** cur['n'] < 40:
            op = ['extend', 1, rng.randint(0, 2)]
            br2 = M.extend(br, 1, op[2], cur['L'])
            cur['n'], cur['c'] = cur['n'] + 1, cur['c'] + op[2]
        else:
            op = G.one_op(rng, cur, rng.pick(kinds), br, chans, cls, 40)
            if op is None:
                continue
            br2 = M.step(br, op, cur['L'], cur['n'])
        if len(br2) > 60 or max(len(b['vec']) for b in br2) > 100:
            break
        steps.append(op)
        br = br2
    return {'mode': mode, 'cfg': cfg, 'states': st, 'steps': steps, 'chaos': chaos.gen(rng, cfg, len(steps), 0.4), 'order_seed': rng.randint(0, 10 ** 6),
            'prior': rng.chance(0.3)}


def run(s, ctx):
    if not s['states'] or not s['steps']:
        raise Trivial('empty')
    if s['mode'] != 'plain':
        return run_special(s, ctx)
    cfg = dict(s['cfg'])
    hooks = B.Hooks()
    coll = B.collection(B.circuit(cfg), cfg, s['states'])
    if s['prior']:
        for j, st in enumerate(coll):
            st.measurement_results = [{'measurement_results': [8 + j] * cfg['c'], 'probability': 0.5}]
    seen = []
    label = {}
    for j, st in enumerate(coll):
        label['t%d' % j] = (s['states'][j]['init'], 1.0)
        st.initial_state = 't%d' % j
    start = {'t%d' % j: (x['p'], len(coll.get_state(initial_state='t%d' % j).measurement_results)) for j, x in enumerate(s['states'])}
    lineage = {t: {'root': t, 'q': 1.0} for t in start}
    product = True
    r = Rng(s['order_seed'])
    count = len(start)
    for i, op in enumerate(s['steps']):
        before = {b['init']: b for b in B.read(coll, cfg)}
        if len(before) != len(coll):
            raise Violation('tag-lost', 'two branches carry the same tag before step %d' % i)
        snap = B.snapshot(coll)
        parent_records = {st.initial_state: B.freeze(st.measurement_results) for st in coll}
        if op[0] in ('reduce', 'extend'):
            old = coll
            coll = coll.copy()
            if op[0] == 'reduce':
                coll.reduce(optical_channels_to_keep=list(op[1]), classical_channels_to_keep=list(op[2]))
                cfg = dict(cfg, n=len(op[1]), c=len(op[2]))
                product = False
                ctx.probe('reduced')
            else:
                coll.extend(extra_optical_channels=op[1], extra_classical_channels=op[2])
                cfg = dict(cfg, n=cfg['n'] + op[1], c=cfg['c'] + op[2])
                ctx.probe('extended')
            seen.append((old, snap, i))
            for st in coll:
                if B.freeze(st.measurement_results) != parent_records[st.initial_state]:
                    raise Violation('record-changed', 'step %d (%s) changed the records of a branch: %r -> %r'
                                    % (i, op[0], parent_records[st.initial_state], st.measurement_results))
        else:
            circ = B.build(cfg, [op], hooks)
            chaos.run(s['chaos'], i, ctx, cfg, circ, coll)
            out = C.evaluate(circ, coll)
            check_step(i, op, cfg, before, parent_records, out, lineage, ctx)
            if op[0] == 'meas':
                again(i, op, cfg, circ, out, ctx)
                order(i, op, cfg, coll, r, ctx)
            seen.append((coll, snap, i))
            coll = out
        if op[0] == 'cfun':
            ctx.probe('registers_overwritten')
        # new tags; remember the lineage
        newl = {}
        for st in coll:
            par = lineage[st.initial_state]
            t = 't%d' % count
            count += 1
            q = 1.0
            if op[0] == 'meas':
                q = float(st.measurement_results[-1]['probability'])
            newl[t] = {'root': par['root'], 'q': par['q'] * q}
            st.initial_state = t
        lineage = newl
        if hooks.kept and r.chance(0.5):
            for lst in hooks.kept:
                for k in range(len(lst)):
                    lst[k] = -77
            hooks.kept = []
            ctx.fault('kept_lists_spoilt')
        ctx.log('step', i, op[0], len(coll), sorted(round(float(st.cumulative_probability), 3) for st in coll)[:20])
        ctx.state(cfg['L'], cfg['n'], op[0], max([len(st.measurement_results) for st in coll] or [0]), len(coll).bit_length())
    for old, snap, i in seen:
        d = B.snapdiff(snap, B.snapshot(old))
        if d:
            raise Violation('earlier-records-changed', 'the collection before step %d looks different at the end: %s' % (i, d))
    if any(len(st.measurement_results) > 2 for st in coll):
        ctx.probe('three_or_more_records')
    if product:
        for st in coll:
            l = lineage[st.initial_state]
            p0, h0 = start[l['root']]
            want = p0
            for m in st.measurement_results[h0:]:
                want *= float(m['probability'])
            if not abs(want - float(st.cumulative_probability)) <= 3e-4:
                raise Violation('product-rule', 'a branch has probability %.6f, its start probability times its recorded probabilities is %.6f (%r)'
                                % (float(st.cumulative_probability), want, [float(m['probability']) for m in st.measurement_results[h0:]]))
        ctx.probe('product_checked')


def check_step(i, op, cfg, before, parent_records, out, lineage, ctx):
    got = B.read(out, cfg)
    kids = {}
    for b, st in zip(got, list(out)):
        if b['init'] not in before:
            raise Violation('malformed', 'step %d: unknown branch label %r' % (i, b['init']))
        kids.setdefault(b['init'], []).append((b, st))
    where = 'step %d (%s)' % (i, ' '.join(str(x) for x in op[:3]))
    for t, par in before.items():
        mine = kids.get(t, [])
        if op[0] != 'meas':
            for b, st in mine:
                if B.freeze(st.measurement_results) != parent_records[t]:
                    raise Violation('record-changed', '%s changed the records: %r -> %r' % (where, par['hist'], b['hist']))
            continue
        ctx.probe('measured')
        exp = {}
        for e in M.measure(par, op[1], op[2]):
            exp[tuple(e['cl'][c] for c in op[2])] = e
        found = set()
        for b, st in mine:
            rec = B.freeze(st.measurement_results)
            if len(rec) != len(parent_records[t]) + 1:
                raise Violation('record-count', '%s: %d records became %d' % (where, len(parent_records[t]) - 1, len(rec) - 1))
            if rec[:-1] != parent_records[t]:
                raise Violation('record-changed', '%s changed earlier records: %r -> %r' % (where, par['hist'], b['hist'][:-1]))
            vals, q = b['hist'][-1]
            if list(vals) != b['cl']:
                raise Violation('record-untrue', '%s: record %r, classical values right after it %r' % (where, list(vals), b['cl']))
            for c in range(cfg['c']):
                if c not in op[2] and b['cl'][c] != par['cl'][c]:
                    raise Violation('other-register', '%s: classical channel %d went from %r to %r' % (where, c, par['cl'][c], b['cl'][c]))
                if c not in op[2]:
                    ctx.probe('unmeasured_register_kept')
            seen = tuple(b['cl'][c] for c in op[2])
            for tt in b['vec']:
                if tuple(tt[c] for c in op[1]) != seen:
                    raise Violation('record-untrue', '%s: values %r recorded, but the branch contains %r photons there' % (where, seen, tuple(tt[c] for c in op[1])))
            key = tuple(float(v) for v in seen)
            if key in found:
                raise Violation('duplicate-outcome', '%s: outcome %r occurs twice' % (where, seen))
            found.add(key)
            e = exp.get(seen) or exp.get(tuple(int(v) for v in seen))
            if e is None:
                raise Violation('record-untrue', '%s: outcome %r was not possible' % (where, seen))
            if not abs(q - e['hist'][-1][1]) <= 2e-4:
                raise Violation('recorded-probability', '%s: outcome %r recorded with probability %.6f, it had %.6f' % (where, seen, q, e['hist'][-1][1]))
            if not abs(b['p'] - par['p'] * q) <= 2e-4:
                raise Violation('branch-probability', '%s: branch probability %.6f, parent %.6f times outcome %.6f' % (where, b['p'], par['p'], q))
        for k, e in exp.items():
            if tuple(float(v) for v in k) not in found and e['hist'][-1][1] > 1e-3:
                raise Violation('outcome-missing', '%s: outcome %r with probability %.4f is missing' % (where, k, e['hist'][-1][1]))


def again(i, op, cfg, circ, out, ctx):
    """Measuring the same channels again right away."""
    two = C.evaluate(circ, out)
    a, b = B.read(out, cfg), B.read(two, cfg)
    want = []
    for x in a:
        y = M.copy_branch(x)
        y['hist'] = x['hist'] + [(tuple(x['cl']), 1.0)]
        want.append(y)
    d = M.diff(b, want, phase=True)
    if d or len(b) != len(a):
        raise Violation('not-repeatable', 'measuring the channels of step %d (%r) again: %s' % (i, op[1:], d or '%d branches became %d' % (len(a), len(b))))
    ctx.probe('measured_again')


def order(i, op, cfg, coll, r, ctx):
    """The channel set split in two measurements, in both orders and at once."""
    if len(op[1]) < 2:
        return
    k = r.randint(1, len(op[1]) - 1)
    m1, m2 = ['meas', op[1][:k], op[2][:k]], ['meas', op[1][k:], op[2][k:]]
    res = [B.read(C.evaluate(B.build(cfg, ops), coll), cfg) for ops in ([op], [m1, m2], [m2, m1])]
    for nm, x in zip(('first part first', 'second part first'), res[1:]):
        d = M.diff(x, res[0], use_hist=False)
        if d:
            raise Violation('order-matters', 'step %d measured in two parts, %s: %s' % (i, nm, d))
    ctx.probe('order_swapped')


def run_special(s, ctx):
    """Time-resolved and box-correlated measurements, one node at a time and in chunks."""
    cfg = s['cfg']
    circ = B.build(cfg, s['steps'])
    coll = B.collection(circ, cfg, s['states'])
    n = 0
    ctx.probe('time_delay' if s['mode'] == 'delay' else 'pr_boxes')
    want_p = {}
    for x in s['states']:
        want_p[x['init']] = want_p.get(x['init'], 0) + x['p']
    prev = None
    for i, op in enumerate(s['steps']):
        before = coll
        recs = sorted(repr((st.initial_state, B.freeze(st.measurement_results))) for st in coll)
        snap = B.snapshot(coll)
        coll = C.evaluate(circ, coll, [i])
        d = B.snapdiff(snap, B.snapshot(before))
        if d:
            raise Violation('earlier-records-changed', 'step %d (%s) changed its input: %s' % (i, op[0], d))
        got = B.read(coll, cfg)
        if op[0] == 'meas':
            n += 1
            if len(op[1]) < cfg['n']:
                ctx.probe('partial_timed_measurement')
        old = {b for b in recs}
        for b, st in zip(got, list(coll)):
            if len(b['hist']) != n:
                raise Violation('record-count', 'step %d (%s): a branch has %d records after %d measurements' % (i, op[0], len(b['hist']), n))
            if op[0] == 'meas':
                vals, q = b['hist'][-1]
                real = st.auxiliary_information.get('photon_resolution', {}).get('group_cumulative_probability', b['p'])
                if list(vals) != b['cl']:
                    raise Violation('record-untrue', 'step %d: record %r, classical values right after it %r' % (i, list(vals), b['cl']))
                if real > 1e-6 and not -1e-3 <= q <= 1 + 1e-3:   # branches that cannot occur hold rounding noise
                    raise Violation('recorded-probability', 'step %d: recorded probability %r' % (i, q))
                if n == 1 or s['steps'][i - 1][0] in ('meas', 'setc'):
                    rest = repr((st.initial_state, B.freeze(st.measurement_results[:-1])))
                    if rest not in old:
                        raise Violation('record-changed', 'step %d changed earlier records to %r' % (i, b['hist'][:-1]))
            elif repr((st.initial_state, B.freeze(st.measurement_results))) not in old:
                raise Violation('record-changed', 'step %d (%s) changed the records to %r' % (i, op[0], b['hist']))
        if op[0] == 'meas':
            h = {}
            for k, v in coll.plot(classical_channels=list(range(cfg['c'])), histo_output_instead_of_plot=True).items():
                for x in v:
                    h[(k, x['output_state'])] = h.get((k, x['output_state']), 0) + float(x['probability'])
            tot = {}
            for (k, _), p in h.items():
                tot[k] = tot.get(k, 0) + p
            for k in want_p:
                if not abs(tot.get(k, 0) - want_p[k]) <= 2e-3:
                    raise Violation('branch-probability', 'step %d: outcomes of %r add up to %.5f instead of %.5f' % (i, k, tot.get(k, 0), want_p[k]))
            if prev is not None and prev[0] == op and prev[2] == i - 1:
                for k in sorted(set(h) | set(prev[1])):
                    if not abs(h.get(k, 0) - prev[1].get(k, 0)) <= 2e-3:
                        raise Violation('not-repeatable', 'step %d repeats a measurement: probability of %r went from %.5f to %.5f'
                                        % (i, k, prev[1].get(k, 0), h.get(k, 0)))
                ctx.probe('measured_again')
            prev = (op, h, i) if op[0] == 'meas' else prev
            if s['mode'] == 'pr' and len({x['init'] for x in s['states']}) == len(s['states']):
                start = {x['init']: x['p'] for x in s['states']}
                for b in got:
                    want = start[b['init']]
                    for _, q in b['hist']:
                        want *= q
                    if not abs(want - b['p']) <= 5e-4:
                        raise Violation('product-rule', 'step %d: a branch of %r has probability %.6f, its start probability times its recorded probabilities is %.6f (%r)'
                                        % (i, b['init'], b['p'], want, [q for _, q in b['hist']]))
                ctx.probe('product_checked')
        ctx.log('step', i, op[0], len(got), sorted(repr(C.rnd(b['p'], 3)) for b in got)[:20])
        ctx.state(s['mode'], cfg['L'], cfg['n'], op[0], n)
    ctx.simtime += sum(abs(o[2]) for o in s['steps'] if o[0] == 'delayf')
