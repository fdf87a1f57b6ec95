"""Feed-forward histories; every controlled element is replaced, branch by branch, by the fixed element set to what that branch holds at that moment."""
from .. import build as B, chaos, gen as G, model as M, common as C, seams
from ..kernel import Trivial, Violation
from .H13 import histogram

LEVEL = 'exploration'
RUNS = {'quick': 900, 'thorough': 25000}
FAULTS = ['rejected_call', 'user_function_raises', 'interrupt', 'allocation_failure', 'user_function_failed_midway', 'restarted_between_pieces']
PROBES = ['branches_differ', 'written_by_measurement', 'written_by_function', 'written_by_collection_function', 'rewritten_before_use', 'same_channel_twice', 'phase_control',
          'plate_control', 'operator_plate_control', 'delay_control', 'quick_delay_control', 'overflow_pair', 'node_by_node', 'counting_function', 'mixture', 'many_branches',
          'bad_values_refused']
RULE = ('A seeded generator draws an ensemble whose members hold different classical values and a history dense in classically controlled elements and in writes to the '
        'channels they read. The real circuit is run on the whole ensemble (at once, in pieces or node by node, also after failing or interrupted attempts); in parallel '
        'every branch is carried through on its own with the uncontrolled elements set to its own values and with the user functions applied outside the library. '
        'Compared: ensembles (probabilities, states with phases, records), the log of calls every user function received, and what each step leaves alone.')
STATE_MEASURE = 'distinct (configuration, step kinds, number of branches, number of distinct control settings)'
SHRINK = ('chaos', 'ops', 'states')
ASSUMPTIONS = ['the uncontrolled elements are checked by H01 and H15']
CTRL = ['cps', 'cwp', 'chamwp']
WRITE = ['meas', 'setc', 'cfun', 'gsplit']
OTHER = ['mix', 'wp', 'swap', 'ps', 'hwp', 'qwp225', 'cust', 'shiftd', 'cshiftd', 'npbs', 'kerr', 'hamwp']


def gen(rng, tier):
    if rng.chance(0.2):
        return gen_timed(rng)
    cfg = G.config(rng, c_max=5, thr=1e-10)
    st = G.states(rng, cfg, 1, 4, max_comps=3)
    br = C.branches(st)
    kinds = CTRL * 2 + [k for k in WRITE * 2 if rng.chance(0.8)] + [k for k in OTHER if rng.chance(0.4)]
    ops, mb = [], br
    for _ in range(rng.randint(2, 12)):
        new, mb2 = G.ops(rng, cfg, mb, 1, kinds=kinds, max_branches=40)
        ops += new
        mb = mb2
        if rng.chance(0.15):
            ops.append(['count', rng.randrange(cfg['c'])])
            break
    last = []
    if not any(o[0] == 'count' for o in ops):
        # make control matter for what can be seen
        for k in (rng.pick(CTRL), rng.pick(['mix', 'wp']), 'meas' if rng.chance(0.6) else 'mix'):
            op = G.one_op(rng, cfg, k, mb, list(range(cfg['n'])), list(range(cfg['c'])), 40)
            if op:
                last.append(op)
                mb = M.step(mb, op, cfg['L'], cfg['n'])
    ops += last
    nodes = rng.chance(0.35) or any(o[0] == 'count' for o in ops)
    return {'mode': 'plain', 'cfg': cfg, 'states': st, 'ops': ops, 'node_by_node': nodes, 'fail': round(rng.random(), 4) if rng.chance(0.3) else None,
            'cuts': sorted(rng.sample(range(1, len(ops)), rng.randint(1, min(3, len(ops) - 1)))) if rng.chance(0.4) and len(ops) > 1 else [],
            'chaos': chaos.gen(rng, cfg, len(ops) + 1, 0.4, hi=3)}


def gen_timed(rng):
    cfg = G.config(rng, sizes=[((3, 2), 3), ((3, 3), 2), ((4, 2), 1)], c=rng.randint(3, 5), thr=1e-10)
    n = cfg['n']
    st = G.states(rng, cfg, 1, 4, cap=1, total=rng.randint(1, 2), max_comps=2)
    quick = rng.chance(0.3)
    ops, mb, timed, bad = [], C.branches(st), 0, set()
    for _ in range(rng.randint(2, 8)):
        good = [c for c in range(cfg['c']) if c not in bad]
        k = rng.wpick([('cdelay', 4), ('delay', 1), ('cwp', 2), ('cps', 2), ('mix', 2), ('wp', 1), ('setc', 2), ('cfun', 2), ('meas', 1), ('gsplit', 0.5)])
        if k in ('cdelay', 'delay'):
            if quick and timed:
                continue
            if k == 'cdelay' and not good:
                continue
            timed += 1
            chans = rng.sample(range(n), rng.randint(1, n - 1))
            op = [k + ('' if quick else 'f'), chans, rng.pick(good) if k == 'cdelay' else round(rng.uniform(-2, 2), 2)]
        elif k in ('cps', 'cwp', 'cfun', 'setc', 'gsplit'):
            if not good or k == 'gsplit' and timed:
                continue
            op = G.one_op(rng, cfg, k, mb, list(range(n)), good, 30)
        else:
            op = G.one_op(rng, cfg, k, mb, list(range(n)), list(range(cfg['c'])), 20)
        if op is None:
            continue
        if k == 'meas' and timed:
            bad |= set(op[2])
        if k not in ('cdelay', 'delay'):
            mb = M.step(mb, op, cfg['L'], n)
        if len(mb) > 24 or any(abs(v) > 20 for b in mb for v in b['cl']):
            break
        ops.append(op)
    if not any(o[0].startswith('cdelay') for o in ops) and not (quick and timed):
        good = [c for c in range(cfg['c']) if c not in bad]
        if good:
            ops.append(['cdelay' if quick else 'cdelayf', [0], rng.pick(good)])
    ops += [['mix', *G.two(rng, range(n))], ['meas', list(range(n)), rng.sample(range(cfg['c']), n)]]
    rest = [c for c in range(cfg['c']) if c not in ops[-1][2]]
    ops.append(['setc', [0] * len(rest), rest])
    return {'mode': 'timed', 'cfg': cfg, 'states': st, 'ops': ops, 'chaos': chaos.gen(rng, cfg, len(ops) + 1, 0.3, hi=2), 'cuts': [], 'node_by_node': False,
            'fail': round(rng.random(), 4) if rng.chance(0.3) else None}


def fixed(op, cl):
    k = op[0]
    if k == 'cps':
        return ['ps', op[1], cl[op[2]]]
    if k == 'cwp':
        return ['wp', op[1], op[2], cl[op[3]], cl[op[4]]]
    if k == 'chamwp':
        return ['hamwp', op[1], op[2], cl[op[3]], cl[op[4]]]
    if k in ('cdelay', 'cdelayf'):
        return [k[1:], op[1], cl[op[2]]] + op[3:]
    return op


def one_step(cfg, op):
    circ = B.circuit(cfg)
    B.add_op(circ, op, cfg)
    return circ


def gather(cfg, states):
    circ = B.circuit(cfg)
    out = B.lib().CollectionOfStates(circ, input_collection_as_a_dict=dict([]))
    for i, st in enumerate(states):
        out.add_state(st.copy(), identifier='b%d' % i)
    return out


def branch_by_branch(ctx, cfg, ops, states, calls):
    """Every branch on its own with fixed elements; user functions are applied here, not by the library."""
    cur = list(states)
    settings = set()
    for i, op in enumerate(ops):
        k = op[0]
        if k in ('setc', 'cfun'):
            new = []
            for st in cur:
                st = st.copy()
                old = list(st.classical_channel_values)
                if k == 'cfun':
                    calls.append((i, tuple(old), tuple(op[3]), tuple(op[2])))
                    st.classical_channel_values = M.cfun_apply(old, op[1], op[2], op[3])
                else:
                    for v, c in zip(op[1], op[2]):
                        old[c] = v
                    st.classical_channel_values = old
                new.append(st)
            cur = new
        elif k in CTRL:
            new = []
            for st in cur:
                f = fixed(op, st.classical_channel_values)
                settings.add((i, repr(f)))
                new.extend(list(one_step(cfg, f).evaluate_circuit(collection_of_states_input=gather(cfg, [st]))))
            cur = new
        else:
            cur = list(one_step(cfg, op).evaluate_circuit(collection_of_states_input=gather(cfg, cur)))
        if len(cur) > 150:
            raise Trivial('too many branches')
    return cur, settings


def same_calls(got, want):
    """Calls in node order; within a node one per branch (in any order of the branches)."""
    def key(c):
        return (c[0], [C.rnd(v, 5) for v in c[1]], [C.rnd(v, 5) for v in c[2]], list(c[3]))
    tags = [c[0] for c in got]
    if tags != sorted(tags):
        raise Violation('calls-out-of-order', 'user functions of the nodes were called in the order %s' % tags)
    for t in sorted(set(tags) | {c[0] for c in want}):
        a, b = [c for c in got if c[0] == t], [c for c in want if c[0] == t]
        if len(a) != len(b):
            raise Violation('calls-not-once-per-branch', 'the function of step %d was called %d times for %d branches' % (t, len(a), len(b)))
        rest = list(b)
        for c in a:
            for d in rest:
                if C.close(key(c), key(d), 1e-4):
                    rest.remove(d)
                    break
            else:
                raise Violation('called-with-other-values', 'the function of step %d was called with %s, no branch holds that; branches hold %s' % (
                    t, [list(x) for x in c[1:]], [[list(x) for x in d[1:]] for d in rest[:4]]))


def add(circ, op, cfg, hooks, i, log):
    if op[0] == 'count':
        def counting(current_values, new_input_values, affected_channels):
            before = list(current_values)
            current_values[affected_channels[0]] = 100 + len(log)
            log.append((before, list(current_values)))
            return list(current_values)
        circ.classical_channel_function(counting, affected_channels=[op[1]], new_input_values=[])
    else:
        B.add_op(circ, op, cfg, hooks, i)


def node_by_node(ctx, s, circ, coll, hooks, log):
    """Runs one step at a time and looks at what each step leaves alone."""
    cfg, ops = s['cfg'], s['ops']
    at = 0
    for i, op in enumerate(ops):
        k = op[0]
        probe = B.circuit(cfg)
        add(probe, op, cfg, None, i, [])
        width = len(probe.node_list)
        before = {b['id']: b for b in B.read(coll, cfg, ids=True)}
        mark, mark2 = len(hooks.calls), len(log)
        coll = circ.evaluate_circuit(collection_of_states_input=coll, nodes_to_be_evaluated=list(range(at, at + width)))
        at += width
        after = {b['id']: b for b in B.read(coll, cfg, ids=True)}
        if k in ('setc', 'cfun', 'count'):
            if set(before) != set(after):
                raise Violation('branches-changed', 'a classical step changed the branches from %s to %s' % (sorted(before), sorted(after)))
            pairs = []
            for ident in before:
                a, b = before[ident], after[ident]
                for f in ('init', 'p', 'vec', 'hist'):
                    if not C.close(B.freeze(a[f]), B.freeze(b[f]), 0):
                        raise Violation('classical-step-changed-more', 'step %d (%s) changed %s of a branch: %s -> %s' % (i, k, f, str(a[f])[:100], str(b[f])[:100]))
                pairs.append((a['cl'], b['cl']))
            if k == 'cfun':
                for a, b in pairs:
                    want = M.cfun_apply(list(a), op[1], op[2], op[3])
                    if not C.close([float(v) for v in want], b, 1e-6):
                        raise Violation('not-what-was-returned', 'step %d: the function returned %s for %s, the branch holds %s' % (i, want, a, b))
                if len(hooks.calls) - mark != len(before):
                    raise Violation('calls-not-once-per-branch', 'the function of step %d was called %d times for %d branches' % (i, len(hooks.calls) - mark, len(before)))
            elif k == 'setc':
                for a, b in pairs:
                    want = list(a)
                    for v, c in zip(op[1], op[2]):
                        want[c] = float(v)
                    if not C.close(want, b, 1e-9):
                        raise Violation('not-what-was-set', 'step %d sets %s in channels %s; a branch went from %s to %s' % (i, op[1], op[2], a, b))
            else:
                ctx.probe('counting_function')
                rest = [(list(map(float, x)), list(map(float, y))) for x, y in log[mark2:]]
                if len(rest) != len(pairs):
                    raise Violation('calls-not-once-per-branch', 'the function of step %d was called %d times for %d branches' % (i, len(rest), len(pairs)))
                for a, b in pairs:
                    hit = [r for r in rest if C.close(r[0], a, 1e-9) and C.close(r[1], b, 1e-9)]
                    if not hit:
                        raise Violation('returned-values-mixed-up', 'step %d: a branch went from %s to %s, but the function never returned that for it (%s)' % (i, a, b, rest[:5]))
                    rest.remove(hit[0])
        elif k in CTRL:
            if len(before) != len(after):
                raise Violation('branches-changed', 'a controlled element changed the number of branches from %d to %d' % (len(before), len(after)))
            x = sorted((b['init'], C.rnd(b['p'], 5), b['cl'], b['hist']) for b in before.values())
            y = sorted((b['init'], C.rnd(b['p'], 5), b['cl'], b['hist']) for b in after.values())
            if not C.close(x, y, 1e-4):
                raise Violation('control-changed-more', 'step %d (%s) changed more than the light: %s' % (i, k, C.first_difference(x, y)))
    ctx.probe('node_by_node')
    return coll


def attempt(ctx, s, circ, coll, hooks, nodes):
    """An evaluation in which the k-th call of a user function fails."""
    state = {'n': 0}

    def count(kind, info):
        state['n'] += 1
    hooks.on_call = count
    circ.evaluate_circuit(collection_of_states_input=coll)
    total = state['n']
    if not total:
        hooks.on_call = None
        return
    k = 1 + int(s['fail'] * total)
    state['n'] = 0

    def fail(kind, info):
        state['n'] += 1
        if state['n'] == k:
            raise ArithmeticError('simulated failure in call %d' % k)
    hooks.on_call = fail
    pic = B.snapshot(coll)
    try:
        circ.evaluate_circuit(collection_of_states_input=coll)
    except ArithmeticError:
        ctx.fault('user_function_failed_midway')
    else:
        raise Violation('failure-swallowed', 'call %d of %d of a user function failed, the evaluation went on' % (k, total))
    finally:
        hooks.on_call = None
    d = B.snapdiff(pic, B.snapshot(coll))
    if d:
        raise Violation('input-changed', 'after a failing user function the input collection changed: ' + d)


def run(s, ctx):
    cfg, ops = s['cfg'], s['ops']
    if not s['states'] or not ops:
        raise Trivial('nothing to do')
    if s['mode'] == 'timed':
        return run_timed(s, ctx)
    hooks, log = B.Hooks(), []
    circ = B.circuit(cfg)
    for i, op in enumerate(ops):
        chaos.run(s['chaos'], i, ctx, cfg, circ, None)
        add(circ, op, cfg, hooks, i, log)
    coll = B.collection(circ, cfg, s['states'])
    counting = any(o[0] == 'count' for o in ops)
    want, calls, settings = None, [], set()
    if not counting:
        want, settings = branch_by_branch(ctx, cfg, ops, list(coll), calls)
        want = B.read(gather(cfg, want), cfg)
    chaos.run(s['chaos'], len(ops), ctx, cfg, circ, coll)
    if s['fail'] is not None:
        attempt(ctx, s, circ, coll, hooks, len(circ.node_list))
    del hooks.calls[:]
    del log[:]
    if s['node_by_node']:
        res = node_by_node(ctx, s, circ, coll, hooks, log)
    elif s['cuts'] and len(circ.node_list) == len(ops):
        res, at = coll, 0
        for c in [x for x in s['cuts'] if x < len(ops)] + [len(ops)]:
            if c > at:
                res = C.evaluate(circ, res, range(at, c))
                at = c
        ctx.fault('restarted_between_pieces')
    else:
        res = C.evaluate(circ, coll)
    got = B.read(res, cfg)
    ctx.log('result', len(got), C.summary(got))
    if not counting:
        made = [(c[1][0],) + tuple(c[1][1:]) for c in hooks.calls if c[0] == 'cfun']
        same_calls(made, calls)
        C.expect(got, want, 'not-its-own-values', 'compared with fixed elements set branch by branch', phase=True)
    probes(ctx, s, got, settings)


def run_timed(s, ctx):
    cfg, ops = s['cfg'], s['ops']
    if not any(o[0] == 'meas' for o in ops) or sum(o[0] in ('delay', 'cdelay') for o in ops) > 1:
        raise Trivial('nothing measured')
    if any(o[0] in ('delay', 'cdelay') for o in ops) and any(o[0] in ('delayf', 'cdelayf') for o in ops):
        raise Trivial('quick delays are for one use')
    first = min([i for i, o in enumerate(ops) if 'delay' in o[0]] or [len(ops)])
    hooks = B.Hooks()
    circ = B.circuit(cfg)
    for i, op in enumerate(ops):
        chaos.run(s['chaos'], i, ctx, cfg, circ, None)
        B.add_op(circ, op, cfg, hooks, i)
    coll = B.collection(circ, cfg, s['states'])
    cur, settings = branch_by_branch(ctx, cfg, ops[:first], list(coll), [])
    want = {}
    for st in cur:
        cl = list(st.classical_channel_values)
        mine = B.circuit(cfg)
        tainted = set()
        for i, op in enumerate(ops[first:]):
            k = op[0]
            reads = {'cps': op[2:3], 'cwp': op[3:5], 'cdelay': op[2:3], 'cdelayf': op[2:3]}.get(k, [])
            if set(reads) & tainted:
                raise Trivial('control depends on a later measurement')
            f = fixed(op, cl)
            if f is not op:
                settings.add((i, repr(f)))
            B.add_op(mine, f, cfg)
            if k == 'meas':
                tainted |= set(op[2])
            elif k == 'cfun':
                if tainted & set(op[2]):
                    raise Trivial('function depends on a later measurement')
                cl = M.cfun_apply(cl, op[1], op[2], op[3])
            elif k == 'setc':
                for v, c in zip(op[1], op[2]):
                    cl[c] = v
        for k, v in histogram(mine.evaluate_circuit(collection_of_states_input=gather(cfg, [st])), cfg).items():
            want[k] = want.get(k, 0.0) + v
    chaos.run(s['chaos'], len(ops), ctx, cfg, circ, coll)
    if s['fail'] is not None:
        attempt(ctx, s, circ, coll, hooks, len(circ.node_list))
    got = histogram(C.evaluate(circ, coll), cfg)
    ctx.log('statistics', sorted((k, round(v, 4)) for k, v in got.items() if v > 1e-4))
    for k in sorted(set(got) | set(want)):
        a, b = got.get(k, 0.0), want.get(k, 0.0)
        if not abs(a - b) <= 5e-4:
            raise Violation('not-its-own-delay', 'probability of %s: %.5f, with elements set branch by branch %.5f' % (k, a, b))
    probes(ctx, s, [], settings)


def probes(ctx, s, got, settings):
    cfg, ops = s['cfg'], s['ops']
    kinds = [o[0] for o in ops]
    per = {}
    for i, f in settings:
        per.setdefault(i, set()).add(f)
    if any(len(v) > 1 for v in per.values()):
        ctx.probe('branches_differ')
    written = {}
    for o in ops:
        reads = {'cps': o[2:3], 'cwp': o[3:5], 'chamwp': o[3:5], 'cdelay': o[2:3], 'cdelayf': o[2:3]}.get(o[0], [])
        for c in reads:
            ws = written.get(c, [])
            if ws:
                ctx.probe({'meas': 'written_by_measurement', 'gsplit': 'written_by_collection_function'}.get(ws[-1], 'written_by_function'))
                if len(ws) > 1:
                    ctx.probe('rewritten_before_use')
        if len(reads) == 2 and reads[0] == reads[1]:
            ctx.probe('same_channel_twice')
        for c in {'meas': o[2] if o[0] == 'meas' else [], 'setc': o[2] if o[0] == 'setc' else [], 'cfun': o[2] if o[0] == 'cfun' else [],
                  'gsplit': [o[1]] if o[0] == 'gsplit' else []}.get(o[0], []):
            written.setdefault(c, []).append(o[0])
    for k, p in (('cps', 'phase_control'), ('cwp', 'plate_control'), ('chamwp', 'operator_plate_control'), ('cdelayf', 'delay_control'), ('cdelay', 'quick_delay_control')):
        if k in kinds:
            ctx.probe(p)
    if any(t[0] + t[1] >= cfg['L'] for b in got for t in b['vec']):
        ctx.probe('overflow_pair')
    if len({x['init'] for x in s['states']}) < len(s['states']):
        ctx.probe('mixture')
    if len(got) > 12:
        ctx.probe('many_branches')
    ctx.state(cfg['L'], cfg['n'], cfg['left'], sorted(kinds), len(got), len(settings))
