"""Atomicity under failures: refused arguments, failing user functions, failing allocations, interrupts at any library line."""
from .. import build as B, gen as G, model as M, common as C, chaos, seams
from ..kernel import Trivial, Violation

LEVEL = 'fault_enumeration'
RUNS = {'quick': 450, 'thorough': 30000}
FAULTS = ['interrupt', 'memory_error_at_line', 'allocation_failure', 'user_function_raises', 'rejected_call', 'build_interrupt', 'build_memory_error_at_line', 'build_allocation_failure']
PROBES = ['fault_not_reached', 'time_delay', 'pr_boxes', 'quick_delay', 'bridge', 'compound', 'records_in_input', 'selection', 'interrupted_step_complete', 'plain',
          'first_line', 'last_lines', 'system_exit', 'stop_iteration', 'default_input']
RULE = ('A seeded generator draws an experiment and a sequence of faults; each is placed at a fraction of the lines, allocations or user calls that the '
        'same action needs undisturbed (dry run), while steps are being added and while the circuit is evaluated.  After every fault the circuit and the '
        'input are compared with before, the error must be the injected one, and retrying must give the result of an undisturbed twin process.')
STATE_MEASURE = 'distinct (library function interrupted, fault kind)'
SHRINK = ('ops', 'states', 'faults', 'ops2')
ASSUMPTIONS = ['an interrupt after the last effect of adding a step may leave the complete step', 'interrupts are delivered between source lines of the library']
ERRORS = ['RuntimeError', 'ValueError', 'KeyError', 'IndexError', 'ZeroDivisionError', 'TypeError', 'AttributeError', 'StopIteration', 'MemoryError', 'KeyboardInterrupt',
          'SystemExit', 'AssertionError', 'OSError', 'RecursionError', 'UnboundLocalError', 'FloatingPointError']


def error(name):
    import builtins
    if name == 'MemoryError':
        return MemoryError('simulated')
    if name == 'KeyboardInterrupt':
        return seams.Interrupt()
    return getattr(builtins, name)('simulated failure')


def gen(rng, tier):
    mode = rng.wpick([('plain', 8), ('delay', 1), ('quick', 0.7), ('pr', 0.8), ('bridge', 1), ('compound', 0.7)])
    ops2, cfg2 = [], None
    if mode == 'delay':
        cfg = G.config(rng, sizes=[((3, 2), 2), ((3, 3), 1)], thr=1e-10, c=3)
        st = G.states(rng, cfg, 1, 2, cap=1, total=2, max_comps=2)
        ops = [['delayf', [0], 0.5], ['mix', 0, 1]]
        if rng.chance(0.5):
            ops.append(['delayf', [1], -0.25])
        ops.append(['meas', list(range(cfg['n'])), list(range(cfg['n']))] if rng.chance(0.6) else ['wp', 1, 0, 0.3, 1.1])
    elif mode == 'quick':
        cfg = G.config(rng, sizes=[((3, 2), 2), ((3, 3), 1)], thr=1e-10, c=2)
        st = G.states(rng, cfg, 1, 2, cap=1, total=2, max_comps=2)
        ops = [['delay', [0], 0.6], ['mix', 0, 1], ['meas', [0], [1]]]
    elif mode == 'pr':
        cfg = G.config(rng, sizes=[((2, 4), 1)], thr=1e-10, c=4)
        st = G.states(rng, cfg, 1, 2, total=0, max_comps=1)
        ops = [['pr', [[[0, 1, 2, 3], 0.9]]], ['hwp', 0, 1, 0.3], ['hwp', 2, 3, 0.5], ['meas', [0, 1, 2, 3], [0, 1, 2, 3]]]
    else:
        cfg, st, ops = C.history(rng, lo=1, hi=7, states_hi=3, thr=1e-10)
        if mode in ('bridge', 'compound'):
            cfg2 = G.config(rng, sizes=[((cfg['L'], 2), 1), ((cfg['L'], 3), 1)], thr=1e-10)
            ops2 = [['mix', 0, 1], ['meas', [0], [0]]]
            if cfg['L'] ** cfg['n'] > 130:
                cfg2, ops2, mode = None, [], 'plain'
    if mode != 'plain' and rng.chance(0.4):
        ops.append(['cfun', 'add', [0], [1], 'inplace'])
    hist = [[round(rng.uniform(0.1, 1), 2) for _ in range(rng.randint(0, 2))] for _ in st]
    faults = []
    for _ in range(rng.randint(1, 6)):
        k = rng.wpick([('line', 5), ('linemem', 2.5), ('alloc', 3), ('user', 2.5), ('reject', 1), ('b_line', 1.2), ('b_linemem', 1), ('b_alloc', 0.8), ('ok', 0.7)])
        f = {'kind': k, 'frac': rng.pick([0.0, 1.0, 0.999, 0.5]) if rng.chance(0.12) else round(rng.random(), 5), 'x': rng.randint(0, 10 ** 6)}
        if k == 'user':
            f['error'] = rng.pick(ERRORS)
        faults.append(f)
    nodes = None
    if mode == 'plain' and rng.chance(0.2):
        nodes = [rng.randrange(len(ops)) for _ in range(rng.randint(1, 4))]
        if any(o[0] not in ('mix', 'wp', 'swap', 'hwp', 'qwp', 'meas', 'setc', 'cfun', 'cust', 'gident') for o in ops):
            nodes = None
    return {'mode': mode, 'cfg': cfg, 'states': st, 'ops': ops, 'cfg2': cfg2, 'ops2': ops2, 'faults': faults, 'hist': hist, 'nodes': nodes,
            'chaos': chaos.gen(rng, cfg, 3, 0.25)}


def prepare(s, hooks):
    f = B.lib()
    cfg = s['cfg']
    circ = B.build(cfg, s['ops'], hooks)
    target, others = circ, []
    if s['cfg2'] is not None:
        nxt = B.build(s['cfg2'], s['ops2'], hooks)
        others.append(nxt)
        if s['mode'] == 'bridge':
            circ.bridge(nxt)
        else:
            target = f.CompoundFockStateCircuit([circ, nxt])
    coll = B.collection(circ, cfg, s['states'])
    for st, h in zip(coll, s['hist']):
        if h:
            st.measurement_results = [{'measurement_results': [1] * cfg['c'], 'probability': q} for q in h]
    return circ, target, others, coll


def evaluate(target, coll, s):
    if s['nodes'] and all(i < len(target.node_list) for i in s['nodes']):
        return target.evaluate_circuit(collection_of_states_input=coll, nodes_to_be_evaluated=list(s['nodes']))
    return target.evaluate_circuit(collection_of_states_input=coll)


def content(coll):
    out = []
    for ident, st in coll.items():
        out.append([st.initial_state, C.rnd(st.cumulative_probability, 5),
                    sorted([k, C.rnd(v['amplitude'], 4), C.rnd(v['probability'], 5)] for k, v in st.optical_components.items()),
                    [C.rnd(v, 5) for v in st.classical_channel_values],
                    [[[C.rnd(v, 5) for v in m['measurement_results']], C.rnd(m['probability'], 5)] for m in st.measurement_results],
                    sorted(st.auxiliary_information)])
    return C.jsonable(out)


def ready(s):
    hooks = B.Hooks()
    circ, target, others, coll = prepare(s, hooks)
    return content(evaluate(target, coll, s))


def run(s, ctx):
    cfg = s['cfg']
    if not s['states'] or not s['ops']:
        raise Trivial('empty')
    want = C.in_fork(lambda: ready(s))
    hooks = B.Hooks()
    circ, target, others, coll = prepare(s, hooks)
    base = B.snapshot(coll)
    pics = [C.circuit_picture(c) for c in [circ] + others]
    ctx.probe({'delay': 'time_delay', 'quick': 'quick_delay', 'pr': 'pr_boxes'}.get(s['mode'], s['mode']))
    if any(s['hist']):
        ctx.probe('records_in_input')
    if s['nodes']:
        ctx.probe('selection')

    def verify(what):
        d = B.snapdiff(base, B.snapshot(coll))
        if d:
            raise Violation('input-changed', '%s changed the input collection: %s' % (what, d))
        for p, c in zip(pics, [circ] + others):
            C.same_circuit(p, c, what)

    def retry(what):
        got = content(evaluate(target, coll, s))
        d = C.first_difference(got, want)
        if d:
            raise Violation('retry-differs', '%s: %s (disturbed, then undisturbed)' % (what, d))

    for n, f in enumerate(s['faults']):
        k = f['kind']
        what = 'fault %d (%s)' % (n, k)
        chaos.run(s['chaos'], n, ctx, cfg, circ if s['mode'] == 'plain' else None, coll if s['mode'] == 'plain' else None)
        ctx.log('fault', n, k)
        if k == 'ok':
            retry(what)
            verify(what)
            continue
        if k == 'reject':
            have = len(circ.node_list)
            try:
                chaos.reject(circ, cfg, chaos.REJECTS[f['x'] % len(chaos.REJECTS)])
            except Exception:
                ctx.fault('rejected_call')
            else:
                del circ.node_list[have:]
        elif k in ('b_line', 'b_linemem', 'b_alloc'):
            build_fault(s, ctx, circ, f, hooks, what)
        elif k == 'user':
            calls = len(hooks.calls)
            evaluate(target, coll, s)
            total = len(hooks.calls) - calls
            if not total:
                ctx.probe('fault_not_reached')
                continue
            at = 1 + min(total - 1, int(f['frac'] * total))
            exc = error(f['error'])
            left = [at]

            def on_call(kind, info):
                left[0] -= 1
                if left[0] == 0:
                    raise exc
            hooks.on_call = on_call
            reached = None
            try:
                evaluate(target, coll, s)
            except BaseException as e:
                reached = e
            finally:
                hooks.on_call = None
            ctx.fault('user_function_raises')
            if f['error'] == 'StopIteration':
                ctx.probe('stop_iteration')
            if f['error'] == 'SystemExit':
                ctx.probe('system_exit')
            ctx.state('user', f['error'])
            if reached is None:
                raise Violation('failure-hidden', '%s: a user function raised %s and the evaluation returned a result' % (what, f['error']))
            if reached is not exc:
                raise Violation('failure-changed', '%s: a user function raised %r and the caller received %r' % (what, exc, reached))
        else:
            if k == 'alloc':
                with seams.AllocFaults() as sc:
                    evaluate(target, coll, s)
            else:
                with seams.StepCounter() as sc:
                    evaluate(target, coll, s)
            total = sc.n
            if not total:
                ctx.probe('fault_not_reached')
                continue
            at = 1 + min(total - 1, int(f['frac'] * total))
            if at == 1:
                ctx.probe('first_line')
            if at > total - 3:
                ctx.probe('last_lines')
            exc = seams.Interrupt() if k == 'line' else MemoryError('simulated')
            done, reached, result = False, None, None
            with (seams.AllocFaults(at=at) if k == 'alloc' else seams.StepCounter(at=at, exc=exc)) as sc2:
                try:
                    result = evaluate(target, coll, s)
                    done = True
                except BaseException as e:
                    reached = e
            ctx.steps += total + sc2.n
            if not sc2.fired:
                if not done:
                    raise reached
                ctx.probe('fault_not_reached')
            else:
                ctx.fault({'line': 'interrupt', 'linemem': 'memory_error_at_line', 'alloc': 'allocation_failure'}[k])
                ctx.state(k, getattr(sc2, 'where', None) or s['mode'])
                if done:
                    raise Violation('failure-hidden', '%s at %s: the evaluation went on and returned a result' % (what, getattr(sc2, 'where', 'allocation %d' % at)))
                if k == 'line' and reached is not exc:         # (a failing allocation may be reported in other words)
                    raise Violation('failure-changed', '%s at %s: the caller received %r instead of the failure itself' % (
                        what, getattr(sc2, 'where', 'allocation %d' % at), reached))
        verify(what)
        if f['x'] % 3 == 0:
            retry(what)
            verify(what + ', retry')
    retry('at the end')
    verify('the last evaluation')
    # with nothing given as input
    if s['mode'] == 'plain' and cfg['L'] ** cfg['n'] <= 16 and not s['nodes'] and cfg['c'] and all(o[0] in G.OPTICAL2 for o in s['ops']):
        ctx.probe('default_input')
        if len(circ.evaluate_circuit()) != cfg['L'] ** cfg['n']:
            raise Violation('retry-differs', 'evaluation without input no longer evaluates all basis states')
    ctx.log('end', C.jsonable(want)[:4])


def build_fault(s, ctx, circ, f, hooks, what):
    """A step is being added when the fault strikes; afterwards the step is absent (or, for late interrupts, complete)."""
    cfg = s['cfg']
    pool = [o for o in s['ops']] + [['swap', 0, 1], ['meas', [0], [0]], ['delayf', [0], 0.5]]
    if cfg['n'] >= 4:
        pool += [['pbs', 0, 1, 2, 3], ['npbs', 3, 1, 0, 2], ['npbsg', 0, 1, 2, 3, 0.25]] * 2
    op = pool[f['x'] % len(pool)]
    have = len(circ.node_list)
    before = C.circuit_picture(circ)
    k = f['kind']
    with (seams.AllocFaults() if k == 'b_alloc' else seams.StepCounter()) as sc:
        B.add_op(circ, op, cfg, hooks, 77)
    complete = len(circ.node_list) - have
    del circ.node_list[have:]
    if not sc.n:
        ctx.probe('fault_not_reached')
        return
    at = 1 + min(sc.n - 1, int(f['frac'] * sc.n))
    exc = seams.Interrupt() if k == 'b_line' else MemoryError('simulated')
    done, reached = False, None
    with (seams.AllocFaults(at=at) if k == 'b_alloc' else seams.StepCounter(at=at, exc=exc)) as sc2:
        try:
            B.add_op(circ, op, cfg, hooks, 77)
            done = True
        except BaseException as e:
            reached = e
    if not sc2.fired:
        if not done:
            raise reached
        del circ.node_list[have:]
        return
    ctx.fault({'b_line': 'build_interrupt', 'b_linemem': 'build_memory_error_at_line', 'b_alloc': 'build_allocation_failure'}[k])
    ctx.state(k, op[0], getattr(sc2, 'where', None))
    if done:
        raise Violation('failure-hidden', '%s: adding %r went on after the failure at %s' % (what, op[0], getattr(sc2, 'where', at)))
    added = len(circ.node_list) - have
    if added == complete and k != 'b_alloc':
        ctx.probe('interrupted_step_complete')
        del circ.node_list[have:]
    elif added:
        raise Violation('half-a-step', '%s: adding %r failed at %s and left %d of %d nodes in the circuit' % (what, op[0], getattr(sc2, 'where', at), added, complete))
    C.same_circuit(before, circ, what)
