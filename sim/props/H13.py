"""A collection divided over simulated workers on an unreliable simulated network, merged, divided again; compared with the undivided evaluation."""
import heapq

from .. import build as B, gen as G, model as M, common as C, seams
from ..kernel import Rng, Trivial, Violation
from .H07 import restore, save

LEVEL = 'exploration'
RUNS = {'quick': 900, 'thorough': 25000}
FAULTS = ['task_lost', 'task_duplicated', 'result_lost', 'result_duplicated', 'message_delayed', 'worker_crash', 'worker_out_of_memory', 'worker_stalled']
PROBES = ['shared_circuit', 'shard_by_filter', 'shard_by_reference', 'shard_by_dict', 'shard_by_wire', 'merged_by_reference', 'merged_by_copy', 'merged_by_wire', 'identifiers_kept',
          'several_rounds', 'single_state_shard', 'empty_shard', 'time_delay', 'quick_delay', 'pr_boxes', 'retransmission', 'late_duplicate_compared', 'controlled_step',
          'mixture_split_over_shards']
RULE = ('A seeded generator draws a collection, a history in one to three rounds, a division into shards per round, and faults; a discrete-event simulation dispatches '
        'shards to workers that run the real evaluation, loses, duplicates, delays and reorders tasks and results, crashes workers at a library line or allocation, '
        'retransmits on timeout; results are merged in order of arrival. The merged result is compared with the undivided evaluation and the reference model, '
        'every repeated evaluation of a shard with its first, and the shards with what they held before.')
SIMTIME_UNIT = 'virtual seconds on the simulated network'
STATE_MEASURE = 'distinct (mode, workers, shards per round, faults met, ways of dividing and merging)'
STUB = ['network between workers (event queue with virtual time)', 'worker processes (simulated in one process)']
SHRINK = ('faults', 'states', 'ops')
NAMED = set(G.OPTICAL) | {'meas', 'cwp', 'cps', 'setc', 'cfun'}


def gen(rng, tier):
    mode = rng.wpick([('plain', 8), ('delay', 1.5), ('quick', 0.8), ('pr', 0.8)])
    if mode == 'plain':
        cfg = G.config(rng, thr=1e-10)
        st = G.states(rng, cfg, 1, 6)
        kinds = [k for k in G.ALL if k != 'grelabel' or rng.chance(0.5)]
        ops, _ = G.ops(rng, cfg, C.branches(st), rng.randint(1, 8), kinds=kinds, max_branches=60)
        rounds = rng.randint(1, 3)
    else:
        rounds = 1
        if mode == 'pr':
            cfg = G.config(rng, sizes=[((2, 4), 1)], thr=1e-10, c=4)
            st = G.states(rng, cfg, 2, 4, total=0, max_comps=1)
            ops = [['pr', [[[0, 1, 2, 3], round(rng.uniform(0.3, 6), 2)]]]]
            for _ in range(rng.randint(1, 3)):
                ch = rng.pick([(0, 1), (2, 3)])
                ops.append(rng.pick([['hwp', *ch, rng.angle()], ['cwp', *ch, rng.randrange(4), rng.randrange(4)]]))
            ops.append(['meas', [0, 1, 2, 3], rng.sample(range(4), 4)])
        else:
            cfg = G.config(rng, sizes=[((3, 2), 2), ((3, 3), 1)], thr=1e-10, c=4)
            st = G.states(rng, cfg, 2, 4, cap=1, total=2, max_comps=2)
            ops = []
            for _ in range(rng.randint(1, 3) if mode == 'delay' else 1):
                k = rng.pick(['delay', 'cdelay']) + ('f' if mode == 'delay' else '')
                ops.append([k, [rng.randrange(cfg['n'])], rng.randrange(4) if k.startswith('c') else round(rng.uniform(-2, 2), 2)])
                ops.append(G.one_op(rng, cfg, rng.pick(['mix', 'wp', 'cwp']), C.branches(st), range(cfg['n']), [0, 1, 2, 3]))
            ops.append(['meas', list(range(cfg['n'])), list(range(cfg['n']))])
            if rng.chance(0.4):
                ops.append(['setc', [1], [3]])
    for i, x in enumerate(st):
        x['id'] = rng.pick(['state %d', 'x%d', 'identifier_%d']) % i
    faults = [rng.pick(FAULTS) if rng.chance(0.45) else None for _ in range(rng.randint(0, 24))]
    return {'mode': mode, 'cfg': cfg, 'states': st, 'ops': ops, 'rounds': rounds, 'workers': rng.randint(1, 4), 'faults': faults, 'seed': rng.randint(0, 10 ** 6),
            'by': rng.pick(['filter', 'reference', 'dict', 'wire']), 'merge': rng.pick(['reference', 'copy', 'wire']), 'shared': rng.chance(0.4), 'keep': rng.chance(0.5)}


def cut(rng, keys):
    """Random division into shards; states in any order, an empty shard now and then."""
    keys = list(keys)
    rng.shuffle(keys)
    n = rng.randint(1, max(1, min(5, len(keys))))
    shards = [[] for _ in range(n)]
    for k in keys:
        rng.pick(shards).append(k)
    return shards if rng.chance(0.15) else [x for x in shards if x]


def shard_of(coll, keys, circ, way):
    f = B.lib()
    if way == 'filter':
        sub = coll.copy()
        sub.filter_on_identifier(list(keys))
        return sub
    if way == 'dict':
        return f.CollectionOfStates(circ, input_collection_as_a_dict={k: coll.get_state(identifier=k) for k in keys})
    sub = f.CollectionOfStates(circ, input_collection_as_a_dict=dict([]))
    for k in keys:
        sub.add_state(coll.get_state(identifier=k), identifier=k)
    if way == 'wire':
        sub, _ = restore(save(sub, 0), circ, 'states')
    return sub


def histogram(coll, cfg):
    out = {}
    for k, v in coll.plot(histo_output_instead_of_plot=True, classical_channels=list(range(cfg['c']))).items():
        for x in v:
            out[k + ' -> ' + x['output_state']] = out.get(k + ' -> ' + x['output_state'], 0.0) + float(x['probability'])
    return out


def evaluate_divided(s, ctx, rng, circs, coll, shards, faults):
    """One round on the simulated network; returns the shard results in order of arrival."""
    cfg = s['cfg']
    subs = [shard_of(coll, keys, circs[0], s['by']) for keys in shards]
    before = [B.snapshot(x) for x in subs]
    results, order = {}, []
    queue = []
    now, seq = 0.0, 0
    down = {}

    def push(t, *ev):
        nonlocal seq
        seq += 1
        heapq.heappush(queue, (t, seq, ev))

    def fault():
        k = faults.pop(0) if faults else None
        return k

    def send(t, kind, *payload):
        f = fault()
        d = rng.uniform(0.5, 2)
        lost = f == ('task_lost' if kind == 'task' else 'result_lost')
        dup = f == ('task_duplicated' if kind == 'task' else 'result_duplicated')
        if f == 'message_delayed':
            d += rng.uniform(5, 40)
            ctx.fault(f)
        if lost:
            ctx.fault(f)
            return
        push(t + d, kind, *payload)
        if dup:
            ctx.fault(f)
            push(t + d + rng.uniform(0, 20), kind, *payload)

    def dispatch(t, i, attempt):
        send(t, 'task', i, (i + attempt) % s['workers'])
        push(t + 15.0 + 5 * attempt, 'timeout', i, attempt)
    for i in rng.sample(range(len(shards)), len(shards)):
        dispatch(0.0, i, 0)
    events = 0
    while queue:
        now, _, ev = heapq.heappop(queue)
        events += 1
        if events > 4000:
            raise Violation('no-progress', 'division did not finish within 4000 events')
        if ev[0] == 'timeout':
            if ev[1] not in results:
                ctx.probe('retransmission')
                dispatch(now, ev[1], ev[2] + 1)
        elif ev[0] == 'task':
            i, w = ev[1], ev[2]
            if down.get(w, 0) > now:
                continue                                           # nobody there
            f = fault()
            circ = circs[0] if s['shared'] else circs[w]
            if f in ('worker_crash', 'worker_out_of_memory') and len(subs[i]):
                seam = seams.StepCounter if f == 'worker_crash' else seams.AllocFaults
                total = C.in_fork(lambda: counted(seam, circ, subs[i]))
                at = 1 + int(rng.random() * total)
                with (seams.StepCounter(at=at, exc=seams.Interrupt()) if f == 'worker_crash' else seams.AllocFaults(at=at)) as sc:
                    try:
                        circ.evaluate_circuit(subs[i])
                    except BaseException:
                        if not sc.fired:
                            raise
                if sc.fired:
                    ctx.fault(f)
                    ctx.steps += total
                    down[w] = now + rng.uniform(1, 20)
                    continue
            stall = 0.0
            if f == 'worker_stalled':
                stall = rng.uniform(10, 60)
                ctx.fault(f)
            res = circ.evaluate_circuit(collection_of_states_input=subs[i])
            send(now + stall + rng.uniform(0.1, 3), 'result', i, res)
        else:
            i, res = ev[1], ev[2]
            if i in results:
                if res is not results[i]:
                    ctx.probe('late_duplicate_compared')
                    if s['mode'] == 'plain':
                        C.expect(B.read(res, cfg), B.read(results[i], cfg), 'repeated-evaluation-differs', 'shard %d evaluated again' % i)
                    else:
                        same_hist(histogram(res, cfg), histogram(results[i], cfg), 'repeated-evaluation-differs', 'shard %d evaluated again' % i)
                continue
            results[i] = res
            order.append(i)
    ctx.simtime += now
    for i, x in enumerate(subs):
        d = B.snapdiff(before[i], B.snapshot(x))
        if d:
            raise Violation('input-changed', 'shard %d: %s' % (i, d))
    return [results[i] for i in order]


def counted(seam, circ, coll):
    with seam() as sc:
        circ.evaluate_circuit(coll)
    return sc.n


def same_hist(a, b, cls, what):
    for k in sorted(set(a) | set(b)):
        if abs(a.get(k, 0) - b.get(k, 0)) > 3e-4:
            raise Violation(cls, '%s: %s has probability %.5f against %.5f' % (what, k, a.get(k, 0), b.get(k, 0)))


def run(s, ctx):
    f = B.lib()
    cfg = s['cfg']
    if not s['states'] or not s['ops']:
        raise Trivial('empty')
    rng = Rng(s['seed'])
    faults = list(s['faults'])
    rounds = max(1, min(s['rounds'], len(s['ops'])))
    cuts = sorted(rng.sample(range(1, len(s['ops'])), rounds - 1)) if rounds > 1 else []
    parts = [s['ops'][a:b] for a, b in zip([0] + cuts, cuts + [len(s['ops'])])]
    whole_circ = B.build(cfg, s['ops'])
    coll = B.collection(whole_circ, cfg, s['states'])
    if s['mode'] != 'plain':
        want = histogram(whole_circ.evaluate_circuit(coll), cfg)
    else:
        whole = whole_circ.evaluate_circuit(coll)
        ref = M.run(C.branches(s['states']), s['ops'], cfg['L'], cfg['n'])
        C.expect(B.read(whole, cfg), ref, 'undivided-differs', 'undivided evaluation')
    named = all(o[0] in NAMED for o in s['ops'])
    sizes = []
    for part in parts:
        circs = [B.build(cfg, part) for _ in range(s['workers'])]
        shards = cut(rng, list(coll.keys()))
        sizes.append(len(shards))
        if any(len(x) == 1 for x in shards):
            ctx.probe('single_state_shard')
        if any(not x for x in shards):
            ctx.probe('empty_shard')
        labels = [set(coll.get_state(identifier=k).initial_state for k in x) for x in shards]
        if any(labels[i] & labels[j] for i in range(len(labels)) for j in range(i)):
            ctx.probe('mixture_split_over_shards')
        before = B.snapshot(coll)
        results = evaluate_divided(s, ctx, rng, circs, coll, shards, faults)
        d = B.snapdiff(before, B.snapshot(coll))
        if d:
            raise Violation('input-changed', 'collection that was divided (%s): %s' % (s['by'], d))
        if s['mode'] != 'plain':
            have = {}
            for r in results:
                for k, v in histogram(r, cfg).items():
                    have[k] = have.get(k, 0) + v
            same_hist(have, want, 'divided-run-differs', '%s experiment, shards %r' % (s['mode'], shards))
            ctx.log('shards', sizes, sorted((k, round(v, 3)) for k, v in have.items() if v > 1e-4))
            break
        merged = f.CollectionOfStates(circs[0], input_collection_as_a_dict=dict([]))
        total = 0
        for r in results:
            if s['merge'] == 'wire' and len(r):
                r, _ = restore(save(r, 0), circs[0], 'states')
            for ident, st in list(r.items()):
                total += 1
                merged.add_state(st.copy() if s['merge'] == 'copy' else st, identifier=ident if s['keep'] and named else None)
        if len(merged) != total:
            raise Violation('identifiers-collide', '%d states of the shards became %d when merged%s' % (total, len(merged), ' under their own names' if s['keep'] else ''))
        coll = merged
        ctx.log('round', sizes[-1], total)
    if s['mode'] == 'plain':
        got = B.read(coll, cfg)
        C.expect(got, ref, 'divided-run-differs', 'divided %r (by %s, merged by %s)' % (sizes, s['by'], s['merge']))
        C.expect(got, B.read(whole, cfg), 'divided-run-differs', 'divided %r against undivided' % (sizes,), phase=True)
        if len(got) != len(whole):
            raise Violation('divided-run-differs', 'divided %r: %d branches against %d undivided' % (sizes, len(got), len(whole)))
        if named and s['keep'] and len(parts) == 1:
            if sorted(coll.keys()) != sorted(whole.keys()):
                raise Violation('identifiers-differ', 'identifiers %r, undivided %r' % (sorted(coll.keys())[:5], sorted(whole.keys())[:5]))
            ctx.probe('identifiers_kept')
        ctx.probe('merged_by_' + s['merge'])
        if rounds > 1:
            ctx.probe('several_rounds')
        if any(o[0] in G.CONTROLLED for o in s['ops']):
            ctx.probe('controlled_step')
        ctx.log('end', C.summary(got))
    else:
        ctx.probe({'delay': 'time_delay', 'quick': 'quick_delay', 'pr': 'pr_boxes'}[s['mode']])
    ctx.probe('shard_by_' + s['by'])
    if s['shared']:
        ctx.probe('shared_circuit')
    ctx.state(s['mode'], s['workers'], sizes, s['by'], s['merge'], s['shared'], sorted({x for x in s['faults'][:len(s['faults']) - len(faults)] if x}))
