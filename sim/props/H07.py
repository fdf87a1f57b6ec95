"""Runs cut in pieces, checkpointed on a simulated disk, killed at arbitrary instants and resumed in new processes."""
import json
import zlib

from .. import build as B, gen as G, model as M, common as C, seams
from ..kernel import Rng, Trivial, Violation

LEVEL = 'fault_enumeration'
RUNS = {'quick': 900, 'thorough': 25000}
FAULTS = ['crash_in_evaluation', 'crash_by_allocation_failure', 'crash_after_evaluation', 'crash_after_write', 'torn_write', 'lost_write', 'corrupt_bits', 'clean_restart']
PROBES = ['resumed', 'resumed_from_older_checkpoint', 'started_over', 'selection_out_of_order', 'node_repeated', 'time_delay', 'pr_boxes', 'quick_delay', 'bridge',
          'restored_from_dict', 'restored_from_states', 'restored_with_setters', 'tuple_selection']
RULE = ('A seeded generator draws an experiment, an execution order of its nodes (in circuit order, permuted, with repeats), a partition into pieces and a '
        'plan of faults; every process life is a forked process that loads the newest intact checkpoint (JSON text on a simulated two-slot disk), evaluates '
        'pieces and saves; it is killed at a library line, at an allocation, or around a write (torn, lost, corrupted). The final collection is compared '
        'with the uninterrupted run in a process of its own and, where it applies, with the reference model.')
STATE_MEASURE = 'distinct (mode, pieces, fault kinds met, process lives, way of restoring)'
ASSUMPTIONS = ['the checkpoint holds what the public interface of the states shows', 'the simulated disk detects torn and corrupted slots by checksum, as a user would']
STUB = ['disk (two in-memory slots passed between process lives)']
SHRINK = ('order', 'faults', 'states', 'cuts')
SAFE = set(G.OPTICAL2) | {'meas', 'setc', 'cfun', 'kerr', 'perm', 'gident', 'shift', 'cshift', 'shiftd', 'cshiftd'}
KINDS = ['crash_in_evaluation', 'crash_in_evaluation', 'crash_by_allocation_failure', 'crash_after_evaluation', 'crash_after_write', 'torn_write', 'lost_write',
         'corrupt_bits', 'clean_restart']


def gen(rng, tier):
    mode = rng.wpick([('plain', 8), ('delay', 1), ('quick', 0.7), ('pr', 0.7), ('bridge', 1)])
    cfg2 = ops2 = None
    if mode in ('plain', 'bridge'):
        cfg = G.config(rng, thr=1e-10)
        if mode == 'bridge':
            cfg = G.config(rng, sizes=G.SMALL, thr=1e-10)
        st = G.states(rng, cfg, 1, 3)
        br = C.branches(st)
        kinds = G.swarm(rng, [k for k in G.ALL if k not in ('gsplit',)])
        pool, order = [], []
        n = rng.randint(2, 9)
        tries = 0
        while len(order) < n and tries < 60:
            tries += 1
            again = [i for i, o in enumerate(pool) if o[0] in SAFE]
            i = None
            if again and rng.chance(0.2):
                i = rng.pick(again)
                op = pool[i]
            else:
                op = G.one_op(rng, cfg, rng.wpick(kinds), br, range(cfg['n']), list(range(cfg['c'])), 40)
                if op is None:
                    continue
            nb = M.step(br, op, cfg['L'], cfg['n'])
            if len(nb) > 60 or max(len(b['vec']) for b in nb) > 120 or any(abs(v) > 1e3 for b in nb for v in b['cl']):
                continue
            if i is None:
                pool.append(op)
                i = len(pool) - 1
            order.append(i)
            br = nb
        if rng.chance(0.6):                                   # the circuit holds the nodes in another order than they are run in
            perm = list(range(len(pool)))
            rng.shuffle(perm)                                 # perm[k] = position of node k
            npool = [None] * len(pool)
            for k, o in enumerate(pool):
                npool[perm[k]] = o
            pool, order = npool, [perm[i] for i in order]
        if mode == 'bridge':
            cfg2 = G.config(rng, sizes=[((cfg['L'], 2), 1), ((cfg['L'], 3), 1)], thr=1e-10)
            cfg2['left'] = cfg['left']
            ops2 = [['mix', 0, 1], ['meas', [0], [0]]]
            order.append(len(pool))
    else:
        cfg = G.config(rng, sizes=[((3, 2), 2), ((3, 3), 1)], thr=1e-10, c=3)
        if mode == 'pr':
            cfg = G.config(rng, sizes=[((2, 4), 1)], thr=1e-10, c=4)
            st = G.states(rng, cfg, 1, 2, total=0, max_comps=1)
            pool = [['pr', [[[0, 1, 2, 3], round(rng.uniform(0.2, 1), 2)]]]]
            for _ in range(rng.randint(1, 3)):
                pool.append(['wp', *rng.pick([(0, 1), (2, 3)]), rng.angle(), 3.141592653589793])
            pool.append(['meas', [0, 1, 2, 3], rng.sample(range(4), 4)])
        else:
            st = G.states(rng, cfg, 1, 2, cap=1, total=2, max_comps=2)
            pool = []
            k = 'delayf' if mode == 'delay' else 'delay'
            for j in range(rng.randint(1, 3) if mode == 'delay' else 1):
                pool.append([k, [rng.randrange(cfg['n'])], round(rng.uniform(-2, 2), 2)])
                pool.append(G.one_op(rng, cfg, 'mix', C.branches(st), range(cfg['n']), [0]))
            pool.append(['meas', list(range(cfg['n'])), list(range(cfg['n']))])
        if rng.chance(0.5):
            pool.append(['cfun', 'add', [0], [1], 'new'])
        order = list(range(len(pool)))
    cuts = sorted({rng.randint(1, max(1, len(order) - 1)) for _ in range(rng.randint(0, 4))})
    faults = []
    for _ in range(rng.randint(0, 5)):
        faults.append({'piece': rng.randint(0, len(cuts)), 'kind': rng.pick(KINDS), 'frac': round(rng.random(), 5)})
    return {'mode': mode, 'cfg': cfg, 'states': st, 'pool': pool, 'order': order, 'cuts': cuts, 'faults': faults, 'restore': rng.pick(['setters', 'dict', 'states']),
            'cfg2': cfg2, 'ops2': ops2, 'tuple': rng.chance(0.2), 'seeds': rng.pick(['same', 'new'])}


# ------------------------------------------------------------------ checkpoints
def enc(x):
    import numpy as np
    if isinstance(x, dict):
        return {'d': [[enc(k), enc(v)] for k, v in x.items()]}
    if isinstance(x, tuple):
        return {'t': [enc(v) for v in x]}
    if isinstance(x, (list, np.ndarray)):
        return {'l': [enc(v) for v in x]}
    if isinstance(x, (bool, str)) or x is None:
        return x
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x)
    if isinstance(x, (complex, np.complexfloating)):
        return {'c': [float(x.real), float(x.imag)]}
    raise Violation('not-saveable', 'state holds a %s, which a saved description cannot hold' % type(x).__name__)


def dec(x):
    if isinstance(x, dict):
        if 'd' in x:
            return {dec(k): dec(v) for k, v in x['d']}
        if 't' in x:
            return tuple(dec(v) for v in x['t'])
        if 'l' in x:
            return [dec(v) for v in x['l']]
        return complex(*x['c'])
    return x


def save(coll, pos):
    rows = []
    for ident, st in coll.items():
        rows.append([ident, enc({'initial_state': st.initial_state, 'cumulative_probability': st.cumulative_probability,
                                 'optical_components': st.optical_components, 'classical_channel_values': st.classical_channel_values,
                                 'measurement_results': st.measurement_results, 'auxiliary_information': st.auxiliary_information})])
    body = json.dumps({'pos': pos, 'rows': rows})
    return '%08x%s' % (zlib.crc32(body.encode()), body)


def intact(text):
    return text is not None and len(text) > 8 and text[:8] == '%08x' % zlib.crc32(text[8:].encode())


def restore(text, circ, way):
    f = B.lib()
    d = json.loads(text[8:])
    rows = [(i, dec(r)) for i, r in d['rows']]
    if not rows:
        return f.CollectionOfStates(circ, input_collection_as_a_dict=dict([])), d['pos']
    if way == 'dict':
        return f.CollectionOfStates(circ, input_collection_as_a_dict=dict(rows)), d['pos']
    coll = f.CollectionOfStates(circ, input_collection_as_a_dict=dict([]))
    if way == 'states':
        states = {i: f.State(collection_of_states=coll, input_state_as_a_dict=r) for i, r in rows}
        return f.CollectionOfStates(circ, input_collection_as_a_dict=states), d['pos']
    for i, r in rows:
        st = f.State(collection_of_states=coll)
        for k, v in r.items():
            setattr(st, k, v)
        coll.add_state(state=st, identifier=i)
    return coll, d['pos']


# ------------------------------------------------------------------ one process life
def make(s):
    """The circuit; where[i] lists the nodes that step i of the pool became."""
    circ = B.circuit(s['cfg'])
    where = []
    for i, op in enumerate(s['pool']):
        n = len(circ.node_list)
        B.add_op(circ, op, s['cfg'], None, i)
        where.append(list(range(n, len(circ.node_list))))
    if s['mode'] == 'bridge':
        n = len(circ.node_list)
        circ.bridge(B.build(s['cfg2'], s['ops2']))
        where.append(list(range(n, len(circ.node_list))))
    s['where'] = where
    return circ


def pieces(s):
    cuts = [c for c in s['cuts'] if 0 < c < len(s['order'])]
    ends = cuts + [len(s['order'])]
    out, a = [], 0
    for e in ends:
        if e > a:
            out.append(s['order'][a:e])
            a = e
    return out


def call(circ, coll, nodes, s):
    nodes = [k for i in nodes for k in s['where'][i]]
    nodes = tuple(nodes) if s['tuple'] and s['mode'] == 'plain' else nodes
    return circ.evaluate_circuit(collection_of_states_input=coll, nodes_to_be_evaluated=nodes)


def outcome(coll, s):
    cfg = s['cfg']
    if s['mode'] == 'bridge':
        cfg = s['cfg2']
    if s['mode'] in ('delay', 'pr', 'quick'):
        h = coll.plot(histo_output_instead_of_plot=True)
        return {'hist': {k: sorted([x['output_state'], C.rnd(x['probability'], 6)] for x in v if abs(x['probability']) > 1e-6) for k, v in sorted(h.items())},
                'n': len(coll)}
    return {'rows': [[b['id'], b['init'], b['p'], [[list(t), [a.real, a.imag]] for t, a in b['vec'].items()], b['cl'], [[list(h[0]), h[1]] for h in b['hist']]]
                     for b in B.read(coll, cfg, ids=True)]}


def life(s, disk, faults, number, first):
    """Runs until done or killed; returns [disk, finished result or None, fault met or None, notes]."""
    if s['seeds'] == 'new':
        seams.set_random('seeded', 1000 + number)
    else:
        seams.set_random('seeded', 77)
    notes = []
    circ = make(s)
    best, pos = None, 0
    for slot in (0, 1):
        if intact(disk[slot]):
            p = json.loads(disk[slot][8:])['pos']
            if best is None or p > pos:
                best, pos = slot, p
    if best is None:
        coll = B.collection(circ, s['cfg'], s['states'])
        if not first:
            notes.append('started_over')
    else:
        coll, pos = restore(disk[best], circ, s['restore'])
        notes.append('resumed')
        if disk[1 - best] and not intact(disk[1 - best]):
            notes.append('resumed_from_older_checkpoint')
    todo = pieces(s)
    steps = 0
    while pos < len(todo):
        mine = next((f for f in faults if f['piece'] == pos and not f.get('used')), None)
        kind = mine['kind'] if mine else None
        if kind in ('crash_in_evaluation', 'crash_by_allocation_failure'):
            # dry run in a process of its own to learn how long the evaluation is
            def count():
                if kind == 'crash_in_evaluation':
                    with seams.StepCounter() as sc:
                        call(circ, coll, todo[pos], s)
                    return sc.n
                with seams.AllocFaults() as af:
                    call(circ, coll, todo[pos], s)
                return af.n
            total = C.in_fork(count)
            at = 1 + int(mine['frac'] * total)
            steps += total
            try:
                if kind == 'crash_in_evaluation':
                    with seams.StepCounter(at=at, exc=seams.Interrupt()) as sc:
                        res = call(circ, coll, todo[pos], s)
                else:
                    with seams.AllocFaults(at=at) as sc:
                        res = call(circ, coll, todo[pos], s)
            except BaseException as e:
                if sc.fired:
                    return [disk, None, kind, notes, steps]
                raise
            if sc.fired and kind == 'crash_by_allocation_failure':
                raise Violation('failure-hidden', 'evaluation of nodes %r went on as if nothing had happened after an allocation failure' % (todo[pos],))
            if total and not sc.fired and kind == 'crash_in_evaluation':
                pass
        else:
            res = call(circ, coll, todo[pos], s)
        if kind == 'crash_after_evaluation':
            return [disk, None, kind, notes, steps]
        coll = res
        pos += 1
        if s['mode'] == 'bridge' and pos == len(todo):
            break                                            # the last piece lives on another circuit: nothing left to save for
        text = save(coll, pos)
        slot = pos % 2
        if kind == 'torn_write':
            disk[slot] = text[:int(mine['frac'] * len(text))]
            return [disk, None, kind, notes, steps]
        if kind == 'lost_write':
            return [disk, None, kind, notes, steps]
        if kind == 'corrupt_bits':
            i = 8 + int(mine['frac'] * (len(text) - 9))
            disk[slot] = text[:i] + chr((ord(text[i]) ^ 1) or 65) + text[i + 1:]
            return [disk, None, kind, notes, steps]
        disk[slot] = text
        if kind in ('crash_after_write', 'clean_restart'):
            return [disk, None, kind, notes, steps]
        if mine:
            mine['used'] = True
    return [disk, outcome(coll, s), None, notes, steps]


def run(s, ctx):
    cfg = s['cfg']
    if not s['states'] or not s['order'] or any(i > len(s['pool']) or (i == len(s['pool']) and s['mode'] != 'bridge') for i in s['order']):
        raise Trivial('empty')
    whole = C.in_fork(lambda: outcome(call(make(s), B.collection(make(s), cfg, s['states']), s['order'], s), s))
    disk = [None, None]
    left = C.deepcopy(s['faults'])
    lives = 0
    met = []
    while True:
        lives += 1
        disk, result, fault, notes, steps = C.in_fork(lambda: life(s, disk, left, lives, lives == 1))
        ctx.steps += steps
        for n in notes:
            ctx.probe(n)
        if 'resumed' in notes:
            ctx.probe({'dict': 'restored_from_dict', 'states': 'restored_from_states', 'setters': 'restored_with_setters'}[s['restore']])
        if fault is None:
            break
        ctx.fault(fault)
        met.append(fault)
        # this fault is spent
        pos = next(i for i, f in enumerate(left) if f['kind'] == fault)
        for i, f in enumerate(left):
            if f['kind'] == fault:
                pos = i
                break
        del left[pos]
        if lives > 12:
            raise Violation('no-progress', 'no end after %d process lives' % lives)
    ctx.log('lives', lives, met, len(result.get('rows', result.get('hist'))))
    ctx.state(s['mode'], len(pieces(s)), sorted(met), lives, s['restore'])
    note(s, ctx)
    if 'hist' in whole:
        d = C.first_difference(C.jsonable(result['hist']), C.jsonable(whole['hist']))
        if d and not C.close(result['hist'], whole['hist'], 2e-4):
            raise Violation('resumed-run-differs', 'statistics of the run in pieces %r: %s' % (pieces(s), d))
        return
    a, b = rows(result['rows']), rows(whole['rows'])
    d = M.diff(a, b, phase=True, nameA='run in pieces', nameB='whole run')
    if d or len(a) != len(b):
        raise Violation('resumed-run-differs', 'pieces %r, faults %r: %s' % (pieces(s), met, d or '%d branches instead of %d' % (len(a), len(b))))
    if all(s['pool'][i][0] in NAMED for i in s['order'] if i < len(s['pool'])) and s['mode'] == 'plain' and all(x['id'] for x in s['states']):
        ia, ib = sorted(r[0] for r in result['rows']), sorted(r[0] for r in whole['rows'])
        if ia != ib:
            raise Violation('resumed-run-differs', 'identifiers %r instead of %r' % (ia[:4], ib[:4]))
    if s['mode'] == 'plain':
        ref = M.run(C.branches(s['states']), [s['pool'][i] for i in s['order']], cfg['L'], cfg['n'])
        d = M.diff(b, ref, phase=True)
        if d:
            raise Violation('selection-order', 'nodes %r selected in this order: %s' % (s['order'], d))


NAMED = set(G.OPTICAL) | {'meas', 'cwp', 'cps', 'setc', 'cfun'}


def rows(x):
    return [M.branch(r[1], r[2], {tuple(t): complex(*a) for t, a in r[3]}, r[4], r[5]) for r in x]


def note(s, ctx):
    o = [i for i in s['order']]
    if any(a > b for a, b in zip(o, o[1:])):
        ctx.probe('selection_out_of_order')
    if len(set(o)) < len(o):
        ctx.probe('node_repeated')
    if s['mode'] != 'plain':
        ctx.probe({'delay': 'time_delay', 'quick': 'quick_delay', 'pr': 'pr_boxes', 'bridge': 'bridge'}[s['mode']])
    if s['tuple'] and s['mode'] == 'plain':
        ctx.probe('tuple_selection')
