"""Several parties with programs of their own on their own channels: every interleaving gives the same physics."""
from .. import build as B, chaos, gen as G, model as M, common as C
from ..kernel import Rng, Trivial, Violation

LEVEL = 'exploration'
RUNS = {'quick': 1400, 'thorough': 25000}
FAULTS = ['rejected_call', 'user_function_raises', 'interrupt', 'allocation_failure', 'rejected_lookup', 'display_failure', 'output_write_error', 'stalled_party', 'burst_schedule']
PROBES = ['two_parties', 'three_parties', 'entangled_input', 'fed_forward', 'measured_early', 'one_node_at_a_time', 'whole_circuit', 'time_delay', 'measured_between_delays', 'pr_boxes',
          'interleavings']
RULE = ('A seeded generator draws a shared ensemble, a partition of the optical and classical channels over 2-3 parties and a local program per party; a seeded '
        'scheduler (uniform, bursts, one party stalled to the end) draws several interleavings; each is built as one circuit, executed in one go or node by node '
        'with environment events in between, and compared with the reference model and with the other interleavings (records compared per party).')
STATE_MEASURE = 'distinct (partition, program kinds, interleaving)'
ASSUMPTIONS = ['phase shifters whose documented partner channel belongs to another party are used only where no photon combination can exceed the limit']
SHRINK = ('programs', 'schedules', 'states', 'chaos', 'ops')


def parties(rng, cfg):
    n, c = cfg['n'], cfg['c']
    k = 3 if n >= 5 and c >= 3 and rng.chance(0.5) else 2
    chans, cls = list(range(n)), list(range(c))
    rng.shuffle(chans)
    rng.shuffle(cls)
    own = [[] for _ in range(k)]
    for i, ch in enumerate(chans):
        own[i if i < k else rng.randrange(k)].append(ch)
    ownc = [[] for _ in range(k)]
    for i, x in enumerate(cls):
        ownc[i if i < k else rng.randrange(k)].append(x)
    return own, ownc


KINDS = G.OPTICAL2 + ['ps', 'pbs', 'npbs', 'npbsg'] + G.CONTROLLED + G.CLASSICAL + ['kerr', 'shift', 'shiftd', 'cshift', 'cshiftd', 'hamwp', 'ham', 'meas', 'meas', 'gident', 'gsplit']


def schedule(rng, sizes):
    kind = rng.pick(['uniform', 'uniform', 'burst', 'stall'])
    left = list(sizes)
    out = []
    stalled = rng.randrange(len(sizes))
    cur = 0
    while any(left):
        live = [i for i, x in enumerate(left) if x]
        if kind == 'stall' and len(live) > 1 and stalled in live:
            live.remove(stalled)
        if kind == 'burst' and cur in live and rng.chance(0.7):
            p = cur
        else:
            p = rng.pick(live)
        cur = p
        left[p] -= 1
        out.append(p)
    return {'kind': kind, 'ops': out, 'how': rng.pick(['whole', 'whole', 'nodes'])}


def gen(rng, tier):
    mode = rng.wpick([('plain', 8), ('delay', 1.2), ('pr', 0.7)])
    if mode == 'delay':
        cfg = G.config(rng, sizes=[((3, 4), 2), ((3, 3), 1), ((4, 4), 0.6)], thr=1e-10, c=4)
        total = cfg['L'] - 1
        st = G.states(rng, cfg, 1, 2, cap=1, total=total, max_comps=2)
        chans = list(range(cfg['n']))
        rng.shuffle(chans)
        own = [chans[:2], chans[2:]]
        ownc = [[0, 1], [2, 3]]
        progs = []
        for p in range(2):
            prog = []
            for _ in range(rng.randint(1, 4)):
                if rng.chance(0.5) or len(own[p]) < 2:
                    prog.append(['delayf', [rng.pick(own[p])], round(rng.uniform(-2, 2), 2)])
                else:
                    prog.append(G.one_op(rng, cfg, rng.pick(['mix', 'wp', 'hwp']), C.branches(st), own[p], ownc[p]))
            prog.append(['meas', own[p][:2], ownc[p][:len(own[p][:2])]])
            progs.append(prog)
    elif mode == 'pr':
        cfg = G.config(rng, sizes=[((2, 4), 1)], thr=1e-10, c=4)
        st = G.states(rng, cfg, 1, 2, total=0, max_comps=1)
        chans = list(range(4))
        rng.shuffle(chans)
        own, ownc = [chans[:2], chans[2:]], [[0, 1], [2, 3]]
        progs = [[['wp', *own[p], rng.angle(), 3.141592653589793] for _ in range(rng.randint(1, 3))] for p in range(2)]
    else:
        cfg = G.config(rng, sizes=[((2, 4), 4), ((2, 5), 3), ((3, 3), 2), ((3, 4), 4), ((4, 3), 2), ((2, 6), 3), ((5, 2), 1), ((4, 2), 1), ((2, 3), 1), ((3, 5), 1)],
                       thr=1e-10, c=rng.randint(2, 5))
        st = G.states(rng, cfg, 1, 3, max_comps=5)
        own, ownc = parties(rng, cfg)
        br = C.branches(st)
        most = max(sum(t) for b in br for t in b['vec'])
        kinds = G.swarm(rng, KINDS)
        shifty = any(k.startswith('shift') or k.startswith('cshift') for k, _ in kinds)
        progs = []
        for p in range(len(own)):
            prog = []
            for _ in range(rng.randint(1, 6)):
                k = rng.wpick(kinds)
                op = G.one_op(rng, cfg, k, br, own[p], ownc[p], 30)
                if op is None:
                    continue
                if k in ('ps', 'cps'):
                    other = 1 if op[1] == 0 else 0
                    if other not in own[p] and (shifty or most >= cfg['L']):
                        continue
                nb = M.step(br, op, cfg['L'], cfg['n'])
                if len(nb) > 60 or max(len(b['vec']) for b in nb) > 120 or any(abs(v) > 1e3 for b in nb for v in b['cl']):
                    continue
                prog.append(op)
                br = nb
            progs.append(prog)
    scheds = [schedule(rng, [len(p) for p in progs]) for _ in range(rng.randint(2, 4))]
    total = sum(len(p) for p in progs)
    return {'mode': mode, 'cfg': cfg, 'states': st, 'own': own, 'ownc': ownc, 'programs': progs, 'schedules': scheds,
            'q': round(rng.uniform(0.2, 1), 2), 'chaos': chaos.gen(rng, cfg, total, 0.3) if mode == 'plain' else []}


def merge(progs, order):
    at = [0] * len(progs)
    out = []
    for p in order:
        if p < len(progs) and at[p] < len(progs[p]):
            out.append((p, progs[p][at[p]]))
            at[p] += 1
    for p, prog in enumerate(progs):
        out.extend((p, op) for op in prog[at[p]:])
    return out


def run(s, ctx):
    cfg, progs = s['cfg'], s['programs']
    if not s['states'] or not any(progs) or not s['schedules']:
        raise Trivial('empty')
    if s['mode'] != 'plain':
        return run_special(s, ctx)
    seq = [op for prog in progs for op in prog]
    ref = M.run(C.branches(s['states']), seq, cfg['L'], cfg['n'])
    ctx.probe('three_parties' if len(progs) == 3 else 'two_parties')
    if any(len(x['vec']) > 1 for x in s['states']):
        ctx.probe('entangled_input')
    if any(o[0] in G.CONTROLLED for o in seq):
        ctx.probe('fed_forward')
    for k, sc in enumerate([{'kind': 'sequential', 'ops': [], 'how': 'whole'}] + s['schedules']):
        order = merge(progs, sc['ops'])
        ops = [op for _, op in order]
        circ = B.build(cfg, ops)
        coll = B.collection(circ, cfg, s['states'])
        if sc['kind'] in ('burst', 'stall'):
            ctx.fault('burst_schedule' if sc['kind'] == 'burst' else 'stalled_party')
        if ops and ops[0][0] == 'meas':
            ctx.probe('measured_early')
        if sc['how'] == 'nodes':
            for i in range(len(circ.node_list)):
                chaos.run(s['chaos'], i, ctx, cfg, circ, coll)
                coll = C.evaluate(circ, coll, [i])
            ctx.probe('one_node_at_a_time')
        else:
            chaos.run(s['chaos'], k, ctx, cfg, circ, coll)
            coll = C.evaluate(circ, coll)
            ctx.probe('whole_circuit')
        got = B.read(coll, cfg)
        d = M.diff(got, ref, use_hist=False, phase=True)
        who = ''.join('ABC'[p] for p, _ in order)
        if d:
            raise Violation('order-of-parties-matters', 'interleaving %s: %s' % (who, d))
        n = sum(op[0] == 'meas' for op in ops)
        for b in got:
            q = 1.0
            for _, x in b['hist']:
                q *= x
            if len(b['hist']) != n:
                raise Violation('records', 'interleaving %s: %d records after %d measurements' % (who, len(b['hist']), n))
        records(ops, cfg, s, got, who)
        ctx.probe('interleavings')
        ctx.log('interleaving', who, C.summary(got, 3)[:20])
        ctx.state(s['own'], who, sorted({o[0] for o in ops}))


def records(ops, cfg, s, got, who):
    """The records of this interleaving, against the model of this interleaving."""
    ref = M.run(C.branches(s['states']), ops, cfg['L'], cfg['n'])
    d = M.diff(got, ref, use_hist=True)
    if d:
        raise Violation('records', 'interleaving %s: %s' % (who, d))


def hist(coll, cfg):
    h = {}
    for k, v in coll.plot(classical_channels=list(range(cfg['c'])), histo_output_instead_of_plot=True).items():
        for x in v:
            h[(k, x['output_state'])] = h.get((k, x['output_state']), 0) + float(x['probability'])
    return h


def run_special(s, ctx):
    cfg, progs = s['cfg'], s['programs']
    base = None
    ctx.probe('time_delay' if s['mode'] == 'delay' else 'pr_boxes')
    for sc in [{'kind': 'sequential', 'ops': [], 'how': 'whole'}] + s['schedules']:
        order = merge(progs, sc['ops'])
        ops = [op for _, op in order]
        who = ''.join('AB'[p] for p, _ in order)
        if s['mode'] == 'pr':
            ops = [['pr', [[[*s['own'][0], *s['own'][1]], s['q']]]]] + ops + [['meas', s['own'][0] + s['own'][1], s['ownc'][0] + s['ownc'][1]]]
        else:
            # everything becomes time resolved at the start, so that a measurement of one party is a time resolved one in every order
            ops = [['delayf', [0], 0.0]] + ops
            ctx.simtime += sum(abs(o[2]) for o in ops if o[0] == 'delayf')
            m = [i for i, o in enumerate(ops) if o[0] == 'meas']
            if m and any(o[0] != 'meas' for o in ops[m[0]:]):
                ctx.probe('measured_between_delays')
        circ = B.build(cfg, ops)
        coll = B.collection(circ, cfg, s['states'])
        if sc['how'] == 'nodes':
            for i in range(len(circ.node_list)):
                coll = C.evaluate(circ, coll, [i])
        else:
            coll = C.evaluate(circ, coll)
        h = hist(coll, cfg)
        ctx.log('interleaving', who, sorted((k, round(v, 3)) for k, v in h.items() if v > 1e-3))
        ctx.state(s['mode'], s['own'], who)
        ctx.probe('interleavings')
        if base is None:
            base = h
            continue
        for k in sorted(set(h) | set(base)):
            if not abs(h.get(k, 0) - base.get(k, 0)) <= 2e-3:
                raise Violation('order-of-parties-matters', 'interleaving %s: probability of %r is %.5f, one party after the other %.5f'
                                % (who, k, h.get(k, 0), base.get(k, 0)))
