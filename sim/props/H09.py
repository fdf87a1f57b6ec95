"""What one party sees does not depend on what another party does, chooses or when."""
from .. import build as B, chaos, gen as G, model as M, common as C
from ..kernel import Trivial, Violation
from .H08 import KINDS, merge, schedule

LEVEL = 'exploration'
RUNS = {'quick': 900, 'thorough': 30000}
FAULTS = ['rejected_call', 'user_function_raises', 'interrupt', 'allocation_failure', 'rejected_lookup', 'display_failure', 'output_write_error', 'stalled_party', 'burst_schedule']
PROBES = ['entangled_input', 'mixture', 'remote_idle', 'remote_measures', 'remote_fed_forward', 'remote_traced_out', 'local_measures', 'reduced_state', 'histogram', 'pr_boxes', 'two_boxes',
          'weak_box', 'time_delay', 'remote_not_measured', 'variants']
RULE = ('A seeded generator draws a shared ensemble (or boxes, or photons to be delayed), a program for the local party and several programs for the remote party '
        '(idle, gates, settings, measurements, feed-forward, delays) with a seeded interleaving each; the local marginal statistics, the histogram the library '
        'tabulates and the reduced state must be the same for all and equal to those of the reference model in which the remote party does not exist.')
STATE_MEASURE = 'distinct (channels of the local party, local program kinds, remote program kinds)'
ASSUMPTIONS = ['phase shifters whose documented partner channel belongs to the other party are used only where no photon combination can exceed the limit']
SHRINK = ('alice', 'ops', 'bobs', 'states', 'chaos', 'prog', 'rot')


def local_program(rng, cfg, br, own, ownc, kinds, hi, most, shifty):
    prog = []
    for _ in range(rng.randint(0, hi)):
        k = rng.wpick(kinds)
        op = G.one_op(rng, cfg, k, br, own, ownc, 24)
        if op is None:
            continue
        if k in ('ps', 'cps'):
            other = 1 if op[1] == 0 else 0
            if other not in own and (shifty or most >= cfg['L']):
                continue
        nb = M.step(br, op, cfg['L'], cfg['n'])
        if len(nb) > 50 or max(len(b['vec']) for b in nb) > 120 or any(abs(v) > 1e3 for b in nb for v in b['cl']):
            continue
        prog.append(op)
        br = nb
    return prog


def gen(rng, tier):
    mode = rng.wpick([('plain', 7), ('pr', 1.5), ('delay', 1.2)])
    if mode == 'plain':
        cfg = G.config(rng, sizes=[((2, 4), 4), ((2, 5), 3), ((3, 3), 2), ((3, 4), 3), ((4, 3), 2), ((2, 6), 2), ((2, 3), 1)], thr=1e-10, c=rng.randint(2, 4))
        st = G.states(rng, cfg, 1, 3, max_comps=5)
        chans = list(range(cfg['n']))
        rng.shuffle(chans)
        k = rng.randint(1, cfg['n'] - 1)
        if k == 1 and cfg['n'] > 2 and rng.chance(0.6):
            k = 2
        cls = list(range(cfg['c']))
        rng.shuffle(cls)
        kc = rng.randint(1, cfg['c'] - 1)
        own, ownc = [chans[:k], chans[k:]], [cls[:kc], cls[kc:]]
        br = C.branches(st)
        most = max(sum(t) for b in br for t in b['vec'])
        kinds = G.swarm(rng, KINDS)
        shifty = any(x.startswith('shift') or x.startswith('cshift') for x, _ in kinds)
        alice = local_program(rng, cfg, br, own[0], ownc[0], kinds, 4, most, shifty)
        bobs = [{'prog': [], 'sched': {'kind': 'uniform', 'ops': [], 'how': 'whole'}}]
        for _ in range(rng.randint(1, 3)):
            prog = local_program(rng, cfg, M.run(br, alice, cfg['L'], cfg['n']), own[1], ownc[1], kinds, 6, most, shifty)
            bobs.append({'prog': prog, 'sched': schedule(rng, [len(alice), len(prog)])})
        return {'mode': mode, 'cfg': cfg, 'states': st, 'own': own, 'ownc': ownc, 'alice': alice, 'bobs': bobs, 'chaos': chaos.gen(rng, cfg, 6, 0.3)}
    if mode == 'pr':
        two = rng.chance(0.12)
        cfg = G.config(rng, sizes=[((2, 8), 1)] if two else [((2, 4), 3), ((3, 4), 0.5)], thr=1e-10, c=8 if two else 4)
        cfg['full'] = cfg['full'] and not two
        st = G.states(rng, cfg, 1, 1 if two else 2, total=0, max_comps=1)
        chans = list(range(cfg['n']))
        rng.shuffle(chans)
        boxes = [[chans[4 * i:4 * i + 4], round(rng.pick([1.0, rng.uniform(0.1, 1)]), 2)] for i in range(2 if two else 1)]
        if rng.chance(0.5):
            boxes = [[b[0][2:] + b[0][:2], b[1]] for b in boxes]
        flip = [rng.chance(0.5) for _ in boxes]           # which end of each box is local
        a = [[*(b[0][:2] if not f else b[0][2:])] for b, f in zip(boxes, flip)]
        z = [[*(b[0][2:] if not f else b[0][:2])] for b, f in zip(boxes, flip)]
        rot = lambda ends, hi: [['wp', *rng.pick(ends), rng.angle(), 3.141592653589793] for _ in range(rng.randint(0, hi))]
        alice = rot(a, 2)
        bobs = [{'prog': [], 'sched': {'kind': 'uniform', 'ops': [], 'how': 'whole'}}]
        for _ in range(rng.randint(1, 2 if two else 3)):
            prog = rot(z, 3)
            bobs.append({'prog': prog, 'sched': schedule(rng, [len(alice), len(prog)])})
        own = [[c for e in a for c in e], [c for e in z for c in e]]
        h = cfg['c'] // 2
        return {'mode': mode, 'cfg': cfg, 'states': st, 'own': own, 'ownc': [list(range(h)), list(range(h, 2 * h))], 'alice': alice, 'bobs': bobs, 'boxes': boxes, 'chaos': []}
    cfg = G.config(rng, sizes=[((3, 4), 2), ((3, 3), 1), ((4, 4), 0.5)], thr=1e-10, c=4)
    total = cfg['L'] - 1
    st = G.states(rng, cfg, 1, 2, cap=1, total=total, max_comps=2)
    chans = list(range(cfg['n']))
    rng.shuffle(chans)
    own, ownc = [chans[:2], chans[2:]], [[0, 1], [2, 3]]

    def prog(p, hi):
        out = []
        for _ in range(rng.randint(0, hi)):
            if rng.chance(0.5) or len(own[p]) < 2:
                out.append(['delayf', [rng.pick(own[p])], round(rng.uniform(-2, 2), 2)])
            else:
                out.append(G.one_op(rng, cfg, rng.pick(['mix', 'wp', 'hwp']), C.branches(st), own[p], ownc[p]))
        return out
    alice = prog(0, 3) + [['meas', own[0], ownc[0]]]
    bobs = [{'prog': [], 'sched': {'kind': 'uniform', 'ops': [], 'how': 'whole'}}]
    for _ in range(rng.randint(1, 3)):
        b = prog(1, 4)
        if rng.chance(0.5):
            b.append(['meas', own[1][:2], ownc[1][:len(own[1][:2])]])
        bobs.append({'prog': b, 'sched': schedule(rng, [len(alice), len(b)])})
    pre = [G.one_op(rng, cfg, 'mix', C.branches(st), chans, [0]) for _ in range(rng.randint(0, 2))]
    return {'mode': mode, 'cfg': cfg, 'states': st, 'own': own, 'ownc': ownc, 'alice': alice, 'bobs': bobs, 'chaos': [], 'rot': pre}


def hist(coll, cls):
    h = {}
    for k, v in coll.plot(classical_channels=list(cls), histo_output_instead_of_plot=True).items():
        for x in v:
            h[(k, x['output_state'])] = h.get((k, x['output_state']), 0) + float(x['probability'])
    return h


def same(h, base, what, tol):
    for k in sorted(set(h) | set(base)):
        if not abs(h.get(k, 0) - base.get(k, 0)) <= tol:
            raise Violation('signalling', '%s: the local party sees outcome %r with probability %.5f instead of %.5f' % (what, k, h.get(k, 0), base.get(k, 0)))


def run(s, ctx):
    cfg = s['cfg']
    if not s['states'] or not s['bobs']:
        raise Trivial('empty')
    if s['mode'] != 'plain':
        return run_special(s, ctx)
    own, ownc = s['own'], s['ownc']
    start = C.branches(s['states'])
    ref = M.reduce(M.run(start, s['alice'], cfg['L'], cfg['n']), own[0], ownc[0])
    base = None
    probes(s, ctx)
    for k, bob in enumerate(s['bobs']):
        order = merge([s['alice'], bob['prog']], bob['sched']['ops'])
        ops = [op for _, op in order]
        circ = B.build(cfg, ops)
        coll = B.collection(circ, cfg, s['states'])
        if bob['sched']['kind'] in ('burst', 'stall'):
            ctx.fault('burst_schedule' if bob['sched']['kind'] == 'burst' else 'stalled_party')
        if bob['sched']['how'] == 'nodes':
            for i in range(len(circ.node_list)):
                chaos.run(s['chaos'], i, ctx, cfg, circ, coll)
                coll = C.evaluate(circ, coll, [i])
        else:
            chaos.run(s['chaos'], k, ctx, cfg, circ, coll)
            coll = C.evaluate(circ, coll)
        got = B.read(coll, cfg)
        what = 'remote program %d (%s), order %s' % (k, ' '.join(o[0] for o in bob['prog']) or 'idle', ''.join('AB'[p] for p, _ in order))
        d = M.diff(M.reduce(got, own[0], ownc[0]), ref, use_hist=False)
        if d:
            raise Violation('signalling', '%s: %s' % (what, d))
        h = hist(coll, ownc[0])
        if base is None:
            base = h
        same(h, base, what + ', tabulated', 3e-4)
        ctx.probe('histogram')
        if len(own[0]) >= 2:
            # the library's own partial trace
            c2 = coll.copy()
            c2.reduce(optical_channels_to_keep=list(own[0]), classical_channels_to_keep=list(ownc[0]))
            small = dict(cfg, n=len(own[0]), c=len(ownc[0]))
            d = M.diff(B.read(c2, small), ref, use_hist=False)
            if d:
                raise Violation('signalling', '%s, after tracing out the remote channels: %s' % (what, d))
            ctx.probe('remote_traced_out')
        ctx.probe('reduced_state')
        ctx.probe('variants')
        if k and not bob['prog']:
            ctx.probe('remote_idle')
        if any(o[0] == 'meas' for o in bob['prog']):
            ctx.probe('remote_measures')
        if any(o[0] in G.CONTROLLED for o in bob['prog']):
            ctx.probe('remote_fed_forward')
        ctx.log('variant', k, C.summary(M.reduce(got, own[0], ownc[0]), 3)[:10])
        ctx.state(sorted(own[0]), sorted(o[0] for o in s['alice']), sorted(o[0] for o in bob['prog']))


def probes(s, ctx):
    if any(len(x['vec']) > 1 for x in s['states']):
        ctx.probe('entangled_input')
    if any(sum(x['init'] == y['init'] for y in s['states']) > 1 for x in s['states']):
        ctx.probe('mixture')
    if any(o[0] == 'meas' for o in s['alice']):
        ctx.probe('local_measures')


def run_special(s, ctx):
    cfg, own, ownc = s['cfg'], s['own'], s['ownc']
    base = None
    for k, bob in enumerate(s['bobs']):
        order = merge([s['alice'], bob['prog']], bob['sched']['ops'])
        ops = [op for _, op in order]
        who = ''.join('AB'[p] for p, _ in order)
        if s['mode'] == 'pr':
            ctx.probe('pr_boxes')
            if len(s['boxes']) > 1:
                ctx.probe('two_boxes')
            if any(q < 0.9 for _, q in s['boxes']):
                ctx.probe('weak_box')
            ops = [['pr', s['boxes']]] + ops + [['meas', own[0] + own[1], ownc[0] + ownc[1]]]
        else:
            ctx.probe('time_delay')
            ops = s['rot'] + [['delayf', [0], 0.0]] + ops
            ctx.simtime += sum(abs(o[2]) for o in ops if o[0] == 'delayf')
            if not any(o[0] == 'meas' for o in bob['prog']):
                ctx.probe('remote_not_measured')
        circ = B.build(cfg, ops)
        coll = B.collection(circ, cfg, s['states'])
        if bob['sched']['how'] == 'nodes':
            for i in range(len(circ.node_list)):
                coll = C.evaluate(circ, coll, [i])
        else:
            coll = C.evaluate(circ, coll)
        h = hist(coll, ownc[0])
        ctx.log('variant', k, who, sorted((x, round(v, 3)) for x, v in h.items() if v > 1e-3))
        ctx.state(s['mode'], sorted(own[0]), len(s['alice']), len(bob['prog']))
        ctx.probe('variants')
        if base is None:
            base = h
        same(h, base, 'remote program %d (%s), order %s' % (k, ' '.join(o[0] for o in bob['prog']) or 'idle', who), 2e-3)
