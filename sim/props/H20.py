"""Photon pairs from non-signalling boxes in random interleavings of local rotations, outcome probabilities against the analytic correlation."""
import math

from .. import build as B, chaos, gen as G, model as M, common as C, seams
from ..kernel import Rng, Trivial, Violation

LEVEL = 'exploration'
RUNS = {'quick': 700, 'thorough': 20000}
FAULTS = ['rejected_call', 'user_function_raises', 'interrupt', 'allocation_failure', 'stream_constant', 'stream_high', 'restarted_between_pieces', 'look_in_between']
PROBES = ['two_boxes', 'three_boxes', 'regular_strength', 'strong', 'weak', 'elliptical', 'several_rotations', 'set_by_classical_values', 'photons_exchanged', 'spectator_light',
          'superposed_spectator', 'superposed_template', 'mixture', 'weighted_state', 'measured_before', 'boxes_used_again', 'only_part_written', 'other_order', 'evaluated_again',
          'ill_conditioned']
RULE = ('A seeded generator draws boxes with strengths and channels, an ensemble (mixtures, light in other channels, classical settings), a program of local rotations for '
        'every photon, exchanges of photons and measurements; a seeded scheduler interleaves the programs in two different orders. Every branch of the result (probability, '
        'collapsed light, classical values, records) is compared with the analytic correlation: half per photon, (1 + sign(c)|c|^(1/strength))/2 per box, c the cosine between '
        'the analysers on the Poincare sphere; at strength one also with the entangled state 1010 + 0101 evaluated by the real circuit.')
STATE_MEASURE = 'distinct (configuration, boxes, strengths, rotations per photon, interleaving)'
SHRINK = ('chaos', 'ops', 'states')
ASSUMPTIONS = ['outcomes whose probability changes steeply (nearly, not exactly, orthogonal analysers at large strength) are only checked for totals and unbiasedness',
               'single-channel phase shifters only where the photon limit leaves room for both channels they use']
ROT = ['wp', 'hwp', 'qwp', 'hwp45', 'hwp225', 'qwp45', 'qwp225', 'cust', 'mix', 'mixg', 'swap']


def gen(rng, tier):
    k = rng.wpick([(1, 8), (2, 1.0), (3, 0.15 if tier == 'thorough' else 0.02)])
    extra = rng.wpick([(0, 3), (1, 1), (2, 2)]) if k == 1 else (rng.pick([0, 0, 1]) if k == 2 else 0)
    L = 2 if k > 1 or rng.chance(0.75) else 3
    n = 4 * k + extra
    c = n + rng.randint(0, 1) if k > 1 else rng.randint(3, 6)
    cfg = {'L': L, 'n': n, 'c': c, 'left': rng.chance(0.5), 'full': rng.chance(0.2) and n <= 5, 'thr': 1e-10, 'name': None}
    chans = list(range(n))
    rng.shuffle(chans)
    if rng.chance(0.3):
        chans.sort()
    boxes = [[chans[4 * i:4 * i + 4], rng.pick([1, 1.0, 2, 5, 10, 1000, 0.5, round(rng.uniform(0.2, 8), 2)])] for i in range(k)]
    spare = chans[4 * k:]
    st = []
    for i, x in enumerate(G.states(rng, cfg, 1, {1: 3, 2: 2, 3: 1}[k], total=None, cap=1, max_comps=rng.pick([1, 1, 2]))):
        if rng.chance(0.5):
            # nothing where the boxes go
            vec = {}
            for v, a in x['vec']:
                v = tuple(0 if ch not in spare else y for ch, y in enumerate(v))
                vec.setdefault(v, a)
            norm = math.sqrt(sum(a[0] ** 2 + a[1] ** 2 for a in vec.values()))
            x['vec'] = [[list(v), [a[0] / norm, a[1] / norm]] for v, a in vec.items()]
        if rng.chance(0.15):
            x['p'] = x['p'] * rng.pick([0.5, 0.25])
        st.append(x)
    where = [[tuple(b[0][:2]), tuple(b[0][2:])] for b in boxes]
    photons = [[i, e] for i in range(k) for e in (0, 1)]
    progs = []
    elliptical = rng.chance(0.6)
    for i, e in photons:
        p = []
        for _ in range(rng.randint(0, 3) if k < 3 else 1):
            h, v = where[i][e]
            if rng.chance(0.15):
                h, v = v, h
            kind = rng.wpick([('rot', 5), ('cwp', 2), ('ps', 0.7), ('cps', 0.5)])
            if kind == 'rot':
                kind = rng.pick(ROT if elliptical else ['hwp', 'hwp45', 'hwp225', 'swap'])
                op = [kind, h, v] + {'wp': [rng.angle(), rng.angle()], 'hwp': [rng.angle()], 'qwp': [rng.angle()], 'cust': [rng.angle() for _ in range(4)],
                                     'mixg': [rng.pick([0.25, 0.5, 0.75])]}.get(kind, [])
            elif kind == 'cwp':
                op = ['cwp', h, v, rng.randrange(c), rng.randrange(c)]
            else:
                if L < 3 or not elliptical:
                    continue
                op = ['ps', h, rng.angle()] if kind == 'ps' else ['cps', h, rng.randrange(c)]
            p.append(op)
        progs.append(p)
    local = []
    if len(spare) == 2 and rng.chance(0.5):
        local.append(['mix' if rng.chance(0.5) else 'hwp225', *spare])
    if rng.chance(0.5):
        local.append(['setc', [rng.angle()], [rng.randrange(c)]])
    progs.append(local)
    ops = [['pr', boxes]]
    if rng.chance(0.2) and spare:
        ops.insert(0, ['meas', [rng.pick(spare)], [rng.randrange(c)]])
    mid = interleave(rng, progs)
    if rng.chance(0.25):
        a, b = G.two(rng, photons)
        wa, wb = where[a[0]][a[1]], where[b[0]][b[1]]
        mid += [['swap', wa[0], wb[0]], ['swap', wa[1], wb[1]]]
    ops += mid
    chosen = chans if k > 1 or rng.chance(0.6) else [x for x in chans if rng.chance(0.8)] or chans
    chosen = rng.sample(chosen, min(len(chosen), c))
    ops.append(['meas', chosen, rng.sample(range(c), len(chosen))])
    again = k == 1 and rng.chance(0.2)
    if again:
        h, v = boxes[0][0][:2]
        ops += [['pr', [[boxes[0][0], rng.pick([1, 3.0])]]], ['hwp', h, v, rng.angle()], ['meas', rng.sample(chans, min(n, c)), rng.sample(range(c), min(n, c))]]
    elif rng.chance(0.25):
        ops.append(rng.pick([['meas', chosen, ops[-1][2]], ['setc', [1], [0]], ['hwp45', chans[0], chans[1]]]))
    return {'cfg': cfg, 'states': st, 'ops': ops, 'order': rng.randint(0, 10 ** 6) if rng.chance(0.5) else None, 'stream': rng.pick([None, None, None, 'constant:3', 'high']),
            'cuts': sorted(rng.sample(range(1, len(ops)), rng.randint(1, min(3, len(ops) - 1)))) if rng.chance(0.4) else [],
            'chaos': chaos.gen(rng, cfg, len(ops) + 1, 0.3, hi=2, kinds=['reject', 'lookups', 'other_circuit', 'copy_mutate', 'rng', 'gc', 'reeval', 'interrupted_eval', 'failed_eval',
                                                                         'alloc_fail_eval', 'broken_display']) if k < 3 else []}


def interleave(rng, progs):
    progs = [list(p) for p in progs]
    out = []
    while any(progs):
        out.append(rng.pick([p for p in progs if p]).pop(0))
    return out


def reorder(rng, cfg, ops):
    """Another order with the same meaning: neighbouring steps that touch no common channel are exchanged."""
    def touch(op):
        k = op[0]
        if k in ('pr', 'meas', 'gident'):
            return None
        if k == 'setc':
            return set(), set(op[2])
        if k in ('ps', 'cps'):
            return {op[1], 1 if op[1] == 0 else 0}, set(op[2:3]) if k == 'cps' else set()
        if k == 'cwp':
            return {op[1], op[2]}, set(op[3:5])
        return {op[1], op[2]}, set()
    ops = list(ops)
    for _ in range(4 * len(ops)):
        i = rng.randrange(max(1, len(ops) - 1))
        if i + 1 >= len(ops):
            continue
        a, b = touch(ops[i]), touch(ops[i + 1])
        if a and b and not (a[0] & b[0]) and not (a[1] & b[1]):
            ops[i], ops[i + 1] = ops[i + 1], ops[i]
    return ops


# ---------------------------------------------------------------- the analytic correlation
def stokes(u):
    d = u[0] * complex(u[1]).conjugate()
    return (2 * d.imag, 2 * d.real, abs(u[0]) ** 2 - abs(u[1]) ** 2)


def sharpen(c, q):
    return math.copysign(abs(c) ** (1.0 / q), c) if abs(c) > 0 else 0.0


class Unclear(Exception):
    pass


def model(s):
    cfg = s['cfg']
    n, L = cfg['n'], cfg['L']
    brs = []
    for x in s['states']:
        b = M.branch(x['init'], x.get('p', 1.0), {tuple(v): complex(*a) for v, a in x['vec']}, x['cl'])
        b['boxes'] = []
        brs.append(b)
    unclear = False
    for op in s['ops']:
        k = op[0]
        new = []
        for b in brs:
            nb = M.copy_branch(b)
            nb['boxes'] = [{'loc': [list(x) for x in bx['loc']], 'u': [[list(r) for r in m] for m in bx['u']], 'q': bx['q']} for bx in b['boxes']]
            if k == 'pr':
                if nb['boxes']:
                    raise Trivial('boxes created twice')
                used = [c for bx in op[1] for c in bx[0]]
                vec = {}
                for t, a in nb['vec'].items():
                    t = tuple(0 if c in used else v for c, v in enumerate(t))
                    vec[t] = vec.get(t, 0.0) + abs(a) ** 2 if t in vec else abs(a) ** 2
                # phases between what is left: of the first component that ends up there
                first = {}
                for t, a in nb['vec'].items():
                    first.setdefault(tuple(0 if c in used else v for c, v in enumerate(t)), a)
                nb['vec'] = {t: math.sqrt(p) * (first[t] / abs(first[t]) if abs(first[t]) else 1) for t, p in vec.items()}
                nb['boxes'] = [{'loc': [list(bx[0][:2]), list(bx[0][2:])], 'u': [[[1, 0], [0, 1]], [[1, 0], [0, 1]]], 'q': bx[1]} for bx in op[1]]
                new.append(nb)
            elif not b['boxes'] or k in ('setc', 'cfun'):
                for r in M.step_branch(M.copy_branch(b), op, L, n):
                    r['boxes'] = nb['boxes']
                    new.append(r)
            elif k == 'meas':
                res, fuzzy = measure(nb, op, cfg)
                unclear = unclear or fuzzy
                new.extend(res)
            else:
                rotate(nb, op, cfg)
                new.append(nb)
        brs = new
        if len(brs) > 300:
            raise Trivial('too many branches')
    return brs, unclear


def rotate(b, op, cfg):
    if op[0] == 'cps':
        ms = [M.phase_pair(op[1], b['cl'][op[2]])]
    elif op[0] == 'cwp':
        ms = [(op[1], op[2], M.waveplate(b['cl'][op[3]], b['cl'][op[4]]))]
    else:
        ms = M.op_matrices(op)
    for a, c, m in ms:
        if op[0] in ('ps', 'cps'):
            # only the phase of one channel
            one, f = (c, m[1][1]) if c == op[1] else (a, m[0][0])
            for bx in b['boxes']:
                for e in (0, 1):
                    for y in (0, 1):
                        if bx['loc'][e][y] == one:
                            for x in (0, 1):
                                bx['u'][e][x][y] *= f
            b['vec'] = {t: v * f ** t[one] for t, v in b['vec'].items()}
            continue
        inside = [(bx, e) for bx in b['boxes'] for e in (0, 1) if a in bx['loc'][e] and c in bx['loc'][e]]
        if inside:
            bx, e = inside[0]
            y, z = bx['loc'][e].index(a), bx['loc'][e].index(c)
            for row in bx['u'][e]:
                p, q = row[y], row[z]
                row[y], row[z] = p * m[0][0] + q * m[1][0], p * m[0][1] + q * m[1][1]
        elif op[0] == 'swap':
            # photons are relabelled
            for bx in b['boxes']:
                for e in (0, 1):
                    bx['loc'][e] = [c if v == a else a if v == c else v for v in bx['loc'][e]]
            vec = {}
            for t, v in b['vec'].items():
                t = list(t)
                t[a], t[c] = t[c], t[a]
                vec[tuple(t)] = v
            b['vec'] = vec
        else:
            taken = {v for bx in b['boxes'] for loc in bx['loc'] for v in loc}
            if a in taken or c in taken:
                raise Trivial('not a local rotation')
            b['vec'] = M.two_channel(b['vec'], a, c, m, cfg['L'])


def measure(b, op, cfg):
    taken = [v for bx in b['boxes'] for loc in bx['loc'] for v in loc]
    if len(set(taken)) < len(taken):
        raise Trivial('photons on top of each other')
    outs, unclear = [({}, 1.0)], False
    for bx in b['boxes']:
        new = []
        for ya in (0, 1):
            for yb in (0, 1):
                u = [bx['u'][0][0][ya], bx['u'][0][1][ya]]
                w = [bx['u'][1][0][yb], bx['u'][1][1][yb]]
                s1, s2 = stokes(u), stokes(w)
                c = -s1[0] * s2[0] + s1[1] * s2[1] + s1[2] * s2[2]
                c = max(-1.0, min(1.0, c))
                if abs(c) < 5e-8:
                    c = 0.0                      # orthogonal: no correlation left whatever the strength
                f = sharpen(c, bx['q'])
                if c and max(abs(sharpen(c + d, bx['q']) - f) for d in (4e-6, -4e-6) if abs(c + d) <= 1) > 1e-3:
                    unclear = True
                for vals, p in outs:
                    v2 = dict(vals)
                    v2[bx['loc'][0][ya]] = 1
                    v2[bx['loc'][1][yb]] = 1
                    new.append((v2, p * 0.25 * (1 + f)))
        outs = new
    res = []
    for vals, p in outs:
        for t, a in b['vec'].items():
            q = p * abs(a) ** 2
            if q <= 1e-12:
                continue
            t2 = tuple(vals.get(c, 0) if c in taken else v for c, v in enumerate(t))
            nb = M.copy_branch(b)
            nb['boxes'] = []
            nb['vec'], nb['p'] = {t2: 1.0}, b['p'] * q
            for ch, cl in zip(op[1], op[2]):
                nb['cl'][cl] = t2[ch]
            nb['hist'] = b['hist'] + [(tuple(nb['cl']), q)]
            res.append(nb)
    return res, unclear


def unbiased(got, s, ref):
    """What must hold even where probabilities jump: totals per input, every polarization of every photon with half of it."""
    tot, want = {}, {}
    for b in got:
        tot[b['init']] = tot.get(b['init'], 0.0) + b['p']
    for b in ref:
        want[b['init']] = want.get(b['init'], 0.0) + b['p']
    for k in sorted(set(tot) | set(want)):
        if not abs(tot.get(k, 0) - want.get(k, 0)) <= 1e-3:
            raise Violation('total-probability', 'outcomes of %r add up to %.5f instead of %.5f' % (k, tot.get(k, 0), want.get(k, 0)))
    last = max(i for i, o in enumerate(s['ops']) if o[0] == 'meas')
    if s['ops'][last + 1:]:
        return
    for ch in range(s['cfg']['n']):
        for k in want:
            a = sum(b['p'] * sum(abs(x) ** 2 for t, x in b['vec'].items() if t[ch]) for b in got if b['init'] == k)
            r = sum(b['p'] * sum(abs(x) ** 2 for t, x in b['vec'].items() if t[ch]) for b in ref if b['init'] == k)
            if not abs(a - r) <= 1e-3:
                raise Violation('biased', 'light of %r is found in channel %d with probability %.5f instead of %.5f' % (k, ch, a, r))


def execute(s, ctx, ops, circ, coll):
    cfg = s['cfg']
    if s['cuts'] and len(circ.node_list) == len(ops):
        res, at = coll, 0
        for c in [x for x in s['cuts'] if x < len(ops)] + [len(ops)]:
            if c > at:
                res = C.evaluate(circ, res, range(at, c))
                at = c
                if c % 2:
                    str(res), res.plot(histo_output_instead_of_plot=True, classical_channels=list(range(cfg['c'])))
                    ctx.fault('look_in_between')
                else:
                    res = res.copy()
        ctx.fault('restarted_between_pieces')
        return res
    return C.evaluate(circ, coll)


def run(s, ctx):
    cfg, ops = s['cfg'], s['ops']
    kinds = [o[0] for o in ops]
    if not s['states'] or 'pr' not in kinds or 'meas' not in kinds[kinds.index('pr'):]:
        raise Trivial('no measured boxes')
    if kinds.count('pr') > 1 and 'meas' not in kinds[len(kinds) - 1 - kinds[::-1].index('pr'):]:
        raise Trivial('no measured boxes')
    ref, unclear = model(s)
    if any(b['boxes'] for b in ref):
        raise Trivial('no measured boxes')
    if s['stream']:
        seams.set_random(s['stream'], 1, hold=400)
        ctx.fault('stream_' + s['stream'].split(':')[0])
    circ = B.circuit(cfg)
    for i, op in enumerate(ops):
        chaos.run(s['chaos'], i, ctx, cfg, circ, None)
        B.add_op(circ, op, cfg)
    coll = B.collection(circ, cfg, s['states'])
    chaos.run(s['chaos'], len(ops), ctx, cfg, circ, coll)
    rounds = [('as given', circ, ops)]
    if s['order'] is not None:
        other = reorder(Rng(s['order']), cfg, ops)
        if other != ops:
            rounds.append(('in another order', B.build(cfg, other), other))
            ctx.probe('other_order')
    if len(ref) < 40:
        rounds.append(('again', circ, ops))
        ctx.probe('evaluated_again')
    for what, ci, oo in rounds:
        got = B.read(execute(s, ctx, oo, ci, coll), cfg)
        ctx.log('result', what, len(got), C.summary(got) if not unclear else '')
        unbiased(got, s, ref)
        if not unclear:
            C.expect(got, ref, 'wrong-correlation', 'rotations ' + what, tol_p=5e-4, tol_rho=8e-4)
    k = len(ops[kinds.index('pr')][1])
    if all(b[1] == 1 for o in ops if o[0] == 'pr' for b in o[1]) and kinds.count('pr') == 1 and k == 1 and not unclear:
        entangled(s, ctx)
    probes(ctx, s, ref, unclear, kinds)


def entangled(s, ctx):
    """Strength one: the same rotations on the state 1010 + 0101 itself."""
    cfg = s['cfg']
    at = [o[0] for o in s['ops']].index('pr')
    if at or any(len(x['vec']) > 1 for x in s['states']):
        return
    a = s['ops'][at][1][0][0]
    last = max(i for i, o in enumerate(s['ops']) if o[0] == 'meas')
    out = []
    for way in (0, 1):
        circ = B.circuit(cfg)
        for o in s['ops'][way:last]:
            B.add_op(circ, o, cfg)
        B.add_op(circ, ['meas', list(range(min(cfg['n'], cfg['c']))), list(range(min(cfg['n'], cfg['c'])))], cfg)
        st = [dict(x) for x in s['states']]
        if way:
            for x in st:
                v = list(x['vec'][0][0])
                w = list(v)
                for ch, p, q in zip(a, (1, 0, 1, 0), (0, 1, 0, 1)):
                    v[ch], w[ch] = p, q
                x['vec'] = [[v, [math.sqrt(0.5), 0]], [w, [math.sqrt(0.5), 0]]]
        out.append(B.read(C.evaluate(circ, B.collection(circ, cfg, st)), cfg))
    x, y = [M.aggregate(o, use_hist=False) for o in out]
    for key in sorted(set(x) | set(y), key=repr):
        p, q = (x[key]['p'] if key in x else 0.0), (y[key]['p'] if key in y else 0.0)
        if not abs(p - q) <= 5e-4:
            raise Violation('not-regular-entanglement', 'strength 1, outcome %s: %.5f, the entangled state gives %.5f' % (list(key[1]), p, q))
    ctx.probe('regular_strength')


def probes(ctx, s, ref, unclear, kinds):
    cfg, ops = s['cfg'], s['ops']
    boxes = ops[kinds.index('pr')][1]
    if len(boxes) == 2:
        ctx.probe('two_boxes')
    if len(boxes) > 2:
        ctx.probe('three_boxes')
    if any(b[1] > 4 for b in boxes):
        ctx.probe('strong')
    if any(b[1] < 1 for b in boxes):
        ctx.probe('weak')
    if any(k in ('wp', 'qwp', 'cust', 'ps', 'cps', 'qwp45') for k in kinds):
        ctx.probe('elliptical')
    count = {}
    for o in ops:
        if o[0] in ROT + ['cwp']:
            count[tuple(sorted(o[1:3]))] = count.get(tuple(sorted(o[1:3])), 0) + 1
    if any(v > 1 for v in count.values()):
        ctx.probe('several_rotations')
    if 'cwp' in kinds or 'cps' in kinds:
        ctx.probe('set_by_classical_values')
    locs = [set(x) for b in boxes for x in (b[0][:2], b[0][2:])]
    if any(o[0] == 'swap' and set(o[1:3]) not in locs for o in ops):
        ctx.probe('photons_exchanged')
    used = {c for b in boxes for c in b[0]}
    for x in s['states']:
        rest = {tuple(v[c] for c in range(cfg['n']) if c not in used) for v, _ in x['vec']}
        if any(any(r) for r in rest):
            ctx.probe('spectator_light')
        if len(rest) > 1:
            ctx.probe('superposed_spectator')
        if len(x['vec']) > len(rest):
            ctx.probe('superposed_template')
        if x['p'] != 1:
            ctx.probe('weighted_state')
    if len({x['init'] for x in s['states']}) < len(s['states']):
        ctx.probe('mixture')
    if 'meas' in kinds[:kinds.index('pr')]:
        ctx.probe('measured_before')
    if kinds.count('pr') > 1:
        ctx.probe('boxes_used_again')
    if any(o[0] == 'meas' and len(o[1]) < cfg['n'] for o in ops):
        ctx.probe('only_part_written')
    if unclear:
        ctx.probe('ill_conditioned')
    ctx.state(cfg['L'], cfg['n'], [[b[0], b[1]] for b in boxes], kinds, sorted(count.items()))
