"""Histories of time delays and interfering elements in simulated time, statistics against a model of partially distinguishable photons."""
import itertools
import math

from .. import build as B, chaos, gen as G, model as M, common as C, seams
from ..kernel import Trivial, Violation
from .H13 import histogram

LEVEL = 'exploration'
RUNS = {'quick': 900, 'thorough': 25000}
FAULTS = ['rejected_call', 'user_function_raises', 'interrupt', 'allocation_failure', 'stream_constant', 'stream_high', 'restarted_between_pieces']
PROBES = ['successive_delays', 'cancelled_delays', 'classical_delay', 'measured_twice', 'delay_after_measurement', 'superposition', 'more_than_two_photons', 'bunched_photons',
          'quick_delay', 'quick_classical_delay', 'width_set', 'width_changed', 'fed_forward', 'fully_distinguishable', 'partly_distinguishable', 'vacuum_part', 'in_pieces',
          'mixture', 'several_states']
RULE = ('A seeded generator draws an ensemble, a history of fixed and classically set delays, pulse widths, interfering elements, feed-forward and measurements, and '
        'environment faults; the model keeps every photon with its own accumulated delay (a polynomial of creation operators) and takes the Gaussian overlap of the '
        'wave packets only when light is measured. Compared: the joint statistics of all results, and the probability in every measurement record.')
STATE_MEASURE = 'distinct (configuration, step kinds, number of distinct accumulated delays, number of outcomes)'
SIMTIME_UNIT = 'units of photon delay (pulse widths are of the order of one unit)'
SHRINK = ('chaos', 'ops', 'states')
ASSUMPTIONS = ['the photons fit the photon limit, which the library requires for time delays', 'one pulse width for all photons; it changes only before the first measurement '
               '(mixed widths are documented as non-physical)', 'quick delays: one per circuit, as documented']
FAR = 1000.0
KINDS = ['mix', 'mixg', 'swap', 'wp', 'hwp', 'hwp45', 'hwp225', 'qwp', 'qwp45', 'qwp225', 'cust', 'ps', 'pbs', 'npbs', 'npbsg']


def tau(rng, used):
    r = rng.random()
    if used and r < 0.3:
        return -rng.pick(used)
    if used and r < 0.4:
        return rng.pick(used)
    if r < 0.55:
        return rng.pick([0.0, 1.0, -1.0, 2, 50.0, -50.0])
    return round(rng.uniform(-2.5, 2.5), 3)


def gen(rng, tier):
    quick = rng.chance(0.25)
    cfg = G.config(rng, sizes=[((3, 2), 5), ((3, 3), 4), ((4, 2), 3), ((4, 3), 2), ((3, 4), 2), ((11, 2), 1), ((5, 2), 1)], thr=1e-10, c=rng.randint(3, 5))
    cfg['c'] = max(cfg['c'], cfg['n'])
    n, L = cfg['n'], cfg['L']
    top = min(L - 1, 4 if n == 2 else 3)
    st = []
    for i, x in enumerate(G.states(rng, cfg, 1, 2 if rng.chance(0.8) else 3, total=rng.randint(1, top) if rng.chance(0.8) else None, cap=1 if rng.chance(0.5) else None, max_comps=3)):
        vec = [[v, a] for v, a in x['vec'] if sum(v) <= top]
        norm = math.sqrt(sum(a[0] ** 2 + a[1] ** 2 for _, a in vec))
        if vec and norm > 0:
            x['vec'] = [[v, [a[0] / norm, a[1] / norm]] for v, a in vec]
            st.append(x)
    if not st:
        st = [{'id': None, 'init': 'in', 'p': 1.0, 'vec': [[[1] * min(n, top) + [0] * (n - min(n, top)), [1.0, 0.0]]], 'cl': [0] * cfg['c']}]
    sigma = rng.pick([1, 1, 2.0, 0.5, 1.3])
    ops, used = [], []
    measured = False
    delays = 0
    optics = [k for k in KINDS if rng.chance(0.5)] or ['mix', 'wp']
    for _ in range(rng.randint(2, 9)):
        k = rng.wpick([('delay', 3), ('cdelay', 1.5), ('optics', 5), ('cwp', 0.7), ('cps', 0.7), ('setc', 1), ('cfun', 0.7), ('setpw', 0.5), ('meas', 0.8)])
        fake = [M.branch('', 1.0, {(0,) * n: 1.0}, [0] * cfg['c'])]
        if k in ('delay', 'cdelay'):
            if delays >= (1 if quick else 5):
                continue
            delays += 1
            chans = rng.sample(range(n), rng.randint(1, n - 1 if rng.chance(0.9) else n))
            if k == 'delay':
                used.append(tau(rng, used))
            op = [k + ('' if quick else 'f'), chans, used[-1] if k == 'delay' else rng.randrange(cfg['c'])]
            if not measured and not quick and rng.chance(0.1):
                sigma = rng.pick([1, 0.7, 3])
            if sigma != 1 or rng.chance(0.3):
                op.append(sigma)
        elif k == 'optics':
            op = G.one_op(rng, cfg, rng.pick(optics), fake, range(n), range(cfg['c']))
        elif k == 'setpw':
            if quick:
                continue
            if not measured:
                sigma = rng.pick([1, 0.7, 3, 1.5])
            op = ['setpw', rng.pick([None, list(range(n)), rng.sample(range(n), n)]), sigma] if rng.chance(0.85) else ['setpw', [], 7.0]
        elif k == 'meas':
            if quick and delays == 0 and rng.chance(0.5):
                continue
            op = G.one_op(rng, cfg, k, fake, range(n), range(cfg['c']))
            measured = True
        else:
            op = G.one_op(rng, cfg, k, fake, range(n), range(cfg['c']))
        if op:
            ops.append(op)
    if quick and delays == 0:
        ops.insert(rng.randint(0, len(ops)), ['delay', [rng.randrange(n)], tau(rng, used)])
    if rng.chance(0.7):
        ops.append(['mix', *G.two(rng, range(n))])
    ops.append(['meas', list(range(n)), rng.sample(range(cfg['c']), n)])
    # classical values are shown modulo the photon limit in the statistics: keep to whole numbers there
    last = ops[-1][2]
    ops.append(['setc', [0] * (cfg['c'] - n), [c for c in range(cfg['c']) if c not in last]] if cfg['c'] > n else ['setc', [], []])
    return {'cfg': cfg, 'states': st, 'ops': ops, 'quick': quick, 'chaos': chaos.gen(rng, cfg, len(ops) + 1, 0.3, hi=2), 'stream': rng.pick([None, None, ['constant:0', 1], ['high', 1]]),
            'cuts': sorted(rng.sample(range(1, len(ops)), rng.randint(1, min(3, len(ops) - 1)))) if rng.chance(0.4) and len(ops) > 1 else []}


# ---------------------------------------------------------------- reference: polynomials of creation operators
def poly(vec):
    out = {}
    for t, a in vec.items():
        key = tuple(sorted((c, 0.0) for c, k in enumerate(t) for _ in range(k)))
        out[key] = out.get(key, 0) + a / math.sqrt(math.prod(math.factorial(k) for k in t))
    return out


def optics(p, a, b, m):
    out = {}
    for key, x in p.items():
        partial = {(): x}
        for ch, lab in key:
            new = {}
            if ch not in (a, b):
                to = [(ch, 1)]
            else:
                row = m[0] if ch == a else m[1]
                to = [(a, row[0]), (b, row[1])]
            for k2, y in partial.items():
                for c2, z in to:
                    if z != 0:
                        kk = k2 + ((c2, lab),)
                        new[kk] = new.get(kk, 0) + y * z
            partial = new
        for k2, y in partial.items():
            k2 = tuple(sorted(k2))
            out[k2] = out.get(k2, 0) + y
    return {k: v for k, v in out.items() if abs(v) > 1e-12}


def move(p, chans, by):
    out = {}
    for key, x in p.items():
        k2 = tuple(sorted((c, round(l + by, 9) if c in chans else l) for c, l in key))
        out[k2] = out.get(k2, 0) + x
    return out


def overlap(d, sigma):
    return math.exp(-math.log(2) * d * d / (2 * sigma * sigma)) if abs(d / sigma) < 40 else 0.0


def counts(key, n):
    t = [0] * n
    for c, _ in key:
        t[c] += 1
    return tuple(t)


def permanent(rows):
    k = len(rows)
    if k == 0:
        return 1.0
    if k == 1:
        return rows[0][0]
    return sum(math.prod(rows[i][s[i]] for i in range(k)) for s in itertools.permutations(range(k)))


def weights(p, n, sigma):
    """Probability of every photon count: norm of that part of the polynomial with the wave-packet overlaps."""
    parts = {}
    for key, x in p.items():
        parts.setdefault(counts(key, n), []).append((key, x))
    out = {}
    for t, terms in parts.items():
        tot = 0.0
        for i, (k1, x1) in enumerate(terms):
            for j in range(i, len(terms)):
                k2, x2 = terms[j]
                v, at = 1.0, 0
                for c in t:
                    if c:
                        v *= permanent([[overlap(k1[at + u][1] - k2[at + w][1], sigma) for w in range(c)] for u in range(c)])
                        at += c
                    if v == 0.0:
                        break
                tot += (x1.conjugate() * x2 * v).real * (1 if i == j else 2) if isinstance(x1, complex) else (x1 * x2 * v).real * (1 if i == j else 2)
        out[t] = max(tot, 0.0)
    return out


def model(s):
    """Branches with poly instead of vec; hist as in the ordinary model."""
    cfg = s['cfg']
    n = cfg['n']
    brs = []
    for x in s['states']:
        b = M.branch(x['init'], x.get('p', 1.0), {}, x['cl'])
        b['poly'] = poly({tuple(v): complex(*a) for v, a in x['vec']})
        brs.append(b)
    sigma = 1
    resolved = False
    for op in s['ops']:
        k = op[0]
        new = []
        if k in ('delayf', 'cdelayf'):
            sigma = op[3] if len(op) > 3 else 1
            resolved = True
        elif k == 'setpw' and op[1] != []:
            sigma = op[2]
            resolved = True
        for b in brs:
            nb = M.copy_branch(b)
            nb['poly'] = b['poly']
            if k in ('delayf', 'cdelayf'):
                by = op[2] if k == 'delayf' else b['cl'][op[2]]
                nb['poly'] = move(b['poly'], op[1], -by)
                new.append(nb)
            elif k in ('delay', 'cdelay'):
                by = op[2] if k == 'delay' else b['cl'][op[2]]
                o = overlap(by, op[3] if len(op) > 3 else 1) ** 2
                n2 = M.copy_branch(b)
                nb['p'], n2['p'] = b['p'] * o, b['p'] * (1 - o)
                n2['poly'] = move(b['poly'], op[1], FAR)
                new.extend([nb, n2])
            elif k == 'setpw':
                new.append(nb)
            elif k == 'meas':
                w = weights(b['poly'], n, sigma)
                groups = {}
                for key, x in b['poly'].items():
                    t = counts(key, n)
                    groups.setdefault(tuple(t[c] for c in op[1]), {})[key] = x
                tot = sum(w.values())
                for out, part in groups.items():
                    q = sum(w[t] for t in {counts(key, n) for key in part}) / tot if tot > 0 else 0.0
                    b2 = M.copy_branch(b)
                    b2['poly'], b2['p'] = part, b['p'] * q
                    for c, v in zip(op[2], out):
                        b2['cl'][c] = v
                    b2['hist'] = b['hist'] + [(tuple(b2['cl']), q)]
                    if q > 1e-9:
                        new.append(b2)
            elif k in ('setc', 'cfun'):
                nb['cl'] = M.step_branch(M.branch('', 1, {(0,) * n: 1}, b['cl']), op, cfg['L'], n)[0]['cl']
                new.append(nb)
            else:
                if k == 'cps':
                    ms = [M.phase_pair(op[1], b['cl'][op[2]])]
                elif k == 'cwp':
                    ms = [(op[1], op[2], M.waveplate(b['cl'][op[3]], b['cl'][op[4]]))]
                else:
                    ms = M.op_matrices(op)
                for a, c, m in ms:
                    nb['poly'] = optics(nb['poly'], a, c, m)
                new.append(nb)
        brs = new
        if len(brs) > 120 or max(len(b['poly']) for b in brs) > 90 or any(abs(v) > 1e3 for b in brs for v in b['cl']):
            raise Trivial('too large')
    return brs


def name(vals, cfg):
    return M.name_of([int(v) % cfg['L'] for v in vals], cfg['L'], cfg['left'])


def run(s, ctx):
    cfg, ops = s['cfg'], s['ops']
    if not s['states'] or not ops or not any(o[0] == 'meas' for o in ops):
        raise Trivial('nothing measured')
    kinds = [o[0] for o in ops]
    if sum(k in ('delay', 'cdelay') for k in kinds) > 1 or any(k in ('delay', 'cdelay') for k in kinds) and any(k in ('delayf', 'cdelayf', 'setpw') for k in kinds):
        raise Trivial('quick delays are for one use')
    ref = model(s)
    if any(abs(v - round(v)) > 1e-9 for b in ref for v in b['cl']):
        raise Trivial('classical values that cannot be shown')
    if s['stream']:
        seams.set_random(s['stream'][0], s['stream'][1], hold=300)
        ctx.fault('stream_' + s['stream'][0].split(':')[0])
    circ = B.circuit(cfg)
    for i, op in enumerate(ops):
        chaos.run(s['chaos'], i, ctx, cfg, circ, None)
        B.add_op(circ, op, cfg)
    coll = B.collection(circ, cfg, s['states'])
    chaos.run(s['chaos'], len(ops), ctx, cfg, circ, coll)
    # node numbers of the operations (some operations are more than one node)
    if s['cuts'] and len(circ.node_list) == len(ops):
        res, at = coll, 0
        for c in [x for x in s['cuts'] if x < len(ops)] + [len(ops)]:
            if c > at:
                res = C.evaluate(circ, res, range(at, c))
                chaos.run(s['chaos'], len(ops) + 1, ctx, cfg, circ, None)
                at = c
        ctx.fault('restarted_between_pieces')
        ctx.probe('in_pieces')
    else:
        res = C.evaluate(circ, coll)
    want = {}
    for b in ref:
        k = b['init'] + ' -> ' + name(b['cl'], cfg)
        want[k] = want.get(k, 0.0) + b['p']
    # statistics
    got = histogram(res, cfg)
    ctx.log('statistics', sorted((k, round(v, 4)) for k, v in got.items() if v > 1e-4))
    total = {}
    for k in sorted(set(got) | set(want)):
        a, b = got.get(k, 0.0), want.get(k, 0.0)
        if a != a or abs(a - b) > 5e-4:
            raise Violation('wrong-statistics', 'probability of %s: %.5f, the accumulated delays prescribe %.5f' % (k, a, b))
        total[k.split(' -> ')[0]] = total.get(k.split(' -> ')[0], 0.0) + a
    # measurement records: every record chain of the result exists in the reference with these probabilities
    chains = {}
    for b in ref:
        chains.setdefault((b['init'], tuple(tuple(M.keyval(v) for v in h[0]) for h in b['hist'])), []).append([h[1] for h in b['hist']])
    seen = set()
    for stt in res:
        hist = [(tuple(M.keyval(v) for v in r['measurement_results']), float(r['probability'])) for r in stt.measurement_results]
        key = (stt.initial_state, tuple(h[0] for h in hist))
        probs = [h[1] for h in hist]
        if math.prod(probs) < 2e-4:
            continue
        if key not in chains:
            raise Violation('record-out-of-nowhere', 'initial state %r has records %s (probabilities %s), which no history of these photons gives' % (
                key[0], [list(x) for x in key[1]], [round(q, 5) for q in probs]))
        seen.add(key)
        if not any(all(abs(x - y) <= 2e-3 for x, y in zip(probs, c)) for c in chains[key]):
            raise Violation('wrong-record', 'initial state %r with records %s: recorded probabilities %s, the accumulated delays prescribe %s' % (
                key[0], [list(x) for x in key[1]], [round(q, 5) for q in probs], [[round(q, 5) for q in c] for c in chains[key]]))
    for key, cs in chains.items():
        if key not in seen and max(math.prod(c) for c in cs) > 2e-3:
            raise Violation('record-missing', 'initial state %r: no branch has the records %s' % (key[0], [list(x) for x in key[1]]))
    probes(ctx, s, ref, kinds)


def probes(ctx, s, ref, kinds):
    cfg, ops = s['cfg'], s['ops']
    nd = sum(k in ('delayf', 'cdelayf') for k in kinds)
    if nd > 1:
        ctx.probe('successive_delays')
    fixed = [o[2] for o in ops if o[0] == 'delayf' and o[2]]
    if any(-x in fixed for x in fixed):
        ctx.probe('cancelled_delays')
    if 'cdelayf' in kinds:
        ctx.probe('classical_delay')
    if kinds.count('meas') > 1:
        ctx.probe('measured_twice')
        first = kinds.index('meas')
        if any(k in ('delayf', 'cdelayf') for k in kinds[first:]):
            ctx.probe('delay_after_measurement')
    if any(len(x['vec']) > 1 for x in s['states']):
        ctx.probe('superposition')
    if any(sum(v) > 2 for x in s['states'] for v, _ in x['vec']):
        ctx.probe('more_than_two_photons')
    if any(max(v) > 1 for x in s['states'] for v, _ in x['vec']):
        ctx.probe('bunched_photons')
    if any(sum(v) == 0 for x in s['states'] for v, _ in x['vec']):
        ctx.probe('vacuum_part')
    if 'delay' in kinds:
        ctx.probe('quick_delay')
    if 'cdelay' in kinds:
        ctx.probe('quick_classical_delay')
    if 'setpw' in kinds:
        ctx.probe('width_set')
    if len({o[3] for o in ops if o[0] in ('delayf', 'cdelayf') and len(o) > 3} | {o[2] for o in ops if o[0] == 'setpw'}) > 1:
        ctx.probe('width_changed')
    if any(k in ('cwp', 'cps', 'cdelayf', 'cdelay') for k in kinds) and 'meas' in kinds[:-2]:
        ctx.probe('fed_forward')
    if len(s['states']) > 1:
        ctx.probe('several_states')
        if len({x['init'] for x in s['states']}) < len(s['states']):
            ctx.probe('mixture')
    labs = set()
    for b in ref:
        for key in b['poly']:
            labs |= {l for _, l in key}
            ls = [l for _, l in key]
            if len(ls) > 1:
                d = max(ls) - min(ls)
                if d > 10:
                    ctx.probe('fully_distinguishable')
                elif d > 0.05:
                    ctx.probe('partly_distinguishable')
    ctx.simtime += max([abs(l) for l in labs if abs(l) < FAR / 2] or [0.0])
    ctx.state(cfg['L'], cfg['n'], sorted(kinds), len(labs), len(ref))
