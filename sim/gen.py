"""Shared scenario generator.  Everything is drawn from one PRNG; preconditions are checked on the reference model."""
import math

from . import model as M

SIZES = [((2, 2), 6), ((2, 3), 6), ((2, 4), 8), ((2, 5), 4), ((3, 2), 7), ((3, 3), 9), ((3, 4), 5), ((4, 2), 5), ((4, 3), 5),
         ((5, 2), 3), ((6, 2), 2), ((2, 6), 2), ((11, 2), 3), ((12, 2), 2), ((5, 3), 1), ((2, 7), 1)]
SMALL = [((2, 2), 5), ((2, 3), 5), ((2, 4), 4), ((3, 2), 5), ((3, 3), 4), ((4, 2), 3), ((11, 2), 1), ((12, 2), 1)]

OPTICAL2 = ['mix', 'mixg', 'swap', 'wp', 'hwp', 'hwp45', 'hwp225', 'qwp', 'qwp45', 'qwp225', 'cust']
OPTICAL = OPTICAL2 + ['ps', 'pbs', 'npbs', 'npbsg']
CONTROLLED = ['cps', 'cwp', 'chamwp']
CLASSICAL = ['setc', 'cfun']
CUSTOM = ['perm', 'kerr', 'shift', 'shiftd', 'cshift', 'cshiftd']
OPERATOR = ['hamwp', 'ham']
GENERIC = ['gsplit', 'gident', 'grelabel']
ALL = OPTICAL + CONTROLLED + CLASSICAL + CUSTOM + OPERATOR + ['meas'] + GENERIC


def config(rng, sizes=None, c=None, thr=1e-10, c_max=4):
    L, n = rng.wpick(sizes or SIZES)
    return {'L': L, 'n': n, 'c': rng.randint(1, c_max) if c is None else c, 'left': rng.chance(0.5), 'full': rng.chance(0.25),
            'thr': thr, 'name': rng.pick([None, 'exp', 'lab 1'])}


def amps(rng, k):
    style = rng.random()
    if style < 0.4:
        v = [complex(1, 0)] * k
    elif style < 0.6:
        v = [complex(*rng.pick([(1, 0), (-1, 0), (0, 1), (0, -1)])) for _ in range(k)]
    else:
        v = [complex(rng.uniform(-1, 1), rng.uniform(-1, 1)) + 0.2 for _ in range(k)]
    s = math.sqrt(sum(abs(a) ** 2 for a in v))
    return [a / s for a in v]


def photons(rng, L, n, total=None, cap=None):
    cap = L - 1 if cap is None else min(cap, L - 1)
    if total is None and cap > 9 and rng.chance(0.5):      # numbers of one and of two digits that look alike when written behind each other
        pool = [v for v in (0, 1, 1, 10, 11, 11, 12) if v <= cap]
        return tuple(rng.pick(pool) for _ in range(n))
    if total is not None:
        t = [0] * n
        for _ in range(total):
            free = [c for c in range(n) if t[c] < cap]
            if not free:
                break
            t[rng.pick(free)] += 1
        return tuple(t)
    return tuple(rng.randint(0, cap) if rng.chance(0.6) else 0 for _ in range(n))


def vector(rng, cfg, definite=None, max_comps=4, cap=None, total=None):
    L, n = cfg['L'], cfg['n']
    if total is None and (rng.chance(0.5) if definite is None else definite):
        total = rng.randint(0, min(4, (L - 1) * n))
    k = rng.randint(1, max_comps)
    comps = []
    for _ in range(k):
        t = photons(rng, L, n, total, cap)
        if comps and rng.chance(0.15):                     # the same numbers in other channels
            t = list(comps[-1])
            rng.shuffle(t)
            t = tuple(t)
        if t not in comps:
            comps.append(t)
        if total is None and L > 11 and cap is None and n > 1 and len(comps) < max_comps and rng.chance(0.5):
            i, j = rng.sample(range(n), 2)
            u, v = rng.pick([((1, 11), (11, 1)), ((1, 10), (11, 0))])
            for w in (u, v):
                t = list(t)
                t[i], t[j] = w
                if tuple(t) not in comps:
                    comps.append(tuple(t))
    return {t: a for t, a in zip(comps, amps(rng, len(comps)))}


def cl_values(rng, cfg, angles=True):
    out = []
    for _ in range(cfg['c']):
        r = rng.random()
        if r < 0.6:
            out.append(rng.randint(0, max(1, cfg['L'] - 1)))
        elif angles:
            out.append(rng.angle())
        else:
            out.append(rng.randint(0, 3))
    return out


LABELS = ['in', 'alice', 'bob 2', '0', 'psi+', 'x-y', 'a', 'MIX']


def states(rng, cfg, lo=1, hi=4, mixtures=True, definite=None, max_comps=4, cap=None, angles=True, total=None):
    """Initial states; same label = mixture, weights sum to one per label."""
    count = rng.randint(lo, hi)
    labels = []
    for i in range(count):
        if labels and mixtures and rng.chance(0.3):
            labels.append(rng.pick(labels))
        else:
            labels.append(rng.pick(LABELS) + (str(i) if rng.chance(0.9) else ''))
    out = []
    weights = {}
    for lb in set(labels):
        k = labels.count(lb)
        w = [1.0] if k == 1 else [rng.uniform(0.2, 1) for _ in range(k)]
        s = sum(w)
        weights[lb] = [x / s for x in w]
    use = {}
    for i, lb in enumerate(labels):
        j = use.get(lb, 0)
        use[lb] = j + 1
        v = vector(rng, cfg, definite, max_comps, cap, total)
        out.append({'id': rng.pick([None, 'st%d' % i, 'named state %d' % i]), 'init': lb, 'p': weights[lb][j],
                    'vec': [[list(t), [a.real, a.imag]] for t, a in v.items()], 'cl': cl_values(rng, cfg, angles)})
    return out


def two(rng, chans):
    a = rng.pick(chans)
    b = rng.pick([c for c in chans if c != a])
    return a, b


def max_pair_total(branches, a, b):
    return max([t[a] + t[b] for br in branches for t in br['vec']] or [0])


def ham_angle(rng, L, lim=4.5):
    """Angle for an operator gate: the largest eigenvalue of the Hamiltonian stays within reach of the documented Taylor order."""
    lim = lim / (L - 1)
    a = rng.angle()
    return a if abs(a) <= lim else round(rng.uniform(-lim, lim), 4)


def one_op(rng, cfg, kind, branches, chans, cls, max_branches=60):
    """One operation of the given kind on the given channels, or None when it does not fit."""
    L = cfg['L']
    B = L ** cfg['n']
    if kind in ('mix', 'swap', 'hwp45', 'hwp225', 'qwp45', 'qwp225'):
        return [kind, *two(rng, chans)] if len(chans) > 1 else None
    if kind in ('hwp', 'qwp'):
        return [kind, *two(rng, chans), rng.angle()] if len(chans) > 1 else None
    if kind == 'wp':
        return [kind, *two(rng, chans), rng.angle(), rng.angle()] if len(chans) > 1 else None
    if kind == 'mixg':
        return [kind, *two(rng, chans), rng.pick([0.25, 0.5, 0.75, 0.125, 1.0, 0.0, 0.875])] if len(chans) > 1 else None
    if kind == 'cust':
        return [kind, *two(rng, chans), rng.angle(), rng.angle(), rng.angle(), rng.angle()] if len(chans) > 1 else None
    if kind == 'ps':
        ch = rng.pick(chans)
        other = 1 if ch == 0 else 0
        if max_pair_total(branches, ch, other) >= L and other not in chans:
            return None
        return [kind, ch, rng.angle()]
    if kind in ('pbs', 'npbs', 'npbsg'):
        if len(chans) < 4:
            return None
        c = rng.sample(list(chans), 4)
        if kind == 'npbsg':
            c.append(rng.pick([0.25, 0.5, 0.75]))
        return [kind] + c
    if kind == 'cps':
        if not cls:
            return None
        ch = rng.pick(chans)
        other = 1 if ch == 0 else 0
        if max_pair_total(branches, ch, other) >= L and other not in chans:
            return None
        return [kind, ch, rng.pick(cls)]
    if kind in ('cwp', 'chamwp'):
        if not cls or len(chans) < 2:
            return None
        a, b = two(rng, chans)
        ct, cp = rng.pick(cls), rng.pick(cls)
        if kind == 'chamwp' and (max_pair_total(branches, a, b) >= L or L > 4
                                 or any(abs(br['cl'][x]) > 4.5 / (L - 1) for br in branches for x in (ct, cp))):
            return None
        return [kind, a, b, ct, cp]
    if kind == 'hamwp':
        if len(chans) < 2 or L > 4:
            return None
        a, b = two(rng, chans)
        if max_pair_total(branches, a, b) >= L:
            return None
        return [kind, a, b, ham_angle(rng, L), ham_angle(rng, L)]
    if kind == 'ham':
        if L > 4:
            return None
        r = rng.random()
        if r < 0.3:
            return [kind, [rng.pick(chans)], ['num', ham_angle(rng, L)]]
        if len(chans) < 2:
            return None
        a, b = two(rng, chans)
        if max_pair_total(branches, a, b) >= L:
            return None
        if r < 0.6:
            return [kind, [a, b], ['kerr', ham_angle(rng, L, 4.5 / (L - 1))]]
        return [kind, [a, b], ['bs', ham_angle(rng, L, 4.0 if L < 4 else 3.6)]]
    if kind == 'meas':
        if not cls or len(branches) > max_branches:
            return None
        k = rng.randint(1, min(len(chans), len(cls), 3))
        return [kind, rng.sample(list(chans), k), rng.sample(list(cls), k)]
    if kind == 'setc':
        if not cls:
            return None
        k = rng.randint(1, len(cls))
        return [kind, [rng.randint(0, 3) if rng.chance(0.6) else rng.angle() for _ in range(k)], rng.sample(list(cls), k)]
    if kind == 'cfun':
        if not cls:
            return None
        fam = rng.pick(['add', 'copy', 'table', 'xor', 'set', 'swap', 'scale'])
        style = rng.pick(['new', 'inplace', 'shared'])
        if fam in ('add', 'set'):
            k = rng.randint(1, len(cls))
            return [kind, fam, rng.sample(list(cls), k), [rng.randint(-1, 2) if rng.chance(0.6) else rng.angle() for _ in range(k)], style]
        if fam == 'table':
            return [kind, fam, [rng.pick(cls), rng.pick(cls)], [rng.angle() for _ in range(rng.randint(2, 4))], style]
        if fam == 'xor':
            return [kind, fam, [rng.pick(cls), rng.pick(cls), rng.pick(cls)], [], style]
        if fam == 'scale':
            return [kind, fam, [rng.pick(cls), rng.pick(cls)], [rng.pick([0.5, -1.0, 0.7853981])], style]
        if len(cls) < 2:
            return None
        return [kind, fam, list(two(rng, cls)), [], style]
    if kind == 'perm':
        return [kind, rng.randint(0, 10 ** 6)] if (B <= 130 and len(chans) == cfg['n']) else None
    if kind == 'kerr':
        return [kind, *two(rng, chans), round(rng.uniform(-2, 2), 3)] if (B <= 130 and len(chans) > 1) else None
    if kind in ('shift', 'shiftd'):
        if kind == 'shift' and B > 64:
            return None
        k = rng.randint(1, min(3, len(chans)))
        return [kind, [rng.pick(chans) for _ in range(k)], [rng.randint(0, L) for _ in range(k)]]
    if kind in ('cshift', 'cshiftd'):
        if len(chans) < 2 or (kind == 'cshift' and B > 64):
            return None
        prs = [two(rng, chans) for _ in range(rng.randint(1, 3))]
        return [kind, [p[0] for p in prs], [p[1] for p in prs]]
    if kind == 'couple':
        if len(chans) < 2 or B > 64:
            return None
        prs = [two(rng, chans) for _ in range(rng.randint(1, 2))]
        return [kind, [p[0] for p in prs], [p[1] for p in prs], rng.pick([0.0, 1.0])]
    if kind == 'gsplit':
        return [kind, rng.pick(cls), rng.pick([0.5, 0.25])] if cls and len(branches) <= max_branches // 2 else None
    if kind == 'gident':
        return [kind]
    if kind == 'grelabel':
        return [kind, rng.pick(['*', "'"])]
    raise ValueError(kind)


def swarm(rng, kinds, base=('mix', 'wp', 'meas')):
    """Per-run subset of operation kinds with random weights."""
    if rng.chance(0.25):
        return [(k, 1.0) for k in kinds]
    sub = [k for k in kinds if rng.chance(0.4)]
    for b in base:
        if b in kinds and b not in sub and rng.chance(0.6):
            sub.append(b)
    if not sub:
        sub = list(kinds)
    return [(k, rng.pick([0.5, 1, 1, 3])) for k in sub]


def vary(rng, op):
    """A near copy of an operation: the same, the channels the other way round, or a setting next to it."""
    k = op[0]
    if k not in OPTICAL2 + ['cwp', 'setc'] or rng.chance(0.2):
        return list(op) if k in OPTICAL2 + ['cwp', 'setc', 'cshift', 'cshiftd', 'shift', 'shiftd', 'meas', 'perm', 'kerr'] else None
    op = [list(x) if isinstance(x, list) else x for x in op]
    first = 3 if k != 'setc' else None
    if k != 'setc' and rng.chance(0.5):
        op[1], op[2] = op[2], op[1]
    if k in ('mix', 'swap', 'hwp45', 'hwp225', 'qwp45', 'qwp225'):
        return op
    if k == 'cwp':
        if rng.chance(0.5):
            op[3], op[4] = op[4], op[3]
    elif k == 'setc':
        j = rng.randrange(len(op[1]))
        op[1][j] = round(op[1][j] + rng.pick([1, -1, 3e-4, 4e-3, 0.05]), 6)
    elif k == 'mixg':
        op[3] = rng.pick([0.25, 0.5, 0.75, round(min(1.0, max(0.0, op[3] + rng.pick([1e-3, -1e-3, 1e-2]))), 6)])
    else:
        j = rng.randrange(first, len(op))
        op[j] = round(op[j] + rng.pick([3e-4, -4e-4, 4e-3, 0.04, 3.14159265, 1.57079633, -2 * op[j]]), 6)
    return op


def ops(rng, cfg, branches, count, kinds=None, chans=None, cls=None, max_branches=60, max_comps=160):
    """Random history; returns (ops, model branches after them)."""
    chans = list(range(cfg['n'])) if chans is None else chans
    cls = list(range(cfg['c'])) if cls is None else cls
    weights = swarm(rng, kinds or ALL)
    out = []
    tries = 0
    while len(out) < count and tries < count * 6:
        tries += 1
        op = vary(rng, rng.pick(out[-2:])) if out and rng.chance(0.15) else None
        if op is None or op[0] == 'meas' and len(branches) > max_branches:
            op = one_op(rng, cfg, rng.wpick(weights), branches, chans, cls, max_branches)
        if op is None:
            continue
        nb = M.step(branches, op, cfg['L'], cfg['n'])
        if len(nb) > max_branches * 2 or max([len(b['vec']) for b in nb] or [0]) > max_comps or any(
                abs(v) > 1e3 for b in nb for v in b['cl']):
            continue
        # keep every branch and component clearly above or below the drop threshold
        branches = nb
        out.append(op)
    return out, branches
