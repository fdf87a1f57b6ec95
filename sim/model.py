"""Independent reference model of a photon experiment: an ensemble of branches.

Nothing in this file imports or calls the code under test.  A branch is
    {'init': str, 'p': float, 'vec': {(n0, n1, ...): complex}, 'cl': [..], 'hist': [((values..), prob)]}
and an experiment step maps a list of branches on a list of branches.
"""
import cmath
import math

EPS = 1e-13          # amplitudes below this are numerical zero in the model itself


# ---------------------------------------------------------------- names
def digits(length):
    return len(str(length - 1))


def name_of(values, length, left):
    d = digits(length)
    vals = values if left else list(reversed(list(values)))
    return ''.join(str(v).zfill(d) for v in vals)


def values_of(name, length, left):
    d = digits(length)
    if not isinstance(name, str) or len(name) % d:
        return None
    try:
        vals = [int(name[i:i + d]) for i in range(0, len(name), d)]
    except ValueError:
        return None
    if not left:
        vals.reverse()
    return tuple(vals)


def basis(length, channels):
    return [tuple((i // length ** c) % length for c in range(channels)) for i in range(length ** channels)]


# ---------------------------------------------------------------- vectors
def clean(vec):
    return {k: a for k, a in vec.items() if abs(a) > EPS}


def norm2(vec):
    return sum(abs(a) ** 2 for a in vec.values())


def branch(init, p, vec, cl, hist=()):
    return {'init': init, 'p': float(p), 'vec': dict(vec), 'cl': list(cl), 'hist': [(tuple(v), float(q)) for v, q in hist]}


def copy_branch(b):
    return {'init': b['init'], 'p': b['p'], 'vec': dict(b['vec']), 'cl': list(b['cl']), 'hist': list(b['hist'])}


# ---------------------------------------------------------------- matrices
def waveplate(theta, phi):
    e = cmath.exp(1j * phi)
    c, s = math.cos(theta), math.sin(theta)
    return ((c * c + e * s * s, (1 - e) * c * s), ((1 - e) * c * s, s * s + e * c * c))


def two_channel(vec, a, b, m, length):
    """Photon-number representation of a two-channel element, sums that do not fit pass unchanged."""
    out = {}
    for vals, amp in vec.items():
        u, v = vals[a], vals[b]
        tot = u + v
        if tot >= length:
            out[vals] = out.get(vals, 0) + amp
            continue
        # creation operators: in-channel a -> (m00 a + m10 b)?  convention of the library:
        # <n,m| U |u,v> = sum_jk C(n,j) C(m,k) m00^j m10^(n-j) m01^k m11^(m-k) sqrt(u! v! / (n! m!)), j+k=u
        for n in range(tot + 1):
            mm = tot - n
            s = 0
            for j in range(max(0, u - mm), min(n, u) + 1):
                k = u - j
                s += (math.comb(n, j) * math.comb(mm, k) * m[0][0] ** j * m[1][0] ** (n - j)
                      * m[0][1] ** k * m[1][1] ** (mm - k))
            s *= math.sqrt(math.factorial(u) * math.factorial(v) / (math.factorial(n) * math.factorial(mm)))
            if abs(s) > EPS:
                lst = list(vals)
                lst[a], lst[b] = n, mm
                t = tuple(lst)
                out[t] = out.get(t, 0) + s * amp
    return clean(out)


def apply_matrix(vec, mat, length, channels):
    """mat: dict {(out_index, in_index): value} or dense list of rows, basis index = sum v_c L^c."""
    idx = lambda t: sum(v * length ** c for c, v in enumerate(t))
    bs = basis(length, channels)
    out = {}
    for t, a in vec.items():
        i = idx(t)
        for o in range(len(bs)):
            x = mat[o][i]
            if x != 0:
                out[bs[o]] = out.get(bs[o], 0) + x * a
    return clean(out)


def permute(vec, f):
    out = {}
    for t, a in vec.items():
        n = f(t)
        out[n] = out.get(n, 0) + a
    return clean(out)


def expm_series(mat, terms=25):
    import numpy as np
    mat = np.array(mat, dtype=complex)
    out = np.identity(len(mat), dtype=complex)
    term = np.identity(len(mat), dtype=complex)
    for n in range(1, terms):
        term = term @ mat / n
        out = out + term
    return out


# ---------------------------------------------------------------- classical function families
def cfun_apply(cl, fam, aff, vals):
    """Reference meaning of the user functions used in simulated circuits."""
    cl = list(cl)
    if fam == 'add':
        for c, v in zip(aff, vals):
            cl[c] = cl[c] + v
    elif fam == 'copy':                      # aff = [dst, src]
        cl[aff[0]] = cl[aff[1]]
    elif fam == 'table':                     # aff = [dst, src], vals = table
        cl[aff[0]] = vals[int(cl[aff[1]]) % len(vals)]
    elif fam == 'xor':                       # aff = [dst, s1, s2]
        cl[aff[0]] = (int(cl[aff[1]]) + int(cl[aff[2]])) % 2
    elif fam == 'set':
        for c, v in zip(aff, vals):
            cl[c] = v
    elif fam == 'swap':
        cl[aff[0]], cl[aff[1]] = cl[aff[1]], cl[aff[0]]
    elif fam == 'scale':                     # aff = [dst, src], vals = [factor]
        cl[aff[0]] = cl[aff[1]] * vals[0]
    else:
        raise ValueError(fam)
    return cl


# ---------------------------------------------------------------- element table
R2 = math.sqrt(0.5)


def op_matrices(op):
    """[(a, b, matrix), ...] for a fixed two-channel optical op, else None."""
    k = op[0]
    if k == 'mix':
        return [(op[1], op[2], waveplate(math.pi / 8, math.pi))]
    if k == 'mixg':
        return [(op[1], op[2], waveplate(math.atan2(math.sqrt(op[3]), math.sqrt(1 - op[3])), math.pi))]
    if k == 'swap':
        return [(op[1], op[2], waveplate(math.pi / 4, math.pi))]
    if k == 'wp':
        return [(op[1], op[2], waveplate(op[3], op[4]))]
    if k == 'hwp':
        return [(op[1], op[2], waveplate(op[3], math.pi))]
    if k == 'hwp45':
        return [(op[1], op[2], waveplate(math.pi / 4, math.pi))]
    if k == 'hwp225':
        return [(op[1], op[2], waveplate(math.pi / 8, math.pi))]
    if k == 'qwp':
        return [(op[1], op[2], waveplate(op[3], math.pi / 2))]
    if k == 'qwp45':
        return [(op[1], op[2], waveplate(math.pi / 4, math.pi / 2))]
    if k == 'qwp225':
        return [(op[1], op[2], waveplate(math.pi / 8, math.pi / 2))]
    if k == 'ps':
        return [phase_pair(op[1], op[2])]
    if k == 'pbs':
        return [(op[2], op[4], waveplate(math.pi / 4, math.pi))]
    if k == 'npbs':
        w = waveplate(math.pi / 8, math.pi)
        return [(op[1], op[3], w), (op[2], op[4], w)]
    if k == 'npbsg':
        w = waveplate(math.atan2(math.sqrt(op[5]), math.sqrt(1 - op[5])), math.pi)
        return [(op[1], op[3], w), (op[2], op[4], w)]
    if k == 'cust':
        return [(op[1], op[2], custom_unitary(*op[3:7]))]
    return None


def phase_pair(ch, phi):
    other = 1 if ch == 0 else 0
    return (other, ch, ((1, 0), (0, cmath.exp(1j * phi))))


def custom_unitary(theta, alpha, beta, gamma):
    e = lambda x: cmath.exp(1j * x)
    c, s = math.cos(theta), math.sin(theta)
    return ((e(alpha) * c, e(beta) * s), (-e(gamma - beta) * s, e(gamma - alpha) * c))


def perm_list(seed, size):
    """A fixed pseudo-random permutation (own generator: no dependence on library RNG)."""
    x = (seed * 2654435761 + 97) & 0xffffffff
    p = list(range(size))
    for i in range(size - 1, 0, -1):
        x = (x * 1664525 + 1013904223) & 0xffffffff
        j = (x >> 8) % (i + 1)
        p[i], p[j] = p[j], p[i]
    return p


def kerr_phase(t, a, b, k):
    return cmath.exp(1j * k * t[a] * t[b])


def ham_matrix(spec, length):
    """Number conserving test Hamiltonians (as the library's operator strings mean them).

    spec = ['bs', x]    -> exp of x (a+ b- - a- b+)
           ['kerr', k]  -> exp of i k n_a n_b
           ['numc', p]  -> the same on the first of two channels
           ['num', p]   -> exp of i p n_a     (single channel)
    rows = input, columns = output."""
    if spec[0] == 'num':
        return {(n,): {(n,): cmath.exp(1j * spec[1] * n)} for n in range(length)}
    bs = basis(length, 2)
    if spec[0] == 'numc':
        return {t: {t: cmath.exp(1j * spec[1] * t[0])} for t in bs}
    if spec[0] == 'kerr':
        return {t: {t: cmath.exp(1j * spec[1] * t[0] * t[1])} for t in bs}
    if spec[0] in ('bs', 'bsi'):
        import numpy as np
        size = length * length
        idx = {t: i for i, t in enumerate(bs)}
        m = np.zeros((size, size), dtype=complex)
        fwd, bwd = (spec[1], -spec[1]) if spec[0] == 'bs' else (1j * spec[1], 1j * spec[1])
        for t in bs:
            n, k = t
            if k >= 1 and n + 1 < length:
                m[idx[t], idx[(n + 1, k - 1)]] += fwd * math.sqrt(k) * math.sqrt(n + 1)
            if n >= 1 and k + 1 < length:
                m[idx[t], idx[(n - 1, k + 1)]] += bwd * math.sqrt(n) * math.sqrt(k + 1)
        e = expm_series(m, 40)
        return {bs[i]: {bs[j]: e[i, j] for j in range(size) if abs(e[i, j]) > EPS} for i in range(size)}
    raise ValueError(spec)


def apply_transition(vec, table, chans):
    out = {}
    for t, a in vec.items():
        for dst, c in table[tuple(t[ch] for ch in chans)].items():
            lst = list(t)
            for ch, v in zip(chans, dst):
                lst[ch] = v
            n = tuple(lst)
            out[n] = out.get(n, 0) + a * c
    return clean(out)


# ---------------------------------------------------------------- one step
def measure(b, opt, clc):
    groups = {}
    for t, a in b['vec'].items():
        groups.setdefault(tuple(t[c] for c in opt), {})[t] = a
    out = []
    for outcome, vec in groups.items():
        q = norm2(vec)
        nb = copy_branch(b)
        nb['p'] = b['p'] * q
        nb['vec'] = {t: a / math.sqrt(q) for t, a in vec.items()}
        for c, v in zip(clc, outcome):
            nb['cl'][c] = v
        nb['hist'] = b['hist'] + [(tuple(nb['cl']), q)]
        out.append(nb)
    return out


def step(branches, op, length, channels, track=None):
    out = []
    for b in branches:
        out.extend(step_branch(b, op, length, channels))
    if track is not None:
        for b in out:
            for a in b['vec'].values():
                track(abs(a) ** 2)
    return out


def step_branch(b, op, length, channels):
    k = op[0]
    ms = op_matrices(op)
    nb = copy_branch(b)
    if ms is not None:
        for a, c, m in ms:
            nb['vec'] = two_channel(nb['vec'], a, c, m, length)
        return [nb]
    if k == 'cps':                                   # [.., channel, classical]
        a, c, m = phase_pair(op[1], b['cl'][op[2]])
        nb['vec'] = two_channel(nb['vec'], a, c, m, length)
        return [nb]
    if k == 'cwp':                                   # [.., a, b, cl_theta, cl_phi]
        nb['vec'] = two_channel(nb['vec'], op[1], op[2], waveplate(b['cl'][op[3]], b['cl'][op[4]]), length)
        return [nb]
    if k in ('hamwp', 'chamwp'):
        if k == 'hamwp':
            th, ph = op[3], op[4]
        else:
            th, ph = b['cl'][op[3]], b['cl'][op[4]]
        nb['vec'] = two_channel(nb['vec'], op[1], op[2], waveplate(th, ph), length)
        return [nb]
    if k == 'ham':                                   # ['ham', channels, spec, spec...]
        for spec in op[2:]:
            nb['vec'] = apply_transition(nb['vec'], ham_matrix(spec, length), op[1])
        return [nb]
    if k == 'meas':
        return measure(b, op[1], op[2])
    if k == 'setc':
        for v, c in zip(op[1], op[2]):
            nb['cl'][c] = v
        return [nb]
    if k == 'cfun':                                  # ['cfun', fam, aff, vals, style]
        nb['cl'] = cfun_apply(b['cl'], op[1], op[2], op[3])
        return [nb]
    if k in ('shift', 'shiftd'):
        def f(t):
            t = list(t)
            for c, s in zip(op[1], op[2]):
                t[c] = (t[c] + s) % length
            return tuple(t)
        nb['vec'] = permute(b['vec'], f)
        return [nb]
    if k in ('cshift', 'cshiftd'):
        def f(t):
            t = list(t)
            for c, s in zip(op[1], op[2]):
                t[s] = (t[s] + t[c]) % length
            return tuple(t)
        nb['vec'] = permute(b['vec'], f)
        return [nb]
    if k == 'couple':
        vec = b['vec']
        for c, s in zip(op[1], op[2]):
            out = {}
            for t, a in vec.items():
                if t[c] == 0:
                    out[t] = out.get(t, 0) + a
                else:
                    n = list(t)
                    n[s] = (n[s] + n[c]) % length
                    n = tuple(n)
                    out[t] = out.get(t, 0) + a * math.sqrt(1 - op[3])
                    out[n] = out.get(n, 0) + a * math.sqrt(op[3])
            vec = clean(out)
        nb['vec'] = vec
        return [nb]
    if k == 'perm':
        bs = basis(length, channels)
        pos = {t: i for i, t in enumerate(bs)}
        p = perm_list(op[1], len(bs))
        nb['vec'] = permute(b['vec'], lambda t: bs[p[pos[t]]])
        return [nb]
    if k == 'kerr':                                  # ['kerr', a, b, strength]
        nb['vec'] = {t: a * kerr_phase(t, op[1], op[2], op[3]) for t, a in b['vec'].items()}
        return [nb]
    if k == 'gsplit':                                # ['gsplit', classical, weight] user function splits every branch
        n2 = copy_branch(b)
        nb['p'], n2['p'] = b['p'] * op[2], b['p'] * (1 - op[2])
        nb['cl'][op[1]] = 0
        n2['cl'][op[1]] = 1
        return [nb, n2]
    if k == 'grelabel':                              # user function adds a suffix to initial-state labels
        nb['init'] = b['init'] + op[1]
        return [nb]
    if k == 'gident':
        return [nb]
    raise ValueError(op)


def run(branches, ops, length, channels, track=None):
    for op in ops:
        branches = step(branches, op, length, channels, track)
    return branches


# ---------------------------------------------------------------- ensemble surgery
def reduce(branches, opt_keep, cl_keep):
    out = []
    for b in branches:
        groups = {}
        n = len(next(iter(b['vec']))) if b['vec'] else 0
        lost = [c for c in range(n) if c not in opt_keep]
        for t, a in b['vec'].items():
            groups.setdefault(tuple(t[c] for c in lost), {})[tuple(t[c] for c in opt_keep)] = a
        for g, vec in groups.items():
            q = norm2(vec)
            if q <= EPS:
                continue
            nb = copy_branch(b)
            nb['p'] = b['p'] * q
            nb['vec'] = {t: a / math.sqrt(q) for t, a in vec.items()}
            nb['cl'] = [b['cl'][c] for c in cl_keep]
            out.append(nb)
    return out


def extend(branches, extra_opt, extra_cl, length, dist=None):
    dist = dist or [1.0] + [0.0] * (length - 1)
    combos = [((), 1.0)]
    for _ in range(extra_opt):
        combos = [(c + (v,), p * dist[v]) for c, p in combos for v in range(length)]
    out = []
    for c, q in combos:
        if q <= 0:
            continue
        for b in branches:
            nb = copy_branch(b)
            nb['p'] = b['p'] * q
            nb['vec'] = {t + c: a for t, a in b['vec'].items()}
            nb['cl'] = b['cl'] + [0] * extra_cl
            out.append(nb)
    return out


# ---------------------------------------------------------------- comparison
def keyval(x):
    f = float(x)
    r = round(f, 6)
    return r + 0.0 if r != 0 else 0.0


def aggregate(branches, use_hist=True, use_init=True, use_cl=True):
    agg = {}
    for b in branches:
        key = (b['init'] if use_init else '', tuple(keyval(v) for v in b['cl']) if use_cl else (),
               tuple(tuple(keyval(v) for v in r[0]) for r in b['hist']) if use_hist else ())
        e = agg.setdefault(key, {'p': 0.0, 'rho': {}, 'q': [0.0] * len(b['hist']), 'n': 0, 'vec': None})
        e['p'] += b['p']
        e['n'] += 1
        e['vec'] = b['vec']
        items = list(b['vec'].items())
        rho = e['rho']
        p = b['p']
        for t, a in items:
            pa = p * a
            for u, c in items:
                rho[(t, u)] = rho.get((t, u), 0) + pa * complex(c).conjugate()
        if use_hist:
            for i, r in enumerate(b['hist']):
                e['q'][i] += b['p'] * r[1]
    return agg


def diff(A, B, tol_p=2e-4, tol_rho=5e-4, use_hist=True, use_init=True, use_cl=True, phase=False, tol_amp=2e-3,
         nameA='result', nameB='reference'):
    """None when the two ensembles agree, else a short description of the first disagreement."""
    a, b = aggregate(A, use_hist, use_init, use_cl), aggregate(B, use_hist, use_init, use_cl)
    for key in sorted(set(a) | set(b), key=repr):
        ea, eb = a.get(key), b.get(key)
        pa, pb = (ea['p'] if ea else 0.0), (eb['p'] if eb else 0.0)
        if not abs(pa - pb) <= tol_p:
            return 'probability of %s: %s %.6f, %s %.6f' % (fmt_key(key), nameA, pa, nameB, pb)
        ra, rb = (ea['rho'] if ea else {}), (eb['rho'] if eb else {})
        for kk in sorted(set(ra) | set(rb)):
            if not abs(ra.get(kk, 0) - rb.get(kk, 0)) <= tol_rho:
                return 'state of %s, entry %s: %s %s, %s %s' % (
                    fmt_key(key), kk, nameA, c6(ra.get(kk, 0)), nameB, c6(rb.get(kk, 0)))
        if use_hist and ea and eb:
            for i, (x, y) in enumerate(zip(ea['q'], eb['q'])):
                if not abs(x - y) <= max(tol_p, tol_rho):
                    return 'recorded probability %d of %s (weighted): %s %.6f, %s %.6f' % (
                        i, fmt_key(key), nameA, x, nameB, y)
        if phase and ea and eb and ea['n'] == 1 and eb['n'] == 1 and pa > 1e-3:
            for t in sorted(set(ea['vec']) | set(eb['vec'])):
                if not abs(ea['vec'].get(t, 0) - eb['vec'].get(t, 0)) <= tol_amp:
                    return 'amplitude of %s in %s: %s %s, %s %s' % (
                        t, fmt_key(key), nameA, c6(ea['vec'].get(t, 0)), nameB, c6(eb['vec'].get(t, 0)))
    return None


def fmt_key(key):
    return 'init=%r classical=%r records=%r' % (key[0], list(key[1]), [list(r) for r in key[2]])


def c6(z):
    z = complex(z)
    return '%.5f%+.5fj' % (z.real, z.imag)
