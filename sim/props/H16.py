"""Histories of surgery on collections (trace out, extend, resize, tidy, filter, delete, mix) interleaved with evaluations and failures, against a reference ensemble."""
import math

import numpy as np

from .. import build as B, gen as G, model as M, common as C, seams
from ..kernel import Trivial, Violation

LEVEL = 'exploration'
RUNS = {'quick': 1100, 'thorough': 30000}
FAULTS = ['refused_channels', 'refused_extension', 'refused_length', 'unknown_name', 'interrupted_on_copy', 'allocation_failure_on_copy', 'random_stream']
PROBES = ['traced_out', 'reordered', 'classical_dropped', 'entangled_trace', 'extended', 'extended_mixed', 'extended_both', 'longer', 'shorter', 'two_digit', 'tidied', 'tidied_merged',
          'tidied_one_label', 'tidied_removed', 'negligible_component', 'filtered_label', 'filtered_identifier', 'filtered_classical', 'filtered_to_nothing', 'deleted', 'mixture', 'evaluated', 'measured', 'density_matrix',
          'continued_on_copy', 'tensor_product', 'vector_round_trip', 'overlap_of_states', 'coarse_threshold', 'large_register']
RULE = ('A seeded generator draws a collection and a history of surgical operations, refused calls, operations interrupted on a copy, evaluations and read-outs; after '
        'every action the collection is compared, branch by branch, with a reference ensemble that has its own partial trace, extension and merging.')
STATE_MEASURE = 'distinct (configuration, action kinds, number of states, largest number of components)'
STUB = 'randomness (seeded and adversarial streams)'
SHRINK = ('actions', 'states')
ASSUMPTIONS = ['at least two optical channels stay (circuits need two)', 'tidying compares labels and optical components only, as documented',
               'probabilities near the drop threshold (factor 3) are not judged']


def gen(rng, tier):
    coarse = rng.chance(0.2)
    cfg = G.config(rng, sizes=[((2, 2), 3), ((2, 3), 5), ((2, 4), 3), ((3, 2), 4), ((3, 3), 3), ((4, 2), 2), ((11, 2), 1), ((2, 5), 1)], thr=None if coarse else 1e-10, c_max=4)
    large = not coarse and rng.chance(0.04)
    if large:
        cfg['L'], cfg['n'] = rng.pick([(12, 4), (12, 4), (12, 4), (12, 3), (11, 4)])
    st = [dict(x, p=round(rng.uniform(0.1, 1), 3) if rng.chance(0.5) else x['p']) for x in G.states(rng, cfg, 1, 5, angles=False, definite=False if large else None)]
    if coarse:
        for x in st:
            if rng.chance(0.7) and len(x['vec']) > 1:
                x['vec'] = x['vec'][:1]
            if len(x['vec']) == 1:
                x['vec'] = [[x['vec'][0][0], [1.0, 0.0]]]
                if rng.chance(0.5):
                    t = list(G.photons(rng, cfg['L'], cfg['n']))
                    if t != list(x['vec'][0][0]):
                        x['vec'].insert(rng.randint(0, 1), [t, [rng.pick([1e-4, 3e-4]), 0.0]])
    # equal states, to be merged
    for x in list(st):
        if rng.chance(0.35):
            st.append(dict(x, id=None, p=round(rng.uniform(0.05, 0.5), 3), cl=rng.pick([x['cl'], [0] * cfg['c']])))
    rng.shuffle(st)
    for lb in {x['init'] for x in st}:
        tot = sum(x['p'] for x in st if x['init'] == lb)
        if tot > 1:
            for x in st:
                if x['init'] == lb:
                    x['p'] = x['p'] / tot
    acts = []
    for j in range(rng.randint(1, 3) if large else rng.randint(3, 12)):
        k = 'reduce' if large and j == 0 else rng.wpick([('reduce', 3), ('extend', 2), ('length', 1.5), ('tidy', 2), ('flabel', 0.8), ('fident', 0.8), ('fclass', 1.0), ('delete', 0.8), ('mix', 0.7), ('evaluate', 2.5),
                       ('dm', 1.2), ('copy', 0.8), ('refuse', 1.2), ('fault', 1), ('tensor', 0.6), ('vector', 0.6), ('inner', 0.6), ('stream', 0.4), ('add', 0.5)])
        acts.append({'kind': k, 'x': rng.randint(0, 10 ** 6), 'y': rng.randint(0, 10 ** 6), 'u': round(rng.random(), 4)})
    return {'cfg': cfg, 'states': st, 'actions': acts}


def same(x, y, tol):
    if x['init'] != y['init'] or len(x['cl']) != len(y['cl']) or len(x['hist']) != len(y['hist']):
        return False
    if abs(x['p'] - y['p']) > tol or any(abs(u - v) > tol for u, v in zip(x['cl'], y['cl'])):
        return False
    if any(abs(x['vec'].get(t, 0) - y['vec'].get(t, 0)) > tol for t in set(x['vec']) | set(y['vec'])):
        return False
    return all(len(u[0]) == len(v[0]) and abs(u[1] - v[1]) <= tol and all(abs(a - b) <= tol for a, b in zip(u[0], v[0])) for u, v in zip(x['hist'], y['hist']))


def show(b):
    return str((b['init'], round(b['p'], 5), sorted((t, C.rnd(a, 4)) for t, a in b['vec'].items())[:5], [round(v, 3) for v in b['cl']], len(b['hist'])))


def match(got, ref, what, cls, tol, thr, ids=False):
    """Every branch of the result is one of the reference and the other way round."""
    lo = thr if thr > 1e-7 else 1e-9
    if any(lo / 3 < b['p'] < lo * 3 for b in ref):
        raise Trivial('a probability near the threshold')
    rest = [b for b in ref if b['p'] > lo]
    for b in got:
        if b['p'] < lo:
            continue
        m = [r for r in rest if (not ids or r['id'] == b['id']) and same(r, b, tol)]
        if not m:
            raise Violation(cls, '%s: unexpected state %s%s; expected one of %s' % (what, '%r ' % b['id'] if ids else '', show(b), [(r['id'], show(r)) if ids else show(r) for r in rest][:4]))
        rest.remove(m[0])
    if rest:
        raise Violation(cls, '%s: missing state %s' % (what, show(rest[0])))


def tidy(ref, label, thr):
    out = []
    for b in ref:
        if label and b['init'] != label:
            out.append(b)
            continue
        vec = {t: a for t, a in b['vec'].items() if abs(a) ** 2 >= thr}
        s = math.sqrt(M.norm2(vec))
        vec = {t: a / s for t, a in vec.items()}
        for o in out:
            if o['init'] == b['init'] and o.get('_tidy') and all(abs(vec.get(t, 0) - o['vec'].get(t, 0)) ** 2 < thr for t in set(vec) | set(o['vec'])):
                o['p'] += b['p']
                o['ids'].add(b['id'])
                o['alts'].append((b['cl'], b['hist']))
                break
        else:
            nb = M.copy_branch(b)
            nb.update(vec=vec, id=b['id'], ids={b['id']}, alts=[(b['cl'], b['hist'])], _tidy=True)
            out.append(nb)
    return [b for b in out if b['p'] >= thr or not b.get('_tidy')]


def near(ref, thr):
    """Is anything too near the threshold to say what tidying does?"""
    for b in ref:
        for a in b['vec'].values():
            if thr / 10 < abs(a) ** 2 < thr * 10:
                return True
        for o in ref:
            if o is not b and o['init'] == b['init']:
                d = max([abs(o['vec'].get(t, 0) - b['vec'].get(t, 0)) ** 2 for t in set(o['vec']) | set(b['vec'])] or [0])
                if min(thr, 1e-6) / 100 < d < max(thr, 1e-6) * 30:
                    return True
    return False


def density(ref, cfg):
    out = {}
    bs = M.basis(cfg['L'], cfg['n'])
    idx = {t: i for i, t in enumerate(bs)}
    for b in ref:
        m = out.setdefault(b['init'], np.zeros((len(bs), len(bs)), dtype=complex))
        v = np.zeros(len(bs), dtype=complex)
        for t, a in b['vec'].items():
            v[idx[t]] = a
        m += b['p'] * np.outer(np.conj(v), v)
    return out


def apply(coll, k, a, cfg, ref):
    """Performs one surgical operation; returns (arguments text, reference after it or None when not possible, new cfg)."""
    x, y = a['x'], a['y']
    if k == 'reduce':
        n = cfg['n']
        r = x
        chans = list(range(n))
        keep = []
        size = max(2, 1 + r % n)
        r //= n
        for _ in range(size):
            keep.append(chans.pop(r % len(chans)))
            r //= 7
        if y % 3 == 0:
            keep = sorted(keep)
        c = cfg['c']
        ck, chans, r = [], list(range(c)), y // 3
        for _ in range(1 + r % c):
            ck.append(chans.pop(r % len(chans)))
            r //= 3
        how = y % 4
        if how == 0:
            ck = list(range(c))
            coll.reduce(optical_channels_to_keep=list(keep))
        elif how == 1:
            keep = list(range(n))
            coll.reduce(classical_channels_to_keep=list(ck))
        else:
            coll.reduce(optical_channels_to_keep=list(keep), classical_channels_to_keep=list(ck))
        return 'keeping optical %s classical %s' % (keep, ck), (lambda: M.reduce(ref, keep, ck)), dict(cfg, n=len(keep), c=len(ck))
    if k == 'extend':
        eo, ec = [(1, 0), (0, 1), (1, 1), (2, 0), (0, 2), (2, 1)][x % 6]
        L = cfg['L']
        dist = None
        if eo and y % 2:
            w = [1 + (y // (3 ** i)) % 5 if (y >> i) % 3 else 0 for i in range(L)]
            if sum(w) == 0:
                w[y % L] = 1
            dist = [v / sum(w) for v in w]
        coll.extend(extra_optical_channels=eo, extra_classical_channels=ec, **({'statistical_distribution': list(dist)} if dist else {}))
        return '%d optical (distribution %s), %d classical' % (eo, dist, ec), (lambda: M.extend(ref, eo, ec, L, dist if eo else None)), dict(cfg, n=cfg['n'] + eo, c=cfg['c'] + ec)
    if k == 'length':
        L = length(cfg, a, ref)
        coll.adjust_length_of_fock_state(L)
        return 'to %d' % L, (lambda: [dict(b) for b in ref]), dict(cfg, L=L)
    raise ValueError(k)


def length(cfg, a, ref):
    need = max([v for b in ref for t in b['vec'] for v in t] or [0]) + 1
    return max(2, need, [need, cfg['L'] - 1, cfg['L'] + 1, cfg['L'] + 2, 11, cfg['L']][a['x'] % 6])


def fits(k, a, cfg, ref):
    if k == 'extend':
        eo, ec = [(1, 0), (0, 1), (1, 1), (2, 0), (0, 2), (2, 1)][a['x'] % 6]
        return cfg['L'] ** (cfg['n'] + eo) <= 600 and cfg['c'] + ec <= 7 and cfg['n'] + eo <= 6 and len(ref) * (cfg['L'] ** eo if a['y'] % 2 else 1) <= 80
    if k == 'length':
        return length(cfg, a, ref) ** cfg['n'] <= 700
    if k == 'reduce':
        return len(ref) <= (60 if cfg['L'] ** cfg['n'] < 1000 else 10)
    return True


KEEP_IDS = ('flabel', 'fident', 'fclass', 'delete', 'copy', 'length')


def run(s, ctx):
    cfg = dict(s['cfg'])
    thr = cfg['thr'] or 1e-4
    coarse = cfg['thr'] is None
    tol = 4e-3 if coarse else 2e-4
    if not s['states'] or not s['actions']:
        raise Trivial('empty')
    circ = B.circuit(cfg)
    coll = B.collection(circ, cfg, s['states'])
    if coarse:
        ctx.probe('coarse_threshold')
        thr = circ._threshold_probability_for_setting_to_zero if hasattr(circ, '_threshold_probability_for_setting_to_zero') else thr
    ref = [dict(b) for b in B.read(coll, cfg, ids=True)]
    match(ref, [dict(b, id=None) for b in C.branches(s['states'])], 'initial collection', 'state-changed', tol, thr)
    if cfg['L'] ** cfg['n'] > 1000:
        ctx.probe('large_register')
    kinds = []
    most = 1
    held = []
    for n, a in enumerate(s['actions']):
        k, x, y = a['kind'], a['x'], a['y']
        what = 'action %d (%s)' % (n, k)
        cls = 'physics-changed'
        ids = k in KEEP_IDS or k in ('refuse', 'fault', 'dm', 'vector', 'inner', 'tensor', 'stream')
        if k in ('reduce', 'extend', 'length'):
            if not fits(k, a, cfg, ref):
                continue
            if coarse and any(thr / 30 < abs(v) ** 2 < thr * 3 for b in ref for v in b['vec'].values()):
                raise Trivial('near the threshold')
            if k == 'reduce' and cfg['n'] > 2 and any(len(b['vec']) > 1 for b in ref):
                ctx.probe('entangled_trace')
            text, fn, cfg2 = apply(coll, k, a, cfg, ref)
            what += ' ' + text
            new = fn()
            for b in new:
                b.setdefault('id', None)
            if k == 'reduce':
                if cfg2['n'] < cfg['n']:
                    ctx.probe('traced_out')
                if cfg2['c'] < cfg['c']:
                    ctx.probe('classical_dropped')
                ctx.probe('reordered')
            elif k == 'extend':
                ctx.probe('extended')
                if cfg2['n'] > cfg['n'] and y % 2:
                    ctx.probe('extended_mixed')
                if cfg2['n'] > cfg['n'] and cfg2['c'] > cfg['c']:
                    ctx.probe('extended_both')
            else:
                ctx.probe('longer' if cfg2['L'] > cfg['L'] else 'shorter')
                if cfg2['L'] > 10:
                    ctx.probe('two_digit')
            cfg, ref, cls = cfg2, new, {'reduce': 'wrong-trace', 'extend': 'wrong-extension', 'length': 'wrong-length'}[k]
        elif k == 'tidy':
            label = ref[x % len(ref)]['init'] if ref and y % 3 == 0 else ''
            if near(ref, thr):
                continue
            before = len(ref)
            if coarse and any(abs(v) ** 2 < thr for b in ref for v in b['vec'].values()):
                ctx.probe('negligible_component')
            coll.clean_up(label) if label else coll.clean_up()
            new = tidy(ref, label, thr)
            ctx.probe('tidied')
            if label:
                ctx.probe('tidied_one_label')
            if len(new) < before:
                ctx.probe('tidied_merged')
            got = B.read(coll, cfg, ids=True)
            lo = thr if thr > 1e-7 else 1e-9
            if any(thr / 3 < b['p'] < thr * 3 for b in new):
                raise Trivial('a probability near the threshold')
            if len(got) != len(new):
                raise Violation('wrong-tidying', '%s: %d states left, %d expected (%s)' % (what, len(got), len(new), [show(b) for b in new][:4]))
            if any(b['p'] < thr for b in ref):
                ctx.probe('tidied_removed')
            # which of the merged states survives is left open; it keeps what it held itself
            for b in got:
                m = [r for r in new if b['id'] in r.get('ids', {r['id']}) and abs(r['p'] - b['p']) <= tol and r['init'] == b['init']
                     and all(abs(r['vec'].get(t, 0) - b['vec'].get(t, 0)) <= max(tol, 2 * math.sqrt(thr)) for t in set(r['vec']) | set(b['vec']))]
                m = [r for r in m if any(same(dict(r, cl=c, hist=h, vec=b['vec']), b, tol) for c, h in r.get('alts', [(r['cl'], r['hist'])]))]
                if not m:
                    raise Violation('wrong-tidying', '%s: unexpected state %r %s; expected one of %s' % (what, b['id'], show(b), [show(r) for r in new][:4]))
                new.remove(m[0])
            ref = [dict(b) for b in got]
        elif k == 'flabel':
            labels = sorted({b['init'] for b in ref}) + ['no label']
            pick = [l for j, l in enumerate(labels) if (x >> j) & 1] or [labels[x % len(labels)]]
            arg = pick[0] if y % 3 == 0 else pick
            pick = [arg] if y % 3 == 0 else pick
            coll.filter_on_initial_state(arg)
            ref = [b for b in ref if b['init'] in pick]
            ctx.probe('filtered_label' if ref else 'filtered_to_nothing')
        elif k == 'fident':
            names = [b['id'] for b in ref] + ['nobody']
            pick = [l for j, l in enumerate(names) if (x >> j) & 1] or [names[0]]
            arg = pick[0] if y % 3 == 0 else pick
            pick = [arg] if y % 3 == 0 else pick
            coll.filter_on_identifier(arg)
            ref = [b for b in ref if b['id'] in pick]
            ctx.probe('filtered_identifier' if ref else 'filtered_to_nothing')
        elif k == 'fclass':
            chs = [c for c in range(cfg['c']) if (x >> c) & 1] or [x % cfg['c']]
            if y % 2:
                chs.reverse()
            base = ref[y % len(ref)]['cl'] if ref else [0] * cfg['c']
            vals = [base[c] if (y >> (3 + c)) % 3 else 0 for c in chs]
            vals = [int(v) if float(v).is_integer() else v for v in vals]
            coll.filter_on_classical_channel(list(chs), list(vals))
            ref = [b for b in ref if all(abs(b['cl'][c] - v) < 1e-12 for c, v in zip(chs, vals))]
            ctx.probe('filtered_classical' if ref else 'filtered_to_nothing')
        elif k == 'delete':
            if y % 2 or not ref:
                name = ([b['id'] for b in ref] + ['nobody'])[x % (len(ref) + 1)]
                coll.delete_state(identifier=name)
                ref = [b for b in ref if b['id'] != name]
            else:
                label = ref[x % len(ref)]['init']
                coll.delete_state(initial_state=label)
                gone = [b for b in ref if b['id'] not in coll.keys()]
                if len(gone) != 1 or gone[0]['init'] != label:
                    raise Violation('wrong-deletion', '%s: deleting one state labelled %r removed %r' % (what, label, [(b['id'], b['init']) for b in gone]))
                ref = [b for b in ref if b is not gone[0]]
            ctx.probe('deleted')
        elif k == 'mix':
            if not ref:
                continue
            chosen = [b for j, b in enumerate(ref) if (x >> j) & 1] or [ref[0]]
            w = [round(0.9 * (1 + (y >> j) % 5) / (5 * len(chosen)), 4) for j in range(len(chosen))]
            coll.set_collection_as_statistical_mixture([(coll.get_state(identifier=b['id']).copy(), wt) for b, wt in zip(chosen, w)])
            labels = {st.initial_state for st in coll}
            if len(labels) != 1:
                raise Violation('wrong-mixture', '%s: labels of one mixture: %r' % (what, sorted(labels)))
            ref = [dict(b, p=wt, init=list(labels)[0]) for b, wt in zip(chosen, w)]
            ctx.probe('mixture')
            cls = 'wrong-mixture'
        elif k == 'add':
            spec = {'id': None, 'init': 'added %d' % n, 'p': 0.5, 'vec': [[[x % cfg['L']] + [0] * (cfg['n'] - 2) + [y % cfg['L']], [0.6, 0.0]], [[(x + 1) % cfg['L']] + [0] * (cfg['n'] - 2) + [y % cfg['L']], [0.0, 0.8]]],
                    'cl': [x % 4] * cfg['c']}
            coll.add_state(B.make_state(coll, cfg, spec))
            ref = ref + [dict(C.branches([spec])[0], id=None)]
        elif k == 'evaluate':
            if not ref or len(ref) > 30 or cfg['L'] ** cfg['n'] > 400:
                continue
            rng = seams_rng(x)
            kl = ['swap', 'shift', 'shiftd', 'meas', 'setc', 'cshift', 'cshiftd'] if coarse else ['mix', 'wp', 'hwp', 'swap', 'meas', 'meas', 'setc', 'cfun', 'shift', 'shiftd', 'cshift', 'ps', 'kerr']
            ops, new = [], [M.copy_branch(b) for b in ref]
            for _ in range(1 + y % 3):
                op = G.one_op(rng, cfg, rng.pick(kl), new, range(cfg['n']), range(cfg['c']), 40)
                if op is None:
                    continue
                nxt = M.step(new, op, cfg['L'], cfg['n'])
                if len(nxt) > 60 or max(len(b['vec']) for b in nxt) > 60:
                    continue
                if coarse and any(thr / 30 < abs(v) ** 2 < thr * 30 for b in nxt for v in b['vec'].values()):
                    continue
                ops.append(op)
                new = nxt
            if not ops:
                continue
            c2 = B.build(cfg, ops)
            before = B.snapshot(coll)
            res = C.evaluate(c2, coll)
            held.append((what + ' input', coll, before))
            coll, ref = res, [dict(b, id=None) for b in new]
            ctx.probe('evaluated')
            if any(o[0] == 'meas' for o in ops):
                ctx.probe('measured')
        elif k == 'dm':
            if cfg['L'] ** cfg['n'] > 130:
                continue
            want = density(ref, cfg)
            label = sorted(want)[x % len(want)] if want and y % 2 else ''
            got = coll.density_matrix(initial_state=label) if label else coll.density_matrix()
            if set(got) != ({label} if label else set(want)):
                raise Violation('wrong-density-matrix', '%s: density matrices for %r, states are labelled %r' % (what, sorted(got), sorted(want)))
            for l, d in got.items():
                m = np.array(d['density_matrix'])
                if m.shape != want[l].shape or not np.all(np.abs(m - want[l]) < 5 * tol):
                    raise Violation('wrong-density-matrix', '%s: density matrix of %r differs from the states by up to %.5f' % (what, l, np.max(np.abs(m - want[l])) if m.shape == want[l].shape else -1))
                t, t2 = float(np.trace(want[l]).real), float(np.trace(want[l] @ want[l]).real)
                if abs(float(d['trace']) - t) > 0.0051 + 5 * tol or abs(float(d['trace_dm_squared']) - t2) > 0.0051 + 5 * tol:
                    raise Violation('wrong-density-matrix', '%s: traces %s, %s of %r should be %.4f, %.4f' % (what, d['trace'], d['trace_dm_squared'], l, t, t2))
            ctx.probe('density_matrix')
        elif k == 'copy':
            c2 = coll.copy()
            held.append((what + ' original', coll, B.snapshot(coll)))
            coll = c2
            ctx.probe('continued_on_copy')
        elif k == 'vector':
            if not ref or cfg['L'] ** cfg['n'] > 400:
                continue
            name = ref[x % len(ref)]['id']
            st = coll.get_state(identifier=name)
            vec, basis = st.translate_state_components_to_vector()
            st.set_state_components_from_vector(list(vec) if y % 2 else vec)
            if list(basis) != [M.name_of(t, cfg['L'], cfg['left']) for t in M.basis(cfg['L'], cfg['n'])] and sorted(basis) != sorted(M.name_of(t, cfg['L'], cfg['left']) for t in M.basis(cfg['L'], cfg['n'])):
                raise Violation('wrong-vector', '%s: basis of the state vector %r' % (what, list(basis)[:6]))
            ctx.probe('vector_round_trip')
        elif k == 'inner':
            if len(ref) < 1:
                continue
            p, q = ref[x % len(ref)], ref[y % len(ref)]
            v = complex(coll.get_state(identifier=p['id']).inner(coll.get_state(identifier=q['id'])))
            w = sum(complex(a_).conjugate() * q['vec'].get(t, 0) for t, a_ in p['vec'].items())
            if abs(v - w) > 5 * tol:
                raise Violation('wrong-overlap', '%s: overlap of %s and %s is %s, should be %s' % (what, show(p), show(q), M.c6(v), M.c6(w)))
            num, eq = coll.get_state(identifier=p['id']).photon_number()
            tot = {sum(t) for t, a_ in p['vec'].items()}
            if not coarse and (num != max(tot) or bool(eq) != (len(tot) == 1)):
                raise Violation('wrong-photon-number', '%s: photon number %r of %s' % (what, (num, eq), show(p)))
            ctx.probe('overlap_of_states')
        elif k == 'tensor':
            if not ref or cfg['L'] ** (2 * cfg['n']) > 300 or len(ref) > 20:
                continue
            p, q = ref[x % len(ref)], ref[y % len(ref)]
            sp, sq = coll.get_state(identifier=p['id']), coll.get_state(identifier=q['id'])
            want = {t + u: a_ * b_ for t, a_ in p['vec'].items() for u, b_ in q['vec'].items()}
            form = x % 3
            arg = sq if form == 0 else sq.optical_components if form == 1 else [(nm, ap['amplitude']) for nm, ap in sq.optical_components.items()]
            comps = sp.tensor(arg)
            got = {}
            for nm, ap in comps.items():
                v = M.values_of(nm, cfg['L'], cfg['left'])
                if v is None or len(v) != 2 * cfg['n']:
                    raise Violation('wrong-tensor', '%s: component name %r' % (what, nm))
                if abs(ap['probability'] - abs(ap['amplitude']) ** 2) > 1e-4:
                    raise Violation('wrong-tensor', '%s: component %r has amplitude %s and probability %s' % (what, nm, ap['amplitude'], ap['probability']))
                got[v] = got.get(v, 0) + complex(ap['amplitude'])
            for t in set(got) | set(want):
                if abs(got.get(t, 0) - want.get(t, 0)) > tol:
                    raise Violation('wrong-tensor', '%s: amplitude of %s is %s, should be %s' % (what, t, M.c6(got.get(t, 0)), M.c6(want.get(t, 0))))
            ctx.probe('tensor_product')
        elif k == 'stream':
            seams.set_random(['constant:0', 'cycle:2', 'high', 'replay:3'][x % 4], y, hold=300)
            ctx.fault('random_stream')
        elif k == 'refuse':
            refuse(coll, cfg, x, y, ctx, what)
        elif k == 'fault':
            # the operation fails on a copy: the original must be untouched
            kk = ['reduce', 'extend', 'length', 'tidy'][x % 4]
            if not fits(kk, a, cfg, ref) or (kk == 'tidy' and near(ref, thr)):
                continue
            fail_on_copy(coll, kk, a, cfg, ref, ctx)
        # ---- after every action
        got = B.read(coll, cfg, ids=True)
        if len({b['id'] for b in got}) != len(coll) or len(got) != len(coll):
            raise Violation('state-lost', '%s: identifiers %r' % (what, [b['id'] for b in got]))
        match(got, ref, what, cls, tol, thr, ids=ids)
        ref = [dict(b) for b in got]
        most = max([most] + [len(b['vec']) for b in ref])
        kinds.append(k)
        ctx.log(k, len(ref), C.summary(ref))
    for text, c, snap in held:
        d = B.snapdiff(snap, B.snapshot(c))
        if d:
            raise Violation('original-changed', '%s changed later: %s' % (text, d))
    if not kinds:
        raise Trivial('nothing done')
    ctx.state(s['cfg']['L'], s['cfg']['n'], sorted(kinds), len(ref), most)


def seams_rng(x):
    from ..kernel import Rng
    return Rng(x)


def refuse(coll, cfg, x, y, ctx, what):
    kind = x % 8
    before = B.snapshot(coll)
    try:
        if kind == 0:
            coll.reduce(optical_channels_to_keep=[0, cfg['n'] + y % 3])
        elif kind == 1:
            coll.reduce(classical_channels_to_keep=[cfg['c'] + y % 3])
        elif kind == 2:
            coll.extend(extra_optical_channels=1, statistical_distribution=[1.0] + [0.0] * (cfg['L'] + y % 2))
        elif kind == 3:
            coll.extend(extra_optical_channels=-1 if y % 2 else 0, extra_classical_channels=0 if y % 2 else -1)
        elif kind == 4:
            coll.adjust_length_of_fock_state(-1 - y % 3)
        elif kind == 5:
            coll.delete_state(identifier='nobody')
            coll.delete_state(initial_state='no label')
            ctx.fault('unknown_name')
        elif kind == 6:
            coll.extend()
            ctx.fault('refused_extension')
        else:
            coll.reduce(optical_channels_to_keep=[-1, 0])
    except Violation:
        raise
    except Exception:
        ctx.fault({0: 'refused_channels', 1: 'refused_channels', 2: 'refused_extension', 3: 'refused_extension', 4: 'refused_length', 7: 'refused_channels'}[kind])
    d = B.snapdiff(before, B.snapshot(coll))
    if d:
        raise Violation('refused-but-changed', '%s: a refused or empty operation (kind %d) changed the collection: %s' % (what, kind, d))


def fail_on_copy(coll, kk, a, cfg, ref, ctx):
    def do(c):
        if kk == 'tidy':
            c.clean_up()
        else:
            apply(c, kk, a, cfg, ref)
    if a['y'] % 2:
        with seams.StepCounter() as sc:
            do(coll.copy())
        c2 = coll.copy()
        with seams.StepCounter(at=1 + int(a['u'] * sc.n), exc=seams.Interrupt()) as s2:
            try:
                do(c2)
            except BaseException:
                pass
        ctx.steps += sc.n + s2.n
        if s2.fired:
            ctx.fault('interrupted_on_copy')
    else:
        with seams.AllocFaults() as af:
            do(coll.copy())
        if af.n:
            c2 = coll.copy()
            with seams.AllocFaults(at=1 + int(a['u'] * af.n)) as a2:
                try:
                    do(c2)
                except BaseException:
                    pass
            if a2.fired:
                ctx.fault('allocation_failure_on_copy')
