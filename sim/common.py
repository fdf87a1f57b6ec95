"""Helpers shared by the property modules."""
from . import build as B, gen as G, model as M
from .kernel import Violation

from copy import deepcopy  # noqa - used by the property modules

branches = B.branches_of


def history(rng, kinds=None, lo=1, hi=8, states_hi=4, sizes=None, thr=1e-10, max_branches=60, c_max=4, c=None, definite=None, max_comps=4, mixtures=True):
    """cfg, initial states and a random history that fits the model's preconditions."""
    cfg = G.config(rng, sizes=sizes, c_max=c_max, c=c, thr=thr)
    st = G.states(rng, cfg, 1, states_hi, definite=definite, max_comps=max_comps, mixtures=mixtures)
    ops, _ = G.ops(rng, cfg, branches(st), rng.randint(lo, hi), kinds=kinds, max_branches=max_branches)
    return cfg, st, ops


def expect(got, ref, cls, what, phase=False, **kw):
    d = M.diff(got, ref, phase=phase, **kw)
    if d:
        raise Violation(cls, '%s: %s' % (what, d))


def summary(brs, digits=3):
    out = []
    for (i, c, h), e in sorted(M.aggregate(brs).items(), key=repr):
        out.append((i, c, h, round(e['p'], digits)))
    return out


def evaluate(circ, coll, nodes=None):
    if nodes is None:
        return circ.evaluate_circuit(collection_of_states_input=coll)
    return circ.evaluate_circuit(collection_of_states_input=coll, nodes_to_be_evaluated=list(nodes))


def spoil(coll, n=0):
    """Change everything changeable in a collection, in place, through its states.  n varies how."""
    for j, st in enumerate(list(coll)):
        for k, ap in enumerate(list(st.optical_components.values())):
            ap['amplitude'] = 0.111 * (k + 1)
            ap['probability'] = 0.0123
        names = list(st.optical_components)
        if n % 2 and len(names) > 1:
            del st.optical_components[names[0]]
        for i in range(len(st.classical_channel_values)):
            st.classical_channel_values[i] = 1000 + i + n
        for m in st.measurement_results:
            for i in range(len(m['measurement_results'])):
                m['measurement_results'][i] = -7
            m['probability'] = -0.5
        if n % 3 == 0:
            st.measurement_results.append({'measurement_results': [4] * len(st.classical_channel_values), 'probability': 0.25})
        deep(st.auxiliary_information)
        st.initial_state = 'spoilt %d' % n
        st.cumulative_probability = 0.987
        st.auxiliary_information['spoilt'] = n


def deep(x):
    """Spoil nested containers in place."""
    if isinstance(x, dict):
        for k in list(x):
            v = x[k]
            if isinstance(v, (dict, list)):
                deep(v)
            else:
                try:
                    x[k] = 'spoilt'
                except Exception:
                    pass
    elif isinstance(x, list):
        for i, v in enumerate(x):
            if isinstance(v, (dict, list)):
                deep(v)
            else:
                x[i] = 'spoilt'


def circuit_picture(circ):
    """What can be seen of a circuit without evaluating it."""
    infos = []
    for n in list(circ.node_list):
        infos.append(B.freeze({k: v for k, v in n.items()}))
    return (len(circ.node_list), str(circ), tuple(infos))


def same_circuit(before, circ, what):
    after = circuit_picture(circ)
    if before != after:
        if before[0] != after[0]:
            msg = 'number of nodes %d -> %d' % (before[0], after[0])
        elif before[1] != after[1]:
            msg = 'printed form changed: %r -> %r' % (before[1], after[1])
        else:
            msg = 'a node description changed'
        raise Violation('circuit-changed', '%s: %s' % (what, msg))


# ------------------------------------------------------------------ probes (H03, H14, H17)
def rnd(x, d=7):
    z = complex(x)
    a, b = round(z.real, d) + 0.0, round(z.imag, d) + 0.0
    return (a, b) if b else a


def collection_picture(coll, cfg, ids=False, digits=6):
    out = []
    for b in B.read(coll, cfg, ids=True):
        out.append((b['id'] if ids else '', b['init'], rnd(b['p'], digits), tuple(sorted((t, rnd(a, digits)) for t, a in b['vec'].items() if abs(a) > 1e-5)),
                    tuple(rnd(v, digits) for v in b['cl']), tuple((tuple(rnd(v, digits) for v in h[0]), rnd(h[1], digits)) for h in b['hist'])))
    return out


def close(a, b, tol=2e-5):
    """Structural equality with tolerance on numbers."""
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= tol
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(close(a[k], b[k], tol) for k in a)
    return a == b


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, complex):
        return [x.real, x.imag]
    return x


def in_fork(fn):
    """Runs fn in a forked child and returns its JSON result: the behaviour of a process with no history."""
    import json
    import os
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            data = json.dumps(['ok', jsonable(fn())]).encode()
        except Violation as v:
            data = json.dumps(['violation', v.cls, v.msg]).encode()
        except BaseException as e:
            from .worker import lib_frame
            import traceback
            data = json.dumps(['exc', type(e).__name__ + ': ' + str(e)[:300], bool(lib_frame(e)), traceback.format_exc()[-1500:]]).encode()
        while data:
            n = os.write(w, data)
            data = data[n:]
        os._exit(0)
    os.close(w)
    buf = b''
    while True:
        d = os.read(r, 1 << 16)
        if not d:
            break
        buf += d
    os.close(r)
    os.waitpid(pid, 0)
    res = json.loads(buf.decode())
    if res[0] == 'violation':
        raise Violation(res[1], res[2])
    if res[0] == 'exc':
        if res[2]:
            raise Violation('exception:' + res[1].split(':')[0], res[1] + '\n' + res[3])
        raise RuntimeError('probe failed: ' + res[3])
    return res[1]


def first_difference(a, b, path=''):
    if close(a, b):
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                return '%s/%s only on one side' % (path, k)
            d = first_difference(a[k], b[k], path + '/' + str(k))
            if d:
                return d
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return '%s: %d entries became %d' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_difference(x, y, '%s[%d]' % (path, i))
            if d:
                return d
    return '%s: %s became %s' % (path, str(a)[:160], str(b)[:160])
