"""Builds real circuits / collections from JSON descriptions, and reads them back canonically (public API only)."""
import math
import numpy as np

from . import model as M
from .kernel import Violation

fsc = None


def lib():
    global fsc
    if fsc is None:
        import fock_state_circuit as f
        fsc = f
    return fsc


def circuit(cfg):
    f = lib()
    kw = dict(length_of_fock_state=cfg['L'], no_of_optical_channels=cfg['n'], no_of_classical_channels=cfg['c'],
              channel_0_left_in_state_name=cfg.get('left', True), use_full_fock_matrix=cfg.get('full', False),
              circuit_name=cfg.get('name'))
    if cfg.get('thr') is not None:
        kw['threshold_probability_for_setting_to_zero'] = cfg['thr']
    return f.FockStateCircuit(**kw)


# ------------------------------------------------------------------ user functions
class Hooks:
    """What user supplied functions do besides their job: log, fail, re-enter."""
    def __init__(self):
        self.calls = []
        self.kept = []               # lists the user function saw or returned
        self.on_call = None          # callable(kind, info) may raise

    def enter(self, kind, info):
        self.calls.append((kind, info))
        if self.on_call is not None:
            self.on_call(kind, info)


def make_cfun(fam, style, hooks, tag):
    """style: 'new' returns a fresh list, 'inplace' mutates the list given and returns it, 'shared' returns one and the same list every time."""
    shared = []

    def user_function(current_values, new_input_values, affected_channels):
        if hooks is not None:
            hooks.enter('cfun', (tag, tuple(current_values), tuple(new_input_values), tuple(affected_channels)))
            hooks.kept.append(current_values)
        res = M.cfun_apply(current_values, fam, affected_channels, new_input_values)
        if style == 'shared':
            shared[:] = res
            res = shared
        if hooks is not None:
            hooks.kept.append(res)
        if style == 'shared':
            return shared
        if style == 'inplace':
            for i, v in enumerate(res):
                current_values[i] = v
            return current_values
        return res
    return user_function


def make_gfun(kind, hooks, tag):
    def user_function(collection, parameters):
        if hooks is not None:
            hooks.enter('gfun', (tag, len(collection)))
        if kind == 'gident':
            return collection
        if kind == 'grelabel':
            for state in collection:
                state.initial_state = state.initial_state + parameters[0]
            return collection
        if kind == 'gsplit':
            out = collection.copy()
            out.clear()
            for state in collection:
                a, b = state.copy(), state.copy()
                a.cumulative_probability = state.cumulative_probability * parameters[1]
                b.cumulative_probability = state.cumulative_probability * (1 - parameters[1])
                va, vb = list(state.classical_channel_values), list(state.classical_channel_values)
                va[parameters[0]], vb[parameters[0]] = 0, 1
                a.classical_channel_values, b.classical_channel_values = va, vb
                out.add_state(a)
                out.add_state(b)
            return out
        raise ValueError(kind)
    return user_function


def hamiltonian(spec):
    H = lib().Hamiltonian
    if spec[0] == 'bs':
        return H([('+-', spec[1]), ('-+', -spec[1])], [0, 1])
    if spec[0] == 'bsi':
        return H([('+-', 1j * spec[1]), ('-+', 1j * spec[1])], [0, 1])
    if spec[0] == 'kerr':
        return H([('-+-+', 1j * spec[1])], [0, 0, 1, 1])
    if spec[0] in ('num', 'numc'):
        return H([('-+', 1j * spec[1])], [0, 0])
    raise ValueError(spec)


def add_op(circ, op, cfg, hooks=None, tag=None):
    k = op[0]
    if k == 'mix':
        circ.mix_50_50(first_channel=op[1], second_channel=op[2])
    elif k == 'mixg':
        circ.mix_generic_refl_transm(first_channel=op[1], second_channel=op[2], reflection=op[3], transmission=1 - op[3])
    elif k == 'swap':
        circ.swap(first_channel=op[1], second_channel=op[2])
    elif k == 'wp':
        circ.wave_plate(channel_horizontal=op[1], channel_vertical=op[2], theta=op[3], phi=op[4])
    elif k == 'hwp':
        circ.half_wave_plate(channel_horizontal=op[1], channel_vertical=op[2], angle=op[3])
    elif k == 'hwp45':
        circ.half_wave_plate_45(channel_horizontal=op[1], channel_vertical=op[2])
    elif k == 'hwp225':
        circ.half_wave_plate_225(channel_horizontal=op[1], channel_vertical=op[2])
    elif k == 'qwp':
        circ.quarter_wave_plate(channel_horizontal=op[1], channel_vertical=op[2], angle=op[3])
    elif k == 'qwp45':
        circ.quarter_wave_plate_45(channel_horizontal=op[1], channel_vertical=op[2])
    elif k == 'qwp225':
        circ.quarter_wave_plate_225(channel_horizontal=op[1], channel_vertical=op[2])
    elif k == 'ps':
        circ.phase_shift_single_channel(channel_for_shift=op[1], phase_shift=op[2])
    elif k == 'pbs':
        circ.polarizing_beamsplitter(input_channels_a=(op[1], op[2]), input_channels_b=(op[3], op[4]))
    elif k == 'npbs':
        circ.non_polarizing_50_50_beamsplitter(input_channels_a=(op[1], op[2]), input_channels_b=(op[3], op[4]))
    elif k == 'npbsg':
        circ.non_polarizing_beamsplitter(input_channels_a=(op[1], op[2]), input_channels_b=(op[3], op[4]),
                                         reflection=op[5], transmission=1 - op[5])
    elif k == 'cust':
        circ.custom_optical_node(matrix_optical=np.array(M.custom_unitary(*op[3:7])), optical_channels=[op[1], op[2]])
    elif k == 'perm':
        size = cfg['L'] ** cfg['n']
        p = M.perm_list(op[1], size)
        m = np.zeros((size, size))
        for i in range(size):
            m[p[i]][i] = 1
        circ.custom_fock_state_node(custom_fock_matrix=m)
    elif k == 'kerr':
        bs = M.basis(cfg['L'], cfg['n'])
        circ.custom_fock_state_node(custom_fock_matrix=np.diag([M.kerr_phase(t, op[1], op[2], op[3]) for t in bs]))
    elif k == 'shift':
        circ.shift(target_channels=list(op[1]), shift_per_channel=list(op[2]))
    elif k == 'shiftd':
        circ.shift_direct(target_channels=list(op[1]), shift_per_channel=list(op[2]))
    elif k == 'cshift':
        circ.c_shift(control_channels=list(op[1]), target_channels=list(op[2]))
    elif k == 'cshiftd':
        circ.c_shift_direct(control_channels=list(op[1]), target_channels=list(op[2]))
    elif k == 'couple':
        circ.channel_coupling(control_channels=list(op[1]), target_channels=list(op[2]), coupling_strength=op[3])
    elif k == 'meas':
        circ.measure_optical_to_classical(optical_channels_to_be_measured=list(op[1]), classical_channels_to_be_written=list(op[2]))
    elif k == 'setc':
        circ.set_classical_channels(list_of_values_for_classical_channels=list(op[1]), list_of_classical_channel_numbers=list(op[2]))
    elif k == 'cfun':
        circ.classical_channel_function(make_cfun(op[1], op[4] if len(op) > 4 else 'new', hooks, tag),
                                        affected_channels=list(op[2]), new_input_values=list(op[3]))
    elif k == 'cps':
        circ.phase_shift_single_channel_classical_control(optical_channel_to_shift=op[1], classical_channel_for_phase_shift=op[2])
    elif k == 'cwp':
        circ.wave_plate_classical_control(optical_channel_horizontal=op[1], optical_channel_vertical=op[2],
                                          classical_channel_for_orientation=op[3], classical_channel_for_phase_shift=op[4])
    elif k == 'hamwp':
        circ.wave_plate_from_hamiltonian(channel_horizontal=op[1], channel_vertical=op[2], theta=op[3], phi=op[4])
    elif k == 'chamwp':
        circ.wave_plate_from_hamiltonian_classical_control(optical_channel_horizontal=op[1], optical_channel_vertical=op[2],
                                                           classical_channel_for_orientation=op[3], classical_channel_for_phase_shift=op[4])
    elif k == 'ham':
        circ.hamiltonian_operator_gate(channels=list(op[1]), operators=[hamiltonian(s) for s in op[2:]])
    elif k == 'gsplit':
        circ.generic_function_on_collection(make_gfun(k, hooks, tag), affected_optical_channels=[0], affected_classical_channels=[op[1]],
                                            parameters=[op[1], op[2]])
    elif k == 'grelabel':
        circ.generic_function_on_collection(make_gfun(k, hooks, tag), parameters=[op[1]])
    elif k == 'gident':
        circ.generic_function_on_collection(make_gfun(k, hooks, tag))
    elif k == 'delayf':
        circ.time_delay_full(affected_channels=list(op[1]), delay=op[2], pulse_width=op[3] if len(op) > 3 else 1)
    elif k == 'cdelayf':
        circ.time_delay_classical_control_full(affected_channels=list(op[1]), classical_channel_for_delay=op[2],
                                               pulse_width=op[3] if len(op) > 3 else 1)
    elif k == 'delay':
        circ.time_delay(affected_channels=list(op[1]), delay=op[2], pulse_width=op[3] if len(op) > 3 else 1)
    elif k == 'cdelay':
        circ.time_delay_classical_control(affected_channels=list(op[1]), classical_channel_for_delay=op[2],
                                          pulse_width=op[3] if len(op) > 3 else 1)
    elif k == 'setpw':
        circ.set_pulse_width(affected_channels=op[1], pulse_width=op[2])
    elif k == 'pr':
        circ.popescu_rohrlich_correlation_gate(pr_correlation=[{'channels_Ah_Av_Bh_Bv': list(s[0]), 'quantumness_indicator': s[1]} for s in op[1]])
    else:
        raise ValueError('unknown op %r' % (op,))


def build(cfg, ops, hooks=None):
    circ = circuit(cfg)
    for i, op in enumerate(ops):
        add_op(circ, op, cfg, hooks, i)
    return circ


# ------------------------------------------------------------------ collections
def branches_of(spec):
    """JSON initial collection -> model branches.  state spec: {'id','init','p','vec':[[vals],[re,im]],'cl':[...]}"""
    return [M.branch(s['init'], s.get('p', 1.0), {tuple(v): complex(*a) for v, a in s['vec']}, s['cl']) for s in spec]


def make_state(coll, cfg, s):
    f = lib()
    st = f.State(collection_of_states=coll)
    fill_state(st, cfg, s)
    return st


def fill_state(st, cfg, s):
    comps = {}
    for v, a in s['vec']:
        amp = np.cdouble(complex(*a))
        comps[M.name_of(v, cfg['L'], cfg.get('left', True))] = {'amplitude': amp, 'probability': float(abs(amp) ** 2)}
    st.initial_state = s['init']
    st.optical_components = comps
    st.cumulative_probability = s.get('p', 1.0)
    st.classical_channel_values = list(s['cl'])
    return st


def collection(circ, cfg, spec):
    f = lib()
    coll = f.CollectionOfStates(fock_state_circuit=circ, input_collection_as_a_dict=dict([]))
    for s in spec:
        coll.add_state(state=make_state(coll, cfg, s), identifier=s.get('id'))
    return coll


def set_history(coll, branches):
    """Attach measurement histories (for checkpoints)."""
    for st, b in zip(coll, branches):
        st.measurement_results = [{'measurement_results': list(v), 'probability': q} for v, q in b['hist']]


# ------------------------------------------------------------------ reading back
def num(x, what):
    try:
        v = complex(x)
    except Exception:
        raise Violation('malformed', '%s is not a number: %r' % (what, x))
    if v != v or math.isinf(v.real) or math.isinf(v.imag):
        raise Violation('malformed', '%s is not finite: %r' % (what, x))
    return v


def read(coll, cfg, ids=False):
    """Public content of a collection as model branches; names decoded by our own decoder."""
    if coll is None or not hasattr(coll, 'items'):
        raise Violation('malformed', 'evaluation returned %r instead of a collection' % (type(coll).__name__,))
    out = []
    for ident, st in list(coll.items()):
        vec = {}
        comps = st.optical_components
        for name, ap in comps.items():
            vals = M.values_of(name, cfg['L'], cfg.get('left', True))
            if vals is None or len(vals) != cfg['n'] or max(vals) >= cfg['L'] or name != M.name_of(vals, cfg['L'], cfg.get('left', True)):
                raise Violation('malformed', 'component name %r is not a basis state' % (name,))
            amp = num(ap['amplitude'], 'amplitude')
            if amp != 0:
                vec[vals] = vec.get(vals, 0) + amp
        cl = list(st.classical_channel_values)
        if len(cl) != cfg['c']:
            raise Violation('malformed', 'state has %d classical values instead of %d' % (len(cl), cfg['c']))
        cl = [num(v, 'classical value').real for v in cl]
        hist = []
        for r in st.measurement_results:
            hist.append((tuple(num(v, 'recorded value').real for v in r['measurement_results']), num(r['probability'], 'recorded probability').real))
        b = {'init': st.initial_state, 'p': num(st.cumulative_probability, 'probability').real, 'vec': vec, 'cl': cl, 'hist': hist}
        if ids:
            b['id'] = ident
        out.append(b)
    return out


def freeze(x, depth=0):
    """Exact immutable picture of plain data (for before/after comparison)."""
    if isinstance(x, dict):
        return ('d',) + tuple((freeze(k), freeze(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return (('l' if isinstance(x, list) else 't'),) + tuple(freeze(v) for v in x)
    if isinstance(x, (set, frozenset)):
        return ('s',) + tuple(sorted((freeze(v) for v in x), key=repr))
    if isinstance(x, np.ndarray):
        return ('a', x.shape, tuple(complex(v) for v in x.ravel()))
    if isinstance(x, (bool, str, bytes)) or x is None:
        return x
    if isinstance(x, (int, float, complex, np.number)):
        c = complex(x)
        return ('n', repr(c))
    return ('o', type(x).__name__)


def snapshot(coll):
    """Exact content of a collection through its public interface, including what is printed."""
    out = []
    for ident, st in list(coll.items()):
        out.append((ident, st.initial_state, freeze(st.cumulative_probability), freeze(st.optical_components),
                    freeze(st.classical_channel_values), freeze(st.measurement_results), freeze(dict(st.auxiliary_information))))
    return (len(coll), tuple(out), str(coll))


def snapdiff(a, b):
    if a == b:
        return None
    if a[0] != b[0]:
        return 'number of states %d -> %d' % (a[0], b[0])
    fields = ['identifier', 'initial_state', 'cumulative_probability', 'optical_components', 'classical_channel_values',
              'measurement_results', 'auxiliary_information']
    for x, y in zip(a[1], b[1]):
        if x != y:
            for f, u, v in zip(fields, x, y):
                if u != v:
                    return '%s of state %r: %s -> %s' % (f, x[0], repr(u)[:160], repr(v)[:160])
    return 'printed form changed'
