"""Environment events: what else happens in the process around an experiment.  Each is deterministic given its parameters
and must not influence the experiment.  An event returns nothing; errors it provokes on purpose are swallowed here."""
import gc

from . import build as B
from . import model as M
from . import seams

KINDS = ['reject', 'failed_eval', 'interrupted_eval', 'alloc_fail_eval', 'lookups', 'other_circuit', 'look', 'broken_display',
         'copy_mutate', 'rng', 'reeval', 'gc', 'full_disk_print']


def gen(rng, cfg, positions, p=0.5, kinds=None, hi=5):
    if not rng.chance(p):
        return []
    out = []
    for _ in range(rng.randint(1, hi)):
        k = rng.pick(kinds or KINDS)
        out.append({'at': rng.randint(0, positions), 'kind': k, 'x': rng.randint(0, 10 ** 6), 'frac': round(rng.random(), 4)})
    return sorted(out, key=lambda e: e['at'])


REJECTS = ['meas_len', 'meas_range', 'mix_same', 'mixg_sum', 'npbs_sum', 'shift_range', 'cshift_same', 'couple_range', 'setc_range', 'cps_range',
           'cwp_range', 'chamwp_range', 'nodetype', 'evalrange', 'shift_len', 'npbs_channel']


def reject(circ, cfg, which):
    n, c = cfg['n'], cfg['c']
    if which == 'meas_len':
        circ.measure_optical_to_classical([0, 1], [0])
    elif which == 'meas_range':
        circ.measure_optical_to_classical([n + 1], [0])
    elif which == 'mix_same':
        circ.mix_50_50(0, 0)
    elif which == 'mixg_sum':
        circ.mix_generic_refl_transm(0, 1, reflection=0.9, transmission=0.9)
    elif which == 'npbs_sum':
        circ.non_polarizing_beamsplitter((0, 1), (1, 0), reflection=0.9, transmission=0.9)
    elif which == 'npbs_channel':
        circ.non_polarizing_50_50_beamsplitter((0, 1), (1, n + 3))
    elif which == 'shift_range':
        circ.shift(target_channels=[n], shift_per_channel=[1])
    elif which == 'shift_len':
        circ.shift(target_channels=[0, 1], shift_per_channel=[1])
    elif which == 'cshift_same':
        circ.c_shift(control_channels=[0], target_channels=[0])
    elif which == 'couple_range':
        circ.channel_coupling(control_channels=[n], target_channels=[0], coupling_strength=1.0)
    elif which == 'setc_range':
        circ.set_classical_channels([1], [c])
    elif which == 'cps_range':
        circ.phase_shift_single_channel_classical_control(0, c + 1)
    elif which == 'cwp_range':
        circ.wave_plate_classical_control(0, n, 0, 0)
    elif which == 'chamwp_range':
        circ.wave_plate_from_hamiltonian_classical_control(0, n, 0, 0)
    elif which == 'nodetype':
        circ._update_list_of_nodes({'node_type': 'unknown'}) if hasattr(circ, '_update_list_of_nodes') else circ.mix_50_50(0, 0)
    elif which == 'evalrange':
        circ.evaluate_circuit(nodes_to_be_evaluated=[10 ** 6])


def run(events, at, ctx, cfg, circ=None, coll=None):
    for e in events:
        if e['at'] == at:
            one(e, ctx, cfg, circ, coll)


def one(e, ctx, cfg, circ, coll):
    k, x = e['kind'], e['x']
    f = B.lib()
    ctx.log('env', k, x)
    if k == 'reject':
        if circ is None:
            circ = B.circuit(cfg)
        for j in range(1 + x % 3):
            try:
                reject(circ, cfg, REJECTS[(x + 5 * j) % len(REJECTS)])
            except Exception:
                ctx.fault('rejected_call')
            else:
                ctx.probe('call_not_rejected')
    elif k in ('failed_eval', 'interrupted_eval', 'alloc_fail_eval'):
        if circ is None or coll is None:
            return
        if k == 'failed_eval':
            bad = B.circuit(cfg)
            bad.node_list = list(circ.node_list)

            def boom(*a):
                raise RuntimeError('simulated user failure')
            bad.classical_channel_function(boom, affected_channels=[0], new_input_values=[1])
            try:
                bad.evaluate_circuit(collection_of_states_input=coll)
            except RuntimeError:
                ctx.fault('user_function_raises')
        elif k == 'interrupted_eval':
            with seams.StepCounter() as sc:
                circ.evaluate_circuit(collection_of_states_input=coll)
            at = 1 + int(e['frac'] * sc.n)
            with seams.StepCounter(at=at, exc=seams.Interrupt()) as sc2:
                try:
                    circ.evaluate_circuit(collection_of_states_input=coll)
                except BaseException:
                    pass
            ctx.steps += sc.n + sc2.n
            if sc2.fired:
                ctx.fault('interrupt')
        else:
            with seams.AllocFaults() as af:
                circ.evaluate_circuit(collection_of_states_input=coll)
            if af.n:
                with seams.AllocFaults(at=1 + int(e['frac'] * af.n)) as a2:
                    try:
                        circ.evaluate_circuit(collection_of_states_input=coll)
                    except BaseException:
                        pass
                if a2.fired:
                    ctx.fault('allocation_failure')
    elif k == 'lookups':
        c = circ or B.circuit(cfg)
        b = c.basis()
        L, n = cfg['L'], cfg['n']
        names = ['9' * n, '', 'zz', '0' * (n + 1), M.name_of([L - 1] * n, L, True), M.name_of([0] * (n - 1) + [min(1, L - 1)], L, False),
                 '1' * n * M.digits(L), ' ' + '0' * (n - 1), '+1' * n]
        for j in range(6):
            nm = names[(x + j * 7) % len(names)]
            for fn in (lambda: nm in b, lambda: b[nm], lambda: b.index_of(nm)):
                try:
                    fn()
                except Exception:
                    ctx.fault('rejected_lookup')
        if x % 2:
            try:
                b.at_index(x % (L ** n))
                list(b.keys())
            except Exception:
                pass
        ctx.probe('lookups')
    elif k == 'other_circuit':
        alt = dict(cfg)
        if x % 3 == 0:
            alt['left'] = not cfg['left']
        elif x % 3 == 1:
            alt['L'] = max(2, cfg['L'] - 1) if x % 2 else cfg['L'] + (1 if cfg['n'] <= 3 else 0)
        c2 = B.circuit(alt)
        c2.mix_50_50(0, 1)
        c2.measure_optical_to_classical([0], [0])
        spec = [{'id': 'q', 'init': 'other', 'p': 1.0, 'vec': [[[1] + [0] * (alt['n'] - 1), [1, 0]]], 'cl': [0] * alt['c']}]
        c2.evaluate_circuit(B.collection(c2, alt, spec))
        ctx.probe('other_circuit')
    elif k == 'look':
        if coll is not None:
            str(coll)
            coll.plot(histo_output_instead_of_plot=True)
            if cfg['L'] ** cfg['n'] <= 64:
                coll.density_matrix()
            for st in coll:
                str(st), st.photon_number(), st.inner(st)
            ctx.probe('look')
    elif k == 'broken_display':
        if circ is not None and len(circ.node_list):
            with seams.Display(fail_at=1 + int(e['frac'] * 12)) as d:
                try:
                    circ.draw()
                except seams.DisplayFailure:
                    pass
            if d.fired:
                ctx.fault('display_failure')
    elif k == 'copy_mutate':
        if coll is not None:
            c2 = coll.copy()
            for st in c2:
                st.initial_state = 'junk'
                st.cumulative_probability = 0.123
                for ap in st.optical_components.values():
                    ap['amplitude'] = 0.5
                if st.classical_channel_values:
                    st.classical_channel_values[0] = 77
                st.measurement_results.append({'measurement_results': [9] * cfg['c'], 'probability': 0.9})
            c2.clear()
            ctx.probe('copy_mutate')
    elif k == 'rng':
        kinds = ['constant:%d' % (x % 36), 'cycle:%d' % (1 + x % 4), 'high', 'replay:%d' % (2 + x % 5), 'seeded']
        seams.set_random(kinds[x % 5], x, hold=40 + x % 100)
        ctx.fault('random_stream_' + kinds[x % 5].split(':')[0])
    elif k == 'reeval':
        if circ is not None and coll is not None:
            r = circ.evaluate_circuit(collection_of_states_input=coll)
            for st in r:
                st.initial_state = 'junk'
                if st.classical_channel_values:
                    st.classical_channel_values[0] = 55
                for ap in st.optical_components.values():
                    ap['amplitude'] = 0.25
                for m in st.measurement_results:
                    m['measurement_results'].append(5)
                    m['probability'] = 0.5
            ctx.probe('result_mutated')
    elif k == 'gc':
        gc.collect()
    elif k == 'full_disk_print':
        if coll is not None:
            import sys
            with seams.Stdout(fail_at=1 + x % 4) as s:
                try:
                    print(coll)
                    print(str(circ))
                except OSError:
                    pass
            if s.fired:
                ctx.fault('output_write_error')
