"""Looks (drawing, plotting, tabulating, printing, analysing) interleaved with building and evaluating; displays and outputs that fail half way."""
import numpy as np

from .. import build as B, gen as G, model as M, common as C, seams
from ..kernel import Trivial, Violation
from .H13 import histogram

LEVEL = 'exploration'
RUNS = {'quick': 320, 'thorough': 12000}
FAULTS = ['display_failure', 'output_write_error', 'interrupt', 'allocation_failure', 'look_while_evaluating', 'failed_look_while_evaluating']
PROBES = ['drawn', 'drawn_with_settings', 'stations', 'one_station', 'plotted', 'tabulated', 'some_channels', 'some_labels', 'correlations', 'correlation_plot', 'printed',
          'full_record_printed', 'density', 'inner', 'photon_number', 'names_listed', 'iterated', 'basis', 'plain', 'resolved', 'boxes', 'compound', 'looked_at_input',
          'looked_at_result', 'looked_while_building', 'looked_between_pieces', 'looked_at_empty', 'evaluated_again']
RULE = ('A seeded generator draws an experiment (plain, time resolved, with boxes, single or combined circuits) and a list of looks placed while building, before, between '
        'the pieces of, during (from a user function) and after evaluations, each possibly failing at a chosen display call, output write, source line or allocation. '
        'Every look is first done in a forked process that never failed; then with the fault; then twice without: the answers must agree and all circuits and collections '
        'must be exactly as before. The evaluations must agree with those of a forked twin that never looked.')
STATE_MEASURE = 'distinct (mode, look kind, object, fault kind, position)'
REAL = ['whole library', 'matplotlib figures (Agg backend)']
STUB = ['plt.show, failing drawing calls, standard output']
SHRINK = ('looks', 'ops', 'states')
ASSUMPTIONS = ['drawing needs at least one element in what is drawn (documented)', 'an interrupted or failed look may leave figures behind in the plotting library']
CIRC = ['draw', 'draw', 'drawset', 'station', 'strc', 'basis', 'conventions', 'defaults']
COLL = ['plot', 'histo', 'histo', 'corr', 'corrplot', 'str', 'print', 'full', 'density', 'inner', 'photon', 'names', 'iter', 'repr']
SLOW = ('draw', 'drawset', 'station', 'plot', 'corrplot', 'defaults')


def gen(rng, tier):
    mode = rng.wpick([('plain', 5), ('resolved', 3), ('pr', 2.5), ('compound', 3)])
    if mode == 'pr':
        cfg = G.config(rng, sizes=[((2, 4), 4), ((3, 4), 1)], thr=1e-10, c=4)
        st = G.states(rng, cfg, 1, 3, total=0, max_comps=1)
        ops = [['pr', [[[0, 1, 2, 3], rng.pick([0.5, 1.0, 0.7071, 2])]]]]
        for _ in range(rng.randint(1, 3)):
            ops.append(['hwp', *rng.pick([(0, 1), (2, 3)]), rng.angle()])
        ops.append(['meas', [0, 1, 2, 3], [0, 1, 2, 3]])
    elif mode == 'resolved':
        cfg = G.config(rng, sizes=[((3, 2), 4), ((3, 3), 2), ((4, 2), 2)], thr=1e-10, c=3)
        st = G.states(rng, cfg, 1, 3, cap=1, total=2, max_comps=2, angles=False)
        ops = []
        for _ in range(rng.randint(1, 3)):
            ops.append(['delayf', [rng.randrange(cfg['n'])], round(rng.uniform(-2, 2), 2)])
            ops.append(G.one_op(rng, cfg, rng.pick(['mix', 'wp', 'swap']), C.branches(st), range(cfg['n']), [0]))
        ops.append(['meas', list(range(cfg['n'])), list(range(cfg['n']))])
        if rng.chance(0.4):
            ops.append(['setc', [1], [cfg['n'] - 1]])
    else:
        cfg, st, ops = C.history(rng, lo=2, hi=8, states_hi=4, sizes=[((2, 2), 5), ((2, 3), 5), ((2, 4), 3), ((3, 2), 5), ((3, 3), 3), ((4, 2), 3), ((11, 2), 1)],
                                 kinds=[k for k in G.ALL if k not in ('ham', 'hamwp', 'chamwp')] + ['meas', 'npbs', 'pbs'], max_branches=30)
        if len(ops) < 2:
            ops += [['mix', 0, 1], ['meas', [0], [0]]]
    if mode in ('plain', 'resolved') and rng.chance(0.5):
        ops.insert(rng.randint(0, len(ops)), ['gident'])
    cut = rng.randint(1, len(ops) - 1) if mode == 'compound' else (rng.randint(1, len(ops) - 1) if rng.chance(0.5) and len(ops) > 1 else 0)
    looks = []
    slow = 0
    for _ in range(rng.randint(2, 6)):
        on = rng.wpick([('circ', 2), ('in', 2), ('res', 4)])
        k = rng.pick(CIRC if on == 'circ' else COLL)
        if k in SLOW:
            slow += 1
            if slow > 3:
                continue
        looks.append({'on': on, 'kind': k, 'x': rng.randint(0, 10 ** 6), 'frac': round(rng.random(), 4),
                      'at': rng.pick(['build', 'before', 'during', 'between', 'after', 'after', 'after']),
                      'pos': rng.randint(0, len(ops)),
                      'fault': rng.wpick([(None, 2), ('display', 3), ('output', 1), ('interrupt', 2), ('alloc', 1)])})
    return {'mode': mode, 'cfg': cfg, 'states': st, 'ops': ops, 'cut': cut, 'looks': looks}


# ------------------------------------------------------------------ looks
def stations(cfg, x):
    n, c = cfg['n'], cfg['c']
    k, j = 1 + x % (n - 1), (x // 7) % (c + 1)
    d = {'alice': {'optical_channels': list(range(k)), 'classical_channels': list(range(j))},
         'bob': {'optical_channels': list(range(k, n)), 'classical_channels': list(range(j, c))}}
    out = {'station_channels': d}
    if x % 3 == 0:
        out['station_to_draw'] = ['alice', 'bob'][x % 2]
    elif x % 3 == 1:
        out['station_to_draw'] = ['alice', 'bob']
    return out


def settings(cfg, x):
    s = {}
    if x % 2:
        s['compound_circuit_title'] = 'title %d' % (x % 9)
    if x % 3 == 0:
        s['number_of_nodes_on_a_line'] = 3 + x % 5
    if x % 5 < 2:
        s['channel_labels_optical'] = ['o%d' % i for i in range(cfg['n'])]
        s['channel_labels_classical'] = ['c%d' % i for i in range(cfg['c'])]
    if x % 7 == 0:
        s['figure_width_in_inches'] = 8
    return s


def rounded(x):
    if isinstance(x, dict):
        return {str(k): rounded(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [rounded(v) for v in x]
    if isinstance(x, np.ndarray):
        return [rounded(v) for v in x.ravel().tolist()]
    if isinstance(x, (bool, str)) or x is None:
        return x
    if isinstance(x, (complex, np.complexfloating)):
        return [round(float(x.real), 6) + 0.0, round(float(x.imag), 6) + 0.0]
    if isinstance(x, (int, float, np.number)):
        return round(float(x), 6) + 0.0
    return repr(x)


def outcomes(h):
    """Histogram as a plain mapping (the order of the outcomes is not part of the answer)."""
    return {k: sorted([e['output_state'], round(float(e['probability']), 6) + 0.0] for e in v) for k, v in h.items()}


def perform(look, obj, cfg, d, out):
    """Does one look at a circuit or a collection; returns what the user gets to see."""
    k, x = look['kind'], look['x']
    if k in ('draw', 'drawset', 'station', 'defaults'):
        if k == 'draw':
            obj.draw()
        elif k == 'defaults':
            obj.draw(print_defaults=True)
        elif k == 'drawset':
            obj.draw(settings_for_drawing_circuit=settings(cfg, x))
        else:
            obj.draw_station(stations=stations(cfg, x), **({'settings_for_drawing_circuit': settings(cfg, x // 3)} if x % 4 == 0 else {}))
        return [d.calls, ''.join(out.text)]
    if k == 'strc':
        return [str(obj), str(obj)]
    if k == 'basis':
        b = obj.basis() if hasattr(obj, 'basis') else None
        return None if b is None else [rounded(list(b.keys()))[:400], len(b)]
    if k == 'conventions':
        return obj.conventions() if hasattr(obj, 'conventions') else None
    labels = sorted({st.initial_state for st in obj})
    some = [labels[x % len(labels)]] if labels and x % 3 == 0 else []
    chans = sorted({x % cfg['c'], (x // 5) % cfg['c']}) if x % 4 == 0 else []
    if k == 'plot':
        obj.plot(classical_channels=list(chans), initial_states=list(some), **({'info_for_bar_plot': {'title': 'T', 'colors': ['red', 'blue']}} if x % 5 == 0 else {}))
        return sorted(d.calls, key=repr)
    if k == 'histo':
        return outcomes(obj.plot(classical_channels=list(chans), initial_states=list(some), histo_output_instead_of_plot=True))
    combis = [(x % cfg['c'], (x // 3) % cfg['c']), (0, cfg['c'] - 1)]
    if k == 'corr':
        return rounded(obj.plot_correlations(combis, correlation_output_instead_of_plot=True, initial_states_to_assess=list(some)))
    if k == 'corrplot':
        obj.plot_correlations(combis, initial_states_to_assess=list(some))
        return sorted(d.calls, key=repr)
    if k == 'str':
        return [str(obj)] + [str(st) + st.print_optical_components() for st in obj]
    if k == 'print':
        print(obj)
        for st in obj:
            print(st)
        return ''.join(out.text)
    if k == 'full':
        keep = obj.print_only_last_measurement
        obj.print_only_last_measurement = False
        try:
            t = str(obj)
        finally:
            obj.print_only_last_measurement = keep
        return [t, str(obj)]
    if k == 'repr':
        return [len(obj), bool(obj), obj.is_photon_resolved(), obj.has_pr_correlations()]
    if k == 'density':
        if cfg['L'] ** cfg['n'] > 130:
            return None
        return rounded(obj.density_matrix(initial_state=some[0]) if some else obj.density_matrix(decimal_places_for_trace=3))
    sts = list(obj)
    if k == 'inner':
        return [[rounded(a.inner(b)) for b in sts[:4]] for a in sts[:4]] + ([rounded(a.outer(sts[0])) for a in sts[:2]] if cfg['L'] ** cfg['n'] <= 40 else [])
    if k == 'photon':
        return [[rounded(a.photon_number()), int(a), a == 2, bool(a), len(a.translate_state_components_to_vector()[0]), rounded(a.optical_components)] for a in sts]
    if k == 'names':
        return [obj.state_identifiers_as_list(), obj.initial_states_as_list(), obj.generate_allowed_components_names_as_list_of_strings()[:300], sorted(obj.collection_as_dict())]
    if k == 'iter':
        a = [s.initial_state for s in obj]
        n = 0
        for s in obj:
            for s2 in obj:               # nested
                n += 1
        for s in obj:
            break                        # abandoned
        return [a, n, [s.initial_state for s in obj], list(obj.keys()), [i for i, _ in obj.items()], len(list(obj.values())),
                [obj.get_state(identifier=i) is v for i, v in obj.items()], obj[0].initial_state if len(obj) else None]
    raise ValueError(k)


def refused(look, obj, e):
    """Drawing something without elements is an error by design."""
    if look['kind'] == 'station':
        return 'empty circuit' in str(e) or 'Number of rows' in str(e)
    return look['kind'] in ('draw', 'drawset', 'defaults') and hasattr(obj, 'node_list') and len(obj.node_list) == 0


def once(look, obj, cfg, fail=None):
    """One clean look.  Returns [answer, counts]."""
    with seams.Display() as d, seams.Stdout() as out:
        try:
            a = perform(look, obj, cfg, d, out)
        except Exception as e:
            if not refused(look, obj, e):
                raise
            a = 'refused: empty'
        return [a, [d.n, out.n]]


class World:
    def __init__(self, s, ctx):
        self.s, self.ctx, self.cfg = s, ctx, s['cfg']
        self.circs, self.colls, self.comp = [], {}, None
        self.depth = 0

    def pictures(self, extra=None):
        p = {'circuit %d' % i: C.circuit_picture(c) for i, c in enumerate(self.circs)}
        for k, c in list(self.colls.items()) + ([('passed', extra)] if extra is not None else []):
            p[k] = B.snapshot(c)
        return p

    def same(self, before, what, extra=None):
        after = self.pictures(extra)
        for k in before:
            if before[k] != after.get(k):
                if k.startswith('circuit'):
                    raise Violation('circuit-changed', '%s: %s: %s' % (what, k, C.first_difference(str(before[k]), str(after.get(k)))[:400]))
                raise Violation('collection-changed', '%s: %s: %s' % (what, k, B.snapdiff(before[k], after[k])))

    def look(self, look, where, obj=None):
        """A look under all conditions."""
        ctx, cfg = self.ctx, self.cfg
        if obj is None:
            if look['on'] == 'circ':
                targets = self.circs + ([self.comp] if self.comp is not None else [])
                obj = targets[look['x'] % len(targets)]
                if obj is self.comp and look['kind'] in ('basis', 'conventions'):
                    obj = self.circs[0]
            else:
                obj = self.colls.get(look['on'])
                if obj is None:
                    obj = self.colls['in']
        coll = look['on'] != 'circ'
        if coll and (cfg['c'] < 1 or (look['kind'] in ('corr', 'corrplot') and (len(obj) == 0 or sum(float(st.cumulative_probability) for st in obj) < 1e-6))):
            return
        what = 'look (%s) %s' % (look['kind'], where)
        passed = obj if where == 'during' and coll else None
        before = self.pictures(passed)
        fresh, count = C.in_fork(lambda: once(look, obj, cfg))
        if look['fault']:
            self.fail(look, obj, count, what)
            self.same(before, what + ' that failed (%s)' % look['fault'], passed)
        for again in range(2):
            a, _ = once(look, obj, cfg)
            self.same(before, what, passed)
            d = C.first_difference(fresh, C.jsonable(a))
            if d:
                raise Violation('answer-differs', '%s%s: the answer differs from that of a process which did it first: %s' % (
                    what, ' (after one that failed)' if look['fault'] else '', d))
        ctx.log(look['kind'], where, len(str(fresh)))
        ctx.state(self.s['mode'], look['kind'], look['on'], look['fault'], where)
        ctx.probe({'draw': 'drawn', 'drawset': 'drawn_with_settings', 'station': 'stations', 'defaults': 'drawn', 'plot': 'plotted', 'histo': 'tabulated', 'corr': 'correlations',
                   'corrplot': 'correlation_plot', 'str': 'printed', 'strc': 'printed', 'print': 'printed', 'full': 'full_record_printed', 'density': 'density', 'inner': 'inner',
                   'photon': 'photon_number', 'names': 'names_listed', 'iter': 'iterated', 'basis': 'basis', 'conventions': 'printed', 'repr': 'printed'}[look['kind']])
        if fresh == 'refused: empty':
            ctx.probe('looked_at_empty')
        if look['kind'] == 'station' and look['x'] % 3 == 0:
            ctx.probe('one_station')
        if look['kind'] in ('plot', 'histo'):
            if look['x'] % 3 == 0:
                ctx.probe('some_labels')
            if look['x'] % 4 == 0:
                ctx.probe('some_channels')
        if coll:
            ctx.probe('looked_at_input' if obj is self.colls['in'] else 'looked_at_result')
        ctx.probe({'build': 'looked_while_building', 'between': 'looked_between_pieces'}.get(where, 'plain' if self.s['mode'] == 'plain' else
                  {'resolved': 'resolved', 'pr': 'boxes', 'compound': 'compound'}[self.s['mode']]))

    def fail(self, look, obj, count, what):
        ctx, cfg, k = self.ctx, self.cfg, look['fault']
        if k in ('display', 'output'):
            n = count[0 if k == 'display' else 1]
            if not n:
                return
            at = 1 + int(look['frac'] * n)
            with seams.Display(fail_at=at if k == 'display' else None) as d, seams.Stdout(fail_at=at if k == 'output' else None) as out:
                try:
                    perform(look, obj, cfg, d, out)
                except (seams.DisplayFailure, OSError):
                    pass
                except Exception as e:
                    if not refused(look, obj, e):
                        raise
            if d.fired or out.fired:
                ctx.fault('display_failure' if k == 'display' else 'output_write_error')
                if self.depth:
                    ctx.fault('failed_look_while_evaluating')
            return
        if self.depth:
            return
        seam = seams.StepCounter if k == 'interrupt' else seams.AllocFaults
        with seams.Display() as d, seams.Stdout() as out, seam() as sc:
            try:
                perform(look, obj, cfg, d, out)
            except Exception as e:
                if not refused(look, obj, e):
                    raise
        if not sc.n:
            return
        at = 1 + int(look['frac'] * sc.n)
        with seams.Display() as d, seams.Stdout() as out, (seams.StepCounter(at=at, exc=seams.Interrupt()) if k == 'interrupt' else seams.AllocFaults(at=at)) as s2:
            try:
                perform(look, obj, cfg, d, out)
            except BaseException:
                pass
        ctx.steps += s2.n
        if look['kind'] == 'full':
            obj.print_only_last_measurement = True
        if s2.fired:
            ctx.fault('interrupt' if k == 'interrupt' else 'allocation_failure')


def experiment(s, world):
    """Builds and evaluates; world looks (or is None).  Returns the pictures of all evaluations."""
    cfg, ops, mode = s['cfg'], s['ops'], s['mode']
    looks = s['looks'] if world else []
    f = B.lib()
    during = [l for l in looks if l['at'] == 'during']

    def user(collection, parameters):
        if world and not world.depth:
            world.depth += 1
            try:
                for l in during:
                    world.look(dict(l, on=l['on'] if l['on'] == 'circ' else 'passed'), 'during', obj=None if l['on'] == 'circ' else collection)
                    world.ctx.fault('look_while_evaluating')
            finally:
                world.depth -= 1
        return collection

    two = mode == 'compound'
    circs = [B.circuit(cfg)] + ([B.circuit(dict(cfg, name='second'))] if two else [])
    coll = B.collection(circs[0], cfg, s['states'])
    if world:
        world.circs, world.colls = circs, {'in': coll}
    for i, op in enumerate(ops):
        for l in looks:
            if l['at'] == 'build' and l['pos'] == i:
                world.look(dict(l, on='in' if l['on'] == 'res' else l['on']), 'build')
        c = circs[1] if two and i >= s['cut'] else circs[0]
        if op[0] == 'gident':
            c.generic_function_on_collection(user, affected_optical_channels=[0], affected_classical_channels=[])
        else:
            B.add_op(c, op, cfg, None, i)
    comp = f.CompoundFockStateCircuit(circs, compound_circuit_name='both') if two else None
    if world:
        world.comp = comp
        for l in looks:
            if l['at'] == 'before' or (l['at'] == 'build' and l['pos'] >= len(ops)):
                world.look(dict(l, on='in' if l['on'] == 'res' else l['on']), 'before')
    go = comp.evaluate_circuit if two else circs[0].evaluate_circuit
    results = [go(collection_of_states_input=coll)]
    if world:
        world.colls['res'] = results[0]
        for l in looks:
            if l['at'] == 'after':
                world.look(l, 'after')
    if s['cut'] and not two:
        nodes = len(circs[0].node_list)
        at = min(s['cut'], nodes - 1)
        if at > 0:
            part = C.evaluate(circs[0], coll, range(at))
            if world:
                world.colls['part'] = part
                for l in looks:
                    if l['at'] == 'between':
                        world.look(dict(l, on='part' if l['on'] == 'res' else l['on']), 'between')
            results.append(C.evaluate(circs[0], part, range(at, nodes)))
    results.append(go(collection_of_states_input=coll))
    if world:
        world.ctx.probe('evaluated_again')
    out = []
    for r in results:
        h = histogram(r, cfg) if all(abs(v) < 1e6 for st in r for v in st.classical_channel_values) else {}
        out.append([sorted(C.jsonable(C.collection_picture(r, cfg, digits=5)), key=repr), sorted(h.items())])
    return C.jsonable(out)


def run(s, ctx):
    if not s['states'] or not s['ops'] or (s['mode'] == 'compound' and not 0 < s['cut'] < len(s['ops'])):
        raise Trivial('nothing to look at')
    if s['mode'] == 'pr' and (s['ops'][0][0] != 'pr' or s['ops'][-1][0] != 'meas'):
        raise Trivial('boxes need measuring')
    if s['mode'] == 'resolved' and not any(o[0] == 'delayf' for o in s['ops']):
        raise Trivial('not resolved')
    twin = C.in_fork(lambda: experiment(s, None))
    world = World(s, ctx)
    mine = experiment(s, world)
    for i, (a, b) in enumerate(zip(twin, mine)):
        d = C.first_difference(a, b)
        if d:
            raise Violation('evaluation-affected', 'evaluation %d differs from that of an experiment nobody looked at: %s' % (i, d))
    ctx.log('done', [len(x[0]) for x in mine])
