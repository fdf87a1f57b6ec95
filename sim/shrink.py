"""Minimisation: delta debugging over the lists of a scenario (operations, states, faults, schedules), keeping the
violation class.  Candidates that are no longer valid scenarios simply do not fail and are discarded."""
import json
import time


def paths(node, names, prefix=()):
    out = []
    if isinstance(node, dict):
        for k, v in node.items():
            if k in names and isinstance(v, list) and v:
                out.append(prefix + (k,))
            out.extend(paths(v, names, prefix + (k,)))
    elif isinstance(node, list):
        for i, v in enumerate(node):
            if isinstance(v, (dict, list)):
                out.extend(paths(v, names, prefix + (i,)))
    return out


def get(node, path):
    for p in path:
        node = node[p]
    return node


def replaced(node, path, value):
    node = json.loads(json.dumps(node))
    tgt = get(node, path[:-1])
    tgt[path[-1]] = value
    return node


def minimise(module, worker, r, seconds=90, max_runs=400):
    names = set(getattr(module, 'SHRINK', ('ops', 'states', 'chaos', 'faults', 'history', 'schedule')))
    best = {'scenario': r['scenario'], 'cls': r['cls'], 'msg': r['msg']}
    end = time.monotonic() + seconds
    runs = 0

    def attempt(scen):
        nonlocal runs, best
        if runs >= max_runs or time.monotonic() > end:
            return False
        runs += 1
        res = worker.run({'i': r['i'], 'tier': 'quick', 'scenario': scen, 'timeout': 20})
        if res['status'] == 'violation' and res['cls'] == best['cls']:
            best = {'scenario': scen, 'cls': res['cls'], 'msg': res['msg']}
            return True
        return False

    if r['cls'] in ('no-progress', 'crash'):
        return best, 0
    changed = True
    while changed and time.monotonic() < end and runs < max_runs:
        changed = False
        for path in paths(best['scenario'], names):
            try:
                lst = get(best['scenario'], path)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(lst, list):
                continue
            size = max(1, len(lst) // 2)
            while size >= 1:
                i = 0
                while i < len(lst):
                    cand = lst[:i] + lst[i + size:]
                    if attempt(replaced(best['scenario'], path, cand)):
                        lst = cand
                        changed = True
                    else:
                        i += size
                size //= 2
        for cand in getattr(module, 'simplify', lambda s: [])(best['scenario']):
            if attempt(cand):
                changed = True
                break
    return best, runs
