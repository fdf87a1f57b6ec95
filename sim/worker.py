"""Worker interpreter: runs simulated scenarios, each in its own forked process, so that every run starts from the same
process state and is a pure function of (scenario, code)."""
import importlib
import json
import os
import resource
import select
import signal
import sys
import time
import traceback

from . import kernel, seams
from .env import SRC


class Budget:
    """Line budget for the re-run of a scenario that did not come back in time (liveness)."""
    TOOL = 5

    def __init__(self, limit):
        self.limit, self.n = limit, 0

    def _line(self, code, line):
        if not seams.is_lib(code):
            return seams.MON.DISABLE
        self.n += 1
        if self.n > self.limit:
            raise seams.LineBudget('no end after %d library lines' % self.limit)

    def start(self):
        M = seams.MON
        M.use_tool_id(self.TOOL, 'verif-budget')
        M.register_callback(self.TOOL, M.events.LINE, self._line)
        M.set_events(self.TOOL, M.events.LINE)


def lib_frame(e):
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        tb = e.__traceback__
        while tb is not None:
            if tb.tb_frame.f_code.co_filename.startswith(SRC + os.sep):
                return True
            tb = tb.tb_next
        e = e.__cause__ or e.__context__
    return False


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    lib = [f for f in tb if f.filename.startswith(SRC + os.sep)]
    f = lib[-1] if lib else tb[-1]
    return '%s:%s' % (os.path.basename(f.filename), f.name)


def execute(prop, task):
    """Runs in the forked child."""
    ctx = kernel.Ctx()
    res = {'i': task['i'], 'status': 'ok'}
    scen = task.get('scenario')
    try:
        if scen is None:
            rng = kernel.Rng(task['seed'])
            scen = prop.gen(rng, task['tier'])
            scen['seed'] = task['seed']
        res['scenario'] = scen
        scen = json.loads(json.dumps(scen))
        seams.set_random('seeded', scen.get('seed', 0) % 1000003)
        if task.get('budget'):
            Budget(task['budget']).start()
        prop.run(scen, ctx)
    except kernel.Violation as v:
        res.update(status='violation', cls=v.cls, msg=v.msg)
    except kernel.Trivial as t:
        res.update(status='trivial', msg=str(t))
    except seams.LineBudget as e:
        res.update(status='violation', cls='no-progress', msg=str(e))
    except BaseException as e:
        if lib_frame(e):
            res.update(status='violation', cls='exception:' + type(e).__name__, msg='%s at %s: %s' % (type(e).__name__, where(e), str(e)[:300]),
                       tb=traceback.format_exc()[-3000:])
        else:
            res.update(status='error', msg=traceback.format_exc()[-3000:])
    if res['status'] == 'violation':
        ctx.log('violation', res['cls'])
    res.update(log=ctx.h.hexdigest()[:24], events=ctx.n_events, faults=ctx.faults, probes=ctx.probes, states=sorted(ctx.states)[:400],
               nstates=len(ctx.states), steps=ctx.steps, simtime=ctx.simtime)
    if res['status'] == 'violation':
        res['tail'] = ctx.tail
    if not task.get('want_scenario') and res['status'] == 'ok':
        res.pop('scenario', None)
    return res


def run_forked(prop, task, timeout):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setsid()
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            sys.setrecursionlimit(3000)
            with seams.quiet():
                res = execute(prop, task)
            data = json.dumps(res).encode()
            while data:
                n = os.write(w, data)
                data = data[n:]
        except BaseException:
            try:
                os.write(w, json.dumps({'i': task['i'], 'status': 'error', 'msg': traceback.format_exc()[-2000:]}).encode())
            except BaseException:
                pass
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = []
    end = time.monotonic() + timeout
    timed_out = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            timed_out = True
            break
        d = os.read(r, 1 << 16)
        if not d:
            break
        buf.append(d)
    os.close(r)
    if timed_out:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    _, st = os.waitpid(pid, 0)
    if timed_out:
        return {'i': task['i'], 'status': 'timeout', 'msg': 'no answer in %ss' % timeout}
    try:
        return json.loads(b''.join(buf).decode())
    except ValueError:
        return {'i': task['i'], 'status': 'crash', 'msg': 'run ended with wait status %d' % st}


def main(name):
    out = os.fdopen(os.dup(1), 'w')
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    prop = importlib.import_module('sim.props.' + name)
    if hasattr(prop, 'before_import'):
        prop.before_import()
    import warnings
    warnings.simplefilter('ignore')
    from . import build
    try:
        build.lib()
        import matplotlib.pyplot  # noqa - loaded once, before forking
    except BaseException as e:
        out.write(json.dumps({'fatal': 'import of the library failed: ' + repr(e), 'tb': traceback.format_exc()[-2000:]}) + '\n')
        out.flush()
        return 2
    f = build.lib().__file__
    if not f.startswith(SRC + os.sep):
        out.write(json.dumps({'fatal': 'imported %s instead of the working tree' % f}) + '\n')
        out.flush()
        return 2
    out.write(json.dumps({'ready': f}) + '\n')
    out.flush()
    for line in sys.stdin:
        line = line.strip()
        if not line:
            continue
        task = json.loads(line)
        res = run_forked(prop, task, task.get('timeout', 60))
        out.write(json.dumps(res) + '\n')
        out.flush()
    return 0
