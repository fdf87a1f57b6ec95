#!/usr/bin/env python3
"""Deterministic simulation of FockStateCircuit: see DESIGN.md.

  run.py check PROP [--tier quick|thorough] [--count N] [--workers W]
  run.py replay FILE
  run.py setup                      (checks the tool chain; nothing to build: the library is pure Python)
  run.py selftest [--n N] [PROP ...]
"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main(argv):
    if not argv:
        print(__doc__)
        return 2
    if argv[0] == 'worker':
        from sim import worker
        return worker.main(argv[1])
    from sim import env
    if os.path.exists(env.PY) and sys.prefix != os.path.dirname(os.path.dirname(env.PY)) and not os.environ.get('VERIF_REEXEC'):
        os.environ['VERIF_REEXEC'] = '1'
        os.execv(env.PY, [env.PY, '-B', os.path.abspath(__file__)] + argv)
    from sim import runner
    opts, rest = {}, []
    it = iter(argv[1:])
    for a in it:
        if a.startswith('--'):
            opts[a[2:]] = next(it)
        else:
            rest.append(a)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if argv[0] == 'check':
        tier = opts.get('tier') or os.environ.get('VERIF_TIER', 'quick')
        return runner.check(rest[0], tier, seed, workers=int(opts['workers']) if 'workers' in opts else None,
                            count=int(opts['count']) if 'count' in opts else None)
    if argv[0] == 'setup':
        return runner.setup()
    if argv[0] == 'replay':
        return runner.replay(rest[0])
    if argv[0] == 'selftest':
        props = rest or sorted(f[:-3] for f in os.listdir(os.path.join(env.VERIF, 'sim', 'props')) if f.startswith('H') and f.endswith('.py'))
        return runner.selftest(props, int(opts.get('n', '60')), seed)
    print(__doc__)
    return 2


if __name__ == '__main__':
    try:
        code = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
