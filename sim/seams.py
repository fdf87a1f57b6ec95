"""Seams: every nondeterministic or fault-prone thing the library touches, owned by the simulator.

  randomness      random.* module functions and numpy's global generator   -> seeded or adversarial streams
  display/output  matplotlib.pyplot.show/subplots/figure, sys.stdout        -> stubs that can fail
  allocation      numpy constructors, copy.deepcopy/copy                    -> MemoryError at the n-th call
  interrupts      executed source lines of the library (sys.monitoring)     -> KeyboardInterrupt/MemoryError at the n-th line
  threads         same line events plus calls                               -> deterministic baton passing (see threads.py)
"""
import contextlib
import copy as _copy
import os
import random
import sys

import numpy as np

from .env import SRC

MON = sys.monitoring
TOOL = 4
_lib_code = {}


def is_lib(code):
    r = _lib_code.get(code)
    if r is None:
        fn = code.co_filename
        r = fn.startswith(SRC + os.sep)
        _lib_code[code] = r
    return r


class Interrupt(KeyboardInterrupt):
    pass


class LineBudget(BaseException):
    """Raised when an operation runs for more library lines than the budget (stuck)."""


class StepCounter:
    """Counts executed library source lines; optionally raises an exception at one of them or calls a function at each."""
    def __init__(self, at=None, exc=None, budget=None, hook=None):
        self.n = 0
        self.at = at
        self.exc = exc
        self.budget = budget
        self.hook = hook
        self.fired = False
        self.where = None

    def _line(self, code, lineno):
        if not is_lib(code):
            return MON.DISABLE
        self.n += 1
        if self.at is not None and self.n == self.at:
            self.fired = True
            self.where = '%s:%s' % (os.path.basename(code.co_filename), code.co_name)
            raise self.exc
        if self.budget is not None and self.n > self.budget:
            raise LineBudget('more than %d library lines' % self.budget)
        if self.hook is not None:
            self.hook()

    def __enter__(self):
        MON.use_tool_id(TOOL, 'verif-sim')
        MON.restart_events()
        MON.register_callback(TOOL, MON.events.LINE, self._line)
        MON.set_events(TOOL, MON.events.LINE)
        return self

    def __exit__(self, *a):
        MON.set_events(TOOL, 0)
        MON.register_callback(TOOL, MON.events.LINE, None)
        MON.free_tool_id(TOOL)
        return False


# ------------------------------------------------------------------ allocation failures
_ALLOC = [(np, n) for n in ('zeros', 'array', 'identity', 'kron', 'matmul', 'outer', 'ones', 'empty', 'dot', 'eye', 'full')] + \
         [(_copy, n) for n in ('deepcopy', 'copy')]


class AllocFaults:
    """Counts numpy/copy allocations made while active; the n-th raises MemoryError."""
    def __init__(self, at=None):
        self.at = at
        self.n = 0
        self.fired = False

    def _wrap(self, fn):
        def wrapper(*a, **k):
            f = sys._getframe(1)
            if is_lib(f.f_code):
                self.n += 1
                if self.at is not None and self.n == self.at:
                    self.fired = True
                    raise MemoryError('simulated allocation failure')
            return fn(*a, **k)
        return wrapper

    def __enter__(self):
        self.saved = [(m, n, getattr(m, n)) for m, n in _ALLOC]
        for m, n, f in self.saved:
            setattr(m, n, self._wrap(f))
        return self

    def __exit__(self, *a):
        for m, n, f in self.saved:
            setattr(m, n, f)
        return False


# ------------------------------------------------------------------ randomness
class Stream:
    """Source of the random numbers the library sees.  kinds:
       seeded            ordinary pseudo random numbers
       constant:k        always picks element k (mod n) for the first `hold` draws, then seeded
       cycle:k           repeats a k-long pattern for the first `hold` draws, then seeded
       replay            restarts the same stream at every `period` draws for `hold` draws
       high              always the last element for the first `hold` draws"""
    def __init__(self, kind, seed, hold=200):
        self.kind = kind.split(':')
        self.r = random.Random(seed)
        self.base = random.Random(seed)
        self.hold = hold
        self.n = 0
        self.pattern = [random.Random(seed + 1).random() for _ in range(max(1, int(self.kind[1]) if len(self.kind) > 1 else 1))]

    def unit(self):
        self.n += 1
        k = self.kind[0]
        if self.n <= self.hold:
            if k == 'constant':
                return (int(self.kind[1]) % 36) / 36.0 + 0.001
            if k == 'cycle':
                return self.pattern[self.n % len(self.pattern)]
            if k == 'high':
                return 1 - 1e-9
            if k == 'replay':
                per = len(self.pattern)
                return random.Random(self.n % (per + 1)).random()
        return self.r.random()

    def below(self, n):
        return min(n - 1, int(self.unit() * n))


_RANDOM_NAMES = ('random', 'uniform', 'randint', 'randrange', 'choice', 'choices', 'shuffle', 'sample', 'getrandbits', 'randbytes')


def _random_functions(s):
    def randrange(start, stop=None, step=1):
        r = range(start) if stop is None else range(start, stop, step)
        return r[s.below(len(r))]

    def choice(seq):
        return seq[s.below(len(seq))]

    def choices(pop, weights=None, *, cum_weights=None, k=1):
        return [pop[s.below(len(pop))] for _ in range(k)]

    def shuffle(x):
        for i in reversed(range(1, len(x))):
            j = s.below(i + 1)
            x[i], x[j] = x[j], x[i]

    def sample(pop, k, **kw):
        pool = list(pop)
        out = []
        for _ in range(k):
            out.append(pool.pop(s.below(len(pool))))
        return out
    return {'random': s.unit, 'uniform': lambda a, b: a + (b - a) * s.unit(), 'randint': lambda a, b: a + s.below(b - a + 1),
            'randrange': randrange, 'choice': choice, 'choices': choices, 'shuffle': shuffle, 'sample': sample,
            'getrandbits': lambda k: s.below(1 << k), 'randbytes': lambda n: bytes(s.below(256) for _ in range(n))}


_orig_random = {n: getattr(random, n) for n in _RANDOM_NAMES}


def set_random(kind='seeded', seed=0, hold=200):
    """Own the randomness from here on (the run is in its own process)."""
    s = Stream(kind, seed, hold)
    for n, f in _random_functions(s).items():
        setattr(random, n, f)
    np.random.seed(seed % (2 ** 32))
    import uuid
    if hasattr(uuid, 'uuid4'):
        uuid.uuid4 = lambda: uuid.UUID(int=s.below(1 << 128))
    return s


# ------------------------------------------------------------------ display and output
class DisplayFailure(Exception):
    pass


def plain(x):
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return [plain(v) for v in x.ravel().tolist()]
    if isinstance(x, (bool, str)) or x is None:
        return x
    if isinstance(x, (int, float, np.number)):
        return round(float(x), 6)
    return type(x).__name__


class Display:
    """Replaces the screen: drawing calls really run on the Agg backend, showing is a stub; the n-th display call can fail."""
    def __init__(self, fail_at=None, exc=None):
        self.n = 0
        self.fail_at = fail_at
        self.exc = exc or DisplayFailure('simulated display failure')
        self.fired = False
        self.calls = []              # what was drawn

    def _tick(self, name='', a=(), k=None):
        self.n += 1
        if self.fail_at is not None and self.n == self.fail_at:
            self.fired = True
            raise self.exc
        self.calls.append([name] + plain(list(a)) + plain(sorted((k or {}).items())))

    def __enter__(self):
        import matplotlib.pyplot as plt
        from matplotlib.axes import Axes
        self.plt, self.Axes = plt, Axes
        self.saved = (plt.show, plt.subplots, plt.figure, Axes.plot, Axes.bar, Axes.text, Axes.legend)
        d = self

        def show(*a, **k):
            d._tick('show')

        def wrap(f, name, skip=0):
            def g(*a, **k):
                d._tick(name, a[skip:], k)
                return f(*a, **k)
            return g
        plt.show = show
        plt.subplots = wrap(self.saved[1], 'subplots')
        plt.figure = wrap(self.saved[2], 'figure')
        Axes.plot, Axes.bar, Axes.text, Axes.legend = [wrap(f, n, 1) for f, n in zip(self.saved[3:], ('plot', 'bar', 'text', 'legend'))]
        return self

    def __exit__(self, *a):
        self.plt.show, self.plt.subplots, self.plt.figure = self.saved[:3]
        self.Axes.plot, self.Axes.bar, self.Axes.text, self.Axes.legend = self.saved[3:]
        self.plt.close('all')
        return False


class Stdout:
    """Replaces standard output; the n-th write can fail like a full disk or closed pipe."""
    def __init__(self, fail_at=None):
        self.fail_at = fail_at
        self.n = 0
        self.fired = False
        self.text = []

    def write(self, s):
        self.n += 1
        if self.fail_at is not None and self.n == self.fail_at:
            self.fired = True
            raise OSError(28, 'No space left on device (simulated)')
        self.text.append(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    encoding = 'utf-8'

    def __enter__(self):
        self.saved = sys.stdout
        sys.stdout = self
        return self

    def __exit__(self, *a):
        sys.stdout = self.saved
        return False


@contextlib.contextmanager
def quiet():
    with Stdout():
        yield
