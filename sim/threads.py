"""Deterministic scheduler for real threads: exactly one runs, the seeded scheduler decides at every library line, call
and return who continues.  Threads are parked on their own semaphore; nothing else blocks."""
import sys
import threading
import zlib

from .seams import MON, is_lib

TOOL = 3


class Scheduler:
    def __init__(self, rng, rate, max_switches=4000, focus=None):
        self.rng = rng
        self.rate = rate              # probability of a switch at a point
        self.max = max_switches
        self.focus = focus
        self.tasks = []
        self.current = None
        self.switches = 0
        self.points = 0
        self.sig = []
        self.ids = {}
        self.error = None
        self.kill = None              # (thread, n): interrupt that thread at its n-th point
        self.kill_at = 0
        self.killed = False

    def _point(self, code, line=0, what='l'):
        t = self.ids.get(threading.get_ident())
        if t is None or t is not self.current:
            return
        self.points += 1
        rate = self.rate
        if self.focus is not None:        # a few places of the code at which switches are likely, everywhere else they are rare
            m, r = self.focus
            rate = 0.6 if zlib.crc32(('%s:%d:%s' % (code.co_name, line - code.co_firstlineno, what)).encode()) % m == r else self.rate / 50
        if self.kill is not None and t.index == self.kill[0] and not self.killed:
            self.kill_at += 1
            if self.kill_at >= self.kill[1]:
                self.killed = True
                from .seams import Interrupt
                raise Interrupt()
        if self.switches >= self.max:
            return
        if self.rng.random() >= rate:
            return
        others = [x for x in self.tasks if not x.done and x is not t]
        if not others:
            return
        n = others[self.rng.randrange(len(others))]
        self.switches += 1
        if len(self.sig) < 200:
            self.sig.append((self.points, n.index))
        self._handoff(t, n)

    def give_way(self):
        """The running thread waits for a lock: someone else has to go on.  False when there is nobody."""
        t = self.ids.get(threading.get_ident())
        others = [x for x in self.tasks if not x.done and x is not t]
        if t is None or not others:
            return False
        self._handoff(t, others[self.rng.randrange(len(others))])
        return True

    def _handoff(self, me, other):
        self.current = other
        other.sem.release()
        me.sem.acquire()

    def _line(self, code, line):
        if not is_lib(code):
            return MON.DISABLE
        self._point(code, line)

    def _start(self, code, off):
        if not is_lib(code):
            return MON.DISABLE
        self._point(code, code.co_firstlineno, 's')

    def _ret(self, code, off, val):
        if not is_lib(code):
            return MON.DISABLE
        self._point(code, code.co_firstlineno, 'r')

    def run(self, functions):
        """Run all functions to completion; returns [(ok, value_or_exception)]."""
        class Task:
            pass
        global ACTIVE
        self.main = threading.Semaphore(0)
        ACTIVE = self
        for i, f in enumerate(functions):
            t = Task()
            t.index, t.f, t.sem, t.done, t.result = i, f, threading.Semaphore(0), False, None

            def body(t=t):
                self.ids[threading.get_ident()] = t
                t.sem.acquire()
                try:
                    t.result = (True, t.f())
                except BaseException as e:      # noqa - reported to the oracle
                    t.result = (False, e)
                t.done = True
                rest = [x for x in self.tasks if not x.done]
                if rest:
                    n = rest[self.rng.randrange(len(rest))]
                    self.current = n
                    n.sem.release()
                else:
                    self.current = None
                    self.main.release()
            t.thread = threading.Thread(target=body, daemon=True)
            self.tasks.append(t)
        MON.use_tool_id(TOOL, 'verif-threads')
        MON.restart_events()
        MON.register_callback(TOOL, MON.events.LINE, self._line)
        MON.register_callback(TOOL, MON.events.PY_START, self._start)
        MON.register_callback(TOOL, MON.events.PY_RETURN, self._ret)
        MON.set_events(TOOL, MON.events.LINE | MON.events.PY_START | MON.events.PY_RETURN)
        try:
            for t in self.tasks:
                t.thread.start()
            first = self.tasks[self.rng.randrange(len(self.tasks))]
            self.current = first
            first.sem.release()
            self.main.acquire()
        finally:
            ACTIVE = None
            MON.set_events(TOOL, 0)
            for e in (MON.events.LINE, MON.events.PY_START, MON.events.PY_RETURN):
                MON.register_callback(TOOL, e, None)
            MON.free_tool_id(TOOL)
        for t in self.tasks:
            t.thread.join(5)
        return [t.result for t in self.tasks]


# ------------------------------------------------------------------ locks made by the library
ACTIVE = None          # the scheduler that is running threads now


class SimLock:
    """A lock created by the library under test: waiting means handing the baton on, so the schedule stays deterministic."""
    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        tries = 0
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            tries += 1
            if ACTIVE is None or not ACTIVE.give_way() or tries > 20000 or timeout == 0:
                if timeout >= 0:
                    return False
                raise Deadlock('a lock of the library is never released')
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if self.owner is None or (self.reentrant and self.owner != threading.get_ident()):
            raise RuntimeError('release unlocked lock')
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class Deadlock(RuntimeError):
    pass


def own_locks():
    """Call before the library is imported: locks it creates become simulated ones, those of everything else stay real."""
    from .env import SRC
    real = threading.Lock, threading.RLock

    def maker(reentrant):
        def make():
            f = sys._getframe(1)
            if f.f_code.co_filename.startswith(SRC):
                return SimLock(reentrant)
            return real[1 if reentrant else 0]()
        return make
    threading.Lock, threading.RLock = maker(False), maker(True)
