"""Simulation kernel: one integer decides a run.  PRNG, event log, violations, per-run context."""
import hashlib
import random as _random


class Violation(Exception):
    """The code under test broke the property."""
    def __init__(self, cls, msg):
        Exception.__init__(self, cls, msg)
        self.cls = cls
        self.msg = msg


class Trivial(Exception):
    """The scenario turned out to test nothing (counted, not an error)."""


class Rng(_random.Random):
    """Private PRNG; never shared with the library's own `random` module state."""
    def pick(self, seq):
        return seq[self.randrange(len(seq))]

    def chance(self, p):
        return self.random() < p

    def wpick(self, pairs):
        tot = sum(w for _, w in pairs)
        x = self.random() * tot
        for v, w in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][0]

    def angle(self):
        r = self.random()
        if r < 0.35:
            return self.pick([0.0, 0.25, 0.5, 0.75, 1.0, -0.5, 0.125]) * 3.141592653589793
        return round(self.uniform(-3.2, 3.2), 4)


def seed_of(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], 'big')


class Ctx:
    """What one simulated run records.  Logging never draws random numbers or reads a clock."""
    def __init__(self):
        self.h = hashlib.sha256()
        self.n_events = 0
        self.tail = []
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.steps = 0          # interpreter line steps of library code executed under the simulator (where counted)
        self.simtime = 0.0      # simulated physical time (accumulated photon delays), where the property has any

    def log(self, *ev):
        s = repr(ev)
        self.h.update(s.encode())
        self.n_events += 1
        self.tail.append(s[:200])
        if len(self.tail) > 40:
            del self.tail[0]

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.log('fault', kind)

    def probe(self, kind, n=1):
        self.probes[kind] = self.probes.get(kind, 0) + n

    def state(self, *parts):
        self.states.add(hashlib.sha256(repr(parts).encode()).hexdigest()[:12])
