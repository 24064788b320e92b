"""Every decision of a run goes through one Chooser.

A run is a pure function of (scenario, decisions).  With a seed the decisions
come from a PRNG and are recorded; in replay they come from the recorded list,
and 0 (the default choice) once the list is exhausted.
"""
import random


class Chooser:
    def __init__(self, seed=None, decisions=None):
        self.rng = random.Random(seed) if decisions is None else None
        self.script = decisions
        self.pos = 0
        self.rec = []

    def _next(self):
        if self.pos < len(self.script):
            v = self.script[self.pos]
            self.pos += 1
            return v
        return 0

    def pick(self, n):
        """An int in [0, n)."""
        if n <= 1:
            return 0
        v = self.rng.randrange(n) if self.rng is not None else self._next() % n
        self.rec.append(v)
        return v

    def flip(self, p):
        if p <= 0:
            return False
        if p >= 1:
            return True
        if self.rng is not None:
            v = 1 if self.rng.random() < p else 0
        else:
            v = self._next() & 1
        self.rec.append(v)
        return bool(v)

    def choose(self, weights):
        """Index by weight; the recorded decision is the index itself."""
        n = len(weights)
        if n <= 1:
            return 0
        if self.rng is not None:
            tot = sum(weights)
            x = self.rng.random() * tot
            v = n - 1
            for i, w in enumerate(weights):
                x -= w
                if x < 0:
                    v = i
                    break
        else:
            v = self._next() % n
        self.rec.append(v)
        return v
