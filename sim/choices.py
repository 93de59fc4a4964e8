"""Choice sequence: the single source of every decision in a simulated run.

A run is a pure function of (scenario code, code under test, list of integers).  While searching, the
integers come from one PRNG seeded by (VERIF_SEED, property, run index); while replaying or shrinking they
come from an explicit list, and every draw past its end yields 0, the least adventurous value (no
preemption, no fault, smallest workload).
"""
import random


class Choices(object):

    def __init__(self, seed=None, values=None, limit=2000000):
        self.values = values
        self.rng = random.Random(seed) if values is None else None
        self.record = []
        self.limit = limit

    def draw(self, n):
        """An integer in [0, n)."""
        if n <= 1:
            return 0
        if self.values is None:
            v = self.rng.randrange(n)
        else:
            i = len(self.record)
            v = self.values[i] % n if i < len(self.values) else 0
        self.record.append(v)
        return v

    def coin(self, p):
        """True with probability p; the zero draw is False."""
        if p <= 0:
            return False
        if p >= 1:
            return True
        return self.draw(10000) >= 10000 - int(p * 10000 + 0.5)

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def between(self, lo, hi):
        """Inclusive."""
        return lo + self.draw(hi - lo + 1)

    def sample(self, seq, k):
        seq = list(seq)
        out = []
        for _ in range(min(k, len(seq))):
            out.append(seq.pop(self.draw(len(seq))))
        return out
