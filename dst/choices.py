"""
The only source of decisions in a simulated run.

Every decision - schedule, delay, fault, generated operation, generated value -
is one call of draw(n).  A seeded generator answers it and the answer is
recorded; a replay answers it from a recorded list instead (0 once the list is
used up).  0 is always the simplest answer (no fault, no delay, shortest value),
so that deleting and zeroing answers minimises a failing run.
"""
import random


class Choices(object):
    LIMIT = 400000

    def __init__(self, seed=None, replay=None):
        self.rng = random.Random(seed) if replay is None else None
        self.replay = replay
        self.log = []

    def draw(self, n):
        if n <= 1:
            return 0
        if self.rng is not None:
            v = int(self.rng.random() * n)
        else:
            i = len(self.log)
            v = self.replay[i] if i < len(self.replay) else 0
            if v >= n:
                v = n - 1
        if len(self.log) >= self.LIMIT:
            raise TooManyChoices()
        self.log.append(v)
        return v

    # -- derived forms; all map 0 to the simplest value

    def chance(self, p):
        """True with probability p (a fault, an unusual path)."""
        if p <= 0:
            return False
        return self.draw(1000) >= 1000 - int(p * 1000)

    def int(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def size(self, hi):
        """0..hi, small values much more likely."""
        k = self.draw(4)
        if k == 0:
            return self.draw(min(hi, 3) + 1)
        if k == 1:
            return self.draw(min(hi, 10) + 1)
        if k == 2:
            return self.draw(min(hi, 100) + 1)
        return self.draw(hi + 1)

    def weighted(self, pairs):
        """pairs: [(weight, value)]; the first is the simplest."""
        total = sum(w for w, _ in pairs)
        x = self.draw(total)
        for w, v in pairs:
            if x < w:
                return v
            x -= w

    def shuffle(self, seq):
        seq = list(seq)
        out = []
        while seq:
            out.append(seq.pop(self.draw(len(seq))))
        return out

    def subset(self, seq, p=0.5):
        return [x for x in seq if self.chance(p)]


class TooManyChoices(BaseException):
    pass
