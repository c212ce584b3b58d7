"""The only source of randomness: one integer decides everything.

A run's seed is derived from (VERIF_SEED, property, run index). Independent
aspects of a run draw from independently named streams, so that shrinking or
extending one aspect does not shift every other decision.
"""

import hashlib
import random


def derive(*parts):
    data = u'/'.join(str(p) for p in parts).encode('utf-8')
    return int.from_bytes(hashlib.sha256(data).digest()[:8], 'big')


class Rng(random.Random):

    def __init__(self, *parts):
        self.root = derive(*parts)
        super(Rng, self).__init__(self.root)

    def stream(self, name):
        return Rng(self.root, name)

    def chance(self, p):
        return self.random() < p

    def pick(self, seq):
        return seq[self.randrange(len(seq))]

    def weighted(self, pairs):
        """`pairs` is a list of ``(weight, value)``."""
        total = sum(w for w, _ in pairs)
        x = self.random() * total
        for w, v in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][1]

    def size(self, *typical):
        """A length: mostly small, sometimes right at a boundary."""
        r = self.random()
        if r < 0.15:
            return 0
        if r < 0.6:
            return self.randrange(1, 24)
        if r < 0.85 or not typical:
            return self.randrange(1, 400)
        return max(0, self.pick(typical) + self.randrange(-3, 4))

    def bytes_(self, n):
        return bytes(self.getrandbits(8) for _ in range(n))
