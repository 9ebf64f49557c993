"""The one PRNG of a simulated run.  Every choice of a run is a pure function of (VERIF_SEED, property, run index)."""
import hashlib
import random


class Rng(random.Random):
    def __init__(self, *key):
        super().__init__(int.from_bytes(hashlib.sha256('/'.join(map(str, key)).encode()).digest()[:16], 'big'))

    def chance(self, p):
        return self.random() < p

    def pick(self, seq):
        return seq[self.randrange(len(seq))]

    def weighted(self, pairs):
        tot = sum(w for _, w in pairs)
        r = self.random() * tot
        for v, w in pairs:
            r -= w
            if r < 0:
                return v
        return pairs[-1][0]

    def seed32(self):
        return self.randrange(2**31)
