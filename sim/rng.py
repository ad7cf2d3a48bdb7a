"""Label-hash randomness: every environment decision is a pure function of (seed, label).

Nothing here is consumed in draw order, so removing one step or fault from a scenario
leaves every other decision as it was (which is what lets minimisation converge)."""
import hashlib


def h64(*parts):
    h = hashlib.blake2b(digest_size=8)
    for p in parts:
        h.update(repr(p).encode())
        h.update(b"\x1f")
    return int.from_bytes(h.digest(), "big")


def unit(*parts):
    return h64(*parts) / 2.0 ** 64


def below(n, *parts):
    return h64(*parts) % n


def pick(seq, *parts):
    return seq[h64(*parts) % len(seq)]


def chance(p, *parts):
    return unit(*parts) < p


class Stream:
    """Deterministic generator used by the scenario generator (draw order is fine there)."""

    def __init__(self, *label):
        self.label = label
        self.n = 0

    def u(self):
        self.n += 1
        return unit(self.label, self.n)

    def below(self, n):
        self.n += 1
        return below(n, self.label, self.n)

    def range(self, a, b):
        """integer in [a, b]"""
        return a + self.below(b - a + 1)

    def pick(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, pairs):
        tot = sum(w for _, w in pairs)
        x = self.u() * tot
        for v, w in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][0]

    def chance(self, p):
        return self.u() < p

    def sample(self, seq, k):
        seq = list(seq)
        out = []
        for _ in range(min(k, len(seq))):
            out.append(seq.pop(self.below(len(seq))))
        return out

    def shuffle(self, seq):
        return self.sample(seq, len(seq))


class Entropy:
    """Simulated OS entropy: an unpredictable-looking, repeatable byte stream with accounting."""

    def __init__(self, *label):
        self.label = label
        self.n = 0
        self.drawn = 0

    def __call__(self, size):
        out = b""
        while len(out) < size:
            self.n += 1
            h = hashlib.blake2b(repr((self.label, self.n)).encode(), digest_size=64)
            out += h.digest()
        self.drawn += size
        return out[:size]
