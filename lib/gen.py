"""Structured generation from a byte string.

A generator is a function of D that returns plain data. D reads choices from
bytes; past the end every choice is 0, and 0 is always the simplest choice, so
shrinking the bytes shrinks the case. The bytes come from Hypothesis (checks)
or from a coverage-guided fuzzer (tools/fuzz.py).
"""


class D:
    __slots__ = ('data', 'pos')

    def __init__(self, data):
        self.data = data
        self.pos = 0

    def byte(self):
        p = self.pos
        self.pos = p + 1
        return self.data[p] if p < len(self.data) else 0

    def below(self, n):
        """0 <= result < n"""
        if n <= 1:
            return 0
        if n <= 256:
            return self.byte() % n
        v, m = 0, 1
        while m < n:
            v = v * 256 + self.byte()
            m *= 256
        return v % n

    def int(self, lo, hi):
        """lo is the simplest."""
        return lo + self.below(hi - lo + 1)

    def bool(self):
        return bool(self.byte() & 1)

    def chance(self, num, den):
        """True with probability num/den; False is simplest."""
        return self.below(den) >= den - num

    def pick(self, seq):
        return seq[self.below(len(seq))]

    def sample(self, seq, lo, hi):
        """lo..hi distinct positions of seq, in drawn order."""
        seq = list(seq)
        hi = min(hi, len(seq))
        n = self.int(min(lo, hi), hi)
        return [seq.pop(self.below(len(seq))) for _ in range(n)]

    def many(self, lo, hi, fn):
        return [fn() for _ in range(self.int(lo, hi))]

    def perm(self, seq):
        seq = list(seq)
        return [seq.pop(self.below(len(seq))) for _ in range(len(seq))]
