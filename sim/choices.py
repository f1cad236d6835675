"""Choice sequences: the single source of every decision in a simulated run.

A run is a pure function of (code under test, choice sequence).  In search mode
the sequence is produced by one PRNG seeded from VERIF_SEED; in replay mode it
is read back from a file.  0 is always the simplest alternative, which is what
the minimiser drives every entry towards.
"""
import hashlib


class Prng(object):
    """xorshift64*, self-contained so that a seed means the same everywhere."""

    def __init__(self, *parts):
        h = hashlib.sha256(repr(parts).encode()).digest()
        self.s = int.from_bytes(h[:8], 'big') or 0x9E3779B97F4A7C15

    def bits(self):
        s = self.s
        s ^= s >> 12
        s ^= (s << 25) & 0xFFFFFFFFFFFFFFFF
        s ^= s >> 27
        self.s = s
        return (s * 0x2545F4914F6CDD1D) & 0xFFFFFFFFFFFFFFFF


class Choices(object):
    def __init__(self, prng=None, replay=None):
        self.prng = prng
        self.replay = replay
        self.i = 0
        self.log = []
        self.trace = []

    def int(self, n):
        """An integer in [0, n)."""
        if n <= 1:
            return 0
        if self.replay is not None:
            v = self.replay[self.i] if self.i < len(self.replay) else 0
            v = v % n
        else:
            v = (self.prng.bits() >> 11) % n
        self.i += 1
        self.log.append(v)
        return v

    def pick(self, seq):
        return seq[self.int(len(seq))]

    def flag(self, num, den=100):
        """True with probability num/den; False is the simple alternative."""
        if self.replay is not None:
            return self.int(den) >= den - num
        return self.int(den) >= den - num

    def range(self, lo, hi):
        """An integer in [lo, hi]; lo is the simple alternative."""
        return lo + self.int(hi - lo + 1)

    def weighted(self, pairs):
        """pairs: [(weight, value)]; the first one is the simple alternative."""
        total = sum(w for w, _ in pairs)
        v = self.int(total)
        for w, x in pairs:
            if v < w:
                return x
            v -= w
        return pairs[0][1]

    def subset(self, seq, num=50, den=100):
        return [x for x in seq if self.flag(num, den)]

    def note(self, msg):
        """Human readable trace of decisions; never influences anything."""
        self.trace.append(msg)


class Violation(Exception):
    def __init__(self, prop, kind, detail):
        Exception.__init__(self, '%s/%s: %s' % (prop, kind, detail))
        self.prop = prop
        self.kind = kind
        self.detail = detail


class Discard(Exception):
    """The run turned out not to test anything; not counted as an evaluation."""
