"""A small property-based testing engine (same idea as minithesis): a case is a function of a recorded sequence
of bounded integer choices. Pure standard library, because it runs where the code under test runs (PyPy 3.9)."""
import hashlib
import math
import random
import time


class Violation(Exception):
    """The property does not hold on this case."""


class Reject(Exception):
    """The generated case is outside the property's domain (counted, not judged)."""


class Overrun(Exception):
    """A replayed/shrunk choice sequence is not valid for this case."""


class Draw(object):
    """Hands out choices; records them. With `prefix` it replays, with `rng` it generates."""

    def __init__(self, rng=None, prefix=None, verbose=False):
        self.rng = rng
        self.prefix = prefix
        self.choices = []
        self.pos = 0
        self.events = {}
        self.notes = []
        self.is_nontrivial = False
        self.verbose = verbose

    # -- primitive
    def raw(self, n, gen=None):
        """An integer in 0..n. `gen` draws it from the rng if not uniform."""
        if self.prefix is not None:
            if self.pos >= len(self.prefix):
                v = 0
            else:
                v = self.prefix[self.pos]
            if v > n:
                v = n
        else:
            v = gen(self.rng) if gen is not None else (self.rng.getrandbits(32) * (n + 1) >> 32 if n < 0xffffffff
                                                       else self.rng.randint(0, n))
        self.pos += 1
        self.choices.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.raw(hi - lo)

    def bool(self, p=0.5):
        """True with probability p; shrinks to False."""
        return bool(self.raw(1, lambda r: 1 if r.random() < p else 0))

    def choice(self, seq):
        return seq[self.raw(len(seq) - 1)]

    def weighted(self, pairs):
        """pairs: (weight, value); shrinks to the first."""
        total = float(sum(w for w, _ in pairs))

        def gen(r):
            x = r.random() * total
            for i, (w, _) in enumerate(pairs):
                x -= w
                if x < 0:
                    return i
            return len(pairs) - 1
        return pairs[self.raw(len(pairs) - 1, gen)][1]

    def more(self, count, avg, lo=0, hi=10 ** 9):
        """For `n = 0; while d.more(n, ...): n += 1` loops, so that blocks can be deleted when shrinking."""
        if count < lo:
            # a forced continuation still takes a choice, so that blocks have the same shape
            self.raw(0)
            return True
        if count >= hi:
            return False
        p = 1. - 1. / (1. + max(avg - lo, 0.01))
        return bool(self.raw(1, lambda r: 1 if r.random() < p else 0))

    # -- numbers
    GRID = 1 << 30

    def unif(self, lo, hi):
        """Uniform float; choice 0 is the simplest value of the range."""
        k = self.raw(self.GRID)
        if k == 0:
            if lo <= 0. <= hi:
                return 0.
            return float(lo) if lo > 0 else float(hi)
        return lo + (hi - lo) * ((k - 1) / (self.GRID - 1.))

    def real(self, lo, hi, nice=0.2):
        """Float in [lo, hi], sometimes a round one."""
        if not self.bool(1. - nice):
            c = [x for x in (0., 1., -1., .5, -.5, 2., -2., 3., lo, hi) if lo <= x <= hi]
            return float(self.choice(c))
        return self.unif(lo, hi)

    def pos_real(self, lo, hi, nice=0.2):
        """Positive float, log-uniform."""
        if not self.bool(1. - nice):
            c = [x for x in (1., 2., .5, 3., 5., 10., .1, lo, hi) if lo <= x <= hi]
            return float(self.choice(c))
        k = self.raw(self.GRID) / float(self.GRID)
        base = 1. if lo <= 1. <= hi else lo
        if k == 0:
            return base
        return math.exp(math.log(lo) + (math.log(hi) - math.log(lo)) * k)

    def seed(self):
        return self.raw((1 << 31) - 1)

    # -- reporting
    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def note(self, name, value):
        self.notes.append((name, value))

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True


def case_rng(seed, check, sub, index):
    h = hashlib.sha256(('%s|%s|%s|%s' % (seed, check, sub, index)).encode()).digest()
    return random.Random(int.from_bytes(h[:16], 'big'))


def short_hash(choices):
    return hashlib.blake2b(repr(choices).encode(), digest_size=8).digest()


def shrink(run, choices, max_runs=600, max_s=60., log=None):
    """run(choices) -> canonical choices actually used if it still fails, else None."""
    t_end = time.time() + max_s
    state = {'n': 0}
    best = list(choices)

    def attempt(cand):
        if state['n'] >= max_runs or time.time() > t_end:
            return None
        if cand == best:
            return None
        state['n'] += 1
        return run(cand)

    def better(a, b):
        return (len(a), a) < (len(b), b)

    improved = True
    while improved and state['n'] < max_runs and time.time() < t_end:
        improved = False
        # delete blocks
        k = max(1, len(best) // 2)
        while k >= 1:
            i = len(best) - k
            while i >= 0:
                cand = best[:i] + best[i + k:]
                r = attempt(cand)
                if r is not None and better(r, best):
                    best = r
                    improved = True
                    i = min(i, len(best)) - k
                else:
                    # removing elements often needs the continue-marker or length lowered as well
                    if i > 0 and best[i - 1] > 0 and k <= 16:
                        cand = best[:i - 1] + [best[i - 1] - 1] + best[i + k:]
                        r = attempt(cand)
                        if r is not None and better(r, best):
                            best = r
                            improved = True
                    i -= max(1, k // 2) if k > 8 else 1
                if state['n'] >= max_runs or time.time() > t_end:
                    break
            if state['n'] >= max_runs or time.time() > t_end:
                break
            k = k // 2 if k > 8 else k - 1
        # zero blocks, then single values
        k = max(1, len(best) // 4)
        while k >= 1:
            i = 0
            while i < len(best):
                if any(best[i:i + k]):
                    r = attempt(best[:i] + [0] * len(best[i:i + k]) + best[i + k:])
                    if r is not None and better(r, best):
                        best = r
                        improved = True
                i += k
            k //= 2
        i = 0
        while i < len(best):
            v = best[i]
            if v > 1:
                for c in (1, v // 2, v - (v & 0xfffff), v - (v & 0xff), v - 1):
                    if 0 < c < v:
                        r = attempt(best[:i] + [c] + best[i + 1:])
                        if r is not None and better(r, best):
                            best = r
                            improved = True
                            break
            i += 1
    return best, state['n']
