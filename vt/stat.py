"""Distribution tests whose false-alarm probability is bounded for every sample size (Dvoretzky-Kiefer-Wolfowitz)."""
import math
import numpy as N
from vt.common import bad

P = 1e-11         # of a single test


def uniform(u, what, p=P):
    """u is a sample of independent uniform numbers in [0, 1]."""
    u = N.sort(N.asarray(u, dtype=float).reshape(-1))
    n = len(u)
    if n == 0:
        return
    if not (u >= -1e-9).all() or not (u <= 1 + 1e-9).all():
        bad('%s: outside its range', what)
    i = N.arange(1, n + 1) / float(n)
    D = max((i - u).max(), (u - i + 1. / n).max())
    eps = math.sqrt(math.log(2. / p) / (2. * n))
    if not D <= eps:
        bad('%s: %d values deviate from the uniform distribution by %.4f (probability below %.1g)', what, n, D, p)
    # no part of the range is left out: P(a given end part x is empty) <= exp(-n x), P(any gap of x) <= (n + 1) exp(-n x)
    if n >= 100:
        ends = math.log(2. / p) / n
        if not u[0] <= ends or not u[-1] >= 1 - ends:
            bad('%s: %d values, none of them outside %.5f to %.5f (probability below %.1g)', what, n, u[0], u[-1], p)
        gap = float((u[1:] - u[:-1]).max())
        if not gap <= math.log((n + 1.) / p) / n:
            bad('%s: %d values leave a gap of %.5f (probability below %.1g)', what, n, gap, p)


def turn(a):
    """Angles as fractions of a turn."""
    return (N.asarray(a) / (2 * math.pi)) % 1.


def independent(u, v, what):
    """Two aligned samples of uniform numbers are independent: their sum and difference modulo 1 are uniform too."""
    uniform((u + v) % 1., what + ' (sum)')
    uniform((u - v) % 1., what + ' (difference)')


def serial(u, what):
    """Successive numbers are independent (alternate pairs, so that the pairs are)."""
    n = len(u) // 2 * 2
    if n:
        independent(u[0:n:2], u[1:n:2], what + ', neighbours')
        h = n // 2
        independent(u[:h], u[h:2 * h], what + ', halves')


def distinct(v, what):
    """Columns of v are all different."""
    n = v.shape[1]
    w = v[:, N.lexsort(v)]
    if n > 1 and (abs(w[:, 1:] - w[:, :-1]).max(axis=0) == 0).any():
        bad('%s: two rays have exactly the same one', what)
