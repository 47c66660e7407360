"""Shared by the checks."""
import math
import numpy as N
from vt.pbt import Violation, Reject

KNOWN = {}


class Sub(object):
    """One generated sub-check of a property."""
    def __init__(self, name, fn, quick, thorough, rule):
        self.name, self.fn, self.quick, self.thorough, self.rule = name, fn, quick, thorough, rule

    def count(self, tier):
        return self.thorough if tier == 'thorough' else self.quick


def bad(msg, *args):
    raise Violation(msg % args if args else msg)


def array(x, shape, what):
    """x as a float array of exactly this shape (None: any extent), finite or not; else a violation."""
    try:
        a = N.array(x, dtype=float)
    except Exception:
        bad('%s is not a numeric array: %r', what, type(x))
    if a.ndim != len(shape) or any(s is not None and s != t for s, t in zip(shape, a.shape)):
        bad('%s has shape %s instead of %s', what, a.shape, shape)
    return a


def index_array(x, n, upper, what):
    """x as n integers in [0, upper)."""
    a = array(x, (n,), what)
    r = [int(round(v)) if v == v and abs(v) < 1e15 else -1 for v in a.tolist()]
    for v, i in zip(a.tolist(), r):
        if v != i or not 0 <= i < upper:
            bad('%s has the invalid index %r (of %d)', what, v, upper)
    return r


def close(a, b, tol, what):
    """Elementwise |a-b| <= tol, NaN never close."""
    a = N.asarray(a, dtype=float)
    b = N.asarray(b, dtype=float)
    if a.shape != b.shape:
        bad('%s: shape %s instead of %s', what, a.shape, b.shape)
    ok = (abs(a - b) <= tol) | (a == b)
    if not ok.all():
        i = tuple(x[0] for x in N.nonzero(~ok))
        bad('%s: got %r, expected %r (at %s, tolerance %.2g)', what, float(a[i]), float(b[i]), i,
            tol if N.isscalar(tol) else float(N.broadcast_to(tol, a.shape)[i]))
