"""Assertions and helpers used by the checks."""
import numpy as np


def eq(a, b, what="arrays"):
    """Exact equality of shape and values (nan equal to nan)."""
    a = np.asarray(a); b = np.asarray(b)
    if a.shape != b.shape:
        raise AssertionError("%s: shape %r, expected %r" % (what, a.shape, b.shape))
    if a.dtype.names or b.dtype.names:
        ok = a.dtype.names == b.dtype.names and all(_same(a[n], b[n]) for n in b.dtype.names)
    else:
        ok = _same(a, b)
    if not ok:
        raise AssertionError("%s differ:\n got      %r\n expected %r" % (what, a, b))


def _same(a, b):
    if a.dtype.kind in "fc" and b.dtype.kind in "fc":
        return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b))))
    return bool(np.all(a == b))


def same_dtype(a, dt, what="array"):
    if np.dtype(a.dtype).newbyteorder("=") != np.dtype(dt).newbyteorder("="):
        raise AssertionError("%s has dtype %s, expected %s" % (what, a.dtype, dt))


def check(cond, msg):
    if not cond:
        raise AssertionError(msg)


def must_raise(exc, fn, *args, **kwargs):
    try:
        r = fn(*args, **kwargs)
    except exc as e:
        return e
    raise AssertionError("expected %s, but the call returned %r" % (exc, r))
