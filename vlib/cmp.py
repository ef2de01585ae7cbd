"""Comparison helpers that raise Violation with a readable message."""
import math
import numpy as np
from .core import Violation, require


def arr_close(got, exp, rtol=0.0, atol=0.0, what='array'):
    got = np.asarray(got)
    exp = np.asarray(exp)
    require(got.shape == exp.shape, '%s: shape %s, expected %s', what, got.shape, exp.shape)
    try:
        g = got.astype(float)
    except (TypeError, ValueError):
        raise Violation('%s: non numeric content %r' % (what, got.ravel()[:5]))
    e = exp.astype(float)
    ok = np.isclose(g, e, rtol=0, atol=0, equal_nan=True)
    with np.errstate(invalid='ignore'):
        ok |= np.abs(g - e) <= (np.asarray(atol) + np.asarray(rtol) * np.abs(e))
    if not ok.all():
        i = tuple(np.argwhere(~ok)[0])
        raise Violation('%s: at %s got %r, expected %r (%d of %d differ)' % (what, tuple(int(x) for x in i), float(g[i]), float(e[i]), (~ok).sum(), ok.size))


def arr_eq(got, exp, what='array'):
    arr_close(got, exp, 0, 0, what)


def list_eq(got, exp, what='list'):
    got, exp = list(got), list(exp)
    if got != exp:
        for i in range(max(len(got), len(exp))):
            g = got[i] if i < len(got) else '<missing>'
            e = exp[i] if i < len(exp) else '<missing>'
            if g != e:
                raise Violation('%s: length %d/%d, first difference at %d: got %r, expected %r' % (what, len(got), len(exp), i, g, e))
        raise Violation('%s: %r != %r' % (what, got, exp))


def eq(got, exp, what='value'):
    if isinstance(exp, float) and math.isnan(exp):
        require(isinstance(got, float) and math.isnan(got), '%s: got %r, expected nan', what, got)
        return
    require(got == exp, '%s: got %r, expected %r', what, got, exp)


def df_close(got, exp, rtol=0.0, atol=0.0, what='dataframe', names=True):
    if names:
        list_eq([str(c) for c in got.columns], [str(c) for c in exp.columns], what + ' columns')
    require(len(got) == len(exp), '%s: %d rows, expected %d', what, len(got), len(exp))
    for j in range(exp.shape[1]):
        g, e = got.iloc[:, j], exp.iloc[:, j]
        if np.issubdtype(np.asarray(e).dtype, np.number):
            arr_close(g.values, e.values, rtol, atol, '%s column %r' % (what, exp.columns[j]))
        else:
            list_eq(list(g.values), list(e.values), '%s column %r' % (what, exp.columns[j]))


def df_same(a, b, what='dataframe'):
    """Exact equality of two tables (values, names), NaN equal."""
    df_close(a, b, 0, 0, what)


def raises(exc, fn, what):
    """fn() must raise one of exc (a tuple); returns the exception."""
    try:
        fn()
    except exc as e:
        return e
    except Exception as e:
        raise Violation('%s: raised %s(%s) instead of %s' % (what, type(e).__name__, str(e)[:200], exc))
    raise Violation('%s: no error raised' % what)
