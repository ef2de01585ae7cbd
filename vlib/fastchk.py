"""Comparison of a parsed OpenFAST input file with the model of vlib.fastin."""
import numpy as np
from .core import require, Violation
from . import fastin as fi, cmp


def same_value(got, exp):
    if isinstance(exp, list):
        return isinstance(got, list) and len(got) == len(exp) and all(same_value(a, b) for a, b in zip(got, exp))
    if isinstance(exp, bool) or isinstance(got, bool):
        return isinstance(exp, bool) and isinstance(got, bool) and got == exp
    if isinstance(exp, float) and exp != exp:
        return isinstance(got, float) and got != got
    if isinstance(exp, (int, float)):
        return type(got) in (int, float) and isinstance(got, type(exp)) and got == exp
    return type(got) == type(exp) and got == exp


def check_value(name, kind, got, exp, rtol=0.0):
    if kind == 'tab':
        check_table(name, got, exp, rtol)
    elif kind == 'files':
        cmp.list_eq(got, exp, 'files of %s' % name)
    elif kind == 'out':
        cmp.list_eq([str(x) for x in list(got)[1:]], exp, 'output list %s' % name)
    else:
        require(same_value(got, exp), 'entry %r: got %r (%s), expected %r (%s)', name, got, type(got).__name__, exp, type(exp).__name__)


def check_table(name, got, it, rtol=0.0):
    vals, num = fi.tab_expected(it)
    n, m = len(it['cells']), len(it['cols'])
    got = np.asarray(got)
    require(got.shape == (n, m), 'table %s: shape %s, expected %s', name, got.shape, (n, m))
    if num:
        cmp.arr_close(got, np.array(vals, dtype=float).reshape(n, m), rtol, 0, 'table %s' % name)
    else:
        for a, b in zip(got.tolist(), vals):
            cmp.list_eq([str(x) for x in a], b, 'row of table %s' % name)


def check_all(f, items, rtol=0.0, what=''):
    ents = fi.entries(items)
    names = [e[0] for e in ents]
    got = [k for k in f.keys() if k in names]
    cmp.list_eq(got, names, what + ' keys, in order')
    extra = [k for k in f.keys() if k not in names]
    ntitle = sum(1 for it in items if it['t'] == 'title')
    require(len(extra) <= ntitle, '%s keys not in the file: %r', what, extra)
    for name, kind, exp, it in ents:
        check_value(what + name, kind, f[name], exp, rtol if kind == 'tab' else 0.0)
