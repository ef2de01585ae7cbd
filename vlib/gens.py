"""Reusable generators.  Every case is plain JSON; arrays are described by small specs."""
import math
import numpy as np
from hypothesis import strategies as st

# ---------------------------------------------------------------- arrays by spec
KINDS = ['ramp', 'rand', 'const', 'zeros', 'sine', 'spike', 'alt', 'steps']


def build(shape, spec):
    """Deterministic float64 array for a spec {'kind','base','scale','seed'}; 'ramp' encodes the position."""
    shape = tuple(int(s) for s in shape)
    n = int(np.prod(shape)) if shape else 1
    k = spec['kind']
    i = np.arange(n, dtype=float)
    rs = np.random.RandomState(spec.get('seed', 0) % (2 ** 32))
    if k == 'ramp':
        p = i / max(1, n - 1) * 2 - 1
    elif k == 'rand':
        p = rs.uniform(-1, 1, n)
    elif k == 'const':
        p = np.ones(n)
    elif k == 'zeros':
        return np.zeros(shape)
    elif k == 'sine':
        p = np.sin(0.7 * i + spec.get('seed', 0))
    elif k == 'spike':
        p = np.zeros(n)
        if n:
            p[spec.get('seed', 0) % n] = 1.0
    elif k == 'alt':
        p = np.where(np.arange(n) % 2 == 0, 1.0, -1.0)
    elif k == 'steps':
        p = np.floor(rs.uniform(-5, 6, n))
    else:
        raise ValueError(k)
    return (spec.get('base', 0.0) + spec.get('scale', 1.0) * p).reshape(shape)


def specs(kinds=None, bases=None, scales=None):
    return st.fixed_dictionaries(dict(
        kind=st.sampled_from(kinds or KINDS),
        base=st.sampled_from(bases or [0.0, 0.0, 1.0, -3.5, 12.0, 1000.0, -20000.0, 0.001]),
        scale=st.sampled_from(scales or [1.0, 1.0, 0.1, 5.0, 250.0, 1e5, 1e-3, 2e-6]),
        seed=st.integers(0, 10 ** 6)))


# ---------------------------------------------------------------- numbers
def finite(lo=-1e6, hi=1e6, digits=None):
    """Finite floats in a range with a bias towards 'interesting' ones."""
    pts = [v for v in [0.0, 1.0, -1.0, 0.5, -0.25, 1e-3, -1e-5, 123456.789, 1e-8, 3.0, -7.0, 9.999999, 99999.5, 1e5]
           if lo <= v <= hi]
    s = st.one_of(st.floats(lo, hi, allow_nan=False, allow_infinity=False, allow_subnormal=False),
                  st.sampled_from(pts), st.integers(int(math.ceil(lo)), int(math.floor(hi))).map(float))
    if digits is not None:
        s = s.map(lambda x: round(x, digits))
    return s.map(lambda x: 0.0 if x == 0 else x)


def sig(x, n):
    """x rounded to n significant digits."""
    return float('%.*e' % (n - 1, x))


LET = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
DIG = '0123456789'


def ident(min_size=1, max_size=10, extra='_', first=LET):
    return st.builds(lambda a, b: a + b, st.sampled_from(first),
                     st.text(alphabet=LET + DIG + extra, min_size=max(0, min_size - 1), max_size=max_size - 1))


def unique_idents(n_min, n_max, max_size=10, extra='_', reserved=(), casefold=True, min_size=1):
    res = set(r.lower() for r in reserved)
    return st.lists(ident(min_size, max_size, extra).filter(lambda s: s.lower() not in res), min_size=n_min,
                    max_size=n_max, unique_by=(lambda s: s.lower()) if casefold else (lambda s: s))


WORDS = ['wind', 'speed', 'rotor', 'of', 'the', 'blade', 'tower', 'flag', 'file', 'output', 'number', 'degree',
         'switch', 'table', 'value', 'test', 'NREL', '5.0', 'baseline', 'onshore', 'v1.2', 'and', 'with']


def phrase(max_words=6, min_words=0, words=WORDS):
    return st.lists(st.sampled_from(words), min_size=min_words, max_size=max_words).map(' '.join)


UNITS = ['s', 'm', 'm/s', 'kN', 'kN-m', 'deg', 'rpm', '-', 'deg/s^2', 'kW', 'rad/s', 'Nm', 'N', 'm/s^2', '%', 'Hz', 'W', 'Pa']
