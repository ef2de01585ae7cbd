"""Canonical, comparable form of the content of weio objects; evaluation in a pristine process."""
import hashlib, os, pickle, sys
import numpy as np

IGNORED = ('filename', '_filename')


def canon(o, depth=0, seen=None):
    """ nested tuples; arrays are digested; objects are given by their class and attributes"""
    seen = seen or ()
    if depth > 12 or id(o) in seen:
        return ('...',)
    sub = lambda x: canon(x, depth + 1, seen + (id(o),))
    if o is None or isinstance(o, (bool, str, bytes)):
        return (type(o).__name__, o)
    if isinstance(o, (int, np.integer)):
        return ('num', float(o) if abs(int(o)) < 2 ** 53 else int(o))
    if isinstance(o, (float, np.floating)):
        return ('num', 'nan' if o != o else float(o) + 0.0)
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ('array', o.shape, tuple(sub(x) for x in o.ravel()))
        if o.dtype.kind in 'biuf':
            a = np.ascontiguousarray(o, dtype=float) + 0.0
            return ('array', o.shape, hashlib.sha1(np.where(np.isnan(a), -1.2345e300, a).tobytes()).hexdigest(), tuple(a.ravel()[:4].tolist()) if not np.isnan(a.ravel()[:4]).any() else ())
        return ('array', o.shape, str(o.dtype), hashlib.sha1(np.ascontiguousarray(o).tobytes()).hexdigest())
    t = type(o).__name__
    if t == 'DataFrame':
        return ('df', tuple(str(c) for c in o.columns), tuple(sub(np.asarray(o.iloc[:, i].values)) for i in range(o.shape[1])))
    if t in ('Series', 'Index', 'RangeIndex'):
        return ('series', sub(np.asarray(o)))
    if isinstance(o, dict):
        items = tuple((str(k), sub(v)) for k, v in sorted(o.items(), key=lambda kv: str(kv[0])))
        extra = attrs(o, sub)
        return ('dict', items, extra)
    if isinstance(o, (list, tuple)):
        return ('list', tuple(sub(x) for x in o))
    if isinstance(o, (set, frozenset)):
        return ('set', tuple(sorted(map(repr, o))))
    if callable(o):
        return ('fn',)
    if type(o).__module__.startswith('weio'):
        return ('obj', t, attrs(o, sub))
    return ('other', t)


def attrs(o, sub):
    d = getattr(o, '__dict__', None)
    if not d or not type(o).__module__.startswith('weio'):
        return ()
    return tuple((k, sub(v)) for k, v in sorted(d.items()) if k not in IGNORED and not k.startswith('_'))


def table(F):
    """ toDataFrame, or the error it raises"""
    try:
        r = F.toDataFrame()
    except Exception as e:
        return ('error', type(e).__name__)
    return canon(r)


def diff(a, b, path=''):
    """ first difference of two canonical forms, or None"""
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and len(a):
        if len(a) == 2 and isinstance(a[0], str) and a[0] == b[0]:
            return diff(a[1], b[1], path + '/' + a[0])
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, path + '[%d]' % i)
            if d:
                return d
    if isinstance(a, tuple) and isinstance(b, tuple) and all(isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) for x in a + b):
        ka, kb = [x[0] for x in a], [x[0] for x in b]
        return '%s: only in first %r, only in second %r' % (path, [k for k in ka if k not in kb][:5], [k for k in kb if k not in ka][:5])
    return '%s: %s != %s' % (path, repr(a)[:150], repr(b)[:150])


def pristine(fn):
    """ result of fn() evaluated in a forked process, so that it cannot depend on what this process did since"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                res = ('ok', fn())
            except BaseException as e:
                res = ('error', type(e).__name__, str(e)[:300])
            with os.fdopen(w, 'wb') as f:
                pickle.dump(res, f)
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError('no result from the reference process')
    return pickle.loads(data)
