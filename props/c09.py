"""C09: CSV reading: separators, comments, column names and units found as the file lays them out."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vlib.core import Component, require
from vlib import gens as g, cmp
from weio.csv_file import CSVFile
import weio

RULE = ('Text tables with generated columns (reals, integers, missing values, strings), rows, separator, comment lines, column names (own line, in the comments, '
        'with a line of units, absent, or given by the user) and encoding; non-trivial: at least 2 columns and 2 rows.')
ASSUMPTIONS = ['column names contain neither the separator nor quotes, and are not numbers', 'no missing values in files separated by white space (tabs and blanks are equivalent there)',
               'a table without column names has at least two rows and mostly numbers in its first row', 'text is ASCII, UTF-8 or UTF-16 with byte order mark']

SEP = {'comma': ',', 'semi': ';', 'tab': '\t', 'space': ' '}


def numtxt():
    return st.one_of(g.finite(-1e6, 1e6).map(repr), st.integers(-10 ** 6, 10 ** 6).map(str), g.finite(-1, 1).map(lambda x: '%.6e' % x), st.sampled_from(['1e-300', '0', '-0.5', '3.14159265358979', '1E5']))


@st.composite
def col(draw, n, sep, first):
    kind = draw(st.sampled_from(['num', 'num', 'num', 'int', 'str', 'nan'])) if not first else draw(st.sampled_from(['num', 'int', 'str']))
    if kind == 'nan' and sep in ('tab', 'space'):
        kind = 'num'
    if kind == 'str':
        words = ['abc', 'Wind', 'x1', 'b_c', 'q/r', 'AB-1', 'long_text_value'] + (['two words'] if sep in ('comma', 'semi') else [])
        v = draw(st.lists(st.sampled_from(words), min_size=n, max_size=n))
    elif kind == 'int':
        v = draw(st.lists(st.integers(-10 ** 9, 10 ** 9).map(str), min_size=n, max_size=n))
    elif kind == 'nan':
        v = draw(st.lists(numtxt(), min_size=n, max_size=n))
        for i in draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n)) + ([0] if draw(st.booleans()) else []):
            v[i] = draw(st.sampled_from(['', '', 'NaN', 'nan']))
    else:
        v = draw(st.lists(numtxt(), min_size=n, max_size=n))
    return dict(kind=kind, v=v)


@st.composite
def tables(draw, seps=('comma', 'comma', 'semi', 'tab', 'space'), allow_str=True):
    sep = draw(st.sampled_from(seps))
    n = draw(st.sampled_from([1, 2, 2, 3, 5, 8, 20]))
    m = draw(st.integers(1, 6))
    cols = []
    for i in range(m):
        cols.append(draw(col(n, sep, m == 1)))
    base = g.ident(1, 12, extra='_')
    if sep in ('comma', 'semi', 'tab'):
        base = st.one_of(base, st.builds(lambda a, b: a + ' ' + b, g.ident(1, 6), g.ident(1, 6)), st.builds(lambda a, u: '%s_[%s]' % (a, u), g.ident(1, 6), st.sampled_from(g.UNITS)))
    else:
        base = st.one_of(base, st.builds(lambda a, u: '%s_[%s]' % (a, u), g.ident(1, 6), st.sampled_from(g.UNITS)))
    names = draw(st.lists(base.filter(lambda s: s.lower() not in ('nan', 'inf', 'infinity')), min_size=m, max_size=m, unique=True))
    return dict(sep=sep, cols=cols, names=names)


@st.composite
def cases(draw):
    t = draw(tables())
    m, n = len(t['cols']), len(t['cols'][0]['v'])
    numeric = all(c['kind'] != 'str' for c in t['cols'])
    firstnum = [bool(_isnum(c['v'][0])) for c in t['cols']]
    modes = ['names', 'names', 'names', 'comment+names', 'comment+names', 'units', 'opt_colnamesline', 'opt_sep', 'opt_comment', 'opt_commentlines']
    if n >= 2 and all(firstnum):
        modes += ['noname', 'noname', 'names-in-comment', 'names-in-comment', 'opt_colnames', 'opt_hidden']
    mode = draw(st.sampled_from(modes))
    enc = draw(st.sampled_from(['ascii'] * 6 + ['utf-8-sig', 'utf-16', 'utf-8']))
    ncom = draw(st.one_of(st.integers(1, 4), st.integers(1, 4), st.integers(1, 4), st.sampled_from([12, 35, 80])))
    return dict(t=t, mode=mode, enc=enc, crlf=draw(st.booleans()), eol=draw(st.integers(0, 3)) > 0, blank=draw(st.integers(0, 5)) == 0, com=draw(st.sampled_from(['#', '!', ';'])) if t['sep'] != 'semi' else '#',
                ncom=ncom, where=draw(st.integers(0, ncom - 1)), pad=draw(st.booleans()), ext=draw(st.sampled_from(['csv', 'txt', 'CSV'])), upar=draw(st.sampled_from(['[]', '()'])), spaces=draw(st.booleans()))


def _isnum(s):
    try:
        float(s)
        return True
    except ValueError:
        return False


def expected(t):
    d = {}
    for i, c in enumerate(t['cols']):
        if c['kind'] == 'str':
            d[i] = list(c['v'])
        else:
            d[i] = np.array([float(x) if x not in ('', 'NaN', 'nan') else np.nan for x in c['v']])
    return d


def compare(df, t, names, what='table'):
    cmp.list_eq(df.columns, names, what + ' column names')
    n = len(t['cols'][0]['v'])
    require(df.shape == (n, len(t['cols'])), '%s: shape %s, expected %s', what, df.shape, (n, len(t['cols'])))
    e = expected(t)
    for i, c in enumerate(t['cols']):
        if c['kind'] == 'str':
            cmp.list_eq([str(x) for x in df.iloc[:, i].values], e[i], '%s column %r' % (what, names[i]))
        else:
            cmp.arr_close(df.iloc[:, i].values, e[i], 1e-12, 0, '%s column %r' % (what, names[i]))


def make_file(c, ctx):
    """Write the file of a case: (path, options, expected names, number of header lines or None); path None if ambiguous."""
    t, mode = c['t'], c['mode']
    s = SEP[t['sep']]
    j = s + ' ' if c['pad'] and t['sep'] in ('comma', 'semi') and all(x['kind'] in ('num', 'int') for x in t['cols']) else s
    if t['sep'] == 'space' and c['spaces']:
        j = '    '
    m = len(t['names'])
    n = len(t['cols'][0]['v'])
    rows = [j.join(cc['v'][i] for cc in t['cols']) for i in range(n)]
    names = list(t['names'])
    comm = ['%s comment %d of this file' % (c['com'], i) for i in range(c['ncom'])]
    kw = {}
    if mode == 'names':
        L = [j.join(names)]
    elif mode == 'comment+names':
        L = comm + [j.join(names)]
    elif mode == 'units':
        u = ['%s%s%s' % (c['upar'][0], ['m', 's', 'kN', 'deg/s', '-', 'm/s^2'][i % 6], c['upar'][1]) for i in range(m)]
        names = [x.split('_[')[0] for x in names]
        names = ['%s%d' % (x, i) for i, x in enumerate(names)]
        L = [j.join(names), j.join(u)]
        names = ['%s_%s' % (a, b) for a, b in zip(names, u)]
    elif mode == 'noname':
        L = []
        names = ['C%d' % i for i in range(m)]
    elif mode == 'names-in-comment':
        comm[c['where']] = c['com'] + ' ' + j.join(names)
        L = comm
        # another comment with as many words would be as good a candidate
        for k in range(c['where']):
            L[k] = c['com'] + ' -'.join(['']) + '-' * 20 if m > 1 else c['com'] + ' two words'
        if m == 1 or any(len(x[1:].strip().split(s) if t['sep'] != 'space' else x[1:].split()) == m for x in L[:c['where']]):
            L = L[c['where']:]
        if m == 1 and t['sep'] in ('space', 'tab') and ' ' in names[0]:
            return None, None, None, None
    elif mode == 'opt_colnamesline':
        L = ['some text that is not of interest, at all'] * (c['ncom'] - 1) + [j.join(names)]
        kw = dict(colNamesLine=c['ncom'] - 1, sep=s)
    elif mode == 'opt_sep':
        L = [j.join(names)]
        kw = dict(sep=s)
    elif mode == 'opt_comment':
        L = ['%% remark %d' % i for i in range(c['ncom'])] + [j.join(names)]
        kw = dict(commentChar='%')
    elif mode == 'opt_commentlines':
        L = ['remark, number %d; x' % i for i in range(c['ncom'])] + [j.join(names)]
        kw = dict(commentLines=list(range(c['ncom'])))
    elif mode == 'opt_colnames':
        L = []
        kw = dict(colNames=list(names))
    elif mode == 'opt_hidden':
        L = comm[:-1] + [c['com'] + j.join(names)]
        kw = dict(colNamesLine=-1, commentChar=c['com'], sep=s)
    if t['sep'] in ('tab', 'space') and m == 1 and any(' ' in x for x in names):
        # single column: no separator to find; blanks separate words
        return None, None, None, None
    if m == 1 and any(' ' in x for x in names + t['cols'][0]['v']):
        return None, None, None, None
    if mode == 'opt_comment' and any('%' in x for x in names):
        return None, None, None, None
    L = L + rows
    if c['enc'] == 'utf-8':
        # non-ascii content further down in the file, in a text column
        if not any(x['kind'] == 'str' for x in t['cols']) or len('\n'.join(L[:len(L) - n])) < 40:
            c['enc'] = 'ascii'
        else:
            k = [i for i, x in enumerate(t['cols']) if x['kind'] == 'str'][0]
            t['cols'][k]['v'][-1] = 'caf\xe9'
            L[-1] = j.join(cc['v'][-1] for cc in t['cols'])
    nl = '\r\n' if c['crlf'] else '\n'
    text = nl.join(L) + (nl if c['eol'] else '') + (nl if c['blank'] and c['eol'] else '')
    p = ctx.path('a.' + c['ext'])
    open(p, 'wb').write(text.encode(c['enc']))
    nh = None
    if mode in ('comment+names', 'names-in-comment', 'opt_comment', 'opt_commentlines'):
        nh = [x.strip() for x in L[:len(L) - n - (0 if mode == 'names-in-comment' else 1)]]
    return p, kw, names, nh


def check(c, ctx):
    t, mode = c['t'], c['mode']
    p, kw, names, nh = make_file(c, ctx)
    if p is None:
        return ctx.nontrivial(False)
    m, n = len(names), len(t['cols'][0]['v'])
    f = CSVFile(p, **kw)
    df = f.toDataFrame()
    compare(df, t, names)
    if nh is not None:
        cmp.list_eq(f.header, nh, 'header lines')
    if c['ext'] != 'txt' and not kw:
        F = weio.read(p)
        require(type(F).__name__ == 'CSVFile', 'detected as %s', type(F).__name__)
        compare(F.toDataFrame(), t, names, 'weio.read')
    ctx.label(mode, t['sep'], c['enc'])
    ctx.nontrivial(m >= 2 and n >= 2)


COMPONENTS = [Component('layouts', cases(), check, 300, 5000, shards=4)]
