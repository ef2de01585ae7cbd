"""C10: tables written to CSV, Parquet and Excel files are read back unchanged."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vlib.core import Component, require
from vlib import gens as g, cmp
from props import c09
from weio.csv_file import CSVFile
from weio.parquet_file import ParquetFile
from weio.excel_file import ExcelFile
import weio

RULE = ('Tables with generated names, rows, value kinds (reals over 300 decades, integers, missing values, strings, and for Parquet booleans and dates), '
        'separator, header lines and number of sheets; non-trivial: at least 2 columns and 2 rows.')
ASSUMPTIONS = c09.ASSUMPTIONS + ['Excel sheets have no column or row that is entirely missing (these are dropped when reading, by design)',
                                 'column names are unique strings']


# ------------------------------------------------------------------ dataframes
@st.composite
def dcol(draw, n, kinds):
    k = draw(st.sampled_from(kinds))
    if k == 'f':
        v = draw(st.lists(st.one_of(g.finite(-1e6, 1e6), st.floats(allow_nan=False, allow_infinity=False, allow_subnormal=False)), min_size=n, max_size=n))
    elif k == 'i':
        v = draw(st.lists(st.integers(-2 ** 40, 2 ** 40), min_size=n, max_size=n))
    elif k == 'nan':
        v = draw(st.lists(g.finite(-1e6, 1e6), min_size=n, max_size=n))
        for i in draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=max(1, n - 1))):
            v[i] = None
    elif k == 's':
        v = draw(st.lists(st.sampled_from(['abc', 'Wind', 'x1', 'b_c', 'q/r', 'AB-1', 'y' * 40]), min_size=n, max_size=n))
    elif k == 'S':   # any text
        v = draw(st.lists(st.sampled_from(['abc', 'two words', 'a,b', 'semi;colon', '"quoted"', 'caf\xe9', 'say "x", ok', 'x' * 300]), min_size=n, max_size=n))
    elif k == 'b':
        v = draw(st.lists(st.booleans(), min_size=n, max_size=n))
    elif k == 't':
        v = draw(st.lists(st.integers(0, 2 * 10 ** 9), min_size=n, max_size=n))
    return dict(kind=k, v=v)


def series(c):
    k, v = c['kind'], c['v']
    if k == 'nan':
        return np.array([np.nan if x is None else x for x in v], float)
    if k == 'f':
        return np.array(v, float)
    if k == 'i':
        return np.array(v, 'int64')
    if k == 'b':
        return np.array(v, bool)
    if k == 't':
        return np.array(v, 'datetime64[s]').astype('datetime64[ns]')
    return np.array(v, object)


def mkdf(t):
    return pd.DataFrame({n: series(c) for n, c in zip(t['names'], t['cols'])}, columns=t['names'])


@st.composite
def dtable(draw, kinds, names, nmin=1):
    n = draw(st.sampled_from([x for x in [1, 2, 2, 3, 5, 9, 30] if x >= nmin]))
    m = draw(st.integers(1, 6))
    cols = [draw(dcol(n, kinds)) for _ in range(m)]
    nm = draw(st.lists(names.filter(lambda s: s.lower() not in ('nan', 'inf', 'infinity')), min_size=m, max_size=m, unique=True))
    return dict(cols=cols, names=nm)


PLAIN = st.one_of(g.ident(1, 12, extra='_'), st.builds(lambda a, u: '%s_[%s]' % (a, u), g.ident(1, 6), st.sampled_from(g.UNITS)))
ANY = st.one_of(PLAIN, st.builds(lambda a, b: a + ' ' + b, g.ident(1, 6), g.ident(1, 6)))


def same(df, t, what, rtol=0):
    cmp.list_eq(df.columns, t['names'], what + ' column names')
    require(len(df) == len(t['cols'][0]['v']), '%s: %d rows, expected %d', what, len(df), len(t['cols'][0]['v']))
    for i, c in enumerate(t['cols']):
        e = series(c)
        got = df.iloc[:, i].values
        w = '%s column %r' % (what, t['names'][i])
        if c['kind'] in ('f', 'i', 'nan'):
            cmp.arr_close(got, e, rtol, 0, w)
        else:
            cmp.list_eq(list(got), list(e), w)


# ------------------------------------------------------------------ CSV
@st.composite
def csv_cases(draw):
    sep = draw(st.sampled_from(['comma', 'comma', 'semi', 'tab', 'space', 'none', 'none']))
    kinds = ['f', 'f', 'i', 'nan', 's'] + (['S'] if sep in ('comma', 'semi', 'none') else [])
    t = draw(dtable(kinds, PLAIN if sep in ('space', 'tab') else ANY))
    hdr = draw(st.sampled_from(['none', 'none', 'comments', 'comments', 'names']))
    return dict(t=t, sep=sep, hdr=hdr, nh=draw(st.integers(1, 3)), com=draw(st.sampled_from(['#', '!'])), twice=draw(st.booleans()), ctor=draw(st.booleans()))


def check_csv(c, ctx):
    t = c['t']
    sep = {'comma': ',', 'semi': ';', 'tab': '\t', 'space': r'\s+', 'none': None}[c['sep']]
    m, n = len(t['cols']), len(t['cols'][0]['v'])
    df = mkdf(t)
    if any(x['kind'] in ('s', 'S') for x in t['cols']) and c['hdr'] == 'names':
        c['hdr'] = 'comments'        # names are searched in the comments when the first row is numeric only
    if c['hdr'] == 'names' and (n < 2 or m < 2 or any(x['kind'] == 'nan' and x['v'][0] is None for x in t['cols'])):
        c['hdr'] = 'comments'
    wsep = {None: ',', r'\s+': '\t'}.get(sep, sep)
    # the first words of a file decide whether it can be a CSV file at all; a lone column gives no separator to detect
    kw = {}
    if m == 1 or any(x['kind'] == 'S' for x in t['cols']):
        kw['sep'] = ',' if sep is None else sep
    if any(x['kind'] == 'nan' for x in t['cols']) and m == 1:
        return ctx.nontrivial(False)     # a missing value is an empty line
    f = CSVFile(sep=sep) if c['ctor'] else CSVFile()
    if not c['ctor']:
        f.sep = sep
    f.data = df.copy()
    hdr = []
    if c['hdr'] == 'comments':
        hdr = ['%s remark %d about this' % (c['com'], i) for i in range(c['nh'])]
    elif c['hdr'] == 'names':
        hdr = [c['com'] + ' ' + wsep.join(t['names'])]
    if hdr:
        f.header = list(hdr)
        f.commentChar = hdr[0][0]
    p = ctx.path('a.csv')
    f.write(p)
    same(f.toDataFrame(), t, 'object after writing')
    g1 = CSVFile(p, **kw)
    same(g1.toDataFrame(), t, 'written file', 1e-12)
    if hdr:
        cmp.list_eq(g1.header, hdr, 'header lines')
    b = open(p, 'rb').read()
    f.write(p)
    require(open(p, 'rb').read() == b, 'writing the same object twice gives different files')
    q = ctx.path('b.csv')
    g1.write(q)
    same(CSVFile(q, **kw).toDataFrame(), t, 'file read, written and read', 1e-12)
    if hdr:
        cmp.list_eq(CSVFile(q, **kw).header, hdr, 'header lines after two writes')
    require(open(p, 'rb').read() == b, 'writing to another file changed the first one')
    ctx.label(c['sep'], 'header:' + c['hdr'])
    ctx.nontrivial(m >= 2 and n >= 2)


def check_rewrite(c, ctx):
    """A CSV file of any layout: read, write, read again with the same options."""
    p, kw, names, nh = c09.make_file(c, ctx)
    if p is None:
        return ctx.nontrivial(False)
    orig = open(p, 'rb').read()
    f = CSVFile(p, **kw)
    q = ctx.path('out.csv')
    f.write(q)
    kw2 = dict(kw)
    if 'colNames' in kw2:
        kw2.pop('colNames')       # names are written in the file
    if kw2.get('colNamesLine') is not None and c['mode'] == 'opt_colnamesline':
        kw2['colNamesLine'] = 0   # lines that are neither comments nor data are not kept
    if c['mode'] == 'names-in-comment' and any(x['kind'] == 'nan' and x['v'][0].lower() == 'nan' for x in c['t']['cols']):
        return ctx.nontrivial(False)   # written as an empty cell: the first row is then no longer one of numbers
    if len(names) == 1 and c['t']['cols'][0]['kind'] == 'nan':
        return ctx.nontrivial(False)
    g2 = CSVFile(q, **kw2)
    c09.compare(g2.toDataFrame(), c['t'], names, 'rewritten file')
    if nh is not None:
        cmp.list_eq(g2.header, f.header, 'header lines')
    require(open(p, 'rb').read() == orig, 'the file that was read was modified')
    ctx.label(c['mode'], c['t']['sep'])
    ctx.nontrivial(len(names) >= 2 and len(c['t']['cols'][0]['v']) >= 2)


# ------------------------------------------------------------------ Parquet
def check_parquet(t, ctx):
    df = mkdf(t)
    f = ParquetFile()
    f.data = df.copy()
    p = ctx.path('a.parquet')
    f.write(p)
    F = weio.read(p)
    require(type(F).__name__ == 'ParquetFile', 'detected as %s', type(F).__name__)
    for r, w in ((ParquetFile(p), 'ParquetFile'), (F, 'weio.read')):
        d = r.toDataFrame()
        same(d, t, w)
        for i in range(len(t['cols'])):
            require(d.dtypes.iloc[i] == df.dtypes.iloc[i], '%s: type of column %r is %s, expected %s', w, t['names'][i], d.dtypes.iloc[i], df.dtypes.iloc[i])
    q = ctx.path('b.parquet')
    F.write(q)
    same(ParquetFile(q).toDataFrame(), t, 'second generation')
    for i, c in enumerate(t['cols']):
        ctx.label('kind:' + c['kind'])
    ctx.nontrivial(len(t['cols']) >= 2 and len(t['cols'][0]['v']) >= 2)


# ------------------------------------------------------------------ Excel
@st.composite
def xl_cases(draw):
    k = draw(st.integers(1, 3))
    sheets = draw(st.lists(st.one_of(g.ident(1, 12, extra='_ -'), g.ident(25, 31)), min_size=k, max_size=k, unique_by=lambda s: s.lower().strip()))
    return dict(sheets=[s.strip() for s in sheets], tabs=[draw(dtable(['f', 'f', 'i', 'nan', 's', 'S'], ANY)) for _ in range(k)], ext=draw(st.sampled_from(['xlsx', 'xlsx', 'XLSX'])), gap=draw(st.booleans()), gr=draw(st.integers(1, 4)), gc=draw(st.integers(1, 3)), ge=draw(st.integers(0, 3)))


def check_xl(c, ctx):
    # rows and columns that are entirely missing are dropped by design
    for t in c['tabs']:
        n = len(t['cols'][0]['v'])
        for i in range(n):
            if all(x['v'][i] is None for x in t['cols']):
                t['cols'][0]['v'][i] = 1.5
        for x in t['cols']:
            if x['kind'] == 'f':
                x['v'] = [v if abs(v) < 1e300 else 1.25 for v in x['v']]
    f = ExcelFile()
    f.data = {s: mkdf(t) for s, t in zip(c['sheets'], c['tabs'])}
    p = ctx.path('a.xlsx')
    f.write(p)
    if c['ext'] != 'xlsx':
        import os
        os.rename(p, ctx.path('a.' + c['ext']))
        p = ctx.path('a.' + c['ext'])
    F = weio.read(p)
    require(type(F).__name__ == 'ExcelFile', 'detected as %s', type(F).__name__)
    q = ctx.path('b.xlsx')
    for r, w in ((ExcelFile(p), 'ExcelFile'), (F, 'weio.read')):
        d = r.toDataFrame()
        cmp.list_eq(list(d.keys()), c['sheets'], w + ' sheet names')
        for s, t in zip(c['sheets'], c['tabs']):
            same(d[s], t, '%s sheet %r' % (w, s), 1e-14)
    F.write(q)
    d = ExcelFile(q).toDataFrame()
    cmp.list_eq(list(d.keys()), c['sheets'], 'second generation sheet names')
    for s, t in zip(c['sheets'], c['tabs']):
        same(d[s], t, 'second generation sheet %r' % s, 1e-14)
    if c['gap']:        # blank rows, columns and sheets around the tables of the workbook are not data
        import openpyxl
        W = openpyxl.load_workbook(q)
        for w in list(W.worksheets):
            w.insert_rows(c['gr'])
            if c['gr'] > 2:
                w.insert_rows(1, 2)
            w.insert_cols(c['gc'])
        if 'blank' not in [x.lower() for x in c['sheets']]:
            W.create_sheet('blank', min(c['ge'], len(c['sheets'])))
        W.save(q)
        F.read(q)
        for r, w in ((ExcelFile(q), 'workbook with blanks'), (F, 'object reading another workbook')):
            d = r.toDataFrame()
            cmp.list_eq(list(d.keys()), c['sheets'], w + ' sheet names')
            for s, t in zip(c['sheets'], c['tabs']):
                same(d[s], t, '%s sheet %r' % (w, s), 1e-14)
        ctx.label('blanks')
    ctx.label('sheets:%d' % len(c['sheets']))
    ctx.nontrivial(any(len(t['cols']) >= 2 and len(t['cols'][0]['v']) >= 2 for t in c['tabs']))


COMPONENTS = [
    Component('csv_new', csv_cases(), check_csv, 300, 5000, shards=2),
    Component('csv_rewrite', c09.cases(), check_rewrite, 300, 5000, shards=2),
    Component('parquet', dtable(['f', 'f', 'i', 'nan', 'S', 'b', 't'], ANY), check_parquet, 200, 3000),
    Component('excel', xl_cases(), check_xl, 100, 1500, shards=2),
]
