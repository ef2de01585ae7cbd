"""C05: time series written as FAST output files read back within the precision of the layout."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vlib.core import Component, require, Violation
from vlib import gens as g, cmp, fastout
from weio.fast_output_file import FASTOutputFile, writeDataFrame
import weio

RULE = ('Tables of channels with generated names, units, ranges, offsets and sizes are written (from a table, or by reading a '
        'file and writing it) and read back, both by weio and by an independent decoder; non-trivial: >=2 channels, >=3 rows '
        'and at least one channel that varies.')
ASSUMPTIONS = ['uniform time step (the written layout stores start and increment)', 'finite values']

UNIT = st.sampled_from(g.UNITS)


def tol16(x):
    """One quantisation step of a 16 bit channel plus single-precision rounding of its scaling."""
    r = np.max(x, axis=0) - np.min(x, axis=0)
    r = np.where(np.float32(r) == 0, 1.0, r)
    return 1.02 * r / 65535. + 6e-7 * np.max(np.abs(x), axis=0)


@st.composite
def channels(draw, maxname=10):
    nc = draw(st.integers(1, 7))
    nt = draw(st.one_of(st.integers(2, 40), st.sampled_from([200, 1025])))
    specs = draw(st.lists(g.specs(), min_size=nc, max_size=nc))
    names = draw(st.lists(g.ident(2, maxname, '_'), min_size=nc, max_size=nc, unique=True).filter(lambda l: 'Time' not in l and not any(x.endswith('_') for x in l)))
    units = draw(st.lists(st.sampled_from([u for u in g.UNITS if len(u) <= 8]), min_size=nc, max_size=nc))
    return dict(nt=nt, specs=specs, names=names, units=units, t0=draw(st.sampled_from([0.0, -100.0, 50.0, 0.05, 600.0])),
                dt=draw(st.sampled_from([0.0125, 0.1, 1.0, 0.02, 0.5])))


def matrix(c):
    nt, nc = c['nt'], len(c['specs'])
    M = np.zeros((nt, nc + 1))
    M[:, 0] = c['t0'] + c['dt'] * np.arange(nt)
    for j, s in enumerate(c['specs']):
        M[:, j + 1] = g.build((nt,), s)
    return M


def classify(c, ctx):
    ctx.nontrivial(len(c['specs']) >= 2 and c['nt'] >= 3 and any(s['kind'] not in ('const', 'zeros') for s in c['specs']))


@st.composite
def df_cases(draw):
    c = draw(channels(maxname=draw(st.sampled_from([10, 10, 16, 30]))))
    nc = len(c['specs'])
    c['style'] = draw(st.lists(st.sampled_from(['_[]', '_[]', '[]', '()', '_()', ' []', 'none']), min_size=nc + 1, max_size=nc + 1))
    if c['style'][0] == ' []':
        c['style'][0] = '_[]'
    c['via'] = draw(st.sampled_from(['function', 'method']))
    c['ints'] = draw(st.booleans())
    return c


def colname(n, u, style):
    return {'_[]': '%s_[%s]', '[]': '%s[%s]', '()': '%s(%s)', '_()': '%s_(%s)', ' []': '%s [%s]'}[style] % (n, u) if style != 'none' else n


def check_df(c, ctx):
    M = matrix(c)
    names, units = ['Time'] + c['names'], ['s'] + c['units']
    cols = [colname(n, u, s) for n, u, s in zip(names, units, c['style'])]
    eu = [u if s != 'none' else '' for u, s in zip(units, c['style'])]
    df = pd.DataFrame(M, columns=cols)
    before = df.copy()
    fn = ctx.path('w.outb')
    if c['via'] == 'function':
        writeDataFrame(df, fn)
    else:
        FASTOutputFile().writeDataFrame(df, fn)
    cmp.df_same(df, before, 'table passed to the writer')
    F = FASTOutputFile(fn)
    cmp.list_eq(F.info['attribute_names'], names, 'names')
    cmp.list_eq(F.info['attribute_units'], eu, 'units')
    out = F.toDataFrame()
    cmp.list_eq(out.columns, ['%s_[%s]' % (n, u) for n, u in zip(names, eu)], 'columns')
    cmp.arr_close(out.values[:, 0], M[:, 0], 1e-12, 1e-9 * c['dt'] * c['nt'], 'time')
    cmp.arr_close(out.values[:, 1:], M[:, 1:], 0, np.broadcast_to(tol16(M[:, 1:]), M[:, 1:].shape), 'channels')
    D = fastout.decode(open(fn, 'rb').read())
    cmp.eq(D['rest'], 0, 'bytes left over in the written file')
    cmp.arr_close(D['data'], M[:, 1:], 0, np.broadcast_to(tol16(M[:, 1:]), M[:, 1:].shape), 'channels (independent decoder)')
    cmp.list_eq(D['names'], names, 'names (independent decoder)')
    ctx.label('long-names' if max(map(len, names)) > 10 else 'short-names', 'unitless' if '' in eu else 'units')
    classify(c, ctx)


@st.composite
def rw_cases(draw):
    c = draw(channels())
    c['id'] = draw(st.integers(1, 4))
    c['ln'] = draw(st.integers(10, 16))
    c['desc'] = draw(st.sampled_from(['', 'Generated by FAST', 'x' * 300]))
    c['scalek'] = draw(st.sampled_from([0.0, -1.5, 3.0, 1e3]))
    c['inplace'] = draw(st.booleans())
    return c


def check_rw(c, ctx):
    """read a file (any layout), change a channel, write it, read it again"""
    M = matrix(c)
    nt, nc = c['nt'], len(c['specs'])
    names, units = ['Time'] + c['names'], ['s'] + c['units']
    if c['id'] == 3:
        packed, scl, off = M[:, 1:], None, None
    else:
        X = M[:, 1:]
        rng = X.max(0) - X.min(0)
        rng[rng == 0] = 1
        scl = np.float32(60000 / rng)
        off = np.float32(-30000 - X.min(0) * (60000 / rng))
        packed = np.clip(np.round(X * scl.astype(float) + off), -32768, 32767).astype(np.int16)
    fn, fo = ctx.path('a.outb'), ctx.path('b.outb')
    if c['inplace']:
        fo = fn
    open(fn, 'wb').write(fastout.encode(c['id'], names, units, nt, packed, scl, off, c['desc'], c['t0'], c["dt"], 1e5,
                                        0.0, np.round(M[:, 0] * 1e5).astype(int), c['ln']))
    F = FASTOutputFile(fn)
    F.data[:, 1] = F.data[:, 1] + c['scalek']
    D0 = np.array(F.data)
    n0, u0 = list(F.info['attribute_names']), list(F.info['attribute_units'])
    F.write(fo)
    cmp.arr_eq(F.data, D0, 'data of the written object')
    for k in range(2):
        G = FASTOutputFile(fo)
        cmp.list_eq(G.info['attribute_names'], n0, 'names')
        cmp.list_eq(G.info['attribute_units'], u0, 'units')
        cmp.eq(G.info['description'], c['desc'].strip(), 'description')
        tt = 1e-9 * c['dt'] * nt if c['id'] != 1 else 1e-6 * nt
        cmp.arr_close(G.data[:, 0], D0[:, 0], 1e-12, tt, 'time')
        cmp.arr_close(G.data[:, 1:], D0[:, 1:], 0, (k + 1) * np.broadcast_to(tol16(D0[:, 1:]), D0[:, 1:].shape), 'channels')
        fo = ctx.path('again.outb')
        G.write(fo)
    ctx.label('id%d' % c['id'])
    classify(c, ctx)


@st.composite
def txt_cases(draw):
    c = draw(channels(maxname=14))
    c['unitless'] = draw(st.booleans())
    c['ext'] = draw(st.sampled_from(['.out', '.OUT']))
    return c


def check_txt(c, ctx):
    M = matrix(c)
    names, units = ['Time'] + c['names'], ['s'] + c['units']
    fn, fo = ctx.path('a' + c['ext']), ctx.path('b' + c['ext'])
    with open(fn, 'w') as f:
        f.write('header\n\n' + '\t'.join(names) + '\n' + '\t'.join('(%s)' % u for u in units) + '\n')
        for r in M:
            f.write('\t'.join('%.17g' % v for v in r) + '\n')
    F = FASTOutputFile(fn)
    cmp.arr_close(F.data, M, 1e-15, 0, 'data read')
    F.write(fo)
    G = FASTOutputFile(fo)
    cmp.list_eq(G.info['attribute_names'], names, 'names')
    cmp.list_eq(G.info['attribute_units'], units, 'units')
    cmp.arr_close(G.data[:, 0], M[:, 0], 1e-12, 0.5001e-4, 'time')
    cmp.arr_close(G.data[:, 1:], M[:, 1:], 0.5001e-3, 0, 'channels')
    G.write(fn)
    cmp.arr_eq(FASTOutputFile(fn).data, G.data, 'second write/read')
    classify(c, ctx)


COMPONENTS = [
    Component('table_to_binary', df_cases(), check_df, 700, 15000),
    Component('binary_rewrite', rw_cases(), check_rw, 500, 10000),
    Component('text_rewrite', txt_cases(), check_txt, 300, 6000),
]
