"""C04: FAST output files (binary layouts 1-4, text) are decoded to the channels they store."""
import numpy as np
from hypothesis import strategies as st
from vlib.core import Component, require, Violation
from vlib import gens as g, cmp, fastout
from weio.fast_output_file import FASTOutputFile, load_binary_output
import weio

RULE = ('Files are built by an independent encoder of the published layouts (binary IDs 1-4) or as text with varied '
        'number formats, headers, separators and line ends; a case is non-trivial when it has >=2 rows and >=2 channels '
        'and the decoded channels are not all constant.')
ASSUMPTIONS = ['little-endian host', 'channel names and units are ASCII without blanks']

UNIT = st.sampled_from(g.UNITS)


def big_nt(nc):
    # number of rows around multiples of the reader's block size for this number of columns
    return st.builds(lambda k, d: max(2, k * (163840 // nc) + d), st.sampled_from([1, 1, 2, 2, 3, 4]), st.one_of(st.integers(-1, 1), st.integers(2, 163840 // nc - 2)))


@st.composite
def bin_cases(draw, big=False):
    fid = draw(st.integers(1, 4))
    ln = draw(st.integers(11, 24)) if fid == 4 else 10
    if fid == 4 and draw(st.booleans()):
        ln = draw(st.integers(4, 10))
    nc = draw(st.sampled_from([1, 2, 3, 7, 40, 170])) if big else draw(st.integers(1, 8))
    nt = draw(big_nt(nc)) if big else draw(st.integers(1, 30))
    if big:
        names = ['Ch%d' % (i + 1) for i in range(nc)]
        units = ['m'] * nc
        ln = max(ln, 6)
    else:
        names = draw(st.lists(g.ident(1, ln, '_-'), min_size=nc, max_size=nc, unique=True).filter(lambda l: 'Time' not in l))
        units = [u if len(u) <= ln - 2 else '-' for u in draw(st.lists(UNIT, min_size=nc, max_size=nc))]
    return dict(id=fid, lenname=ln, nt=nt, names=['Time'] + names, units=[draw(st.sampled_from(['s', 'sec'])) if ln >= 5 else 's'] + units,
                desc=draw(st.sampled_from(['', 'Generated by FAST', ' padded  ', 'x' * 300])),
                t0=draw(st.sampled_from([0.0, 10.0, -5.0, 0.0125, 1e5])), dt=draw(st.sampled_from([0.0125, 0.1, 1.0, 0.02, 0.3])),
                tscl=draw(st.sampled_from([1.0, 1000.0, 123.5, 65536.0])), toff=draw(st.sampled_from([0.0, -7.0, 1e6, -32768.0, -250.5, 0.75])),
                scl=draw(st.lists(st.sampled_from([1.0, 1000.0, 0.037, 6553.5, 3e-5, 2.5e6]), min_size=1, max_size=6)),
                off=draw(st.lists(st.sampled_from([0.0, -32768.0, 12345.0, 1.5e7, -0.25]), min_size=1, max_size=6)),
                nancol=draw(st.integers(-1, 8)), unbuffered=draw(st.booleans()), upper=draw(st.booleans()),
                spec=draw(g.specs(kinds=['ramp', 'rand', 'alt', 'sine', 'spike', 'const'])))


def expected_cols(names, units):
    return ['%s_[%s]' % (n, u.replace('sec', 's')) for n, u in zip(names, units)]


def check_bin(c, ctx):
    nc, nt = len(c['names']) - 1, c['nt']
    fid = c['id']
    spec = dict(c['spec'])
    if fid == 3:
        packed = g.build((nt, nc), spec)
    else:
        spec.update(base=0.0, scale=32767.0)
        packed = np.trunc(g.build((nt, nc), spec)).astype(np.int16)
        if packed.size:
            packed.flat[0] = -32768
            packed.flat[-1] = 32767
    scl = np.array([c['scl'][i % len(c['scl'])] for i in range(nc)], np.float32)
    off = np.array([c['off'][i % len(c['off'])] for i in range(nc)], np.float32)
    hasnan = fid != 3 and 0 <= c['nancol'] < nc
    if hasnan:
        scl[c['nancol']] = np.nan
        off[c['nancol']] = np.nan
    ptime = np.arange(nt, dtype=np.int64) * 25 + (np.arange(nt) % 3)
    raw = fastout.encode(fid, c['names'], c['units'], nt, packed, scl, off, c['desc'], c['t0'], c['dt'], c['tscl'], c['toff'], ptime, c['lenname'])
    fn = ctx.path('Case.OUTB' if c['upper'] else 'case.outb')
    open(fn, 'wb').write(raw)
    F = FASTOutputFile(fn)
    exp = np.zeros((nt, nc + 1))
    s64, o64 = scl.astype(float), off.astype(float)
    if fid == 3:
        exp[:, 1:] = packed
    else:
        exp[:, 1:] = (packed.astype(float) - o64) / s64
        if hasnan:
            exp[:, 1 + c['nancol']] = 0
    exp[:, 0] = (ptime - c['toff']) / c['tscl'] if fid == 1 else c['t0'] + c['dt'] * np.arange(nt)
    cmp.arr_close(F.data, exp, 1e-9, 1e-12, 'data')
    cmp.list_eq(F.info['attribute_names'], c['names'], 'names')
    cmp.list_eq(F.info['attribute_units'], c['units'], 'units')
    cmp.eq(F.info['description'], c['desc'].strip(), 'description')
    df = F.toDataFrame()
    cmp.list_eq(df.columns, expected_cols(c['names'], c['units']), 'table columns')
    cmp.arr_close(df.values, exp, 1e-9, 1e-12, 'table')
    if c['unbuffered']:
        d2, i2 = load_binary_output(fn, use_buffer=False)
        cmp.arr_close(d2, exp, 1e-9, 1e-12, 'data without block-wise reading')
        cmp.list_eq(i2['attribute_names'], c['names'], 'names (unbuffered)')
    ctx.label('id%d' % fid, 'nan' if hasnan else 'nonan', 'crosses-block' if nt * nc > 163840 else 'one-block')
    ctx.nontrivial(nt >= 2 and nc >= 2 and c['spec']['kind'] != 'const')


# ------------------------------------------------------------------ text
NUMFMT = ['%10.4f', '%11.3e', '%.6g', '%15.5E', '%d', '%r']


@st.composite
def txt_cases(draw):
    nc = draw(st.integers(1, 9))
    rows = draw(st.integers(1, 25))
    names = draw(g.unique_idents(nc, nc, 12, '_-', reserved=('time',)))
    return dict(names=names, units=draw(st.lists(UNIT, min_size=nc + 1, max_size=nc + 1)),
                time=draw(st.sampled_from(['Time', 'time', 'TIME'])),
                par=draw(st.sampled_from(['()', '[]'])),
                header=draw(st.lists(st.sampled_from(['', 'Predictions were generated on 09-Oct-2018', ' linked with NWTC; ElastoDyn',
                                                      'Description from the FAST input file: a model', '   ', 'Timeless header', '# x', 'M\udcf8llen 2', '\xe9olienne']), max_size=8)),
                fmt=draw(st.lists(st.sampled_from(NUMFMT), min_size=1, max_size=4)),
                sep=draw(st.sampled_from(['\t', '  ', ' \t '])), lead=draw(st.sampled_from(['', '   ', '\t'])),
                crlf=draw(st.booleans()), endnl=draw(st.booleans()), ext=draw(st.sampled_from(['.out', '.elev', '.OUT', '.txt'])),
                tail=draw(st.sampled_from(['', '', 'This output file was closed on 19-Oct-2018\n'])), generic=draw(st.booleans()),
                nt=rows, spec=draw(g.specs()), t0=draw(st.sampled_from([0.0, 5.0, -1.0, 1000.0])), dt=draw(st.sampled_from([0.1, 0.0125, 1.0])))


def check_txt(c, ctx):
    nt, nc = c['nt'], len(c['names'])
    M = np.zeros((nt, nc + 1))
    M[:, 0] = c['t0'] + c['dt'] * np.arange(nt)
    M[:, 1:] = g.build((nt, nc), c['spec'])
    names = [c['time']] + c['names']
    lines = list(c['header'])
    lines.append(c['lead'] + c['sep'].join(names))
    lines.append(c['lead'] + c['sep'].join(c['par'][0] + u + c['par'][1] for u in c['units']))
    exp = np.zeros_like(M)
    for i in range(nt):
        toks = []
        for j in range(nc + 1):
            t = (c['fmt'][j % len(c['fmt'])] % (M[i, j] if c['fmt'][j % len(c['fmt'])] != '%r' else float(M[i, j]))).strip()
            toks.append(t)
            exp[i, j] = float(t)
        lines.append(c['lead'] + c['sep'].join(toks))
    txt = '\n'.join(lines) + '\n' + c['tail']
    if not c['endnl'] and not c['tail']:
        txt = txt[:-1]
    if c['crlf']:
        txt = txt.replace('\n', '\r\n')
    # undecodable first bytes are what tells binary results from text under an extension that decides nothing
    ext = '.out' if '\udcf8' in txt and c['ext'] == '.txt' else c['ext']
    fn = ctx.path('case' + ext)
    open(fn, 'wb').write(txt.encode('utf-8', 'surrogateescape'))
    F = FASTOutputFile(fn)
    cmp.arr_close(F.data, exp, 1e-15, 0, 'data')
    cmp.list_eq(F.info['attribute_names'], names, 'names')
    cmp.list_eq(F.info['attribute_units'], c['units'], 'units')
    df = F.toDataFrame()
    cmp.list_eq(df.columns, expected_cols(names, c['units']), 'table columns')
    cmp.arr_close(df.values, exp, 1e-15, 0, 'table')
    ctx.label('rows1' if nt == 1 else 'rows', ext, 'crlf' if c['crlf'] else 'lf')
    ctx.nontrivial(nt >= 2 and nc >= 2 and c['spec']['kind'] not in ('const', 'zeros'))


# ------------------------------------------------------------------ FAST v7 element files
@st.composite
def elm_cases(draw):
    nc = draw(st.integers(1, 9))
    return dict(names=draw(g.unique_idents(nc, nc, 10, '', reserved=('time',))), units=draw(st.lists(UNIT, min_size=nc, max_size=nc)),
                nt=draw(st.integers(2, 20)), spec=draw(g.specs()), dt=draw(st.sampled_from([0.1, 0.05])))


def check_elm(c, ctx):
    nt, nc = c['nt'], len(c['names'])
    M = np.zeros((nt, nc + 1))
    M[:, 0] = c['dt'] * np.arange(nt)
    M[:, 1:] = g.build((nt, nc), c['spec'])
    names = ['Time'] + c['names']
    units = ['sec'] + c['units']
    L = ['This file was generated by FAST(v7.02.00d-bjj, 20-Feb-2013) on 23-Oct-2018 at 13:35:57.', '\t'.join(names), '\t'.join('(%s)' % u for u in units)]
    exp = np.zeros_like(M)
    for i in range(nt):
        toks = ['%.3f' % M[i, 0]] + ['%.4E' % v for v in M[i, 1:]]
        exp[i] = [float(t) for t in toks]
        L.append('\t'.join(toks))
    fn = ctx.path('case.elm')
    open(fn, 'w').write('\n'.join(L) + '\n')
    F = FASTOutputFile(fn)
    df = F.toDataFrame()
    cmp.list_eq(df.columns, ['%s_[%s]' % (n, u.replace('sec', 's')) for n, u in zip(names, units)], 'columns')
    cmp.arr_close(df.values.astype(float), exp, 1e-12, 0, 'values')
    ctx.nontrivial(nc >= 2)


COMPONENTS = [
    Component('binary', bin_cases(), check_bin, 700, 20000),
    Component('binary_large', bin_cases(big=True), check_bin, 60, 500),
    Component('text', txt_cases(), check_txt, 500, 15000),
    Component('elm', elm_cases(), check_elm, 80, 1000),
]
