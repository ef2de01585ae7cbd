"""C13: HAWC2 and BHawC time series (sel/dat)."""
import numpy as np
from hypothesis import strategies as st
from vlib.core import Component, require
from vlib import gens as g, cmp
from weio.hawc2_dat_file import HAWC2DatFile
from weio.wetb.hawc2.Hawc2io import ReadHawc2
import weio

RULE = ('sel/dat pairs of the three layouts (HAWC2 text, HAWC2 binary, BHawC) encoded from generated channels, read, converted, written and read again; histories of channel requests; '
        'non-trivial: at least 2 channels and 2 scans.')
ASSUMPTIONS = ['names have at most 30 characters and units at most 10 (columns of the sel file)', 'the last time stamp is positive', 'text files are written with 9 significant digits']

UN = st.sampled_from(['s', 'm/s', 'kN', 'kNm', 'deg', 'rad/s', '-', 'rpm', 'm', 'kg/m^3', 'deg/s^2'])


@st.composite
def channel(draw, i):
    """name, unit, description, expected simplified name"""
    k = draw(st.integers(0, 4))
    if k == 0:
        n = draw(g.ident(1, 12))
        return [n, draw(UN), draw(st.sampled_from(['Plain description %d', 'Plain description %d', 'Beskrivelse p\udce5 %d', 'Vitesse \xe0 %d m'])) % i, n]
    if k == 1:
        a, b = draw(g.ident(1, 8)), draw(g.ident(1, 8))
        return [a + ' ' + b + ', Vy', draw(UN), draw(st.sampled_from(['Free wind speed Vy, gl. coo, of gl. pos    2.50,  -1.00, -47.50', '', 'x'])), a + b + ',Vy']
    body = draw(st.sampled_from(['tower', 'blade1', 'hub_2', 'A-b', 'shaft']))
    if k == 2:
        e = draw(st.integers(1, 120))
        z = draw(st.sampled_from(['0.00', '1.00', '0.50', '0.25']))
        pre = 'N%d' % e if float(z) == 0 else ('N%d' % (e + 1) if float(z) == 1 else 'N' + str(e + float(z)))
        return ['Mx coo: %s' % body, 'kNm', 'MomentMx Mbdy:%s E-nr:%4d Z-rel:%s nodenr not used coo: %s' % (body, e, z, body), body + pre + 'Mxb']
    if k == 3:
        nn = draw(st.integers(1, 99))
        c = draw(st.booleans())
        return ['State pos x coo: global' if c else 'Fx coo: %s' % body, 'm', 'Something Mbdy:%s nodenr:%4d end' % (body, nn), body + 'N%d' % nn + ('xg' if c else 'Fxb')]
    s = draw(st.sampled_from(['0.2500', '0.7512', '1.0000']))
    return ['Cl, R=  1.2', 'deg', 'Lift coef, r=  1.20 s= 12.34[m] s/S= %s of blade' % s, 'r%sCl,R=1.2' % s]


@st.composite
def dat_cases(draw):
    nc = draw(st.sampled_from([1, 2, 3, 5, 12, 40]))
    kind = draw(st.sampled_from(['ascii', 'binary', 'bhawc']))
    ch = []
    for i in range(1, nc):
        c = draw(channel(i))
        if kind == 'bhawc':
            n = draw(g.ident(1, 10))
            d = draw(st.sampled_from(['Rotor azimuth', 'Frc Tower Elm..1', 'speed', 'Ff x']))
            c = [n, c[1], d, n]
        ch.append(c)
    ns = draw(st.sampled_from([1, 2, 3, 10, 57, 300]))
    return dict(kind=kind, ch=ch, ns=ns, dt=draw(st.sampled_from([0.1, 0.025, 1.0, 0.5])), spec=[draw(g.specs()) for _ in range(min(3, nc))], seed=draw(st.integers(0, 10 ** 6)), fmt=draw(st.sampled_from(['%16.8e', '%13.5E', '%.10g', '%12.4f'])),
                ext=draw(st.sampled_from(['.sel', '.dat'])), sep=draw(st.sampled_from([' ', '\t', '   '])), tab=draw(st.booleans()), req=draw(st.lists(st.lists(st.integers(0, 60), min_size=1, max_size=4), min_size=1, max_size=4)), entry=draw(st.sampled_from(['weio', 'class'])),
                wext=draw(st.sampled_from(['.sel', '.dat'])), df=draw(st.integers(0, 2)), wdir=draw(st.sampled_from(['out', 'x.sel.d', 'run.dat'])))


def encode(c, ctx):
    ns, nc = c['ns'], len(c['ch']) + 1
    rs = np.random.RandomState(c['seed'])
    t = np.arange(1, ns + 1) * c['dt']
    names = [['Time', 's', 'Time', 'Time']] + c['ch']
    V = np.column_stack([t] + [g.build((ns,), c['spec'][j % len(c['spec'])]) + j for j in range(1, nc)])
    base = ctx.path('res')
    L = ['_' * 120, '  Version ID : HAWC2MB 12.8', ' ' * 60 + 'Time : 10:02:19', ' ' * 60 + 'Date : 24:01.2013', '_' * 120, '  Result file : ./res.dat', '_' * 120, '   Scans    Channels    Time [sec]      Format']
    if c['kind'] == 'bhawc':
        L = [' BHawC channel reference file (sel):', '+' + '=' * 100, '  BHawC command file : NA.btc 2001.01.21  00:00:00  C:\\Res\\', 'Channel reference file : NA.sel', 'Result file : NA.dat', '+' + '=' * 100, 'Scans    Channels    Time [sec]     Coordinate convention: Siemens', '   %d   %d   %.3f' % (ns, nc, t[-1]), '']
        if c['tab']:
            L += ['Channel            \tVariable descriptions    \tLabels                   \tUnits']
            L += ['{:19s}\t{:25s}\t{:25s}\t{:25s}'.format(str(i + 1), n[2], n[0], '[' + n[1] + ']') for i, n in enumerate(names)]
        else:
            L += ['Channel   Variable description                       Label                 Unit', '']
            w = c['seed'] % 3      # columns, or two blanks between texts
            L += [('%4d  %-45s%-22s[%s]', '%4d  %s  %s  [%s]', '%d   %-19s  %-12s [%s]')[w] % (i + 1, n[2], n[0], n[1]) for i, n in enumerate(names)]
    else:
        L += ['%11d%7d%15.3f       %s' % (ns, nc, t[-1], 'BINARY' if c['kind'] == 'binary' else 'ASCII'), '', '  Channel   Variable Description               ', '']
        L += ['%6d      %-31s%-11s%s' % (i + 1, n[0], n[1], n[2]) for i, n in enumerate(names)]
        L.append('_' * 120)
    if c['kind'] == 'binary':
        sc = np.array([float('%.5E' % max(np.max(np.abs(V[:, j])) / 32000., 1e-12)) for j in range(nc)])
        I = np.round(V / sc).astype('int16')
        if nc > 1 and c['seed'] % 4 == 0:      # a channel without scale is zero
            sc[-1], I[:, -1] = 0, 1 + np.arange(ns) % 7
        V = I * sc
        L += ['Scale factors:'] + ['  %.5E' % s for s in sc]
        I.T.astype('<i2').tofile(base + '.dat')
    else:
        T = [[c['fmt'] % x for x in r] for r in V]
        V = np.array([[float(x) for x in r] for r in T])
        open(base + '.dat', 'w').write('\n'.join(' ' + c['sep'].join(r) for r in T) + '\n')
    open(base + '.sel', 'w', errors='surrogateescape').write('\n'.join(L) + '\n')
    return base, V, names


def uniq(names):
    return names


def chk(F, V, names, what, simple=True, rtol=0.0):
    cmp.arr_close(F.data, V, rtol, 0, what + 'data')
    df = F.toDataFrame()
    cols = ['%s_[%s]' % (n[3], n[1]) for n in names]
    cmp.list_eq(df.columns, cols, what + 'columns')
    cmp.arr_close(df.values, V, rtol, 0, what + 'table')


def check_dat(c, ctx):
    import os
    base, V, names = encode(c, ctx)
    F = weio.read(base + c['ext']) if c['entry'] == 'weio' else HAWC2DatFile(base + c['ext'])
    require(type(F).__name__ == 'HAWC2DatFile', 'detected as %s', type(F).__name__)
    cmp.list_eq(F.info['attribute_names'], [n[0] for n in names], 'names')
    cmp.list_eq([u.strip('[]') for u in F.info['attribute_units']], [n[1] for n in names], 'units')
    cmp.list_eq(F.info['attribute_descr'], [n[2].strip() for n in names], 'descriptions')
    for k in range(c['df']):
        chk(F, V, names, 'call %d: ' % k)
    # channels on request, in any order and repeatedly
    R = ReadHawc2(base + c['ext'])
    for req in c['req']:
        ch = [r % len(names) for r in req]
        cmp.arr_eq(R(ch), V[:, ch], 'channels %s' % ch)
        cmp.arr_eq(ReadHawc2(base + '.sel', ReadOnly=1)(ch), V[:, ch], 'channels %s read directly' % ch)
    # write
    os.makedirs(ctx.path(c['wdir']))
    q = os.path.join(ctx.path(c['wdir']), 'new' + c['wext'])
    F.write(q)
    cmp.arr_eq(F.data, V, 'data in memory after writing')
    W = np.array([[float('%.8e' % x) for x in r] for r in V])
    for e in ('.sel', '.dat'):
        G = HAWC2DatFile(os.path.join(ctx.path(c['wdir']), 'new' + e))
        chk(G, W, names, 'written: ')
        cmp.list_eq(G.info['attribute_descr'], [n[2].strip() for n in names], 'written: descriptions')
    require(sorted(os.listdir(ctx.path(c['wdir']))) == ['new.dat', 'new.sel'], 'files written: %s', os.listdir(ctx.path(c['wdir'])))
    ctx.label(c['kind'], 'ch:%d' % len(names))
    ctx.nontrivial(len(names) >= 2 and c['ns'] >= 2)


COMPONENTS = [Component('sel_dat', dat_cases(), check_dat, 350, 6000)]
