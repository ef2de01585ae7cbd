"""C27: text wind files (deterministic .wnd, TurbSim user time series) keep values, names and comments."""
import os
import numpy as np
from hypothesis import strategies as st
from vlib import gens as g, cmp
from vlib.core import Component, Violation, require

RULE = 'wnd/series: at least two rows and varying values; step: at least two speeds'
ASSUMPTIONS = ['TurbSim user time series: the columns are the components of point 1, then of point 2, ... (TurbSim user guide); values are written with 8 decimals',
               'step wind: times are multiples of the time step of the ramps; the number of comment lines of .wnd files is below 100']
NAMES = ['Time_[s]', 'WindSpeed_[m/s]', 'WindDir_[deg]', 'VertSpeed_[m/s]', 'HorizShear_[-]', 'VertShear_[-]', 'LinVShear_[-]', 'GustSpeed_[m/s]']
COMMENTS = ['! Deterministic Wind file ', '! Time\tWind\tWind\tVert.\tHoriz.\tVert.\tLinV\tGust', '!\tSpeed\tDir\tSpeed\tShear\tShear\tShear\tSpeed', '!', '!a, b; c', '! 1 2 3 4 5 6 7 8', '!Time  Wind', '! --- caf\xe9']


# ------------------------------------------------------------------ .wnd
@st.composite
def wnd(draw):
    f = st.fixed_dictionaries(dict(n=st.integers(1, 12), com=st.lists(st.sampled_from(COMMENTS), max_size=4), spec=g.specs(), dt=st.sampled_from([0.1, 1.0, 20.05, 0.0125]),
                                   fmt=st.sampled_from(['%.4f', '%r', '%10.3e', '%g']), sep=st.sampled_from([' ', '   ', '\t', ' \t ']), lead=st.sampled_from(['', ' ', '\t']), trail=st.sampled_from(['', ' ']),
                                   crlf=st.booleans(), eof=st.booleans(), tail=st.booleans()))
    return {'files': draw(st.lists(f, min_size=1, max_size=3)), 'entry': draw(st.sampled_from(['weio', 'class', 'same'])), 'edit': draw(st.booleans()), 'again': draw(st.booleans())}


def wnd_text(f):
    M = g.build((f['n'], 8), f['spec'])
    M[:, 0] = np.arange(f['n']) * f['dt']
    rows = [[f['fmt'] % float(x) for x in r] for r in M]
    L = list(f['com']) + [f['lead'] + f['sep'].join(r) + f['trail'] + ('  ! remark' if f['tail'] and i == 1 else '') for i, r in enumerate(rows)]
    nl = '\r\n' if f['crlf'] else '\n'
    return nl.join(L) + ('' if f['eof'] else nl), np.array([[float(x) for x in r] for r in rows])


def same(F, M, what, rtol=1e-12):
    df = F.toDataFrame()
    cmp.list_eq([str(c) for c in df.columns], NAMES, what + ' column names')
    cmp.arr_close(df.values, M, rtol, 0, what + ' values')


def check_wnd(c, ctx):
    import weio
    from weio.fast_wind_file import FASTWndFile
    F = FASTWndFile() if c['entry'] == 'same' else None
    n = 0
    for i, f in enumerate(c['files']):
        text, M = wnd_text(f)
        p = ctx.path('w%d.wnd' % i)
        with open(p, 'w', newline='', encoding='utf-8') as h:
            h.write(text)
        if c['entry'] == 'weio':
            F = weio.read(p)
            require(type(F).__name__ == 'FASTWndFile', 'weio.read gives a %s', type(F).__name__)
        elif c['entry'] == 'class':
            F = FASTWndFile(p)
        else:
            F.read(p)
        same(F, M, 'read')
        if c['edit']:
            M = M * 1.25
            F.data.iloc[:, :] = M
        for k in range(2 if c['again'] else 1):
            q = ctx.path('o%d_%d.wnd' % (i, k))
            F.write(q)
            with open(q, encoding='utf-8') as h:
                L = h.read().splitlines()
            com = [l for l in L if l.strip().startswith('!')]
            require(L[:len(com)] == com, 'written: comments first')
            for l in f['com']:
                require(l.strip() in [x.strip() for x in com], 'written: the comment %r is lost', l)
            rows = [l.split() for l in L[len(com):]]
            try:
                V = np.array([[float(x) for x in r] for r in rows])
            except ValueError:
                raise Violation('written: lines below the comments are not 8 numbers: %r' % (L[len(com)],))
            require(V.shape == M.shape, 'written: %s values instead of %s', V.shape, M.shape)
            cmp.arr_close(V, M, 1e-12, 0, 'written values')
            G = FASTWndFile(q) if k == 0 else weio.read(q)
            same(G, M, 'written and read', 1e-12)
            same(F, M, 'the object that was written', 1e-12)
            F = G
        n += len(M) > 1 and np.ptp(M[:, 1:]) > 0
        ctx.label('%d comments' % len(f['com']))
    ctx.label(c['entry'])
    ctx.nontrivial(n > 0)


# ------------------------------------------------------------------ step wind
@st.composite
def step(draw):
    n = draw(st.integers(1, 12))
    dws = draw(st.sampled_from([1, 2, 0.5, 0.1, 0.3, 3]))
    ws0 = draw(st.sampled_from([3, 4, 5.5, 0.1, 11.4]))
    extra = draw(st.sampled_from([0, 0, 0, 0.4])) * dws
    return {'ws': dws, 'min': ws0, 'max': ws0 + (n - 1) * dws + extra, 'n': n, 'dt': draw(st.sampled_from([0.5, 0.1, 1, 0.05, 0.001])), 't0': draw(st.sampled_from([0, 10, 100])),
            't': draw(st.sampled_from([100, 20, 60.5, [200, 50], [20, 20], [30, 90]])), 'tmax': draw(st.sampled_from([0, 999, 100, 5000])), 'first': draw(st.booleans())}


def check_step(c, ctx):
    from weio.fast_wind_file import FASTWndFile
    F = FASTWndFile()
    if c['first']:
        F.stepWind()
    F.stepWind(WSstep=c['ws'], WSmin=c['min'], WSmax=c['max'], tstep=c['t'], dt=c['dt'], tmin=c['t0'], tmax=c['tmax'])
    n = c['n']
    WS = c['min'] + c['ws'] * np.arange(n)
    dur = np.around(np.linspace(c['t'][0], c['t'][1], n), 0) if isinstance(c['t'], list) else np.full(n, float(c['t']))
    start = c['t0'] + np.concatenate(([0], np.cumsum(dur)))[:n]
    end = start + dur
    end[-1] = max(end[-1], c['tmax'])

    def verify(df, what):
        cmp.list_eq([str(x) for x in df.columns], NAMES, what + ' column names')
        M = df.values
        t, u = M[:, 0].astype(float), M[:, 1].astype(float)
        require((np.diff(t) >= -1e-9).all(), '%s: time decreases: %r', what, t)
        require(abs(t[0] - c['t0']) < 1e-9 and abs(t[-1] - end[-1]) < 1e-6, '%s: from %r to %r instead of %r to %r', what, t[0], t[-1], c['t0'], end[-1])
        require(u.min() >= c['min'] - 1e-9 and u.max() <= c['max'] + 1e-9, '%s: speeds from %r to %r, outside of %r to %r', what, u.min(), u.max(), c['min'], c['max'])
        for i in range(n):
            a, b = start[i], end[i] - (c['dt'] if i < n - 1 else 0)
            for x in (a + 1e-6, (a + b) / 2, b - 1e-6):
                y = np.interp(x, t, u)
                require(abs(y - WS[i]) < 1e-4 * max(c['ws'] / c['dt'], 1), '%s: speed %r at time %r instead of %r', what, y, x, WS[i])
            if i < n - 1:
                y = np.interp(end[i] - c['dt'] / 2, t, u)
                require(abs(y - (WS[i] + WS[i + 1]) / 2) < 1e-6, '%s: speed %r in the middle of ramp %d instead of %r', what, y, i, (WS[i] + WS[i + 1]) / 2)
        require(not M[:, 2:].astype(float).any(), '%s: other columns are not zero', what)

    verify(F.toDataFrame(), 'step wind')
    p = ctx.path('s.wnd')
    F.write(p)
    G = FASTWndFile(p)
    verify(G.toDataFrame(), 'step wind written and read')
    G.stepWind(WSstep=c['ws'], WSmin=c['min'], WSmax=c['max'], tstep=c['t'], dt=c['dt'], tmin=c['t0'], tmax=c['tmax'])
    verify(G.toDataFrame(), 'step wind set in a file that was read')
    ctx.nontrivial(n > 1)


# ------------------------------------------------------------------ TurbSim user time series
TITLES = ['All components of the wind', 'Number of points: 3', '3 components, 2 points', 'compressed', '', '! comment', '(s) (m/s)', 'Time Series', '1 2 3', 'caf\xe9', 'M\udcf8lle']

@st.composite
def series(draw):
    f = st.fixed_dictionaries(dict(ncomp=st.integers(1, 3), np=st.integers(1, 15), n=st.integers(1, 12), id=st.integers(1, 15), spec=g.specs(), tiny=st.sampled_from([1, 1, 1, 1e-101, 1e103, -1]), dt=st.sampled_from([0.01, 0.05, 1.0]), y=st.lists(st.one_of(g.finite(-100, 100, 2), g.finite(-100, 100, 2), st.sampled_from([1.2345678e-5, -3.25e-9, 12345.678, -1e-120])), min_size=15, max_size=15),
                                   z=st.lists(g.finite(0, 200, 2), min_size=15, max_size=15), head=st.sampled_from([0, 1, 3, 3, 3]), fmt=st.sampled_from(['%.9f', '%r', '%12.5e']), sep=st.sampled_from(['\t', '  ']), case=st.booleans(), title=st.one_of(g.phrase(), st.just('a title of many words ' * 4), st.sampled_from(TITLES)), tail=st.booleans()))
    return {'files': draw(st.lists(f, min_size=1, max_size=3)), 'entry': draw(st.sampled_from(['weio', 'class', 'same'])), 'edit': draw(st.booleans())}


def ts_names(f, unit='_[m/s]'):
    return ['Time_[s]'] + ['Point%d%s%s' % (i + 1, 'uvw'[j], unit) for i in range(f['np']) for j in range(f['ncomp'])]


def ts_text(f):
    m = f['ncomp'] * f['np']
    M = g.build((f['n'], 1 + m), f['spec'])
    M *= f['tiny']
    M[:, 0] = np.arange(f['n']) * f['dt']
    rows = [[f['fmt'] % float(x) for x in r] for r in M]
    head = ['--------------TurbSim v2.00.* User Time Series Input File-----------------------', f['title'], '-' * 80][:f['head']]
    k = 'ncomp' if f['case'] else 'nComp'
    L = head + ['          %d %s - Number of velocity components in the file' % (f['ncomp'], k), '          %d nPoints - Number of time series points' % f['np'], '          %d RefPtID - Index of the reference point (1-nPoints)' % f['id'],
                '     Pointyi Pointzi ! nPoints listed in order of increasing height', '       (m)     (m)']
    P = np.array([[f['y'][i], f['z'][i]] for i in range(f['np'])])
    L += ['       %r   %r' % tuple(r) for r in P.tolist()]
    L += ['--------Time Series-------------------------------------------------------------', 'Elapsed Time   ' + '   '.join('Point%02d%s' % (i + 1, 'uvw'[j]) for i in range(f['np']) for j in range(f['ncomp'])),
          '   (s)   ' + '  (m/s)' * m]
    L += [f['sep'].join(r) for r in rows]
    return '\n'.join(L) + ('\n\n' if f['tail'] else '\n'), P, np.array([[float(x) for x in r] for r in rows]), head


def check_series(c, ctx):
    import weio
    from weio.turbsim_ts_file import TurbSimTSFile
    F = TurbSimTSFile() if c['entry'] == 'same' else None
    nt = 0
    for i, f in enumerate(c['files']):
        text, P, M, head = ts_text(f)
        p = ctx.path('t%d.txt' % i)
        with open(p, 'w', errors='surrogateescape') as h:
            h.write(text)
        if c['entry'] == 'weio':
            F = weio.read(p)
            require(type(F).__name__ == 'TurbSimTSFile', 'weio.read gives a %s', type(F).__name__)
        elif c['entry'] == 'class':
            F = TurbSimTSFile(p)
        else:
            F.read(p)

        def verify(F, what, tol):
            require(F['nComp'] == f['ncomp'] and F['ID'] == f['id'], '%s: nComp, RefPtID', what)
            cmp.arr_close(F['Points'], P, 1e-7, 0, what + ' points')
            dfs = F.toDataFrame()
            cmp.list_eq(sorted(dfs), ['Points', 'TimeSeries'], what + ' tables')
            cmp.list_eq([str(x) for x in dfs['Points'].columns], ['PointYi', 'PointZi'], what + ' columns of the table of points')
            cmp.arr_close(dfs['Points'].values, P, 1e-7, 0, what + ' table of points')
            cmp.list_eq([str(x) for x in dfs['TimeSeries'].columns], ts_names(f), what + ' column names')
            cmp.arr_close(dfs['TimeSeries'].values, M, tol, 0, what + ' values')
            cmp.list_eq([h.strip() for h in F['header']], [h.strip() for h in head], what + ' header')

        verify(F, 'read', 1e-15)
        if c['edit']:
            M = M.copy()
            M[:, 1:] = M[:, 1:] * 1.5 - 1
            F['data'][:, 1:] = M[:, 1:]
        q = ctx.path('o%d.txt' % i)
        F.write(q)
        G = TurbSimTSFile(q)
        verify(G, 'written and read', 1e-7)
        q2 = ctx.path('o%d_2.txt' % i)
        G.write(q2)
        with open(q, 'rb') as h1, open(q2, 'rb') as h2:
            require(h1.read() == h2.read(), 'writing what was written gives another file')
        with open(q, errors='surrogateescape') as h:
            L = h.read().splitlines()
        k = len(head)
        require([l.split()[0] for l in L[k:k + 3]] == [str(f['ncomp']), str(f['np']), str(f['id'])] and [l.split()[1].lower() for l in L[k:k + 3]] == ['ncomp', 'npoints', 'refptid'], 'written sizes %r', L[k:k + 3])
        cmp.arr_close(np.array([[float(x) for x in l.split()] for l in L[k + 8 + f['np']:]]), M, 1e-7, 0, 'written values')
        nt += f['n'] > 1 and np.ptp(M[:, 1:]) > 0
        ctx.label('%d points' % f['np'], '%d components' % f['ncomp'])
    ctx.nontrivial(nt > 0)


COMPONENTS = [
    Component('wnd', wnd(), check_wnd, quick=500, thorough=4000, shards=3),
    Component('step', step(), check_step, quick=400, thorough=2000, shards=2),
    Component('series', series(), check_series, quick=500, thorough=4000, shards=3),
]
