"""C08: querying a turbulence box never changes it; extraction, scaling and mirroring do what they say."""
import copy
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vlib.core import Component, require, Violation
from vlib import gens as g, cmp
from weio.turbsim_file import TurbSimFile
from weio.mannbox_file import MannBoxFile
import weio

RULE = ('Histories of 1..8 operations (point/plane/profile extraction, tables, spectra, correlations, scaling, mirroring, write/re-read) on generated boxes, '
        'each step compared with a numpy model of the field; non-trivial: at least one query and one later check of the field, on a box with unequal dimensions.')
ASSUMPTIONS = ['boxes with at least 2 points per direction', 'scaling needs a point with non-zero variance']


def fl(lo, hi):
    return st.floats(lo, hi, allow_nan=False).map(lambda x: round(x, 3))


op = st.one_of(
    st.fixed_dictionaries(dict(op=st.just('valuesAt'), y=fl(-40, 40), z=fl(-5, 120))),
    st.fixed_dictionaries(dict(op=st.just('hplane'), by=st.sampled_from(['mid', 'z', 'i']), z=fl(0, 100), i=st.integers(0, 5), rm=st.booleans())),
    st.fixed_dictionaries(dict(op=st.just('vplane'), by=st.sampled_from(['mid', 'y', 'i']), y=fl(-30, 30), i=st.integers(0, 5), rm=st.booleans())),
    st.fixed_dictionaries(dict(op=st.just('vertProfile'), span=st.sampled_from(['full', 'mid']))),
    st.fixed_dictionaries(dict(op=st.just('toDataFrame'))),
    st.fixed_dictionaries(dict(op=st.sampled_from(['crosscorr_y', 'crosscorr_z']), ref=st.booleans(), iy=st.integers(0, 5), iz=st.integers(0, 5))),
    st.fixed_dictionaries(dict(op=st.sampled_from(['csd_longi', 'csd_lat', 'csd_vert']), ref=st.booleans(), a=st.integers(0, 5), b=st.integers(0, 5))),
    st.fixed_dictionaries(dict(op=st.just('hub'), zHub=st.sampled_from([None, 20.0]))),
    st.fixed_dictionaries(dict(op=st.just('repr'))),
    st.fixed_dictionaries(dict(op=st.just('checkPeriodic'))),
    st.fixed_dictionaries(dict(op=st.just('probes'), y=st.lists(fl(-20, 20), min_size=1, max_size=2), z=st.lists(fl(0, 60), min_size=1, max_size=2))),
    st.fixed_dictionaries(dict(op=st.just('scale'), mean=st.sampled_from([None, 8.0, -2.0]), std=st.sampled_from([None, 0.5, 3.0]), comp=st.integers(0, 2),
                               ref=st.sampled_from(['mid', 'point']), y=fl(-20, 20), z=fl(0, 60))),
    st.fixed_dictionaries(dict(op=st.just('makePeriodic'))),
    st.fixed_dictionaries(dict(op=st.just('write'))),
)


@st.composite
def cases(draw):
    return dict(ny=draw(st.integers(2, 6)), nz=draw(st.integers(2, 6)), nt=draw(st.integers(3, 20)), ntw=draw(st.integers(0, 3)), seed=draw(st.integers(0, 10 ** 6)),
                dy=draw(st.sampled_from([1.0, 5.0, 10.0])), dz=draw(st.sampled_from([2.0, 5.0, 20.0])), z0=draw(st.sampled_from([0.0, 10.0])), base=draw(st.sampled_from([0.0, 10.0, 25.0])),
                ops=draw(st.lists(op, min_size=1, max_size=8)))


def nearest(grid, v):
    d = np.abs(grid - v)
    return np.flatnonzero(d <= d.min() + 1e-9)


def mid(grid):
    return nearest(grid, (grid[0] + grid[-1]) / 2)


def one_of(got, options, what, tol):
    errs = []
    for o in options:
        try:
            for k in range(len(o)):
                cmp.arr_close(got[k], o[k], 0, tol, '%s[%d]' % (what, k))
            return
        except Violation as e:
            errs.append(e)
    raise errs[0]


def corr(a, b):
    return np.mean((a - a.mean()) * (b - b.mean())) / (a.std() * b.std())


def check(c, ctx):
    rs = np.random.RandomState(c['seed'])
    u = rs.normal(0, 1.5, (3, c['nt'], c['ny'], c['nz']))
    u[0] += c['base'] + np.arange(c['nz']) * 0.3
    tw = rs.normal(0, 1, (3, c['nt'], c['ntw']))
    y = (np.arange(c['ny']) - (c['ny'] - 1) / 2.) * c['dy']
    z = c['z0'] + np.arange(c['nz']) * c['dz']
    dt = 0.25
    T = TurbSimFile()
    T['u'], T['uTwr'], T['y'], T['z'], T['t'], T['dt'], T['ID'], T['info'] = u.copy(), tw.copy(), y.copy(), z.copy(), np.arange(c['nt']) * dt, dt, 7, 'x'
    T['zTwr'] = c['z0'] - np.arange(c['ntw']) * c['dz']
    t = T['t'].copy()
    ID = 7
    tol = 1e-9 * (1 + np.abs(u).max())
    import scipy.signal as sig
    for o in c['ops']:
        k = o['op']
        ctx.label(k)
        if k == 'valuesAt':
            got = T.valuesAt(o['y'], o['z'])
            one_of(got, [[u[i, :, iy, iz] for i in range(3)] for iy in nearest(y, o['y']) for iz in nearest(z, o['z'])], 'valuesAt', tol)
            iy, iz = T.closestPoint(o['y'], o['z'])
            require(iy in nearest(y, o['y']) and iz in nearest(z, o['z']), 'closestPoint(%s,%s) = %s,%s', o['y'], o['z'], iy, iz)
        elif k in ('hplane', 'vplane'):
            kw = dict(removeMean=o['rm'])
            grid, v = (z, o.get('z')) if k == 'hplane' else (y, o.get('y'))
            if o['by'] == 'mid':
                I = mid(grid)
            elif o['by'] == 'i':
                i = o['i'] % len(grid)
                kw['iz0' if k == 'hplane' else 'iy0'] = i
                I = [i]
            else:
                kw['z' if k == 'hplane' else 'y'] = v
                I = nearest(grid, v)
            got = T.horizontalPlane(**kw) if k == 'hplane' else T.verticalPlane(**kw)
            opts = []
            for i in I:
                P = [u[m][:, :, i] if k == 'hplane' else u[m][:, i, :] for m in range(3)]
                opts.append([p - p.mean() if o['rm'] else p for p in P])
            one_of(got, opts, k, tol)
        elif k == 'vertProfile':
            zz, m, s = T.vertProfile(y_span=o['span'])
            cmp.arr_eq(zz, z, 'heights of the profile')
            if o['span'] == 'full':
                cmp.arr_close(m, u.mean(axis=(1, 2)), 0, tol, 'mean profile')
                cmp.arr_close(s, u.std(axis=1).mean(axis=1), 0, tol, 'profile of standard deviations')
            else:
                one_of([m, s], [[u[:, :, iy, :].mean(axis=1), u[:, :, iy, :].std(axis=1)] for iy in mid(y)], 'mid profile', tol)
        elif k == 'toDataFrame':
            dfs = T.toDataFrame()
            iy, iz = T.iMid
            require(iy in mid(y) and iz in mid(z), 'mid index')
            for name, jy in (('ZMidLine', iy), ('ZMidYStartLine', 0), ('ZMidYEndLine', len(y) - 1)):
                cmp.arr_close(dfs[name].values, np.column_stack([t, u[0, :, jy, iz], u[1, :, jy, iz], u[2, :, jy, iz]]), 0, tol, 'table ' + name)
            mp, sp = u.mean(axis=(1, 2)), u.std(axis=1).mean(axis=1)
            cmp.arr_close(dfs['VertProfile'].values[:, :7], np.column_stack([z] + list(mp) + list(sp)), 0, tol, 'table VertProfile')
            with np.errstate(all='ignore'):
                ti, ok = 100 * sp[0] / mp[0], np.abs(mp[0]) > 1e-3 * np.abs(u).max()
            cmp.arr_close(dfs['VertProfile'].values[ok, 7], ti[ok], 1e-4, 1e-4, 'turbulence intensity')
            e = np.array([[corr(u[m, :, iy, iz], u[m, :, j, iz]) for m in range(3)] for j in range(len(y))])
            cmp.arr_close(dfs['Mid_xcorr_y'].values, np.column_stack([y, e]), 0, 1e-8, 'table Mid_xcorr_y')
            e = np.array([[corr(u[m, :, iy, iz], u[m, :, iy, j]) for m in range(3)] for j in range(len(z))])
            cmp.arr_close(dfs['Mid_xcorr_z'].values, np.column_stack([z, e]), 0, 1e-8, 'table Mid_xcorr_z')
            for name, L in (('Mid_csd_longi', u[:, :, iy, iz]), ('Mid_csd_lat', u[:, len(t) // 2, :, iz]), ('Mid_csd_vert', u[:, len(t) // 2, iy, :])):
                S = [sig.csd(L[m] - L[m].mean(), L[m] - L[m].mean(), fs=1 / dt, scaling='density') for m in range(3)]
                V = np.real(dfs[name].values)
                cmp.arr_close(V[:, 0], S[0][0], 1e-9, 1e-12, 'frequencies of ' + name)
                cmp.arr_close(V[:, 1:], np.column_stack([np.real(x[1]) for x in S]), 1e-6, 1e-9, 'table ' + name)
            tc, rc, fc = ['t_[s]'] + ['%s_[m/s]' % x for x in 'uvw'], ['rho_%s%s_[-]' % (x, x) for x in 'uvw'], ['f_[Hz]'] + ['chi_%s%s_[-]' % (x, x) for x in 'uvw']
            for name, cols in (('VertProfile', ['z_[m]'] + tc[1:] + ['sigma_%s' % x for x in tc[1:]] + ['TI_[%]']), ('ZMidLine', tc), ('ZMidYStartLine', tc), ('ZMidYEndLine', tc), ('Mid_xcorr_y', ['y_[m]'] + rc), ('Mid_xcorr_z', ['z_[m]'] + rc),
                               ('Mid_csd_longi', fc), ('Mid_csd_lat', fc), ('Mid_csd_vert', fc)):
                cmp.list_eq(list(dfs[name].columns), cols, 'columns of ' + name)
        elif k in ('crosscorr_y', 'crosscorr_z'):
            iy, iz = (o['iy'] % len(y), o['iz'] % len(z)) if o['ref'] else T.iMid
            got = getattr(T, k)(iy, iz) if o['ref'] else getattr(T, k)()
            n = len(y) if k.endswith('y') else len(z)
            cmp.arr_eq(got[0], y if k.endswith('y') else z, 'abscissa')
            for m in range(3):
                e = [corr(u[m, :, iy, iz], u[m, :, j, iz] if k.endswith('y') else u[m, :, iy, j]) for j in range(n)]
                cmp.arr_close(got[1 + m], e, 0, 1e-8, k)
        elif k.startswith('csd_'):
            a, b = T.iMid
            ix = len(t) // 2
            if k == 'csd_longi':
                if o['ref']:
                    a, b = o['a'] % len(y), o['b'] % len(z)
                args = dict(iy0=a, iz0=b) if o['ref'] else {}
                L = u[:, :, a, b]
            elif k == 'csd_lat':
                if o['ref']:
                    ix, b = o['a'] % len(t), o['b'] % len(z)
                args = dict(ix0=ix, iz0=b) if o['ref'] else {}
                L = u[:, ix, :, b]
            else:
                if o['ref']:
                    ix, a = o['a'] % len(t), o['b'] % len(y)
                args = dict(ix0=ix, iy0=a) if o['ref'] else {}
                L = u[:, ix, a, :]
            got = getattr(T, k)(**args)
            for m in range(3):
                f, P = sig.csd(L[m] - L[m].mean(), L[m] - L[m].mean(), fs=1 / dt, scaling='density')
                cmp.arr_close(got[0], f, 1e-9, 1e-12, k + ' frequencies')
                cmp.arr_close(np.real(got[1 + m]), np.real(P), 1e-6, 1e-9, k)
        elif k == 'hub':
            zh, uh, b = T.hubValues(**({} if o['zHub'] is None else dict(zHub=o['zHub'])))
            zr = o['zHub'] if o['zHub'] is not None else None
            if 'zRef' not in T:
                ok = False
                for iz0 in (mid(z) if zr is None else nearest(z, zr)):
                    for iy0 in mid(y):
                        ok |= abs(uh - u[0, :, iy0, iz0].mean()) <= tol and abs(zh - (z[iz0] if zr is None else zr)) < 1e-9
                require(ok, 'hub values %s %s', zh, uh)
            zm, um = T.midValues()
            require(any(abs(zm - z[iz0]) < 1e-9 and abs(um - u[0, :, iy0, iz0].mean()) <= tol for iz0 in mid(z) for iy0 in mid(y)), 'mid values')
        elif k == 'repr':
            if c['ntw'] != 1:
                repr(T)
        elif k == 'checkPeriodic':
            d = np.abs(u[0, 0] - u[0, -1])
            r = d / u[0].std(axis=0)
            if abs(r.max() - 1.5) > 1e-6 and abs(d.mean() - 0.5) > 1e-6:
                cmp.eq(bool(T.checkPeriodic()), bool(r.max() < 1.5 and d.mean() < 0.5), 'checkPeriodic')
        elif k == 'probes':
            fn = ctx.path('probes.csv')
            T.writeProbes(fn, o['y'], o['z'])
            M = np.loadtxt(fn, delimiter=',', ndmin=2)
            cols = open(fn).readline()[1:].strip().split(',')
            cmp.eq(M.shape, (len(t), 1 + 3 * len(o['y']) * len(o['z'])), 'probe table size')
            cmp.eq(len(cols), M.shape[1], 'probe column names')
            cmp.arr_close(M[:, 0], t, 1e-9, 1e-9, 'probe time')
            j = 1
            for yy in o['y']:
                for zz in o['z']:
                    one_of([M[:, j], M[:, j + 1], M[:, j + 2]], [[u[i, :, iy, iz] for i in range(3)] for iy in nearest(y, yy) for iz in nearest(z, zz)], 'probe', 1e-9 + tol)
                    j += 3
        elif k == 'scale':
            if o['ref'] == 'mid':
                iy, iz = T.iMid
            else:
                iy, iz = T.closestPoint(o['y'], o['z'])
            m = o['comp']
            if u[m, :, iy, iz].std() < 1e-6:
                continue
            T.scale(new_mean=o['mean'], new_std=o['std'], component=m, reference=o['ref'], y_ref=o['y'], z_ref=o['z'])
            pm = u[m].mean(axis=0)
            om, osd = u[m, :, iy, iz].mean(), u[m, :, iy, iz].std()
            if o['std'] is not None:
                u[m] = (u[m] - pm) * (o['std'] / osd) + pm
            if o['mean'] is not None:
                u[m] = u[m] + (o['mean'] - om)
            tol = 1e-8 * (1 + np.abs(u).max())
            if o['std'] is not None:
                cmp.arr_close(T['u'][m, :, iy, iz].std(), o['std'], 1e-6, 1e-9, 'standard deviation at the reference point')
            if o['mean'] is not None:
                cmp.arr_close(T['u'][m, :, iy, iz].mean(), o['mean'], 1e-6, 1e-7, 'mean at the reference point')
        elif k == 'makePeriodic':
            if len(t) > 200:
                continue
            T.makePeriodic()
            u = np.concatenate([u, u[:, -2:0:-1]], axis=1)
            tw = np.concatenate([tw, tw[:, -2:0:-1]], axis=1)
            t = np.arange(u.shape[1]) * dt
            ID = 8
        elif k == 'write':
            fn = ctx.path('q.bts')
            T.write(fn)
            R = TurbSimFile(fn)
            for m in range(3):
                a = np.concatenate([u[m].ravel(), tw[m].ravel()])
                q = 1.1 * (a.max() - a.min()) / 65535. + 1e-5 * np.abs(a).max()
                cmp.arr_close(R['u'][m], u[m], 0, q, 'field written after the history')
                cmp.arr_close(R['uTwr'][m], tw[m], 0, q, 'tower field written after the history')
            cmp.eq(R['ID'], ID, 'ID written')
        # --- invariant after every step
        cmp.arr_close(T['u'], u, 0, tol, 'field after %s' % k)
        cmp.arr_close(T['uTwr'], tw, 0, tol, 'tower field after %s' % k)
        cmp.arr_close(T['t'], t, 1e-12, 1e-12, 't after %s' % k)
        cmp.arr_eq(T['y'], y, 'y after %s' % k)
        cmp.arr_eq(T['z'], z, 'z after %s' % k)
        cmp.eq(T['ID'], ID, 'ID after %s' % k)
    ctx.nontrivial(c['ny'] != c['nz'])


@st.composite
def mann_cases(draw):
    return dict(N=[draw(st.integers(2, 12)), draw(st.integers(1, 6)), draw(st.integers(1, 6))], seed=draw(st.integers(0, 10 ** 6)), dy=draw(st.sampled_from([1.0, 5.0])),
                dz=draw(st.sampled_from([2.0, 10.0])), z0=draw(st.sampled_from([0.0, 10.0])), q=draw(st.lists(st.tuples(fl(-20, 20), fl(0, 60)).map(list), min_size=1, max_size=4)))


def check_mann(c, ctx):
    nx, ny, nz = c['N']
    f = (np.random.RandomState(c['seed']).normal(5, 1, c['N'])).astype(np.float32)
    M = MannBoxFile()
    M['field'], M['dy'], M['dz'], M['y0'], M['z0'], M['zMid'] = f.copy(), c['dy'], c['dz'], None, c['z0'], None
    y = (np.arange(ny) - (ny - 1) / 2.) * c['dy']
    z = c['z0'] + np.arange(nz) * c['dz']
    for yy, zz in c['q']:
        one_of([M.valuesAt(yy, zz)], [[f[:, iy, iz]] for iy in nearest(y, yy) for iz in nearest(z, zz)], 'valuesAt', 0)
    zz, m, s = M.vertProfile
    cmp.arr_close(zz, z, 1e-9, 1e-9, 'profile z')
    one_of([m, s], [[f[:, iy, :].mean(axis=0), f[:, iy, :].std(axis=0)] for iy in set([ny // 2, (ny - 1) // 2])], 'profile', 1e-5)
    dfs = M.toDataFrame()
    for name, opts in (('ZMidLine', set([ny // 2, (ny - 1) // 2])), ('ZMidYStartLine', [0]), ('ZMidYEndLine', [ny - 1])):
        cmp.list_eq(list(dfs[name].columns), ['t/T_[-]', 'vel_[m/s]'], 'columns of ' + name)
        cmp.arr_close(dfs[name].values[:, 0], np.arange(nx) / (nx - 1.), 1e-9, 1e-12, 'relative time')
        one_of([dfs[name].values[:, 1]], [[f[:, iy, iz]] for iy in opts for iz in set([nz // 2, (nz - 1) // 2])], 'table ' + name, 0)
    V = dfs['VertProfile']
    cmp.list_eq(list(V.columns), ['z_[m]', 'vel_[m/s]', 'sigma_[m/s]', 'TI_[%]'], 'columns of VertProfile')
    cmp.arr_close(V.values[:, :3], np.column_stack([zz, m, s]), 1e-9, 1e-9, 'table VertProfile')
    with np.errstate(all='ignore'):
        cmp.arr_close(V.values[:, 3], s / m * 100, 1e-5, 1e-9, 'turbulence intensity')
    repr(M)
    cmp.arr_eq(M['field'], f, 'field after queries')
    ctx.nontrivial(ny != nz)


@st.composite
def law_cases(draw):
    return dict(nz=draw(st.integers(3, 8)), ny=draw(st.integers(2, 4)), alpha=draw(st.sampled_from([0.0, 0.1, 0.2, 0.33])), U=draw(st.sampled_from([5.0, 10.0, 18.0])),
                z0=draw(st.sampled_from([10.0, 20.0])), dz=draw(st.sampled_from([5.0, 15.0])), zref=draw(st.sampled_from([None, 60.0])), span=draw(st.sampled_from(['full', 'mid'])))


def check_law(c, ctx):
    z = c['z0'] + np.arange(c['nz']) * c['dz']
    zr = c['zref'] or (z[0] + z[-1]) / 2
    prof = c['U'] * (z / zr) ** c['alpha']
    T = TurbSimFile()
    nt = 4
    u = np.zeros((3, nt, c['ny'], c['nz']))
    u[0] = prof
    u[0, ::2] += 0.5
    u[0, 1::2] -= 0.5
    T['u'], T['z'], T['y'], T['t'] = u.copy(), z, np.arange(c['ny']) - (c['ny'] - 1) / 2., np.arange(nt) * 1.0
    y_fit, pfit, model, zz = T.fitPowerLaw(z_ref=c['zref'], y_span=c['span'])
    cmp.arr_close(zz, zr, 1e-12, 0, 'reference height')
    cmp.arr_close(pfit, [c['U'], c['alpha']], 1e-4, 1e-4, 'fitted speed and exponent')
    cmp.arr_close(y_fit, prof, 1e-4, 1e-4, 'fitted profile')
    cmp.arr_close(model['fitted_function'](z), prof, 1e-4, 1e-4, 'fitted function')
    cmp.arr_eq(T['u'], u, 'field after the fit')


COMPONENTS = [
    Component('histories', cases(), check, 500, 12000),
    Component('mann_queries', mann_cases(), check_mann, 250, 4000),
    Component('power_law', law_cases(), check_law, 60, 300),
]
