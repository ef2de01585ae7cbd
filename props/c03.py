"""C03: OpenFAST blade, tower, airfoil, BeamDyn, SubDyn and super-element files: content, consistency of sizes, derived columns."""
import copy
import numpy as np
from hypothesis import strategies as st
from vlib.core import Component, require
from vlib import gens as g, cmp
from props.c01 import write_text
from weio.fast_input_file import FASTInputFile, EDBladeFile, ADBladeFile, ADPolarFile, ExtPtfmFile, FASTInputFileBase
import weio

RULE = ('Files of each layout with generated numbers of stations (2..30), tables, modes, Reynolds tables and matrices; tables are then replaced by ones of another '
        'size and written; non-trivial: the table has at least 3 distinct rows.')
ASSUMPTIONS = ['numbers in tables have at most 9 significant digits (the format written)', 'at least two blade nodes', 'derived columns as described in OpenFAST documentation: mode shapes are polynomials of degree 2 to 6, normal coefficient Cl cos + Cd sin']

num = st.one_of(g.finite(-1e5, 1e5), g.finite(-1, 1), st.integers(-99, 99).map(float)).map(lambda x: g.sig(x, 8))


def mat(n, m, spec):
    a = g.build((n, m), spec)
    return np.array([[g.sig(x, 8) for x in r] for r in a]).reshape(n, m)


def rows(a, fmt='%.8e'):
    return '\n'.join('  '.join(fmt % x for x in r) for r in a)


TITLE = st.sampled_from(['NREL 5.0 MW offshore baseline blade input properties.', 'Title', 'Blade of the DTU-10MW (2013), v2', '! a comment', '--- dashes ---', 'x y'])
DESC = '- some description (-)'


def coeffs(names):
    return ['%s(%d)' % (s, i) for s in names for i in range(2, 7)]


def poly(x, f, s):
    return sum(x ** k * f['%s(%d)' % (s, k)] for k in range(2, 7))


# ------------------------------------------------------------------ ElastoDyn blade and tower
@st.composite
def ed_cases(draw):
    n = draw(st.integers(2, 30))
    return dict(n=n, n2=draw(st.integers(2, 20)), spec=draw(g.specs(kinds=['ramp', 'rand', 'steps', 'sine'])), title=draw(TITLE), tower=draw(st.booleans()),
                pars=draw(st.lists(num, min_size=11, max_size=11)), shp=draw(st.lists(num, min_size=20, max_size=20)),
                ndup=draw(st.booleans()), how=draw(st.sampled_from(['generic', 'dedicated', 'read', 'weio'])), comment=draw(st.sampled_from(['New comment', 'Edited by me, v2 (2020)', '10 x'])))


def ed_text(c):
    L = ['------- ELASTODYN V1.00.* INPUT FILE --------------------------', c['title'], '---------------------- PARAMETERS ----------------------------------------']
    if c['tower']:
        dim, cols, units = 'NTwInpSt', ['HtFract', 'TMassDen', 'TwFAStif', 'TwSSStif'], ['(-)', '(kg/m)', '(Nm^2)', '(Nm^2)']
        par = ['TwrFADmp(1)', 'TwrFADmp(2)', 'TwrSSDmp(1)', 'TwrSSDmp(2)', 'FAStTunr(1)', 'FAStTunr(2)', 'SSStTunr(1)', 'SSStTunr(2)', 'AdjTwMa', 'AdjFASt', 'AdjSSSt']
        shp = coeffs(['TwFAM1Sh', 'TwFAM2Sh', 'TwSSM1Sh', 'TwSSM2Sh'])
        tab = 'TowProp'
    else:
        dim, cols, units = 'NBlInpSt', ['BlFract', 'PitchAxis', 'StrcTwst', 'BMassDen', 'FlpStff', 'EdgStff'], ['(-)', '(-)', '(deg)', '(kg/m)', '(Nm^2)', '(Nm^2)']
        par = ['BldFlDmp(1)', 'BldFlDmp(2)', 'BldEdDmp(1)', 'FlStTunr(1)', 'FlStTunr(2)', 'AdjBlMs', 'AdjFlSt', 'AdjEdSt']
        shp = coeffs(['BldFl1Sh', 'BldFl2Sh', 'BldEdgSh'])
        tab = 'BldProp'
    T = mat(c['n'], len(cols), c['spec'])
    T[:, 0] = [g.sig(x, 8) for x in np.linspace(0, 1, c['n'])]
    L.append('%d  %s %s' % (c['n'], dim, DESC))
    vals = {}
    for k, v in zip(par, c['pars']):
        L.append('%r   %s  %s' % (v, k, DESC))
        vals[k] = v
    L.append('---------------------- DISTRIBUTED PROPS ----------------------------')
    L += ['  '.join(cols), '  '.join(units), rows(T, '%.7E')]
    T = np.array([[float('%.7E' % x) for x in r] for r in T])
    L.append('---------------------- MODE SHAPES ---------------------------------------')
    for k, v in zip(shp, c['shp']):
        L.append('%r   %s  %s' % (v, k, DESC))
        vals[k] = v
    return '\n'.join(L) + '\n', dim, tab, cols, units, par + shp, vals, T


def load(cls, p, how):
    if how == 'generic' or cls is None:
        return FASTInputFile(p)
    if how == 'weio':
        f = weio.read(p)
        require(type(f).__name__ == 'FASTInputFile', 'detected as %s', type(f).__name__)
        return f
    if how == 'dedicated':
        return cls(p)
    f = cls()
    f.read(p)
    return f


def check_ed(c, ctx):
    text, dim, tab, cols, units, names, vals, T = ed_text(c)
    p = ctx.path('a.dat')
    write_text(p, text)
    cls = None if c['tower'] else EDBladeFile

    def verify(f, T, what, rtol=0.0):
        require(f[dim] == T.shape[0], '%s: %s is %r for %d stations', what, dim, f[dim], T.shape[0])
        cmp.arr_close(f[tab], T, rtol, 0, what + ' ' + tab)
        for k in names:
            require(f[k] == vals[k], '%s: %s is %r, expected %r', what, k, f[k], vals[k])
        got = [k for k in f.keys() if k in set(names) | {dim, tab}]
        cmp.list_eq(got, [dim] + names[:len(names) - len([n for n in names if 'Sh(' in n])] + [tab] + [n for n in names if 'Sh(' in n], what + ' keys')
        df = f.toDataFrame()
        full = ['%s_%s' % (a, u.replace('(', '[').replace(')', ']')) for a, u in zip(cols, units)]
        shapes = [('ShapeForeAft1_[-]', 'TwFAM1Sh'), ('ShapeForeAft2_[-]', 'TwFAM2Sh'), ('ShapeSideSide1_[-]', 'TwSSM1Sh'), ('ShapeSideSide2_[-]', 'TwSSM2Sh')] if c['tower'] else \
                 [('ShapeFlap1_[-]', 'BldFl1Sh'), ('ShapeFlap2_[-]', 'BldFl2Sh'), ('ShapeEdge1_[-]', 'BldEdgSh')]
        cmp.list_eq(df.columns, full + [s[0] for s in shapes], what + ' columns')
        cmp.arr_close(df[full].values, T, rtol, 0, what + ' table')
        for col, s in shapes:
            exp = poly(T[:, 0], vals, s)
            cmp.arr_close(df[col].values, exp, 1e-9, 1e-9 * (1 + sum(abs(vals['%s(%d)' % (s, k)]) for k in range(2, 7))), what + ' ' + col)

    f = load(cls, p, c['how'])
    verify(f, T, 'read')
    if not c['tower']:
        cmp.eq(f.comment, c['title'], 'comment')
    q = ctx.path('b.dat')
    f.write(q)
    f2 = FASTInputFile(q)
    verify(f2, T, 'after write', 6e-9)
    f2.write(ctx.path('b2.dat'))
    require(open(q).read() == open(ctx.path('b2.dat')).read(), 'second write differs')
    # replace the table by one with another number of stations
    T2 = mat(c['n2'], len(cols), dict(c['spec'], seed=c['spec']['seed'] + 1, kind='rand'))
    T2[:, 0] = [g.sig(x, 8) for x in np.linspace(0, 1, c['n2'])]
    f[tab] = T2
    if c['tower']:
        f[dim] = c['n2']
    else:
        f.comment = c['comment']
    f.write(ctx.path('c.dat'))
    verify(f, T2, 'edited object')
    f3 = FASTInputFile(ctx.path('c.dat'))
    verify(f3, T2, 'edited and written', 6e-9)
    if not c['tower']:
        cmp.eq(f3.comment, c['comment'], 'comment written')
        lines = open(ctx.path('c.dat')).read().split('\n')
        cmp.eq(lines[1].strip(), c['comment'], 'second line of the file')
    elif not c['title'].startswith(('!', '--')):
        pass
    ctx.label(c['how'], 'tower' if c['tower'] else 'blade')
    ctx.nontrivial(len(set(map(tuple, T.tolist()))) >= 3)


# ------------------------------------------------------------------ AeroDyn blade
@st.composite
def ad_cases(draw):
    return dict(n=draw(st.integers(4, 30)), n2=draw(st.integers(4, 20)), spec=draw(g.specs(kinds=['ramp', 'rand', 'steps', 'sine'], scales=[1.0, 5.0, 0.1], bases=[0.0, 3.5, 12.0])), title=draw(TITLE),
                how=draw(st.sampled_from(['generic', 'dedicated', 'read', 'weio'])), comment=draw(st.sampled_from(['New comment', 'Edited by me, v2 (2020)', '10 x'])))


def check_ad(c, ctx):
    cols, units = ['BlSpn', 'BlCrvAC', 'BlSwpAC', 'BlCrvAng', 'BlTwist', 'BlChord', 'BlAFID'], ['(m)', '(m)', '(m)', '(deg)', '(deg)', '(m)', '(-)']

    def mk(n, seed):
        T = mat(n, 7, dict(c['spec'], seed=seed))
        T[:, 0] = [g.sig(x, 8) for x in np.linspace(0, 61.5, n)]
        T[:, 6] = 1 + np.arange(n) // 3
        return T
    T = mk(c['n'], c['spec']['seed'])
    text = '\n'.join(['------- AERODYN v15.00.* BLADE DEFINITION INPUT FILE -------------------------------------', c['title'],
                      '======  Blade Properties =================================================================', '%d   NumBlNds    - Number of blade nodes used in the analysis (-)' % c['n'],
                      '  '.join(cols), '  '.join(units), '\n'.join('  '.join(['%.7E' % x for x in r[:6]] + ['%d' % r[6]]) for r in T)]) + '\n'
    T[:, :6] = [[float('%.7E' % x) for x in r[:6]] for r in T]
    p = ctx.path('a.dat')
    write_text(p, text)

    def verify(f, T, what, rtol=0.0):
        require(f['NumBlNds'] == T.shape[0], '%s: NumBlNds is %r for %d nodes', what, f['NumBlNds'], T.shape[0])
        cmp.arr_close(f['BldAeroNodes'], T, rtol, 0, what)
        df = f.toDataFrame()
        full = ['%s_%s' % (a, u.replace('(', '[').replace(')', ']')) for a, u in zip(cols, units)]
        cmp.list_eq(df.columns[:7], full, what + ' columns')
        cmp.arr_close(df[full].values, T, rtol, 0, what + ' table')
        ac = df['AC_Approx_[-]'].values
        require(np.all((ac >= 0.25 - 1e-12) & (ac <= 0.5 + 1e-12)) and np.all(np.diff(ac) <= 1e-12) and abs(ac[-1] - .25) < 1e-12 or T.shape[0] < 7, 'location of the aerodynamic centre')
        tw = np.deg2rad(T[:, 4])
        d = T[:, 5] * (0.5 - ac)
        cmp.arr_close(df['c2_Crv_Approx_[m]'].values, T[:, 1] + d * np.sin(tw), 1e-7, 1e-6, what + ' c2 prebend')
        cmp.arr_close(df['c2_Swp_Approx_[m]'].values, T[:, 2] + d * np.cos(tw), 1e-7, 1e-6, what + ' c2 sweep')

    f = load(ADBladeFile, p, c['how'])
    verify(f, T, 'read')
    cmp.eq(f.comment, c['title'], 'comment')
    f.write(ctx.path('b.dat'))
    f2 = FASTInputFile(ctx.path('b.dat'))
    verify(f2, T, 'after write', 6e-9)
    cmp.eq(f2.comment, c['title'], 'comment after write')
    f2.write(ctx.path('b2.dat'))
    require(open(ctx.path('b.dat')).read() == open(ctx.path('b2.dat')).read(), 'second write differs')
    T2 = mk(c['n2'], c['spec']['seed'] + 1)
    f['BldAeroNodes'] = T2
    f.comment = c['comment']
    f.write(ctx.path('c.dat'))
    f3 = FASTInputFile(ctx.path('c.dat'))
    verify(f3, T2, 'edited and written', 6e-9)
    cmp.eq(f3.comment, c['comment'], 'comment written')
    # the same from scratch
    s = ADBladeFile()
    s['BldAeroNodes'] = T2
    s.comment = c['comment']
    s.write(ctx.path('d.dat'))
    f4 = FASTInputFile(ctx.path('d.dat'))
    verify(f4, T2, 'from scratch', 6e-9)
    cmp.eq(f4.comment, c['comment'], 'comment from scratch')
    ctx.label(c['how'])
    ctx.nontrivial(c['n'] > 2)


# ------------------------------------------------------------------ AeroDyn airfoils
UA = ['alpha0', 'alpha1', 'alpha2', 'eta_e', 'C_nalpha', 'T_f0', 'T_V0', 'T_p', 'T_VL', 'b1', 'b2', 'b5', 'A1', 'A2', 'A5', 'S1', 'S2', 'S3', 'S4', 'Cn1', 'Cn2', 'St_sh', 'Cd0', 'Cm0', 'k0', 'k1', 'k2', 'k3',
      'k1_hat', 'x_cp_bar', 'UACutout', 'filtCutOff']
UA_EXTRA = ['alphaUpper', 'alphaLower', 'UACutout_delta', 'T_sh']


@st.composite
def polar_cases(draw):
    nt = draw(st.sampled_from([1, 1, 2, 3]))
    uas = draw(st.lists(st.booleans(), min_size=nt, max_size=nt)) if draw(st.integers(0, 2)) == 0 else [True] * nt
    return dict(nt=nt, ncol=draw(st.sampled_from([3, 4, 4])), n=[draw(st.integers(2 if u else 30, 40)) for u in uas], n2=draw(st.integers(2 if all(uas) else 25, 30)), it2=draw(st.integers(0, nt - 1)), order=draw(st.sampled_from(['"DEFAULT"', '3', '1'])),
                ua=uas, extra=draw(st.integers(0, 3)) == 0,
                alpha0=draw(st.lists(st.sampled_from([-2.1, 0.0, -4.25, 1.5]), min_size=nt, max_size=nt)), slope=draw(st.lists(st.sampled_from([6.0, 5.65, 7.1]), min_size=nt, max_size=nt)),
                cd0=draw(st.lists(st.sampled_from([0.01, 0.0321, 0.0]), min_size=nt, max_size=nt)), seed=draw(st.integers(0, 10 ** 6)),
                ctrl=draw(st.sampled_from(['Ctrl', 'UserProp'])), ncom=draw(st.integers(1, 4)), how=draw(st.sampled_from(['generic', 'dedicated', 'read', 'weio'])), note=draw(st.booleans()),
                pre=draw(st.booleans()), prop=draw(st.sampled_from(['re', 'Re'])))


def polar_table(n, ncol, seed):
    rs = np.random.RandomState(seed)
    a = np.linspace(-180 if n > 6 else -20, 180 if n > 6 else 25, n)
    T = np.column_stack([a, rs.uniform(-1.5, 1.5, n), rs.uniform(0, 1.2, n), rs.uniform(-.2, .1, n)])[:, :ncol]
    return np.array([[g.sig(x, 7) for x in r] for r in T])


def polar_text(c):
    cols = ['Alpha', 'Cl', 'Cd', 'Cm'][:c['ncol']]
    L = ['! ------------ AirfoilInfo v1.01.x Input File ----------------------------------']
    L += ['! comment line %d' % i for i in range(c['ncom'])]
    L += ['! ------------------------------------------------------------------------------']
    L += ['%s     InterpOrd     - Interpolation order' % c['order'], '1             NonDimArea    - area', '0             NumCoords     - number of coordinates']
    if c['pre']:
        L += ['"unused"      BL_file       - boundary layer file']
    L += ['%d             NumTabs       - Number of airfoil tables' % c['nt']]
    E = []
    for i in range(c['nt']):
        rs = np.random.RandomState(c['seed'] + i)
        vals = {}
        L += ['! ------------------------------------------------------------------------------', '! data for table %d' % (i + 1), '! ------------------------------------------------------------------------------']
        vals['Re'] = 0.5 + i
        vals[c['ctrl']] = i
        L += ['%r   Re  - Reynolds number in millions' % vals['Re'], '%d   %s - Control setting' % (i, c['ctrl'])]
        vals['InclUAdata'] = c['ua'][i]
        L += ['%s    InclUAdata - Is UA data included?' % c['ua'][i]]
        if c['ua'][i]:
            L.append('!........................................')
            for k in UA + (UA_EXTRA if c['extra'] else []):
                v = {'alpha0': c['alpha0'][i], 'C_nalpha': c['slope'][i], 'Cd0': c['cd0'][i], 'alpha1': 9.5, 'alpha2': -9.25}.get(k)
                if v is None:
                    v = '"DEFAULT"' if k.startswith(('T_', 'b', 'A', 'St', 'x_', 'UA', 'filt')) else round(float(rs.uniform(-2, 2)), 4)
                vals[k] = v
                L.append('%s    %s   - text, (-)' % (v if isinstance(v, str) else repr(v), k))
            L.append('!........................................')
        L.append('! Table of aerodynamics coefficients')
        vals['NumAlf'] = c['n'][i]
        L.append('%d     NumAlf   %s Number of data lines in the following table' % (c['n'][i], '!' if c['note'] else '-'))
        T = polar_table(c['n'][i], c['ncol'], c['seed'] + 10 * i)
        L += ['!  ' + '   '.join(cols), '!  ' + '   '.join(['(deg)', '(-)', '(-)', '(-)'][:c['ncol']]), rows(T, '%.7e')]
        E.append((vals, T))
    return '\n'.join(L) + '\n', E, cols


def check_polar(c, ctx):
    text, E, cols = polar_text(c)
    p = ctx.path('a.dat')
    write_text(p, text)

    def verify(f, what, E, rtol=0.0):
        require(f['NumTabs'] == c['nt'], '%s: NumTabs %r', what, f['NumTabs'])
        n_expected = 0
        for i, (vals, T) in enumerate(E):
            off = '' if c['nt'] == 1 else '_%d' % (i + 1)
            for k, v in vals.items():
                require(f[k + off] == v, '%s: %s is %r, expected %r', what, k + off, f[k + off], v)
            cmp.arr_close(f['AFCoeff' + off], T, rtol, 0, what + ' AFCoeff' + off)
            n_expected += len(vals) + 1
        require(len(f.keys()) == n_expected + 4 + int(c['pre']), '%s: %d keys instead of %d: %s', what, len(f.keys()), n_expected + 4 + int(c['pre']), f.keys())
        dfs = f.toDataFrame()
        if c['nt'] == 1:
            dfs = {'AFCoeff': dfs}
        for i, (vals, T) in enumerate(E):
            df = dfs['AFCoeff' + ('' if c['nt'] == 1 else '_%d' % (i + 1))]
            cmp.arr_close(df[['Alpha_[deg]', 'Cl_[-]', 'Cd_[-]', 'Cm_[-]'][:c['ncol']]].values, T, rtol, 0, what + ' table')
            a = np.deg2rad(T[:, 0])
            cmp.arr_close(df['Cn_[-]'].values, T[:, 1] * np.cos(a) + T[:, 2] * np.sin(a), 1e-6, 1e-6, what + ' Cn')
            if vals['InclUAdata']:
                cmp.arr_close(df['Cn_Cd0off_[-]'].values, T[:, 1] * np.cos(a) + (T[:, 2] - vals['Cd0']) * np.sin(a), 1e-6, 1e-6, what + ' Cn without Cd0')
                lin = vals['C_nalpha'] * (a - np.deg2rad(vals['alpha0']))
                inside = (T[:, 0] > -19.999) & (T[:, 0] < 29.999)
                cmp.arr_close(df['Cn_pot_[-]'].values[inside], lin[inside], 1e-6, 1e-6, what + ' potential Cn')

    f = load(ADPolarFile, p, c['how'])
    verify(f, 'read', E)
    f.write(ctx.path('b.dat'))
    verify(f, 'object after write', E)
    f2 = FASTInputFile(ctx.path('b.dat'))
    verify(f2, 'after write', E, 6e-9)
    f2.write(ctx.path('b2.dat'))
    require(open(ctx.path('b.dat')).read() == open(ctx.path('b2.dat')).read(), 'second write differs')
    # change one table
    off = '' if c['nt'] == 1 else '_%d' % (c['it2'] + 1)
    T2 = polar_table(c['n2'], c['ncol'], c['seed'] + 5)
    f['AFCoeff' + off] = T2
    f['Re' + off] = 9.75
    E2 = copy.deepcopy(E)
    E2[c['it2']] = (dict(E[c['it2']][0], NumAlf=c['n2'], Re=9.75), T2)
    f.write(ctx.path('c.dat'))
    f3 = FASTInputFile(ctx.path('c.dat'))
    verify(f3, 'edited and written', E2, 6e-9)
    ctx.label(c['how'], '%d-tables' % c['nt'], 'allUA' if all(c['ua']) else 'someUA')
    ctx.nontrivial(max(c['n']) > 2)


@st.composite
def proto_cases(draw):
    nt = draw(st.integers(1, 3))
    return dict(nt=nt, ua=draw(st.booleans()), n=draw(st.lists(st.integers(25, 32), min_size=nt, max_size=nt)), seed=draw(st.integers(0, 999)), cd0=draw(st.sampled_from([0.01, 0.2])),
                com=draw(st.sampled_from(['My airfoil', 'a\nb', 'a\nb\nc'])))


def check_proto(c, ctx):
    """airfoil file built from the prototype"""
    f = ADPolarFile(numTabs=c['nt'], hasUA=c['ua'])
    T = [polar_table(n, 4, c['seed'] + i) for i, n in enumerate(c['n'])]
    offs = [''] if c['nt'] == 1 else ['_%d' % (i + 1) for i in range(c['nt'])]
    f.comment = c['com']
    for i, o in enumerate(offs):
        f['AFCoeff' + o] = T[i]
        f['Re' + o] = 1.5 * (i + 1)
        if c['ua']:
            for k, v in [('alpha0', -1.5 - i), ('C_nalpha', 6.5 + i), ('Cd0', c['cd0']), ('alpha1', 9.0), ('alpha2', -8.0)]:
                f[k + o] = v
    f.write(ctx.path('a.dat'))
    r = FASTInputFile(ctx.path('a.dat'))
    require(r['NumTabs'] == c['nt'], 'NumTabs is %r', r['NumTabs'])
    for i, o in enumerate(offs):
        cmp.arr_close(r['AFCoeff' + o], T[i], 6e-9, 0, 'AFCoeff' + o)
        require(r['NumAlf' + o] == c['n'][i], 'NumAlf%s is %r', o, r['NumAlf' + o])
        require(r['Re' + o] == 1.5 * (i + 1), 'Re%s is %r', o, r['Re' + o])
        require(r['InclUAdata' + o] is c['ua'], 'InclUAdata%s is %r', o, r['InclUAdata' + o])
        if c['ua']:
            require(r['Cd0' + o] == c['cd0'] and r['alpha0' + o] == -1.5 - i, 'UA parameters of table %d', i + 1)
    got = r.comment.split('\n')
    exp = c['com'].split('\n')
    cmp.list_eq([s.lstrip('! ') for s in got][:len(exp)], exp, 'comment')


# ------------------------------------------------------------------ super-element (ExtPtfm)
@st.composite
def ext_cases(draw):
    return dict(n=draw(st.integers(1, 12)), nt=draw(st.integers(1, 40)), dt=draw(st.sampled_from([0.05, 0.1, 0.2, 0.3, 0.025, 1.0, 0.7])), seed=draw(st.integers(0, 10 ** 6)), how=draw(st.sampled_from(['generic', 'dedicated', 'read'])),
                scale=draw(st.sampled_from([1.0, 1e6, 1e-4])), nt2=draw(st.integers(1, 9)))


def check_ext(c, ctx):
    n, dt = c['n'], c['dt']
    rs = np.random.RandomState(c['seed'])

    def R(a, b):
        return np.array([[g.sig(x, 8) for x in r] for r in rs.uniform(-1, 1, (a, b)) * c['scale']]).reshape(a, b)
    M, K, D = R(n, n), R(n, n), R(n, n)
    Ld = R(c['nt'], n + 1)
    Ld[:, 0] = [g.sig(i * dt, 8) for i in range(c['nt'])]
    Ttot = float('%.10g' % ((c['nt'] - 1) * dt))

    def sec(name, A):
        return ['', '!%s Matrix' % name, '!Dimension: %d' % n] + [' '.join('%15.8e' % x for x in r) for r in A]
    L = ['!Comment', '!Comment Flex 5 Format', '!Dimension: %d' % n, '!Time increment in simulation: %r' % dt, '!Total simulation time in file: %r' % Ttot]
    L += sec('Mass', M) + sec('Stiffness', K) + sec('Damping', D) + ['', '!Loading and Wave Elevation', '!Dimension: 1 time column -  %d force columns' % n] + [' '.join('%15.8e' % x for x in r) for r in Ld]
    while len(L) < 10:
        L.append('')
    p = ctx.path('a.dat')
    write_text(p, '\n'.join(L) + '\n')

    def verify(f, what, Ld, T):
        require(f['nDOF'] == n and f['dt'] == dt and f['T'] == T, '%s: nDOF %r dt %r T %r', what, f['nDOF'], f['dt'], f['T'])
        for k, A in (('MassMatrix', M), ('StiffnessMatrix', K), ('DampingMatrix', D), ('Loading', Ld)):
            cmp.arr_close(f[k], A, 6e-9, 0, what + ' ' + k)
        df = f.toDataFrame()
        base = ['Time_[s]', 'InpF_Fx_[N]', 'InpF_Fy_[N]', 'InpF_Fz_[N]', 'InpF_Mx_[Nm]', 'InpF_My_[Nm]', 'InpF_Mz_[Nm]'] + ['CBF_%03d_[-]' % (i + 1) for i in range(n)]
        cmp.list_eq(df.columns, base[:n + 1], what + ' columns')
        cmp.arr_close(df.values, Ld, 6e-9, 0, what + ' table')

    f = load(ExtPtfmFile, p, c['how'])
    verify(f, 'read', Ld, Ttot)
    f.write(ctx.path('b.dat'))
    f2 = load(ExtPtfmFile, ctx.path('b.dat'), 'generic')
    verify(f2, 'after write', Ld, Ttot)
    f2.write(ctx.path('b2.dat'))
    require(open(ctx.path('b.dat')).read() == open(ctx.path('b2.dat')).read(), 'second write differs')
    L2 = np.zeros((c['nt2'], n + 1))
    L2[:, 0] = [g.sig(i * dt, 8) for i in range(c['nt2'])]
    f2['Loading'] = L2
    f2['T'] = float('%.10g' % ((c['nt2'] - 1) * dt))
    f2.write(ctx.path('c.dat'))
    verify(FASTInputFile(ctx.path('c.dat')), 'edited', L2, f2['T'])
    f2['MassMatrix'] = np.zeros((n + 1, n + 1))
    try:
        f2.write(ctx.path('d.dat'))
        require(False, 'inconsistent matrix sizes are written without error')
    except (AssertionError, Exception) as e:
        if type(e).__name__ == 'Violation':
            raise
    ctx.nontrivial(n > 1 and c['nt'] > 2)


# ------------------------------------------------------------------ BeamDyn
@st.composite
def bd_cases(draw):
    return dict(n=draw(st.integers(1, 12)), nkp=draw(st.integers(1, 20)), spec=draw(g.specs(kinds=['ramp', 'rand', 'sine'])), blade=draw(st.booleans()), nout=draw(st.integers(0, 4)), n2=draw(st.integers(1, 6)))


def check_bd(c, ctx):
    rs = np.random.RandomState(c['spec']['seed'])
    p = ctx.path('a.dat')
    if c['blade']:
        n = c['n']
        span = np.array([float('%.6f' % x) for x in np.linspace(0, 1, n)])
        K = rs.uniform(-1, 1, (n, 6, 6)) * 1e8
        M = rs.uniform(-1, 1, (n, 6, 6)) * 1e3
        mu = [g.sig(x, 8) for x in rs.uniform(0, .1, 6)]
        L = ['------- BEAMDYN V1.00.* INDIVIDUAL BLADE INPUT FILE --------------------------', '! Constant property beam Tube', ' ---------------------- BLADE PARAMETERS --------------------------------------',
             '%d             station_total - Number of blade input stations (-)' % n, '1             damp_type     - Damping type (switch): 0: no damping; 1: viscous damping',
             '  ---------------------- DAMPING COEFFICIENT------------------------------------', '   '.join('mu%d' % (i + 1) for i in range(6)), '  '.join(['(s)'] * 6),
             '   '.join(repr(float(x)) for x in mu), ' ---------------------- DISTRIBUTED PROPERTIES---------------------------------']
        for j in range(n):
            L += ['%.6f' % span[j]] + [' '.join('%.16E' % x for x in r) for r in K[j]] + [''] + [' '.join('%.16E' % x for x in r) for r in M[j]] + ['']
        write_text(p, '\n'.join(L) + '\n')

        def verify(f, what, span, K, M):
            n = len(span)
            require(f['station_total'] == n and f['damp_type'] == 1, '%s: station_total %r', what, f['station_total'])
            cmp.arr_close(np.asarray(f['DampingCoeffs']).ravel(), mu, 6e-9, 0, what + ' damping')
            b = f['BeamProperties']
            cmp.arr_close(b['span'], span, 0, 5.1e-7, what + ' span')
            cmp.arr_close(b['K'], K, 1e-15, 0, what + ' K')
            cmp.arr_close(b['M'], M, 1e-15, 0, what + ' M')
            df = f.toDataFrame()
            for i in range(6):
                for j in range(6):
                    cmp.arr_close(df['K%d%d' % (i + 1, j + 1)].values, K[:, i, j], 1e-15, 0, what + ' table K')
                    cmp.arr_close(df['M%d%d' % (i + 1, j + 1)].values, M[:, i, j], 1e-15, 0, what + ' table M')
            cmp.arr_close(df['Span'].values, span, 0, 5.1e-7, what + ' table span')
            require(df.shape == (n, 73), '%s table shape %s', what, df.shape)
        f = FASTInputFile(p)
        verify(f, 'read', span, K, M)
        f.write(ctx.path('b.dat'))
        f2 = FASTInputFile(ctx.path('b.dat'))
        verify(f2, 'after write', span, K, M)
        f2.write(ctx.path('b2.dat'))
        require(open(ctx.path('b.dat')).read() == open(ctx.path('b2.dat')).read(), 'second write differs')
        n2 = c['n2']
        f2['BeamProperties'] = dict(span=np.linspace(0, 1, n2), K=np.tile(K[0], (n2, 1, 1)) * 1.5, M=np.tile(M[-1], (n2, 1, 1)))
        f2['station_total'] = n2
        f2.write(ctx.path('c.dat'))
        verify(FASTInputFile(ctx.path('c.dat')), 'edited', np.linspace(0, 1, n2), np.tile(K[0], (n2, 1, 1)) * 1.5, np.tile(M[-1], (n2, 1, 1)))
    else:
        n = c['nkp']
        T = mat(n, 4, c['spec'])
        L = ['--------- BEAMDYN V1.01.* INPUT FILE -------------------------------------------', 'NREL 5MW blade', '---------------------- SIMULATION CONTROL --------------------------------------',
             'False         Echo           - Echo (flag)', '2             analysis_type  - 1: Static analysis; 2: Dynamic analysis', '0.0           rhoinf         - Numerical Damping', 'DEFAULT       refine         - Refinement',
             '---------------------- GEOMETRY PARAMETER --------------------------------------', '1             member_total   - Total number of member (-)', '%d            kp_total       - Total number of key point (-)' % n,
             '1    %d                      - Member number; Number of key points in this member' % n, '    kp_xr      kp_yr     kp_zr    initial_twist', '    (m)         (m)       (m)      (deg)', rows(T, '%.7e'),
             '---------------------- MESH PARAMETER ------------------------------------------', '5             order_elem     - Order of interpolation (basis) function (-)',
             '"Case_BD_Blade.dat"  BldFile - Name of file containing properties for blade', '2.0E+7        PitchK         - Pitch actuator stiffness', ' 1,2,3,4,5,6  OutNd          - Nodes whose values will be output  (-)',
             '              OutList        - The next line(s) contains a list of output parameters.  See OutListParameters.xlsx for a listing of available output channels, (-)']
        outs = ['"RootFxr, RootFyr"', '"TipTDxr"', '"N1TDxr"  - note', 'RootMxr'][:c['nout']]
        L += outs + ['END of input file (the word "END" must appear in the first 3 columns of this last OutList line)', '-----']
        T = np.array([[float('%.7e' % x) for x in r] for r in T])
        write_text(p, '\n'.join(L) + '\n')

        def verify(f, what, T):
            require(f['kp_total'] == T.shape[0], '%s: kp_total %r', what, f['kp_total'])
            cmp.arr_close(f['MemberGeom'], T, 6e-9, 0, what + ' MemberGeom')
            require(f['PitchK'] == 2.0e7 and f['order_elem'] == 5 and f['BldFile'] == '"Case_BD_Blade.dat"' and f['OutNd'] == [1, 2, 3, 4, 5, 6] and f['refine'] == 'DEFAULT', '%s: entries', what)
            cmp.list_eq(f['OutList'][1:], outs, what + ' outputs')
            cmp.list_eq(f.toDataFrame().columns, ['kp_xr_[m]', 'kp_yr_[m]', 'kp_zr_[m]', 'initial_twist_[deg]'], 'columns')
        f = FASTInputFile(p)
        verify(f, 'read', T)
        f.write(ctx.path('b.dat'))
        txt = open(ctx.path('b.dat')).read()
        require(any(l.split()[:2] == ['1', '%d' % n] for l in txt.split('\n')), 'the line with the number of key points of the member is lost')
        f2 = FASTInputFile(ctx.path('b.dat'))
        verify(f2, 'after write', T)
        f2.write(ctx.path('b2.dat'))
        require(txt == open(ctx.path('b2.dat')).read(), 'second write differs')
    ctx.label('blade' if c['blade'] else 'main')
    ctx.nontrivial(c['n'] > 1)


# ------------------------------------------------------------------ SubDyn
@st.composite
def sd_cases(draw):
    nj = draw(st.integers(2, 8))
    return dict(nj=nj, nm=draw(st.integers(1, 8)), np=draw(st.integers(0, 4)), nx=draw(st.integers(0, 3)), nc=draw(st.integers(0, 3)), nmass=draw(st.integers(0, 3)), nout=draw(st.integers(0, 3)), guyan=draw(st.booleans()),
                ssi=draw(st.booleans()), nch=draw(st.integers(0, 5)), seed=draw(st.integers(0, 10 ** 6)), nodecnt=draw(st.integers(1, 4)), mtype=draw(st.booleans()))


def check_sd(c, ctx):
    rs = np.random.RandomState(c['seed'])

    def tab(n, ncol, scale=1.0):
        T = np.array([[g.sig(x, 7) for x in r] for r in rs.uniform(-1, 1, (n, ncol)) * scale]).reshape(n, ncol)
        T[:, 0] = 1 + np.arange(n)
        return T

    def txt(T):
        return ['  '.join(['%d' % r[0]] + ['%.6e' % x if x != int(x) else '%d' % x for x in r[1:]]) for r in T]
    L = ['----------- SubDyn v1.01.x MultiMember Support Structure Input File ------------', 'OC3 Monopile configuration (pile only).', '---- SIMULATION CONTROL  ---', 'False   Echo  - Echo (flag)', '"DEFAULT"  SDdeltaT - step',
         '3 IntMethod - Integration Method [1/2/3/4 = RK4/AB4/ABM4/AM2].', 'False SttcSolve  - Solve', '1 FEMMod - FEM switch', '10 NDiv - Number of sub-elements per member', 'True CBMod - [T/F] If True perform C-B', '2 Nmodes  - modes', '10 JDampings - Damping Ratios']
    exp = {}
    if c['guyan']:
        G = np.array([[g.sig(x, 7) for x in r] for r in rs.uniform(-1, 1, (6, 6)) * 1e6])
        L += ['6  GuyanDampSize - size'] + ['  '.join('%.6e' % x for x in r) for r in G]
        exp['GuyanDampMatrix'] = G
        exp['GuyanDampSize'] = 6
        L += ['2  Extra1 - after the matrix']
        exp['Extra1'] = 2
    J = tab(c['nj'], 4, 100)
    L += ['---- JOINTS ----', '%d NJoints - Number of joints (-)' % c['nj'], 'JointID  JointXss  JointYss  JointZss  [Coordinates of Member joints in SS-Coordinate System]', '(-) (m) (m) (m)'] + txt(J)
    exp['Joints'], exp['NJoints'] = J, c['nj']
    L += ['---- BASE ---', '1 NReact - base', 'RJointID   RctTDXss    RctTDYss    RctTDZss    RctRDXss    RctRDYss    RctRDZss   SSIFile  [Global Coordinate System]', '(-) (flag) (flag) (flag) (flag) (flag) (flag) (string)', '1 1 1 1 1 1 1 ' + ('"soil.txt"' if c['ssi'] else '')]
    L += ['---- INTERF ---', '1 NInterf - itf', 'IJointID   ItfTDXss    ItfTDYss    ItfTDZss    ItfRDXss    ItfRDYss    ItfRDZss     [Global Coordinate System]', '(-) (flag) (flag) (flag) (flag) (flag) (flag)', '2 1 1 1 1 1 0']
    exp['InterfaceJoints'] = np.array([[2, 1, 1, 1, 1, 1, 0.]])
    mem = [[str(i + 1), str(rs.randint(1, c['nj'] + 1)), str(rs.randint(1, c['nj'] + 1)), '1', '1'] + (['1'] if c['mtype'] else []) for i in range(c['nm'])]
    L += ['---- MEMBERS ---', '%d NMembers - number' % c['nm'], 'MemberID   MJointID1   MJointID2   MPropSetID1   MPropSetID2 ' + ('  MType ' if c['mtype'] else '') + '    COSMID', '(-) (-) (-) (-) (-) (-)' + (' (-)' if c['mtype'] else '')] + ['  '.join(m) for m in mem]
    exp['Members'] = np.array(mem, dtype=float)
    P = tab(c['np'], 6, 1e4)
    L += ['---- PROP 1 ---', '%d NPropSets - n' % c['np'], 'PropSetID  YoungE  ShearG  MatDens  XsecD  XsecT', '(-) (N/m2) (N/m2) (kg/m3) (m) (m)'] + txt(P)
    exp['BeamProp'] = P
    X = tab(c['nx'], 10, 1e4)
    L += ['---- PROP 2 ---', '%d NXPropSets - n' % c['nx'], 'PropSetID     YoungE          ShearG          MatDens          XsecA          XsecAsx       XsecAsy       XsecJxx       XsecJyy        XsecJ0', '(-) (N/m2) (N/m2) (kg/m3) (m2) (m2) (m2) (m4) (m4) (m4)'] + txt(X)
    exp['BeamPropX'] = X
    C = tab(c['nc'], 10)
    L += ['---- COSM ---', '%d NCOSMs - n' % c['nc'], 'COSMID    COSM11    COSM12    COSM13    COSM21    COSM22    COSM23    COSM31    COSM32    COSM33', ' '.join(['(-)'] * 10)] + txt(C)
    exp['MemberCosineMatrix'] = C
    Ms = tab(c['nmass'], 5, 1e5)
    L += ['---- MASS ---', '%d NCmass - n' % c['nmass'], 'CMJointID  JMass  JMXX  JMYY  JMZZ', '(-) (kg) (kg*m^2) (kg*m^2) (kg*m^2)'] + txt(Ms)
    exp['ConcentratedMasses'] = Ms
    L += ['---- OUTPUT ---', 'True SSSum - Output a Summary File (flag)', '"ES11.4e2" OutFmt - Output format', '%d NMOutputs - Number of members' % c['nout'], 'MemberID   NOutCnt    NodeCnt [NOutCnt=how many nodes]', '(-) (-) (-)']
    O = np.array([[i + 1, c['nodecnt']] + [k + 1 for k in range(c['nodecnt'])] for i in range(c['nout'])], dtype=float).reshape(c['nout'], 2 + c['nodecnt'])
    L += ['  '.join('%d' % x for x in r) for r in O]
    if c['nout']:
        exp['MemberOuts'] = O
    ch = ['"M1N1MKxe, M1N1MKye"                 - moments', '"-ReactFXss, -ReactFYss"', 'IntfTDXss', '"-ReactMXss"  - base', '"M2N1FKxe"'][:c['nch']]
    L += ['------------------------- SSOutList: The next line(s) contains a list of output parameters that will be output in <rootname>.SD.out'] + ch + ['END of output channels and end of file. (the word "END" must appear in the first 3 columns of this line)']
    p = ctx.path('a.dat')
    write_text(p, '\n'.join(L) + '\n')

    def verify(f, what, rtol=0.0):
        for k, v in exp.items():
            if isinstance(v, int):
                require(f[k] == v, '%s: %s is %r, expected %r', what, k, f[k], v)
            else:
                cmp.arr_close(np.asarray(f[k]).astype(float), v, rtol, 0, what + ' ' + k)
        require(f['SDdeltaT'] == '"DEFAULT"' and f['CBMod'] is True and f['NDiv'] == 10 and f['OutFmt'] == '"ES11.4e2"', '%s entries', what)
        b = np.asarray(f['BaseJoints'])
        require(b.shape[0] == 1 and (str(b[0, -1]) == '"soil.txt"') == c['ssi'], '%s: base joints %r', what, b)
    f = FASTInputFile(p)
    verify(f, 'read')
    f.write(ctx.path('b.dat'))
    t = open(ctx.path('b.dat')).read()
    for s in ch:
        require(s in t, 'output channel line %r lost', s)
    f2 = FASTInputFile(ctx.path('b.dat'))
    verify(f2, 'after write', 6e-9)
    f2.write(ctx.path('b2.dat'))
    require(t == open(ctx.path('b2.dat')).read(), 'second write differs')
    ctx.nontrivial(c['np'] > 0 and c['nm'] > 1)


# ------------------------------------------------------------------ AeroDyn 14 airfoils, airfoil coordinates (reading)
@st.composite
def arf_cases(draw):
    return dict(kind=draw(st.sampled_from(['ad14', 'coords'])), nt=draw(st.integers(1, 3)), ncoef=draw(st.sampled_from([2, 3])), n=draw(st.integers(2, 25)), seed=draw(st.integers(0, 10 ** 6)), blank=draw(st.booleans()))


def check_arf(c, ctx):
    rs = np.random.RandomState(c['seed'])
    p = ctx.path('a.dat')
    if c['kind'] == 'ad14':
        nt, nc = c['nt'], c['ncoef']
        ids = ['%.1f' % (0.3 + 0.5 * i) for i in range(nt)]
        par = ['Stall angle (deg)', 'No longer used, enter zero', 'No longer used, enter zero', 'No longer used, enter zero', 'Zero Cn angle of attack (deg)', 'Cn slope for zero lift (dimensionless)', 'Cn extrapolated to value at positive stall angle of attack',
               'Cn at stall value for negative angle of attack', 'Angle of attack for minimum CD (deg)', 'Minimum CD value']
        T = np.array([[g.sig(x, 6) for x in r] for r in rs.uniform(-1, 1, (c['n'], 1 + nt * nc))])
        L = ['An airfoil', 'second line', '%d   Number of airfoil tables in this file' % nt, '  '.join(ids) + '   Table ID parameter'] + ['  '.join(['%.3f' % x for x in rs.uniform(-5, 5, nt)]) + '   ' + s for s in par]
        L += ['  '.join('%.6g' % x for x in r) for r in T] + (['', 'EOT'] if c['blank'] else [])
        write_text(p, '\n'.join(L) + '\n')
        f = FASTInputFile(p)
        cmp.arr_close(f['Polar'], T, 0, 0, 'polar')
        df = f.toDataFrame()
        sfx = [''] if nt == 1 else ids
        cmp.list_eq(df.columns, ['Alpha_[deg]'] + ['%s%s_[-]' % (n, s) for s in sfx for n in ['Cl', 'Cd', 'Cm'][:nc]], 'columns')
        cmp.arr_close(df.values, T, 0, 0, 'table')
    else:
        n = c['n']
        T = np.array([[g.sig(x, 6) for x in r] for r in rs.uniform(-1, 1, (n, 2))])
        L = ['%d   NumCoords         ! The number of coordinates in the airfoil shape file' % (n + 1), '! ......... x-y coordinates are next if NumCoords > 0 .............', '! x-y coordinate of airfoil reference', '!  x/c        y/c', '0.25        0.125',
             '! coordinates of airfoil shape', '! NACA 64-618', '!  x/c        y/c'] + ['%.6g  %.6g' % tuple(r) for r in T]
        write_text(p, '\n'.join(L) + '\n')
        f = FASTInputFile(p)
        cmp.arr_close(f['AirfoilCoord'], T, 0, 0, 'coordinates')
        cmp.list_eq(f['AirfoilRefPoint'], [0.25, 0.125], 'reference point')
        require(f['NumCoords'] == n + 1, 'NumCoords')
        cmp.arr_close(f.toDataFrame().values, T, 0, 0, 'table')
    ctx.label(c['kind'])


COMPONENTS = [Component('elastodyn', ed_cases(), check_ed, 120, 3000, shards=2), Component('aerodyn_blade', ad_cases(), check_ad, 120, 3000),
              Component('airfoil', polar_cases(), check_polar, 100, 2500, shards=2), Component('airfoil_prototype', proto_cases(), check_proto, 60, 1000),
              Component('super_element', ext_cases(), check_ext, 150, 3000), Component('beamdyn', bd_cases(), check_bd, 120, 2500), Component('subdyn', sd_cases(), check_sd, 150, 3000),
              Component('airfoil_old', arf_cases(), check_arf, 100, 2000)]
