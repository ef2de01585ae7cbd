"""C15: FLEX output, blade, profile, wave kinematics and documentation files."""
import os
import numpy as np
from hypothesis import strategies as st
from vlib.core import Component, require
from vlib import gens as g, cmp
from weio.flex_out_file import FLEXOutFile
from weio.flex_blade_file import FLEXBladeFile
from weio.flex_profile_file import FLEXProfileFile
from weio.flex_wavekin_file import FLEXWaveKinFile
from weio.flex_doc_file import FLEXDocFile
import weio

RULE = ('Binary results (versions 0, 2, 3) with sensor files, blade files (versions 0-3), profile files, wave kinematics and documentation files encoded from generated content, and profile files written and read again; '
        'non-trivial: at least 2 sensors, sections, alpha values or entries.')
ASSUMPTIONS = ['titles are ASCII', 'one displacement in wave kinematics files', 'profile files are written with 8 significant digits', 'thicknesses of a set are distinct']
NUM = st.one_of(g.finite(-1e6, 1e6), g.finite(-2, 2), st.sampled_from([1e20, 1.811e10, 0.0, -180.0, 1e-8]))
TITLE = st.sampled_from(['Comment', 'V112 blade', 'N90/2500', '12 stations', 'blade 001', '', 'a', 'bl\udce5d', 'p\xe2le'])


# ------------------------------------------------------------------ results
@st.composite
def out_cases(draw):
    ns = draw(st.sampled_from([1, 2, 3, 7, 30]))
    return dict(ns=ns, nt=draw(st.one_of(st.integers(1, 60), st.sampled_from([1, 2, 300, 1001, 4000]))), v=draw(st.sampled_from([0, 2, 3])), date=draw(st.booleans()), tmin=draw(st.sampled_from([0.0, 10.0, 0.1, -5.0, 100.3])), dt=draw(st.sampled_from([0.01, 0.02, 0.1, 0.04, 0.3, 0.7, 1.0, 0.003])),
                seed=draw(st.integers(0, 10 ** 6)), ext=draw(st.sampled_from(['.res', '.int'])), sensor=draw(st.booleans()), title=draw(st.sampled_from(['My title', 'x' * 39, 'Run 12'])), names=draw(g.unique_idents(ns, ns, 8)) if ns < 10 else ['S%d' % i for i in range(ns)],
                units=draw(st.lists(st.sampled_from(g.UNITS), min_size=ns, max_size=ns)), ub=draw(st.sampled_from(['', '()', '[]'])), cut=draw(st.integers(0, 9)), entry=draw(st.booleans()), desc=draw(st.sampled_from(['Sensor number %d', 'Sensor number %d', 'Angle %d \udcb0', 'M\u00f8ller %d'])))


def check_out(c, ctx):
    rs = np.random.RandomState(c['seed'])
    ns, nt = c['ns'], c['nt']
    I = rs.randint(-32000, 32001, size=(nt, ns)).astype('<i2')
    sc = (10.0 ** rs.uniform(-6, 3, ns)).astype('<f4')
    b = np.array([0], '<i4').tobytes()
    if c['date']:
        last = rs.randint(3) == 0      # first and last possible values
        b += np.array([rs.choice([1, 31]), rs.choice([1, 12]), 1999, rs.choice([0, 23]), 59, 59] if last else [rs.randint(1, 29), rs.randint(1, 13), 2000 + rs.randint(20), rs.randint(0, 24), rs.randint(0, 60), rs.randint(0, 60)], '<i4').tobytes() + c['title'].ljust(40).encode()
    else:
        b += np.array([rs.randint(100)], '<i4').tobytes() + c['title'].ljust(60).encode()
    b += np.array([0, 0, ns] + list(range(1, ns + 1)) + [0, c['v']], '<i4').tobytes()
    b += np.array([c['tmin'], c['dt']], '<f4').tobytes() + sc.tobytes()
    b += (I.T if c['v'] == 3 else I).tobytes()
    p = ctx.path('r' + c['ext'])
    if c['sensor']:
        l, r = (c['ub'] + '  ')[0], (c['ub'] + '  ')[1]
        L = ['Sensor list for r', ' No   forst  offset  korr. c  Volt    Unit   Navn    Beskrivelse------------']
        L += ['%3d  %.3f   %.3f      1.00     0.00 %s %s %s' % (i + 1, 1 + i, -i, (l + c['units'][i] + r).strip(), c['names'][i], c['desc'] % i) for i in range(ns)]
        open(ctx.path('sensor'), 'w', encoding='utf-8', errors='surrogateescape').write('\n'.join(L) + '\n')
    open(p, 'wb').write(b)
    F = weio.read(p) if c['entry'] else FLEXOutFile(p)
    require(type(F).__name__ == 'FLEXOutFile', 'detected as %s', type(F).__name__)
    V = I.astype('f4') * sc[None, :]
    T = np.float64(np.float32(c['tmin'])) + np.arange(nt) * np.float64(np.float32(c['dt']))
    df = F.toDataFrame()
    names = c['names'] if c['sensor'] else ['S%04d' % (i + 1) for i in range(ns)]
    units = c['units'] if c['sensor'] else ['NA'] * ns
    cmp.list_eq(df.columns, ['Time_[s]'] + ['%s_[%s]' % x for x in zip(names, units)], 'columns')
    cmp.arr_close(df.values[:, 0], T, 3e-7, 1e-6, 'time')
    cmp.arr_close(df.values[:, 1:], V, 1e-7, 0, 'values')
    cmp.eq(F.title.decode() if isinstance(F.title, bytes) else F.title, c['title'], 'title')
    cmp.eq(len(F.DateID), 6 if c['date'] else 1, 'number of date values')
    cmp.eq(int(F.Version), c['v'], 'version')
    cmp.list_eq(F.sensors['ID'], list(range(1, ns + 1)), 'numbers of the sensors')
    if not c['sensor']:
        cmp.arr_eq(F.sensors['Gain'], np.ones(ns), 'gains without sensor file')
        cmp.arr_eq(F.sensors['Offset'], np.zeros(ns), 'offsets without sensor file')
    if c['sensor']:
        cmp.list_eq(F.sensors['Description'], [c['desc'] % i for i in range(ns)], 'descriptions')
        cmp.arr_eq(F.sensors['Gain'], 1 + np.arange(ns), 'gains')
        cmp.arr_eq(F.sensors['Offset'], -np.arange(ns), 'offsets')
        # another number of sensors than in the result
        bad = L[:-1] if c['cut'] % 2 and ns > 1 else L + [L[-1]]
        open(ctx.path('sensor'), 'w', encoding='utf-8', errors='surrogateescape').write('\n'.join(bad) + '\n')
        cmp.raises((Exception,), lambda: FLEXOutFile(p), 'another number of sensors')
        open(ctx.path('sensor'), 'w', encoding='utf-8', errors='surrogateescape').write('\n'.join(L) + '\n')
    if ns > 1:      # incomplete rows
        k = 1 + c['cut'] % (ns - 1)
        q = ctx.path('short' + c['ext'])
        open(q, 'wb').write(b[:-2 * k])
        cmp.raises((Exception,), lambda: FLEXOutFile(q), 'incomplete data')
    ctx.label('v%d' % c['v'], 'date' if c['date'] else 'nodate')
    ctx.nontrivial(ns > 1 and nt > 1)


# ------------------------------------------------------------------ blades
ALL = ['r_[m]', 'EIFlap_[Nm2]', 'EIEdge_[Nm2]', 'GKt_[Nm2]', 'Mass_[kg/m]', 'Jxx_[kg.m]', 'PreBendFlap_[m]', 'PreBendEdge_[m]', 'Str.Twist_[deg]', 'PhiOut_[deg]', 'Ycog_[m]', 'Yshc_[m]', 'CalcOutput_[0/1]',
       'Chord_[m]', 'AeroTwist_[deg]', 'RelThickness_[%]', 'AeroCenter_[m]', 'AeroTorsion_[0/1]', 'ProfileSet_[#]']
S8 = ['r_[m]', 'EIFlap_[Nm2]', 'EIEdge_[Nm2]', 'Mass_[kg/m]', 'Str.Twist_[deg]', 'CalcOutput_[0/1]', 'PreBendFlap_[m]', 'PreBendEdge_[m]']
A5 = ['x', 'Chord_[m]', 'AeroTwist_[deg]', 'RelThickness_[%]', 'AeroCenter_[m]']
LAY = {0: (S8, A5), 1: (S8, A5 + ['AeroTorsion_[0/1]']), 2: (S8 + ['GKt_[Nm2]'], A5 + ['AeroTorsion_[0/1]', 'ProfileSet_[#]']), 3: (ALL[:13], A5 + ['AeroTorsion_[0/1]', 'ProfileSet_[#]'])}


@st.composite
def blade_cases(draw):
    v = draw(st.integers(0, 3))
    return dict(v=v, n=draw(st.integers(1, 25)), spec=draw(g.specs()), spec2=draw(g.specs()), title=draw(TITLE), lead=draw(st.sampled_from(['', '', ' '])), damp=[draw(st.lists(g.finite(0, 1), min_size=4, max_size=6)) for _ in range(3)], beta=draw(g.finite(-90, 90)), fmt=draw(st.sampled_from(['%r', '%.5e', '%.3f'])), sep=draw(st.sampled_from(['\t', ' ', '   '])),
                ext=draw(st.sampled_from(['.bld', '.bla'])), cut=draw(st.integers(0, 60)), rem=draw(st.booleans()))


def check_blade(c, ctx):
    hs, ha = LAY[c['v']]
    n = c['n']
    fm = lambda a: np.array([[float(c['fmt'] % x) for x in r] for r in a]).reshape(a.shape)
    S, A = fm(g.build((n, len(hs)), c['spec'])), fm(g.build((n, len(ha)), c['spec2']))
    row = lambda r: c['sep'].join(c['fmt'] % x for x in r) + ('  remark' if c['rem'] else '')
    L = [c['lead'] + ('#%03d ' % c['v'] if c['v'] else '') + c['title'], '%d r[m] EI_Flp[Nm2] EI_Edg[Nm2]' % n]
    L += [row(r) for r in S] + ['%r !BetaC' % c['beta']]
    if c['v'] == 3:
        L += ['#LOGD'] + [' '.join('%r' % x for x in d) + '  ; LOGD' for d in c['damp']] + ['#AERO', '; X[m]  C[m]  Beta']
    else:
        L += [' '.join('%r' % x for x in c['damp'][0][:4]) + ' log decr. For mode 1-4']
    L += [row(r) for r in A] + ['data/Profile.pro', '61.5  Xtip']
    p = ctx.path('a' + c['ext'])
    open(p, 'w', errors='surrogateescape').write('\n'.join(L) + '\n')
    F = FLEXBladeFile(p)
    df = F.toDataFrame()
    cmp.list_eq(df.columns, ALL, 'columns')
    require(F.version == c['v'], 'version %r, expected %d', F.version, c['v'])
    M = dict(zip(hs, S.T))
    M.update(dict(zip(ha[1:], A.T[1:])))
    for k in ALL:
        cmp.arr_eq(df[k].values.astype(float), M.get(k, np.full(n, np.nan)), k)
    require(F.BetaC == c['beta'], 'BetaC %r, expected %r', F.BetaC, c['beta'])
    if c['v'] == 3:
        cmp.arr_eq(F.FlapDamping, c['damp'][0], 'flap damping')
        cmp.arr_eq(F.EdgeDamping, c['damp'][1], 'edge damping')
        cmp.arr_eq(F.TorsDamping, c['damp'][2], 'torsion damping')
    else:
        cmp.arr_eq(list(F.FlapDamping) + list(F.EdgeDamping), c['damp'][0][:4], 'damping')
    require(F.ProfileFile == 'data/Profile.pro', 'profile file %r', F.ProfileFile)
    k = 2 + c['cut'] % (len(L) - 4)      # a line is missing
    q = ctx.path('cut' + c['ext'])
    open(q, 'w', errors='surrogateescape').write('\n'.join(L[:k]) + '\n')
    cmp.raises((Exception,), lambda: FLEXBladeFile(q), 'file cut after line %d of %d' % (k, len(L)))
    ctx.label('v%d' % c['v'])
    ctx.nontrivial(n > 1)


# ------------------------------------------------------------------ profiles
@st.composite
def pro_cases(draw):
    k = draw(st.integers(1, 3))
    sets = []
    for i in range(k):
        nth = draw(st.integers(1, 4))
        sets.append(dict(th=sorted(draw(st.lists(st.integers(1, 10000), min_size=nth, max_size=nth, unique=True))), na=draw(st.integers(1, 12)), spec=draw(g.specs()), com=draw(st.sampled_from(['Comment', 'Wing 3', '', 'x y  z', 'M\udcf8lle']))))
    return dict(sets=sets, pre=draw(st.booleans()) or k > 1, fmt=draw(st.sampled_from(['%r', '%.7E', '%.4f'])), hdr=draw(st.sampled_from(['Profile 1, Set 1 - 18%   AOA', 'NACA', '18 %', 'pr\udce9fil'])), trail=draw(st.integers(0, 3)), edit=draw(st.booleans()), case=draw(st.sampled_from(['PROFILE SET', 'Profile set', 'profile set'])),
                cut=draw(st.integers(1, 200)))


def chk_pro(F, sets, tabs, heads, ph, rtol, what):
    require(len(F.ProfileSets) == len(sets), '%s%d sets, expected %d', what, len(F.ProfileSets), len(sets))
    names = []
    for i, (s, t) in enumerate(zip(sets, tabs)):
        P = F.ProfileSets[i]
        cmp.arr_eq(P.thickness, np.array(s['th']) / 100., '%sthicknesses of set %d' % (what, i + 1))
        require(P.header == heads[i], '%sheader of set %d: %r, expected %r', what, i + 1, P.header, heads[i])
        require(len(P.polars) == len(t), '%sset %d has %d profiles', what, i + 1, len(P.polars))
        cmp.list_eq(P.polar_headers, ph[i], what + 'titles of profiles')
        for k in range(len(t)):
            cmp.arr_close(P.polars[k], t[k], rtol, 0, '%sset %d profile %d' % (what, i + 1, k + 1))
            names.append(('pc_set_%d_t_%s' % (i + 1, s['th'][k] / 100.), t[k]))
    df = F.toDataFrame()
    if len(names) == 1 and not isinstance(df, dict):
        df = {names[0][0]: df}
    cmp.list_eq(list(df), [n for n, _ in names], what + 'tables')
    for n, t in names:
        cmp.arr_close(df[n].values, t, rtol, 0, what + n)
        cmp.list_eq(df[n].columns, ['Alpha_[deg]', 'Cl_[-]', 'Cd_[-]', 'Cm_[-]'], 'columns')


def check_pro(c, ctx):
    L, tabs, heads, PH = [], [], [], []
    for i, s in enumerate(c['sets']):
        a = g.build((len(s['th']), s['na'], 4), s['spec'])
        a = np.array([float(c['fmt'] % x) for x in a.ravel()]).reshape(a.shape)
        tabs.append(list(a))
        h = '%d: %s' % (i + 1, s['com'])
        L += [(c['case'] + ' ' + h) if c['pre'] else s['com'], str(len(s['th'])), ' '.join('%.2f' % (t / 100.) for t in s['th']), str(s['na'])]
        heads.append(h.strip() if c['pre'] else s['com'])
        ph = []
        for k in range(len(s['th'])):
            ph.append(c['hdr'] + ' %d' % k)
            L.append(ph[-1])
            L += ['\t'.join(c['fmt'] % x for x in r) for r in a[k]]
        PH.append(ph)
    p = ctx.path('a.pro')
    open(p, 'w', errors='surrogateescape').write('\n'.join(L) + '\n' * (1 + c['trail']))
    F = FLEXProfileFile(p)
    chk_pro(F, c['sets'], tabs, heads, PH, 0, 'read: ')
    if c['edit']:
        F.ProfileSets[-1].polars[0][0, 1] = 1.25
        tabs[-1][0][0, 1] = 1.25
    q = ctx.path('b.pro')
    F.write(q)
    chk_pro(F, c['sets'], tabs, heads, PH, 0, 'in memory after writing: ')
    G = FLEXProfileFile(q)
    chk_pro(G, c['sets'], tabs, heads, PH, 6e-8, 'written: ')
    G.write(ctx.path('c.pro'))
    require(open(q, 'rb').read() == open(ctx.path('c.pro'), 'rb').read(), 'writing, reading and writing again changes the file')
    # incomplete last profile
    n = c['sets'][-1]['na']
    k = 1 + c['cut'] % n
    open(p, 'w', errors='surrogateescape').write('\n'.join(L[:len(L) - k]) + '\n')
    cmp.raises((Exception,), lambda: FLEXProfileFile(p), 'incomplete profile')
    ctx.label('sets:%d' % len(tabs))
    ctx.nontrivial(sum(len(t) for t in tabs) > 1 or c['sets'][0]['na'] > 1)


# ------------------------------------------------------------------ wave kinematics
@st.composite
def wk_cases(draw):
    nd = draw(st.integers(1, 14))
    return dict(nd=nd, nt=draw(st.integers(2, 30)), spec=draw(g.specs()), dep=sorted(draw(st.lists(st.integers(0, 1000), min_size=nd, max_size=nd, unique=True))), x=draw(st.integers(-500, 500)), crest=draw(g.finite(0, 30, 3)), vel=draw(g.finite(0, 10, 3)), acc=draw(g.finite(0, 10, 3)),
                wd=draw(g.finite(5, 200, 2)), hs=draw(g.finite(0.1, 20, 2)), tp=draw(g.finite(1, 20, 2)), sp=draw(st.integers(0, 12)), fmt=draw(st.sampled_from(['%7.2f', '%10.4E', '%9.3f'])), bad=draw(st.integers(0, 2)))


def check_wk(c, ctx):
    n, nd = c['nt'], c['nd']
    A = g.build((n, 2 + 2 * nd), c['spec'])
    A[:, 0] = np.arange(n) * 0.25
    T = [['%8.3f' % r[0]] + [c['fmt'] % x for x in r[1:]] for r in A]
    E = np.array([[float(x) for x in r] for r in T])

    def head(ndep, ndis):
        return ['Wave kinematics', ' 3', 'CrestHeightMax               %.3f m' % c['crest'], 'LongitudinalVelocityMax      %.3f m/s' % c['vel'], 'LongitudinalAccelerationMax  %.3f m/s^2' % c['acc'], '  %.2f     %.2f    %.2f     %d    Water Depth/Hs/Tp/spectype' % (c['wd'], c['hs'], c['tp'], c['sp']),
                ' %d     Number of displacements' % ndis, '    %.2f' % (c['x'] / 4.), '%d     Number of Relative Depths' % ndep, '  ' + '  '.join('%.3f' % (d / 1000.) for d in c['dep']), ' t  [eta  u_1..u_nDepths  a_1..a_nDepths](x,t) * nDisplacements']
    p = ctx.path('w.wko')
    body = ['  ' + '  '.join(r) for r in T]
    open(p, 'w').write('\n'.join(head(nd, 1) + body) + '\n')
    F = FLEXWaveKinFile(p)
    for k, e in (('MaxCrestHeight', c['crest']), ('MaxLongiVel', c['vel']), ('MaxLongiAcc', c['acc']), ('WaterDepth', c['wd']), ('Hs', c['hs']), ('Tp', c['tp']), ('SpecType', c['sp'])):
        cmp.arr_close(F[k], e, 0, 1e-9, k)
    cmp.arr_eq(F['RelDepth'], [float('%.3f' % (d / 1000.)) for d in c['dep']], 'depths')
    cmp.arr_eq(F['Displacements'], [c['x'] / 4.], 'displacements')
    df = F.toDataFrame()
    cmp.list_eq(list(df.columns[:2]), ['Time_[s]', 'WaveElev_[m]'], 'columns')
    cmp.list_eq([x[:2] for x in df.columns[2:]], ['u_'] * nd + ['a_'] * nd, 'columns')
    cmp.arr_eq(df.values, E, 'table')
    if c['bad']:
        q = ctx.path('bad.wko')
        open(q, 'w').write('\n'.join((head(nd + 1, 1) if c['bad'] == 1 else head(nd, 2)) + body) + '\n')
        cmp.raises((Exception,), lambda: FLEXWaveKinFile(q), 'numbers that do not match')
    ctx.nontrivial(nd > 1)


# ------------------------------------------------------------------ documentation file
@st.composite
def doc_cases(draw):
    items = []
    for i in range(draw(st.integers(1, 10))):
        grp = draw(st.sampled_from(['Tower', 'Blade', 'RNA', 'Geometry', 'Environment']))
        k = draw(st.sampled_from(['num', 'num', 'nums', 'text']))
        items.append(dict(k=k, g=grp, n='Item%d' % i, v=draw(st.lists(NUM, min_size=2, max_size=4)) if k == 'nums' else (draw(NUM) if k == 'num' else draw(st.sampled_from(['general', 'data/Tube1.twr', '.\\MT100.inf', 'm\udcf8lle', '\xe9olienne', '1m tower, light', 'Unknown', 'A 12 b']))),
                          unit=draw(st.sampled_from(['', '[m]', '[kgm2] [IX]', '[kg/m3]', '(= 2 (R+X))', '[m/s2] (psi=0, 3)'])), fmt=draw(st.sampled_from(['%r', '%.4E', '%.3f']))))
    arr = draw(st.lists(st.sampled_from(['Tower_SectionData', 'Tower_ShapeFunction_DOF1_Shape', 'Blade_ShapeFunction_DOF2_Shape', 'Foundation_ShapeFunction_DOF1_Shape']), max_size=3, unique=True))
    mat = draw(st.lists(st.sampled_from(['Blade_IsolatedMassMatrix', 'Blade_IsolatedStiffnessMatrix', 'Blade_IsolatedDampingMatrix', 'Foundation_IsolatedMassMatrix', 'Foundation_IsolatedStiffnessMatrix', 'Tower_MassMatrix', 'Tower_IsolatedMassMatrix', 'Tower_IsolatedStiffnessMatrixCorrection', 'EVA_MassMatrix', 'EVA_Eigenvectors', 'EVA_Eigenfrequencies', 'EVA_LogDec']), max_size=4, unique=True))
    return dict(items=items, arr=[dict(n=a, r=draw(st.integers(1, 8)), spec=draw(g.specs())) for a in arr], mat=[dict(n=a, r=draw(st.integers(1, 6)), m=draw(st.integers(1, 6)), spec=draw(g.specs())) for a in mat], blank=draw(st.booleans()), entry=draw(st.booleans()))


COLS = [('h[m]', 'h_[m]'), ('D[m]', 'D_[m]'), ('t[mm]', 't_[mm]'), ('Cd[-]', 'Cd_[-]'), ('EI[Nm2]', 'EI_[Nm2]')]
SCOLS = [('H [m]', 'H_[m]'), ('K [rad/m]', 'K_[rad/m]'), ('V [rad]', 'V_[rad]'), ('U [m]', 'U_[m]')]


def check_docf(c, ctx):
    L = ['#Program  Flex5', '#BaseName MT100', '#' * 60, '### START']
    exp, tabs, mats = {}, {}, {}
    for it in c['items']:
        if it['k'] == 'text':
            v, s = it['v'], it['v']
            L.append('#%s_%s   %s' % (it['g'], it['n'], s))
            exp[(it['g'], it['n'])] = s
        else:
            vs = it['v'] if it['k'] == 'nums' else [it['v']]
            s = [it['fmt'] % x for x in vs]
            L.append('#%s_%s   %s %s' % (it['g'], it['n'], '   '.join(s), it['unit']))
            e = [float(x) for x in s]
            exp[(it['g'], it['n'])] = e if len(e) > 1 else e[0]
    for a in c['arr']:
        cols = COLS if 'Section' in a['n'] else SCOLS
        A = g.build((a['r'], len(cols)), a['spec'])
        S = [['%.6E' % x for x in r] for r in A]
        L += ['#' + a['n'] + (' (Unit displacement)' if 'Shape' in a['n'] else ''), ('%d   ' % a['r'] if 'Section' in a['n'] else '   ') + '    '.join(x[0] for x in cols) + ' ']
        L += ['   ' + '  '.join(r) for r in S] + ([''] if c['blank'] else [])
        tabs[a['n']] = ([x[1] for x in cols], np.array(S).astype(float))
    for a in c['mat']:
        A = g.build((a['r'], a['m']), a['spec'])
        S = [['%.4E' % x for x in r] for r in A]
        L += ['#' + a['n'] + ' (Tower system)'] + ['  ' + '  '.join(r) for r in S] + ([''] if c['blank'] else [])
        mats[a['n']] = np.array(S).astype(float)
    L += ['### END', '#' * 60, '#EVA_DTMax   0.301 [s] (recommended)']
    p = ctx.path('doc.out')
    open(p, 'w', errors='surrogateescape').write('\n'.join(L) + '\n')
    F = weio.read(p) if c['entry'] else FLEXDocFile(p)
    require(type(F).__name__ == 'FLEXDocFile', 'detected as %s', type(F).__name__)
    require(F['BaseName'] == 'MT100' and F['Program'] == 'Flex5', 'texts: %r %r', F['BaseName'], F['Program'])
    for (a, b), e in exp.items():
        v = F[a][b]
        if isinstance(e, str):
            require(isinstance(v, str) and v == e, '%s_%s is %r, expected %r', a, b, v, e)
        else:
            cmp.arr_eq(v, e, '%s_%s' % (a, b))
    dfs = F.toDataFrame()
    require(sorted(dfs) == sorted(tabs), 'tables %s, expected %s', sorted(dfs), sorted(tabs))
    for n, (cols, A) in tabs.items():
        cmp.list_eq(dfs[n].columns, cols, 'columns of ' + n)
        cmp.arr_eq(dfs[n].values, A, n)
        a, b = n.split('_', 1)
        cmp.arr_eq(F[a][b].values, A, n)
    for n, A in mats.items():
        a, b = n.split('_', 1)
        cmp.arr_eq(F[a][b], A, n)
    cmp.eq(float(F['EVA']['DTMax']), 0.301, 'DTMax')
    ctx.nontrivial(len(c['items']) > 1)


COMPONENTS = [Component('results', out_cases(), check_out, 250, 4000), Component('blades', blade_cases(), check_blade, 150, 3000), Component('profiles', pro_cases(), check_pro, 150, 3000), Component('waves', wk_cases(), check_wk, 80, 1500), Component('doc', doc_cases(), check_docf, 150, 3000)]
