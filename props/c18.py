"""C18: HAWCStab2, BModes, CACTUS, TDMS, NetCDF and RAAW results."""
import os
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vlib.core import Component, require
from vlib import gens as g, cmp
import weio

RULE = ('HAWCStab2 power, induction, deflection, force and Campbell files, BModes, CACTUS, TDMS, NetCDF and RAAW results encoded from generated tables and read; '
        'non-trivial: at least 2 rows.')
ASSUMPTIONS = ['CACTUS forces in the OpenFAST convention are checked against the coefficients of the file through their definition', 'TDMS channels share one time track', 'RAAW files last 600 s, at 1 and 50 Hz', 'NetCDF variables have one or two dimensions']
SPEC = g.specs()
PWR = ['V [m/s]', 'P [kW]', 'T [kN]', 'Cp [-]', 'Ct [-]', 'Pitch Q [Nm]', 'Flap M [kNm]', 'Edge M [kNm]', 'Pitch [deg]', 'Speed [rpm]', 'Tip x [m]', 'Tip y [m]', 'Tip z [m]', 'J_rot [kg*m^2]', 'J_DT [kg*m^2]']
IND = ["s [m]", "A [-]", "AP [-]", "PHI0 [rad]", "ALPHA0 [rad]", "U0 [m/s]", "FX0 [N/m]", "FY0 [N/m]", "M0 [Nm/m]", "UX0 [m]", "UY0 [m]", "UZ0 [m]", "Twist[rad]", "X_AC0 [m]", "Y_AC0 [m]", "Z_AC0 [m]", "CL0 [-]", "CD0 [-]", "CM0 [-]", "CLp0[1/rad]", "CDp0[1/rad]", "CMp0[1/rad]",
       "F0 [-]", "F'[1/rad]", "CL_FS0 [-]", "CLFS'[1/rad]", "V_a [m/s]", "V_t [m/s]", "Tors. [rad]", "vx [m/s]", "vy [m/s]", "chord [m]", "CT [-]", "CP [-]", "angle [rad]", "v_1 [-]", "v_2 [-]", "v_3 [-]"]
FEXT = ['s [m]', 'Node [-]', 'Fx_e [N]', 'Fy_e [N]', 'Fz_e [N]', 'Mx_e [Nm]', 'My_e [Nm]', 'Mz_e [Nm]', 'Fx_r [N]', 'Fy_r [N]', 'Fz_r [N]', 'Mx_r [Nm]', 'My_r [Nm]', 'Mz_r [Nm]']
DEFL = ['s [m]', 'Element no [-]', 'pos_xR [m]', 'pos_yR [m]', 'pos_zR [m]', 'Elem angle [rad]', 'Elem v_1 [-]', 'Elem v_2 [-]', 'Elem v_3 [-]', 'Node 1 angle [rad]', 'Node 1 v_1 [-]', 'Node 1 v_2 [-]', 'Node 1 v_3 [-]', 'Node 2 angle [rad]', 'Node 2 v_1 [-]', 'Node 2 v_2 [-]', 'Node 2 v_3 [-]', 'Elongation [m]']


@st.composite
def stab_cases(draw):
    return dict(kind=draw(st.sampled_from(['pwr', 'ind', 'fext', 'defl'])), n=draw(st.one_of(st.integers(1, 30), st.integers(1, 200))), spec=draw(SPEC), sp=draw(st.sampled_from([' ', ''])), ws=draw(st.integers(3000, 99999)), ext=draw(st.sampled_from(['', '', '.txt'])),
                bad=draw(st.integers(0, 5)), odd=draw(st.integers(0, 5)))


def check_stab(c, ctx):
    k = c['kind']
    cols = dict(pwr=PWR, ind=IND, fext=FEXT, defl=DEFL)[k]
    M = g.build((c['n'], len(cols)), c['spec'])
    M = np.array([[float('%.10E' % x) for x in r] for r in M])
    if k == 'pwr':
        h = ' #' + ''.join('%15s %2d  ' % (n, i + 1) for i, n in enumerate(cols))
        exp = [n.replace(' ', '_') for n in cols]
    else:
        h = ' #' + ''.join('%11s %s%s' % (n, str(i + 1).ljust(2) if i > 8 else '%d ' % (i + 1), c['sp']) for i, n in enumerate(cols))
        exp = [n.replace(' ', '_').replace('[', '_[').replace('__', '_') for n in cols]
    rows = ['  '.join('%18.10E' % x for x in r) for r in M]
    nm = {'pwr': 'a_b', 'ind': 'case_u%d' % c['ws'], 'fext': 'case_fext_u%d' % c['ws'], 'defl': 'case_defl_u%d' % c['ws']}[k]
    if c['odd'] == 0 and k != 'pwr':
        nm = 'nowind'
    p = ctx.path(nm + (c['ext'] or ('.pwr' if k == 'pwr' else '.ind')))
    open(p, 'w').write('\n'.join([h] + rows) + '\n')
    from weio.hawcstab2_pwr_file import HAWCStab2PwrFile
    from weio.hawcstab2_ind_file import HAWCStab2IndFile
    cls = HAWCStab2PwrFile if k == 'pwr' else HAWCStab2IndFile
    F = cls(p) if c['ext'] else weio.read(p)
    require(isinstance(F, cls), 'read as %s', type(F).__name__)
    df = F.toDataFrame()
    cmp.list_eq(list(df.columns), exp, 'columns')
    cmp.arr_eq(df.values, M, 'values')
    if k != 'pwr':
        require(F.type == k, 'type %r, expected %r', F.type, k)
        if nm != 'nowind':
            cmp.arr_close(F.wsp, c['ws'] / 1000., 1e-12, 0, 'wind speed')
            require(df.columns.name == '%s - ws=%06.3f' % (k, c['ws'] / 1000.), 'name of the table: %r', df.columns.name)
    q = ctx.path('bad' + os.path.splitext(p)[1])
    if c['bad'] == 0:       # rows with a missing value
        open(q, 'w').write('\n'.join([h] + [r.rsplit(None, 1)[0] for r in rows]) + '\n')
        cmp.raises((weio.BrokenFormatError,), lambda: cls(q), 'missing column')
    if c['bad'] == 1:
        open(q, 'w').write('\n'.join([h.replace('#', ' ')] + rows) + '\n')
        cmp.raises((weio.WrongFormatError,), lambda: cls(q), 'header without #')
    if c['bad'] == 2:
        open(q, 'w').write('\n'.join([h + '  more [-] 99'] + rows) + '\n')
        cmp.raises((weio.WrongFormatError,), lambda: cls(q), 'other number of columns')
    ctx.label(k)
    ctx.nontrivial(c['n'] > 1)


@st.composite
def cmb_cases(draw):
    return dict(n=draw(st.one_of(st.integers(1, 30), st.integers(1, 200))), spec=draw(SPEC), nm=draw(st.one_of(st.sampled_from([1, 1, 2, 3]), st.integers(1, 12), st.integers(13, 60))), cols=draw(st.sampled_from([3, 2, 1])))


def check_cmb(c, ctx):
    nm, n = c['nm'], c['n']
    M = np.column_stack((np.linspace(3, 25, n), g.build((n, nm * c['cols']), c['spec'])))
    M = np.array([[float('%.10E' % x) for x in r] for r in M])
    p = ctx.path('a.cmb')
    open(p, 'w').write('# Mode number:' + ''.join('%15d' % (i + 1) for i in range(nm)) + '\n' + '\n'.join('  '.join('%18.10E' % x for x in r) for r in M) + '\n')
    df = weio.read(p).toDataFrame()
    exp = ['Wind_[m/s]'] + [a + str(i + 1) for a in 'FDR'[:c['cols']] for i in range(nm)]
    cmp.list_eq(list(df.columns), exp, 'columns')
    cmp.arr_eq(df.values, M, 'values')
    ctx.label('cols%d' % c['cols'])
    ctx.nontrivial(c['n'] > 1)


@st.composite
def bmodes_cases(draw):
    return dict(nm=draw(st.integers(1, 12)), n=draw(st.one_of(st.integers(1, 25), st.integers(1, 25), st.integers(1, 130))), spec=draw(g.specs(bases=[0.0, 0.1], scales=[1.0, 0.3])), f=[draw(g.finite(1e-3, 900, 5)) for _ in range(12)], tow=draw(st.booleans()), cls=draw(st.booleans()), end=draw(st.integers(0, 2)), title=draw(st.sampled_from(['A tower', 'A tower', 'm\udcf8lle', 'x'])))


def check_bmodes(c, ctx):
    L = ['      Results generated by BModes (v1.03.01, 25-Sept-2007, compiled using double precision) on 24-Dec-2021 at 12:22:43.', c['title'], '=' * 60, '', '            %s frequencies & mode shapes' % ('tower' if c['tow'] else 'blade'), '            --- only first   %d modes printed' % c['nm'], '', '']
    S = np.round(g.build((c['nm'], c['n'], 6), c['spec']), 6)
    S[:, :, 0] = np.round(np.linspace(0, 1, c['n']), 4)
    f = [float('%.6E' % (x / 10) if False else '%.5E' % max(x, 1e-3)) for x in c['f'][:c['nm']]]
    for i in range(c['nm']):
        m = '%.6E' % f[i]
        man, ex = ('%.5E' % f[i]).split('E')
        s = '0.%sE%+03d' % (man.replace('.', ''), int(ex) + 1)
        f[i] = float(s)
        L += [' -------- Mode No. %3d  (freq = %s Hz)' % (i + 1, s), '', 'span_loc\ts-s disp\ts-s slope\tf-a disp\tf-a slope\ttwist', '']
        L += ['%7.4f\t' % r[0] + '\t'.join('%9.6f' % x for x in r[1:]) for r in S[i]]
        L += ['', '']
    if c['end'] == 0:
        while L[-1] == '':
            L.pop()
    if c['end'] == 1:
        while L[-1] == '':
            L.pop()
        L += ['=' * 50]
    p = ctx.path('b.out')
    open(p, 'w', errors='surrogateescape').write('\n'.join(L) + '\n')
    from weio.bmodes_out_file import BModesOutFile
    F = BModesOutFile(p)
    cmp.arr_close(F['frequencies'], f, 1e-12, 0, 'frequencies')
    require(len(F['mode_shapes']) == c['nm'], '%d modes, expected %d', len(F['mode_shapes']), c['nm'])
    dfs = F.toDataFrame()
    cmp.list_eq(list(dfs), ['Mode_%d' % (i + 1) for i in range(c['nm'])], 'tables')
    for i in range(c['nm']):
        cmp.arr_eq(F['mode_shapes'][i], S[i], 'mode %d' % (i + 1))
        cmp.arr_eq(dfs['Mode_%d' % (i + 1)].values, S[i], 'table of mode %d' % (i + 1))
        cmp.list_eq(list(dfs['Mode_%d' % (i + 1)].columns), ['span_loc', 's-s disp', 's-s slope', 'f-a disp', 'f-a slope', 'twist'], 'columns')
    repr(F)
    if c['cls']:
        L[0] = 'Results of another program'
        q = ctx.path('other.out')
        open(q, 'w', errors='surrogateescape').write('\n'.join(L) + '\n')
        cmp.raises((weio.WrongFormatError,), lambda: BModesOutFile(q), 'file of another program')
    ctx.nontrivial(c['n'] > 1)


# ------------------------------------------------------------------ CACTUS
@st.composite
def cactus_cases(draw):
    return dict(nb=draw(st.integers(1, 4)), nr=draw(st.integers(1, 3)), nti=draw(st.integers(2, 6)), ne=draw(st.one_of(st.integers(1, 3), st.integers(1, 14))), b0=draw(st.integers(0, 5)), e0=draw(st.integers(0, 5)), ds=draw(st.booleans()), sign=draw(st.sampled_from([-1, -1, 1])), rpm=draw(g.finite(1, 200, 2)), ut=draw(g.finite(0.5, 9, 2)), rho=draw(st.sampled_from([0.002328, 0.0023769])), refr=draw(g.finite(0.5, 100, 2)), refar=draw(g.finite(0.1, 9, 2)),
                spec=draw(g.specs(bases=[0.0, 0.4], scales=[0.1, 1.0])), geom=draw(st.booleans()), elem=draw(st.booleans()), cut=draw(st.integers(0, 3)), twice=draw(st.booleans()), entry=draw(st.booleans()))


ELEM = ['Normalized Time (-)', 'Theta (rad)', 'Blade', 'Element', 'Rev', 'x/R (-)', 'y/R (-)', 'z/R (-)', 'AOA25 (deg)', 'AOA50 (deg)', 'AOA75 (deg)', 'AdotNorm (-)', 'Re (-)', 'Mach (-)', 'Ur (-)', 'IndU (-)', 'IndV (-)', 'IndW (-)', 'GB (?)', 'CL (-)', 'CD (-)', 'CM25 (-)', 'CLCirc (-)', 'CN (-)', 'CT (-)', 'Fx (-)', 'Fy (-)', 'Fz (-)', 'te (-)']
DS = ['Normalized Time (-)', 'Theta (rad)', 'Blade', 'Element', 'Rev', 'alpha (deg)', 'adotnorm (-)', 'alrefL (deg)', 'alrefD (deg)', 'DynamicFlagL', 'DynamicFlagD', 'alphaLagD (deg)', 'delP', 'delN', 'transA', 'gammaL', 'gammaD', 'dalphaL (deg)']


def check_cactus(c, ctx):
    n = c['nr'] * c['nti']
    if c['cut'] == 0 and n > 3:
        n -= 1
    d = ctx.path('output')
    os.mkdir(d)
    p = ctx.path('case.in')
    open(p, 'w').write("&ConfigInputs\n nr = %d\n nti = %d\n/\n&CaseInputs\n jbtitle = 'test'\n rho = %r\n rpm = %r\n ut = %r\n ctexcrm = 0.0\n geomfilepath = 'g.geom'\n afdpath = 'a.dat'\n/\n" % (c['nr'], c['nti'], c['rho'], c['rpm'], c['ut']))
    if c['geom']:
        open(ctx.path('g.geom'), 'w').write('NBlade: %d\nNStrut: 0\nRotN: 0.0 1.0 0.0   ! axis\nRotP: 0.0 0.0 0.0\nRefAR: %r\nRefR: %r\nType: VAWT\n' % (c['nb'], c['refar'], c['refr']))
    base = ['Normalized Time (-)', 'Theta (rad)', 'Rev', 'Torque Coeff. (-)', 'Power Coeff. (-)', 'Fx Coeff. (-)', 'Fy Coeff. (-)', 'Fz Coeff. (-)']
    bl = ['Blade Fx Coeff. (-)', 'Blade Fy Coeff. (-)', 'Blade Fz Coeff. (-)', 'Blade Torque Coeff. (-)']
    T = np.round(g.build((n, 8 + 4 * c['nb']), c['spec']), 6)
    open(ctx.path('output/case_TimeData.csv'), 'w').write(','.join(base + bl * c['nb']) + '\n' + '\n'.join(','.join(repr(float(x)) for x in r) for r in T) + '\n')
    E = np.round(g.build((n * c['nb'] * c['ne'], len(ELEM)), dict(c['spec'], seed=c['spec']['seed'] + 1)), 6)
    i = 0
    for it in range(n):
        for b in range(c['nb']):
            for e in range(c['ne']):
                E[i, 2], E[i, 3] = b + 1, e + 1
                i += 1
    b0 = c['b0'] % c['nb'] if c['b0'] < 3 else 0       # output requested for some blades and elements only
    e0 = c['e0'] % c['ne'] if c['e0'] < 3 else 0
    E = E[(E[:, 2] > b0) & (E[:, 3] > e0)]
    D = np.round(g.build((len(E), len(DS)), dict(c['spec'], seed=c['spec']['seed'] + 2)), 6)
    D[:, 2:4] = E[:, 2:4]
    if c['elem']:
        open(ctx.path('output/case_ElementData.csv'), 'w').write(','.join(ELEM) + '\n' + '\n'.join(','.join(repr(float(x)) for x in r) for r in E) + '\n')
        if c['ds']:
            open(ctx.path('output/case_DSData.csv'), 'w').write(','.join(DS) + '\n' + '\n'.join(','.join(repr(float(x)) for x in r) for r in D) + '\n')
    F = weio.read(p)
    require(type(F).__name__ == 'CactusFile', 'read as %s', type(F).__name__)
    om = c['rpm'] * 2 * np.pi / 60
    R = c['refr'] / 3.28084 if c['geom'] else 1.0
    A = (c['refar'] * c['refr'] ** 2 if c['geom'] else 2 * 3.28084 ** 2) / 3.28084 ** 2
    U = om * R / c['ut']
    rho = c['rho'] * 1.2 / 0.0023280000
    F0, Q0, P0 = 0.5 * rho * A * U ** 2, 0.5 * rho * A * U ** 2 * R, 0.5 * rho * A * U ** 3
    t = np.arange(n) * 2 * np.pi / om / c['nti']
    th = t * om
    sg = c['sign']
    tab = lambda: F.toDataFrame() if sg == -1 else F.toDataFrame(alphaSign=sg)
    dfs = [tab()]
    if c['twice']:
        dfs.append(tab())
    for df in dfs:
        def col(name, v):
            require(name in df.columns, 'no column %s', name)
            v = np.asarray(v, float)
            cmp.arr_close(df[name].values, v, 1e-9, 1e-12 + 1e-9 * np.abs(v).max(), name)
        col('Time_[s]', t)
        psi = np.mod(th * 180 / np.pi, 360)
        dpsi = np.abs(df['Azimuth_[deg]'].values - psi)
        require((np.minimum(dpsi, 360 - dpsi) < 1e-6).all(), 'azimuth')
        col('HWindSpeedX_[m/s]', np.full(n, U))
        col('RotSpeed_[rpm]', np.full(n, c['rpm']))
        col('RtAeroCp_[-]', T[:, 4])
        col('RtAeroCq_[-]', T[:, 3])
        col('ZAeroFxg_[N]', T[:, 5] * F0)
        col('ZAeroFyg_[N]', -T[:, 7] * F0)
        col('ZAeroFzg_[N]', T[:, 6] * F0)
        col('ZAeroMzg_[N-m]', T[:, 3] * Q0)
        col('RtAeroFxh_[N]', T[:, 6] * F0)
        col('RtAeroFyh_[N]', (np.cos(th) * T[:, 5] - np.sin(th) * T[:, 7]) * F0)
        col('RtAeroFzh_[N]', -(np.cos(th) * T[:, 7] + np.sin(th) * T[:, 5]) * F0)
        col('RtAeroMxh_[N-m]', T[:, 3] * Q0)
        col('Wind1VelX_[m/s]', np.full(n, U))
        require(len(set(df.columns)) == len(df.columns), 'columns of the same name')
        pw = T[:, 4] * P0
        pw[0] = pw[1]
        col('RtAeroPwr_[W]', pw)
        for b in range(c['nb']):
            B = T[:, 8 + 4 * b:12 + 4 * b]
            ps = th - 2 * np.pi * b / c['nb']
            col('Z%dAeroFxg_[N]' % (b + 1), B[:, 0] * F0)
            col('Z%dAeroFyg_[N]' % (b + 1), -B[:, 2] * F0)
            col('Z%dAeroFzg_[N]' % (b + 1), B[:, 1] * F0)
            col('Z%dAeroMzg_[N-m]' % (b + 1), B[:, 3] * Q0)
            col('Y%dAeroFzb_[N]' % (b + 1), -B[:, 1] * F0)
            col('Y%dAeroFxb_[N]' % (b + 1), -(np.cos(ps) * B[:, 2] + np.sin(ps) * B[:, 0]) * F0)
            col('Y%dAeroFyb_[N]' % (b + 1), (np.cos(ps) * B[:, 0] - np.sin(ps) * B[:, 2]) * F0)
            pw = B[:, 3] * Q0 * om
            pw[0] = pw[1]
            col('Y%dAeroPwr_[W]' % (b + 1), pw)
            for j, nm in enumerate(bl):
                col(nm.replace('Blade', 'Blade%d' % (b + 1)), B[:, j])
            col('Y%dAeroMxb_[N-m]' % (b + 1), B[:, 3] * Q0)
            if not (c['elem'] and b >= b0):
                require(not [x for x in df.columns if x.startswith('AB%d' % (b + 1))], 'element data of blade %d', b + 1)
            else:
                require(len([x for x in df.columns if x.startswith('AB%dN' % (b + 1)) and x.endswith('Cd_[-]')]) == c['ne'] - e0, 'elements of blade %d', b + 1)
                for e in range(e0, c['ne']):
                    S = E[(E[:, 2] == b + 1) & (E[:, 3] == e + 1)]
                    x = lambda nm: S[:, ELEM.index(nm)]
                    pre = 'AB%dN%03d' % (b + 1, e + 1)
                    for nm, v in (('Alpha_[deg]', sg * x('AOA25 (deg)')), ('Alpha50_[deg]', sg * x('AOA50 (deg)')), ('Alpha75_[deg]', sg * x('AOA75 (deg)')), ('Cl_[-]', sg * x('CL (-)')), ('Cd_[-]', x('CD (-)')), ('Cm_[-]', sg * x('CM25 (-)')), ('Cn_[-]', sg * x('CN (-)')), ('Ct_[-]', sg * x('CT (-)')),
                                  ('Cxg_[-]', x('Fx (-)')), ('Cyg_[-]', -x('Fz (-)')), ('Czg_[-]', x('Fy (-)')), ('ClC_[-]', sg * x('CLCirc (-)')), ('Re_[-]', x('Re (-)') / 1e6), ('Gam_[m^2/s]', sg * x('GB (?)') * U * R), ('Vrel_[m/s]', x('Ur (-)') * U),
                                  ('Vindx_[m/s]', -(np.cos(ps) * x('IndW (-)') + np.sin(ps) * x('IndU (-)')) * U), ('Vindy_[m/s]', (np.cos(ps) * x('IndU (-)') - np.sin(ps) * x('IndW (-)')) * U)):
                        col(pre + nm, v)
                    al = np.radians(x('AOA25 (deg)'))
                    col(pre + 'Ct2_[-]', sg * (-x('CL (-)') * np.sin(al) + x('CD (-)') * np.cos(al)))
                    if c['ds']:
                        S = D[(D[:, 2] == b + 1) & (D[:, 3] == e + 1)]
                        x = lambda nm: S[:, DS.index(nm)]
                        for nm, v in (('alpha_34_[deg]', sg * x('alpha (deg)')), ('alphaE_[deg]', sg * x('alrefL (deg)')), ('alphaED_[deg]', sg * x('alrefD (deg)')), ('adotnorm_[-]', sg * x('adotnorm (-)')), ('activeL_[-]', x('DynamicFlagL')), ('activeD_[-]', x('DynamicFlagD')),
                                      ('alphaLagD_[deg]', sg * x('alphaLagD (deg)')), ('transA_[-]', x('transA')), ('gammaL_[-]', x('gammaL')), ('gammaD_[-]', x('gammaD')), ('dalphaL_[deg]', sg * x('dalphaL (deg)')), ('dalphaD_[deg]', sg * (x('alpha (deg)') - x('alrefD (deg)')))):
                            col(pre + nm, v)
        for j, nm in enumerate(base):
            col(nm, T[:, j])
    ctx.label('elements' if c['elem'] else 'noelements')
    ctx.nontrivial(n > 2)


# ------------------------------------------------------------------ TDMS, NetCDF, RAAW
@st.composite
def sci_cases(draw, kinds=('tdms', 'tdms', 'nc', 'nc', 'nc')):
    kind = draw(st.sampled_from(kinds))
    raaw = kind == 'raaw'
    names = draw(st.one_of(g.unique_idents(5, 12, 9), g.unique_idents(1, 6, 9)) if raaw else g.unique_idents(1, 6, 9))
    flag = draw(st.sampled_from([st.booleans(), st.integers(0, 5).map(lambda i: i == 0), st.integers(0, 5).map(lambda i: i > 0)])) if raaw else st.booleans()
    return dict(kind=kind, names=names, n=draw(st.one_of(st.integers(1, 40), st.integers(1, 40), st.integers(1, 40), st.sampled_from([70000, 140000]) if kind == 'nc' else st.integers(1, 3000))), m=draw(st.integers(1, 5)), spec=draw(SPEC), two=draw(st.lists(flag, min_size=12, max_size=12)), dt=draw(st.sampled_from([0.01, 0.1, 0.5, 1.0])), off=draw(st.sampled_from([0.0, 0.0, 5.0])), groups=draw(st.booleans()),
                f4=draw(st.booleans()), bad=draw(st.integers(0, 4)), date=[draw(st.integers(2000, 2030)), draw(st.integers(1, 12)), draw(st.integers(1, 28)), draw(st.integers(0, 23)), draw(st.integers(0, 59)), draw(st.integers(0, 59))])


def check_sci(c, ctx):
    {'tdms': check_tdms, 'nc': check_nc, 'raaw': check_raaw}[c['kind']](c, ctx)
    ctx.label(c['kind'])
    ctx.nontrivial(c['n'] > 1)


def check_tdms(c, ctx):
    from nptdms import TdmsWriter, ChannelObject
    n = c['n']
    D = [g.build((n,), dict(c['spec'], seed=c['spec']['seed'] + i)).astype('f4' if c['f4'] else 'f8') for i in range(len(c['names']))]
    p = ctx.path('a.tdms')

    def write(D, ddt=0, doff=0):
        last = len(D) - 1
        with TdmsWriter(p) as w:
            w.write_segment([ChannelObject('g%d' % (i // 2 if c['groups'] else 0), nm, D[i], properties=dict(wf_increment=c['dt'] + ddt * (i == last), wf_start_offset=c['off'] + doff * (i == last))) for i, nm in enumerate(c['names'])])
    write(D)
    df = weio.read(p).toDataFrame()
    cmp.list_eq(list(df.columns), ['Time_[s]'] + c['names'], 'columns')
    cmp.arr_close(df.values[:, 0], c['off'] + c['dt'] * np.arange(n), 1e-9, 1e-9, 'time')
    for i, nm in enumerate(c['names']):
        cmp.arr_eq(df[nm].values, D[i], nm)
    if c['bad'] == 1 and len(D) > 1:        # no single time axis: not a table
        write(D, doff=0.25)
        cmp.raises((Exception,), lambda: weio.read(p), 'channels with different starts')
        if n > 1:
            write(D, ddt=0.25)
            cmp.raises((Exception,), lambda: weio.read(p), 'channels with different time steps')
            write(D, ddt=0.25, doff=-0.25 * (n - 1))
            cmp.raises((Exception,), lambda: weio.read(p), 'channels with different time steps and the same end')
    if c['bad'] == 0 and len(D) > 1:
        D[-1] = np.append(D[-1], 1)
        write(D)
        cmp.raises((Exception,), lambda: weio.read(p), 'channels of different lengths')


def check_nc(c, ctx):
    import xarray as xr
    V = {}
    for i, nm in enumerate(c['names']):
        sh, dims = ((c['n'], c['m']), ('t', 'x')) if c['two'][i] else ((c['n'],), ('t',))
        V['v' + nm] = (dims, g.build(sh, dict(c['spec'], seed=c['spec']['seed'] + i)).astype('f4' if c['f4'] else 'f8'))
    p = ctx.path('a.nc')
    xr.Dataset(V).to_netcdf(p)
    q = ctx.path('b.nc')
    F = weio.read(p)
    F.write(q)
    for G, what in ((F, 'read'), (weio.read(q), 'written')):
        dfs = G.toDataFrame()
        cmp.list_eq(sorted(dfs), sorted(V), what + ': variables')
        for k, (dims, v) in V.items():
            cmp.arr_eq(dfs[k].values, v.reshape(len(v), -1), what + ': ' + k)
        G.data.close()


def check_raaw(c, ctx):
    from scipy.io import savemat
    names = c['names']
    cell = np.empty((len(names), 1), dtype=object)
    D = []
    for i, nm in enumerate(names):
        fast = c['two'][i]
        v = g.build((30000 if fast else 600,), dict(c['spec'], seed=c['spec']['seed'] + i))
        D.append(v)
        cell[i, 0] = dict(a=1, Name=nm, c=2, dt=0.02 if fast else 1.0, e=3, t0=np.array([c['date']], dtype=np.int32), data=v.reshape(-1, 1))
    p = ctx.path('a.mat')
    savemat(p, {'DataCell': cell})
    F = weio.read(p)
    dfs = F.toDataFrame()
    cmp.list_eq(sorted(dfs), ['data1hz', 'data50hz'], 'tables')
    import datetime
    for key, dt, N in (('data50hz', 0.02, 30000), ('data1hz', 1.0, 600)):
        df = dfs[key]
        sel = [i for i in range(len(names)) if c['two'][i] == (dt == 0.02)]
        cmp.list_eq(list(df.columns), ['time'] + [names[i] for i in sel], 'columns')
        cmp.arr_close(df['time'].values, dt * np.arange(N), 0, 1e-9, 'time')
        require(df.index[0] == datetime.datetime(*c['date']), 'first time stamp %s', df.index[0])
        require(abs((df.index[-1] - df.index[0]).total_seconds() - (N - 1) * dt) < 1e-6, 'last time stamp %s', df.index[-1])
        for j, i in enumerate(sel):
            cmp.arr_eq(df.values[:, 1 + j], D[i], names[i])
    repr(F)
    # --- with a list of channels: those of the list that the file does not have are added, without values
    from weio.raawmat_file import matfile
    pk = None
    lists = {50: [nm for i, nm in enumerate(names) if c['two'][i]][c['bad'] % 2:], 1: [nm for i, nm in enumerate(names) if not c['two'][i]]}
    miss = {50: ['missing50_%d' % i for i in range(c['m'])], 1: ['missing1_%d' % i for i in range(c['bad'])]}
    if c['f4']:
        pk = ctx.path('key.csv')
        pd.DataFrame({'50hz': pd.Series(lists[50] + miss[50], dtype=object), '1hz': pd.Series(miss[1] + lists[1], dtype=object)}).to_csv(pk, index=False)
    for output in ('pandas',) if c['groups'] else ('xarray',):
        ds = matfile(p, output=output, path_key=pk)
        for key, f, N in (('data50hz', 50, 30000), ('data1hz', 1, 600)):
            sel = [i for i in range(len(names)) if c['two'][i] == (f == 50)]
            x = ds[key]
            cols = list(x.columns) if output == 'pandas' else [str(v) for v in x.channel.values]
            cmp.list_eq(cols, ['time'] + [names[i] for i in sel] + (miss[f] if pk else []), '%s (%s): channels' % (key, output))
            M = np.asarray(x.values, dtype=float)
            cmp.arr_close(M[:, 0], np.arange(N) / float(f), 0, 1e-9, 'time (%s)' % output)
            for j, i in enumerate(sel):
                cmp.arr_eq(M[:, 1 + j], D[i], '%s (%s)' % (names[i], output))
            require(np.isnan(M[:, 1 + len(sel):]).all(), '%s (%s): channels the file does not have', key, output)
            stamp = pd.Timestamp(x.index[0] if output == 'pandas' else x.timestamp.values[0])
            require(stamp == pd.Timestamp(*c['date']), 'first time stamp %s', stamp)


COMPONENTS = [Component('hawcstab2', stab_cases(), check_stab, 300, 4000), Component('campbell', cmb_cases(), check_cmb, 150, 2000), Component('bmodes', bmodes_cases(), check_bmodes, 150, 2500), Component('cactus', cactus_cases(), check_cactus, 100, 1500), Component('scientific', sci_cases(), check_sci, 150, 2000), Component('raaw', sci_cases(('raaw',)), check_sci, 35, 400, shards=4)]
