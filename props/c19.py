"""C19: OpenFAST linearization files."""
import re
import numpy as np
from hypothesis import strategies as st
from vlib.core import Component, require
from vlib import gens as g, cmp
from weio.fast_linearization_file import FASTLinearizationFile
import weio

RULE = ('Linearization files encoded from generated numbers of states, inputs and outputs, operating points (single values or orientations), matrices, jacobians and mass matrix; '
        'non-trivial: at least 2 states, 2 inputs and 2 outputs.')
ASSUMPTIONS = ['descriptions are drawn from those OpenFAST writes', 'sections are absent when their size is zero, as OpenFAST writes them']
SPEC = g.specs()
STATES = [('1st tower fore-aft bending mode DOF (internal DOF index = DOF_TFA1)', 'm', 'qt1FA'), ('1st tower side-to-side bending mode DOF (internal DOF index = DOF_TSS1)', 'm', 'qt1SS'), ('2nd tower fore-aft bending mode DOF (internal DOF index = DOF_TFA2)', 'm', 'qt2FA'),
          ('2nd tower side-to-side bending mode DOF (internal DOF index = DOF_TSS2)', 'm', 'qt2SS'), ('Variable speed generator DOF (internal DOF index = DOF_GeAz)', 'rad', 'psi_rot'), ('Platform horizontal surge translation DOF (internal DOF index = DOF_Sg)', 'm', 'PtfmSurge'),
          ('Platform pitch tilt rotation DOF (internal DOF index = DOF_P)', 'rad', 'PtfmPitch'), ('1st flapwise bending-mode DOF of blade 1 (internal DOF index = DOF_BF(1,1))', 'm', '1stFLAP1'), ('1st flapwise bending-mode DOF of blade 2 (internal DOF index = DOF_BF(2,1))', 'm', '1stFLAP2'),
          ('1st edgewise bending-mode DOF of blade 1 (internal DOF index = DOF_BE(1,1))', 'm', '1stEDGE1'), ('2nd flapwise bending-mode DOF of blade 3 (internal DOF index = DOF_BF(3,2))', 'm', '2ndFLAP3'), ('Drivetrain rotational-flexibility DOF (internal DOF index = DOF_DrTr)', 'rad', 'DTrotational-flexibilityDOF'), ('Nacelle yaw DOF (internal DOF index = DOF_Yaw)', 'rad', 'NacyawDOF'),
          ('Platform horizontal sway translation DOF (internal DOF index = DOF_Sw)', 'm', 'PtfmSway'), ('Platform vertical heave translation DOF (internal DOF index = DOF_Hv)', 'm', 'PtfmHeave'), ('Platform roll tilt rotation DOF (internal DOF index = DOF_R)', 'rad', 'PtfmRoll'), ('Platform yaw rotation DOF (internal DOF index = DOF_Y)', 'rad', 'PtfmYaw')]
BD = [('BD_%d' % b, 'finite element node %d (number of elements = 3; element order = 5) %s displacement in %s' % (n, k, a), 'm' if k[0] == 't' else 'rad') for b in (1, 2, 3) for n in (2, 16) for k in ('translational', 'rotational') for a in 'XYZ']
BD += [('BD_%d' % b, 'finite element node %d (number of elements = 1; element order = 10) %s displacement in %s' % (n, k, a), 'm' if k[0] == 't' else 'rad') for b in (1, 2, 3) for n in (3, 4, 5, 11) for k in ('translational', 'rotational') for a in 'XYZ']
BDN = {('t', 'X'): 'FLAP-D', ('t', 'Y'): 'EDGE-D', ('r', 'X'): 'EDGE-R', ('r', 'Y'): 'FLAP-R', ('r', 'Z'): 'TORS-R', ('t', 'Z'): 'transZ'}
INPUTS = [('HD Extended input: wave elevation at platform ref point, m', 'HDWaveElevRefPoint_[m]'), ('IfW Extended input: horizontal wind speed (steady/uniform wind), m/s', 'WS_[m/s]'), ('IfW Extended input: vertical power-law shear exponent, -', 'alpha_[-]'), ('IfW Extended input: propagation direction, rad', 'WD_[rad]'), ('ED Blade 1 pitch command, rad', 'B1pitch_[rad]'), ('ED Blade 2 pitch command, rad', 'B2pitch_[rad]'),
          ('ED Yaw moment, Nm', 'Yawmoment_[Nm]'), ('ED Generator torque, Nm', 'Qgen_[Nm]'), ('ED Extended input: collective blade-pitch command, rad', 'PitchColl_[rad]'), ('ED Platform X force, node 1, N', 'PtfmFxN1_[N]'), ('ED Platform Z moment, node 1, Nm', 'PtfmMzN1_[Nm]'), ('ED Blade 1 Y moment, node 12, Nm', 'B1MyN12_[Nm]'),
          ('ED Blade 2 X force, node 3, N', 'B2FxN3_[N]'), ('ED Tower Y force, node 7, N', 'TwrFyN7_[N]'), ('ED Nacelle Z moment, node 1, Nm', 'NacMzN1_[Nm]'), ('AD Blade 1 X translation displacement, node 3, m', 'ADB1TxN3_[m]'), ('AD Blade 1 Y translation velocity, node 4, m/s', 'ADB1TVyN4_[m/s]'), ('AD Tower Z rotation acceleration, node 5, rad/s^2', 'ADTwrRAzN5_[rad/s^2]'),
          ('BD_1 Blade 1 Z rotation velocity, node 2, rad/s', 'BD_B1B1RVzN2_[rad/s]')]
OUTS = [('IfW', 'Wind1VelX', 'm/s', None), ('SrvD', 'GenPwr', 'kW', 'SvDGenPwr_[kW]'), ('SrvD', 'GenTq', 'kN-m', 'SvDGenTq_[kNm]'), ('ED', 'BldPitch1', 'deg', None), ('ED', 'Azimuth', 'deg', 'Azimuth_[deg]'), ('ED', 'RotSpeed', 'rpm', 'RotSpeed_[rpm]'), ('ED', 'NcIMUTAxs', 'm/s^2', 'NcIMUTAxs_[m/s^2]'), ('ED', 'TTDspFA', 'm', 'TTDspFA_[m]'),
        ('ED', 'RotThrust', 'kN', 'RotThrust_[kN]'), ('AD', 'RtAeroFxh', 'N', 'ADRtAeroFxh_[N]'), ('AD', 'RtAeroMxh', 'N-m', 'ADRtAeroMxh_[Nm]'), ('ED', 'YawRate', 'deg/s', 'YawRate_[deg/s]'), ('ED', 'NcIMURAxs', 'deg/s^2', 'NcIMURAxs_[deg/s^2]'), ('ED', 'TwrBsMyt', 'kN-m', 'TwrBsMyt_[kNm]')]
DOFS = ['PtfmSgDOF', 'PtfmSwDOF', 'PtfmHvDOF', 'PtfmRDOF', 'PtfmPDOF', 'PtfmYDOF', 'TwFADOF1', 'TwSSDOF1', 'TwFADOF2', 'TwSSDOF2', 'Yaw', 'RFrl', 'GeAz', 'DrTr', 'TFrl', 'BE1', 'BF1', 'BF2', 'BE2', 'BF1b', 'BF2b', 'BE3', 'BF3', 'Teet']


# inputs at nodes: module, part, axis, quantity, node number
PARTS = [('ED', 'Platform', 'Ptfm'), ('ED', 'Tower', 'Twr'), ('ED', 'Nacelle', 'Nac'), ('ED', 'Hub', 'Hub'), ('ED', 'Blade 1', 'B1'), ('ED', 'Blade 2', 'B2'), ('ED', 'Blade 3', 'B3'), ('AD', 'Tower', 'ADTwr'), ('AD', 'Hub', 'ADHub'), ('AD', 'Blade 1', 'ADB1'), ('AD', 'Blade 3', 'ADB3'), ('HD', 'Morison', 'HDMorison'), ('BD_1', 'Root', 'BD_B1Root'), ('BD_2', 'Root', 'BD_B2Root'), ('BD_3', 'Distributed', 'BD_B3Distributed')]
QTY = [('force', 'N', 'F'), ('moment', 'Nm', 'M'), ('force', 'N/m', 'F'), ('moment', 'Nm/m', 'M'), ('translation displacement', 'm', 'T'), ('translation velocity', 'm/s', 'TV'), ('translation acceleration', 'm/s^2', 'TA'), ('translation acceleration', 'm/s/s', 'TA'), ('orientation angle', 'rad', 'R'), ('rotation velocity', 'rad/s', 'RV'), ('rotation acceleration', 'rad/s^2', 'RA'), ('rotation acceleration', 'rad/s/s', 'RA')]
UNITS = [('m', 'm'), ('deg', 'deg'), ('m/s', 'm/s'), ('rpm', 'rpm'), ('kN', 'kN'), ('kN-m', 'kNm'), ('N-m', 'Nm'), ('N', 'N'), ('kW', 'kW'), ('rad', 'rad'), ('rad/s', 'rad/s'), ('m/s^2', 'm/s^2'), ('deg/s', 'deg/s'), ('W', None), ('-', None), ('Pa', None), ('kg', None), ('N/m', None)]


@st.composite
def node_inputs(draw):
    if draw(st.integers(0, 4)) == 0:        # wind at a node
        m, (a, b), ax, n = draw(st.sampled_from([('IfW', ''), ('AD', 'AD')])), draw(st.sampled_from([('on blade 1, node', 'B1N'), ('on blade 2, node', 'B2N'), ('on blade 3, node', 'B3N'), ('on tower node', 'TwrN'), ('velocity at node', 'N')])), draw(st.sampled_from('XYZ')), draw(st.sampled_from([1, 2, 9, 10, 12, 99, 101]))
        return ['%s %s-component inflow %s %d, m/s' % (m[0], ax, a, n), '%s%s%s%d_[m/s]' % (m[1], ax, b, n)]
    a, q, ax, n = draw(st.sampled_from(PARTS)), draw(st.sampled_from(QTY)), draw(st.sampled_from('XYZ')), draw(st.sampled_from([1, 2, 9, 10, 12, 99, 101]))
    return ['%s %s %s %s, node %d, %s' % (a[0], a[1], ax, q[0], n, q[1]), '%s%s%sN%d_[%s]' % (a[2], q[2], ax.lower(), n, q[1].replace('/s/s', '/s^2'))]


@st.composite
def chan_outputs(draw):
    return [draw(st.sampled_from(['ED', 'AD', 'IfW', 'HD', 'SD', 'BD_1', 'BD_2'])), draw(st.sampled_from(['B1N1Fx', 'B2N3Cl', 'B1N11Vrel', 'M1N2FKxe', 'Wave1Elev', 'RtAeroPwr', 'N1TDxr', 'TwHt3MLyt', 'Spn2FLxb1', 'RtTSR', 'Q_GeAz', 'QD_B1F1'])) , draw(st.sampled_from(range(len(UNITS))))]


@st.composite
def cases(draw):
    return dict(nx=draw(st.one_of(st.integers(4, 8), st.integers(0, 8), st.integers(0, 60))), st=draw(st.permutations(range(len(STATES)))), bd=draw(st.integers(0, 3)) == 0, bds=draw(st.integers(0, 10 ** 6)), u=draw(st.one_of(st.lists(st.integers(0, len(INPUTS) - 1), min_size=2, max_size=12, unique=True), st.lists(st.integers(0, len(INPUTS) - 1), max_size=3, unique=True))), y=draw(st.one_of(st.lists(st.integers(0, len(OUTS) - 1), min_size=2, max_size=12, unique=True), st.lists(st.integers(0, len(OUTS) - 1), max_size=3, unique=True))),
                ori=draw(st.lists(st.integers(0, 3), min_size=12, max_size=12)), spec=draw(SPEC), der=draw(st.booleans()), jac=draw(st.booleans()), M=draw(st.booleans()), az=draw(st.booleans()), rs=draw(st.booleans()), ws=draw(st.booleans()), t=draw(g.finite(-6, 6, 4)), w=draw(g.finite(-2, 2, 4)), v=draw(g.finite(-30, 30, 4)), gu=draw(st.lists(node_inputs(), max_size=4)), gy=draw(st.lists(chan_outputs(), max_size=4)), dup=draw(st.integers(0, 3)), more=draw(st.integers(0, 9)),
                cut=draw(st.floats(0.02, 0.98)), order=draw(st.booleans()), prec=draw(st.booleans()), text=draw(g.phrase()))


def check(c, ctx):
    n2 = c['nx'] // 2 if not c['order'] else c['nx']
    pre = 'ED'
    if c['bd']:
        base = [BD[i] for i in np.random.RandomState(c['bds']).permutation(len(BD))[:max(1, n2)]] if n2 else []
        X = [(p + ' ' + d, un, p.replace('BD_', 'BD_B') + 'N%s' % re.search(r'node (\d+)', d).group(1) + BDN[(re.search(r'\) (.)', d).group(1), d[-1])]) for p, d, un in base]
        dots = [(p + ' First time derivative of ' + d, un + '/s', 'd_' + x[2]) for (p, d, un), x in zip(base, X)]
    else:
        base = [STATES[i] for i in c['st'][:n2]]
        X = [('ED ' + d, un, s) for d, un, s in base]
        dots = [('ED First time derivative of ' + d, un + '/s', s and 'd_' + s) for d, un, s in base]
    if not c['order']:
        X = X + dots
    nx = len(X)
    ddes = [('First time derivative of ' + d, un + ('/s' if '/s' not in un else '^2'), s and ('d_' + s if not s.startswith('d_') else 'd' + s)) for d, un, s in X]
    U = [INPUTS[i] for i in c['u']]
    for d, s in c['gu']:
        if s not in [x[1] for x in U]:
            U.append((d, s))
    Y = [OUTS[i] for i in c['y']]
    for m, nm, iu in c['gy']:
        un, short = UNITS[iu]
        s = {'IfW': '', 'ED': '', 'BD_1': 'BD_B1', 'BD_2': 'BD_B2'}.get(m, m) + nm + '_[%s]' % (short or un)
        if s not in [y[3] for y in Y]:
            Y.append((m, nm, un, s))
    if c['dup'] == 0 and len(Y) > 1:        # the same quantity may be output twice
        Y.append(Y[0])
    if c['more'] == 0:
        U.append(('angle', 'angle'))
    nu, ny = len(U), len(Y)
    k = [0]

    def mat(n, m):
        k[0] += 1
        return np.array([[float('%.8E' % x) for x in r] for r in g.build((n, m), dict(c['spec'], seed=c['spec']['seed'] + k[0]))]).reshape(n, m)
    L = ['', 'Linearized model: Predictions were generated on 16-Feb-2020 at 10:36:41 using OpenFAST', ' linked with  NWTC Subroutine Library; ElastoDyn', '', 'Description from the FAST input file: ' + c['text'], '', 'Simulation information:', '   Simulation time:                   100.0000 s']
    if c['rs']:
        L.append('   Rotor Speed:                         %.4f rad/s' % c['w'])
    if c['az']:
        L.append('   Azimuth:                             %.4f rad' % c['t'])
    if c['ws']:
        L.append('   Wind Speed:                          %.4f m/s' % c['v'])
    for t, v in (('continuous states', nx), ('discrete states', 0), ('constraint states', 0)):
        L.append(('   Number of %s:' % t).ljust(40) + '%d' % v)
    L += ['   Number of inputs:                    %d' % nu, '   Number of outputs:                   %d' % ny, '   Jacobians included in this file?    %s' % ('Yes' if c['jac'] else 'No'), '']
    ops = {}
    for key, title, head, D in (('x', 'continuous states', 'Row/Column', [(d + ', ' + un) for d, un, _ in X]), ('xdot', 'continuous state derivatives', 'Row/Column', [(d + ', ' + un) for d, un, _ in ddes]), ('u', 'inputs', '  Column  ', [d for d, _ in U]), ('y', 'outputs', '     Row  ', ['%s %s, (%s)' % o[:3] for o in Y])):
        n = len(D)
        if n == 0:
            continue
        v = mat(1, n)[0]
        rot = [bool((i * 7 + c['spec']['seed']) % 3 == 0) for i in range(n)]
        der = [i % 3 for i in range(n)]
        ops[key] = (v, rot, der, D)
        L += ['Order of %s:' % title, '   %s Operating Point                                    Rotating Frame? %sDescription' % (head, 'Derivative Order ' if c['der'] else ''), '   ---------- ---------------                                    --------------- -----------']
        for i in range(n):
            op = '%16.8E' % v[i]
            if key != 'x' and c['ori'][i % 12] == 0:
                op = '%16.8E,%16.8E,%16.8E' % (v[i], 0.5, -0.25)
            L.append('%11d%s   %s%10s      %s' % (i + 1, op.ljust(50), 'T' if rot[i] else 'F', str(der[i]) if c['der'] else '', D[i]))
        L.append('')
    L += ['', 'Linearized state matrices:', '']
    mats = {}

    def put(key, n, m, w='%15.8E'):
        if n * m:
            mats[key] = mat(n, m)
            L.append('%s: %d x %d' % (key, n, m))
            L.extend(' '.join(w % x for x in r) for r in mats[key])
    if c['jac']:
        put('dUdu', nu, nu)
        put('dUdy', nu, ny)
    put('A', nx, nx)
    put('B', nx, nu)
    put('C', ny, nx)
    put('D', ny, nu)
    if c['M']:
        mats['M'] = mat(24, 24)
        names = ['%d_%s' % (i + 1, d) for i, d in enumerate(DOFS)]
        L.append('ED M:' + ''.join(x.ljust(16) for x in names))
        L.extend(' '.join('%16.8E' % x for x in r) for r in mats['M'])
    p = ctx.path('a.1.lin')
    open(p, 'w').write('\n'.join(L) + '\n')
    F = weio.read(p)
    require(isinstance(F, FASTLinearizationFile), 'read as %s', type(F).__name__)
    for key, has, v in (('Azimuth', c['az'], c['t']), ('RotSpeed', c['rs'], c['w']), ('WindSpeed', c['ws'], c['v'])):
        if has:
            cmp.arr_close(F[key], v, 0, 1e-4, key)
        else:
            require(F[key] is None, '%s is %r', key, F[key])
    require(set(F.keys()) == set(mats) | set(ops) | set(x + '_info' for x in ops) | {'header', 'Azimuth', 'RotSpeed', 'WindSpeed'} | ({'EDDOF'} if 'M' in mats else set()), 'keys: %s', sorted(F.keys()))
    for key, (v, rot, der, D) in ops.items():
        cmp.arr_eq(F[key], v, 'operating point ' + key)
        cmp.list_eq(F[key + '_info']['RotatingFrame'], ['T' if r else 'F' for r in rot], 'rotating frame of ' + key)
        cmp.list_eq(F[key + '_info']['Description'], [' '.join(d.split()) for d in D], 'descriptions of ' + key)
        cmp.list_eq(F[key + '_info']['DerivativeOrder'], der if c['der'] else [-1] * len(D), 'derivative order of ' + key)
    for key, v in mats.items():
        cmp.arr_eq(F[key], v, 'matrix ' + key)
    # names: unit kept, distinct, as documented
    sx, sd, su, sy = F.xdescr(), F.xdotdescr(), F.udescr(), F.ydescr()
    for got, exp in ((sx, [(un, s) for _, un, s in X]), (sd, [(un, s) for _, un, s in ddes])):
        require(len(got) == len(exp) and len(set(got)) == len(got), 'names of states: %s', got)
        for a, (un, s) in zip(got, exp):
            un = un.replace('/s/s', '/s^2')
            require(a.endswith('_[%s]' % un), 'name %r, expected unit %s', a, un)
            if s:
                require(a.replace(')', '') == '%s_[%s]' % (s, un), 'name %r, expected %r', a, '%s_[%s]' % (s, un))
    cmp.list_eq(su, [s for _, s in U], 'names of inputs')
    cmp.list_eq(sy, [o[3] or '%s_[%s]' % (o[1].replace('Bld', 'B'), o[2]) for o in Y], 'names of outputs')
    dfs = F.toDataFrame()
    require(set(dfs) == set(mats) | set(ops), 'tables: %s', sorted(dfs))
    lab = dict(A=(sx, sx), B=(sx, su), C=(sy, sx), D=(sy, su), dUdu=(su, su), dUdy=(su, sy))
    if 'M' in mats:
        lab['M'] = (names, names)
    for key, v in mats.items():
        cmp.arr_eq(dfs[key].values, v, 'table ' + key)
        cmp.list_eq(list(dfs[key].index), lab[key][0], 'rows of ' + key)
        cmp.list_eq(list(dfs[key].columns), lab[key][1], 'columns of ' + key)
    for key, nm in (('x', sx), ('xdot', sd), ('u', su), ('y', sy)):
        if key in ops:
            cmp.arr_eq(dfs[key].values[0], ops[key][0], 'table ' + key)
            cmp.list_eq(list(dfs[key].columns), nm, 'columns of ' + key)
    repr(F)
    # a file cut within what it announces is refused, and never replaced by an empty one
    body = '\n'.join(L) + '\n'
    i0 = body.index('Order of') if 'Order of' in body else 0
    starts = [body.index('\n' + kk + ':') for kk in mats if kk != 'M'] + [body.index('Order of %s:' % t) for kk, t in (('x', 'continuous states'), ('xdot', 'continuous state derivatives'), ('u', 'inputs'), ('y', 'outputs')) if kk in ops]
    if starts:
        i0 = sorted(starts)[int(c['cut'] * len(starts))]
        rows = body[i0 + 1:].split('\n')
        nrow = 1 + (2 if rows[0].startswith('rder') else 0)
        q = ctx.path('cut.lin')
        size = [len(ops[kk][0]) for kk, t in (('x', 'continuous states'), ('xdot', 'continuous state derivatives'), ('u', 'inputs'), ('y', 'outputs')) if body[i0:].startswith('Order of %s:' % t)] or [len(mats[kk]) for kk in mats if body[i0:].startswith('\n%s:' % kk)]
        keep = int(c['cut'] * 997) % size[0]
        open(q, 'w').write(body[:i0 + 1] + '\n'.join(rows[:nrow + keep]) + '\n')
        cmp.raises((Exception,), lambda: FASTLinearizationFile(q), 'file cut after %d of %d rows of a section' % (keep, size[0]))
    try:
        F.write(ctx.path('w.lin'))
    except NotImplementedError:
        pass
    else:
        G = FASTLinearizationFile(ctx.path('w.lin'))
        for key, v in mats.items():
            cmp.arr_close(G[key], v, 1e-6, 1e-12, 'written: matrix ' + key)
    ctx.label('jac' if c['jac'] else 'nojac', 'BD' if c['bd'] else 'ED')
    ctx.nontrivial(nx > 1 and nu > 1 and ny > 1)


COMPONENTS = [Component('files', cases(), check, 400, 5000)]
