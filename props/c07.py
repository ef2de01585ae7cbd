"""C07: Mann boxes: layout, coordinates, exact write/read; conversions TurbSim <-> Mann keep every value in place."""
import os
import numpy as np
from hypothesis import strategies as st
from vlib.core import Component, require
from vlib import gens as g, cmp, turb
from weio.turbsim_file import TurbSimFile
from weio.mannbox_file import MannBoxFile
import weio

RULE = ('Boxes with generated dimensions, spacings, origins and content are encoded independently, read, written and converted; '
        'non-trivial: the three dimensions are not all equal and the field varies along every direction with more than one point.')
ASSUMPTIONS = ['single precision storage', 'native little-endian host']

KIND = ['ramp', 'rand', 'rand', 'sine', 'alt', 'spike']


def dims(lo=1, hi=7, nx=12):
    return st.tuples(st.integers(lo, nx), st.integers(lo, hi), st.integers(lo, hi)).map(list)


@st.composite
def mann_cases(draw):
    return dict(N=draw(dims()), spec=draw(g.specs(kinds=KIND)), dy=draw(st.sampled_from([1, 2.5, 0.3, 10.0])), dz=draw(st.sampled_from([1, 4.0, 0.7, 3.125])),
                y0=draw(st.sampled_from([None, 0, -12.0, 3.3])), z0=draw(st.sampled_from([0, 10.0, -4.5])), zMid=draw(st.sampled_from([None, 90.0, 0.0, 101.5])),
                given_N=draw(st.booleans()), prefix=draw(st.sampled_from(['turb', 'my_box_2', 'a1b22c333d4444', 'x', 'sim-12_s3'])),
                ext=draw(st.sampled_from(['.u', '.v', '.w', '.bin'])), dx=draw(st.sampled_from([1.0, 1.5939838, 0.1])), U=draw(st.sampled_from([10.0, 6.26, 3.3])))


def check_mann(c, ctx):
    nx, ny, nz = c['N']
    field = g.build(c['N'], c['spec']).astype(np.float32)
    raw = turb.mann_encode(field)
    kw = dict(dy=c['dy'], dz=c['dz'], y0=c['y0'], z0=c['z0'], zMid=c['zMid'])
    if c['given_N']:
        fn = ctx.path('box' + c['ext'])
        kw['N'] = tuple(c['N'])
    else:
        fn = ctx.path('%s_%dx%dx%d%s' % (c['prefix'], nx, ny, nz, c['ext']))
    open(fn, 'wb').write(raw)
    M = MannBoxFile(fn, **kw)
    cmp.arr_eq(M['field'], field, 'field')
    y = np.arange(ny) * float(c['dy'])
    y = y - y.mean() if c['y0'] is None else y + c['y0']
    z = c['z0'] + np.arange(nz) * float(c['dz'])
    if c['zMid'] is not None:
        z = z - z.mean() + c['zMid']
    cmp.arr_close(M.y, y, 1e-9, 1e-9, 'y')
    cmp.arr_close(M.z, z, 1e-9, 1e-9, 'z')
    if nx > 1:
        cmp.arr_close(M.t(c['dx'], c['U']), np.arange(nx) * c['dx'] / c['U'], 1e-9, 1e-12, 't')
    fo = ctx.path('out_%dx%dx%d%s' % (nx, ny, nz, c['ext']))
    M.write(fo)
    require(open(fo, 'rb').read() == raw, 'writing a box that was read does not reproduce the file')
    cmp.arr_eq(MannBoxFile(fo)['field'], field, 'field after write/read')
    # edit in place and write over the source
    M['field'][0, -1, 0] = 7.5
    M.write(fn)
    f2 = field.copy()
    f2[0, -1, 0] = 7.5
    cmp.arr_eq(MannBoxFile(fn, **kw)['field'], f2, 'field after an edit')
    ctx.label('N-given' if c['given_N'] else 'N-from-name')
    ctx.nontrivial(len(set(c['N'])) > 1 and nx > 1 and c['spec']['kind'] not in ('const', 'zeros'))


@st.composite
def conv_cases(draw):
    N = draw(dims(2, 6))
    return dict(N=N, specs=draw(st.lists(g.specs(kinds=KIND, bases=[0.0, 10.0, -3.0, 0.5], scales=[1.0, 0.1, 5.0]), min_size=3, max_size=3)),
                mode=draw(st.sampled_from(['none', 'const', 'allmean'])), const=draw(st.sampled_from([10.0, -2.5, 0.125])),
                addU=draw(st.sampled_from([None, 8.0, 0.0])), profile=draw(st.booleans()), dx=draw(st.sampled_from([1.0, 0.3, 2.2])), U=draw(st.sampled_from([10.0, 7.0])),
                dy=draw(st.sampled_from([1.0, 2.5, 0.3])), dz=draw(st.sampled_from([1.0, 4.0, 0.7])), z0=draw(st.sampled_from([0.0, 10.0])), base=draw(st.booleans()))


def check_conv(c, ctx):
    nt, ny, nz = c['N']
    u = np.stack([g.build(c['N'], s) for s in c['specs']])
    T = TurbSimFile()
    T['u'] = u.copy()
    T.filename = ctx.path('srcbox.bts')
    base = ctx.path('mann') if c['base'] else None
    kw = {}
    exp = u.copy()
    if c['mode'] == 'const':
        kw['removeUConstant'] = c['const']
        exp[0] = u[0] - c['const']
    elif c['mode'] == 'allmean':
        kw['removeAllUMean'] = True
        exp[0] = u[0] - u[0].mean(axis=0)
    T.toMannBox(base=base, **kw)
    cmp.arr_eq(T['u'], u, 'source field after the conversion')
    stem = (base or ctx.path('srcbox')) + '_%dx%dx%d' % (nt, ny, nz)
    comps = []
    scale = max(1.0, np.abs(u).max())
    for k, e in enumerate('uvw'):
        require(os.path.exists(stem + '.' + e), 'component file %s not written', e)
        cmp.arr_close(np.frombuffer(open(stem + '.' + e, 'rb').read(), '<f4'), np.frombuffer(turb.mann_encode(exp[k]), '<f4'), 0, 1e-6 * scale, 'layout of .' + e)
        M = MannBoxFile(stem + '.' + e, dy=c['dy'], dz=c['dz'], z0=c['z0'])
        cmp.arr_close(M['field'], exp[k], 0, 1e-6 * scale, 'field of .' + e)
        comps.append(M)
    # and back
    B = TurbSimFile()
    add = c['addU']
    if c['profile']:
        add = np.arange(nz) * 0.5
    B.fromMannBox(comps[0]['field'], comps[1]['field'], comps[2]['field'], c['dx'], c['U'], comps[0].y, comps[0].z, addU=add)
    back = exp.copy()
    if add is not None:
        back[0] = back[0] + add
    cmp.arr_close(B['u'], back, 0, 3e-6 * scale, 'field converted back')
    cmp.arr_close(B['t'], np.arange(nt) * c['dx'] / c['U'], 1e-9, 1e-12, 't')
    cmp.arr_close(B['y'], comps[0].y, 0, 0, 'y')
    cmp.arr_close(B['z'], comps[0].z, 0, 0, 'z')
    cmp.arr_close(B['dt'], c['dx'] / c['U'], 1e-12, 0, 'dt')
    zc, yc = np.abs(B['z'] - (B['z'][0] + B['z'][-1]) / 2), np.abs(B['y'] - (B['y'][0] + B['y'][-1]) / 2)
    near = [(i, j) for i in range(len(yc)) for j in range(len(zc)) if yc[i] <= yc.min() + 1e-6 * c['dy'] and zc[j] <= zc.min() + 1e-6 * c['dz']]
    require(any(abs(B['zRef'] - B['z'][j]) < 1e-6 and abs(B['uRef'] - back[0][:, i, j].mean()) <= 1e-5 * scale for i, j in near), 'reference height %r and speed %r are not those of the middle of the box', B['zRef'], B['uRef'])
    fn = ctx.path('back.bts')
    B.write(fn)
    R = TurbSimFile(fn)
    for k in range(3):
        r = back[k].max() - back[k].min()
        cmp.arr_close(R['u'][k], back[k], 0, 1.1 * r / 65535. + 8e-6 * scale + (0 if r else 0.005), 'component %d via a bts file' % k)
    cmp.arr_close(R['y'], comps[0].y, 1e-6, 1e-6, 'y via a bts file')
    cmp.arr_close(R['z'], comps[0].z, 1e-6, 1e-6, 'z via a bts file')
    ctx.label(c['mode'], 'addU' if add is not None else 'noadd')
    ctx.nontrivial(len(set(c['N'])) > 1)


@st.composite
def example_cases(draw):
    return dict(N=draw(dims(2, 6)), specs=draw(st.lists(g.specs(kinds=KIND, bases=[0.0, 10.0], scales=[1.0, 3.0]), min_size=3, max_size=3)), icomp=draw(st.integers(0, 2)),
                mode=draw(st.sampled_from(['none', 'const', 'allmean'])))


def check_from(c, ctx):
    u = np.stack([g.build(c['N'], s) for s in c['specs']])
    u0 = u.copy()
    M = MannBoxFile()
    kw, exp = {}, u0[c['icomp']].copy()
    if c['mode'] == 'const':
        kw['removeConstant'] = 4.0
        exp = exp - (4.0 if c['icomp'] == 0 else 0)
    elif c['mode'] == 'allmean':
        kw['removeAllMean'] = True
        if c['icomp'] == 0:
            exp = exp - exp.mean(axis=0)
    M.fromTurbSim(u, c['icomp'], **kw)
    cmp.arr_close(M['field'], exp, 1e-12, 1e-12, 'field')
    cmp.arr_eq(u, u0, 'input array')
    fn = ctx.path('a_%dx%dx%d.u' % tuple(c['N']))
    M.write(fn)
    cmp.arr_eq(MannBoxFile(fn)['field'], exp.astype(np.float32), 'field written and read')
    ctx.nontrivial(len(set(c['N'])) > 1)


COMPONENTS = [
    Component('mann_layout', mann_cases(), check_mann, 900, 20000),
    Component('conversion', conv_cases(), check_conv, 600, 12000),
    Component('from_turbsim', example_cases(), check_from, 250, 5000),
]
