"""C06: TurbSim boxes: decoding of the binary layout, and write/read within one quantisation step."""
import numpy as np
from hypothesis import strategies as st
from vlib.core import Component, require
from vlib import gens as g, cmp, turb
from weio.turbsim_file import TurbSimFile
import weio

RULE = ('Boxes of generated size (2..6 in y,z, 2..12 in time, 0..4 tower points), spacing, offsets and content are encoded independently '
        'or given to the writer; non-trivial: dimensions not all equal and the field varies.')
ASSUMPTIONS = ['y grid centred on 0 and uniform grids, as the layout can express', 'at least two points in y, z and t for writing']


@st.composite
def dec_cases(draw):
    big = draw(st.integers(0, 9)) == 0
    return dict(ID=draw(st.sampled_from([7, 8])), ny=draw(st.integers(1, 7)), nz=draw(st.integers(1, 7)),
                nt=draw(st.integers(1, 14)) if not big else draw(st.sampled_from([64, 129, 256])),
                ntw=draw(st.integers(0, 4)), dy=draw(st.sampled_from([1.0, 2.5, 10.0, 0.125])), dz=draw(st.sampled_from([1.0, 5.0, 0.5, 13.7])),
                dt=draw(st.sampled_from([0.05, 0.1, 1.0, 0.0125])), uHub=draw(st.sampled_from([8.0, 12.5, 0.0])), zHub=draw(st.sampled_from([90.0, 150.5, 9.25, 0.0])),
                zBot=draw(st.sampled_from([10.0, 0.0, 35.25, -5.0])), scl=draw(st.lists(st.sampled_from([1.0, 1000.0, 3276.7, 0.5, 71.3]), min_size=3, max_size=3)),
                off=draw(st.lists(st.sampled_from([0.0, -32768.0, 1234.5, -60000.0]), min_size=3, max_size=3)),
                info=draw(st.sampled_from(['', 'This full-field file was generated by TurbSim v2.00', 'x' * 500])), seed=draw(st.integers(0, 10 ** 6)), upper=draw(st.booleans()))


def grids(c):
    y = np.arange(c['ny']) * np.float32(c['dy']).astype(float)
    return (y - y.mean(), np.float32(c['zBot']).astype(float) + np.arange(c['nz']) * np.float32(c['dz']).astype(float),
            np.arange(c['nt']) * np.float32(c['dt']).astype(float),
            np.float32(c['zBot']).astype(float) - np.arange(c['ntw']) * np.float32(c['dz']).astype(float))


def check_header(T, c):
    y, z, t, zt = grids(c)
    cmp.eq(T['ID'], c['ID'], 'ID')
    cmp.eq(T['info'], c['info'], 'info')
    cmp.arr_close(T['y'], y, 1e-12, 1e-9, 'y')
    cmp.arr_close(T['z'], z, 1e-12, 1e-9, 'z')
    cmp.arr_close(T['t'], t, 1e-12, 1e-9, 't')
    cmp.arr_close(T['zTwr'], zt, 1e-12, 1e-9, 'zTwr')
    cmp.arr_close(T['dt'], np.float32(c['dt']), 1e-7, 0, 'dt')
    cmp.arr_close(T['zRef'], np.float32(c['zHub']), 1e-7, 0, 'zRef')
    cmp.arr_close(T['uRef'], np.float32(c['uHub']), 1e-7, 0, 'uRef')


def check_dec(c, ctx):
    rs = np.random.RandomState(c['seed'])
    u = rs.randint(-32768, 32768, (3, c['nt'], c['ny'], c['nz'])).astype(np.int16)
    tw = rs.randint(-32768, 32768, (3, c['nt'], c['ntw'])).astype(np.int16)
    fn = ctx.path('Box.BTS' if c['upper'] else 'box.bts')
    open(fn, 'wb').write(turb.bts_encode(c['ID'], c['dz'], c['dy'], c['dt'], c['uHub'], c['zHub'], c['zBot'], c['scl'], c['off'], c['info'], u, tw))
    scl, off = np.float32(c['scl']).astype(float), np.float32(c['off']).astype(float)
    T = TurbSimFile(fn)
    check_header(T, c)
    cmp.arr_close(T['u'], (u.astype(float) - off[:, None, None, None]) / scl[:, None, None, None], 1e-9, 1e-9, 'u')
    cmp.arr_close(T['uTwr'], (tw.astype(float) - off[:, None, None]) / scl[:, None, None], 1e-9, 1e-9, 'uTwr')
    H = TurbSimFile(fn, header_only=True)
    check_header(H, c)
    require('u' not in H, 'header-only reading must not provide a field')
    ctx.label('tower' if c['ntw'] else 'notower', 'even-y' if c['ny'] % 2 == 0 else 'odd-y')
    ctx.nontrivial(c['ny'] != c['nz'] and c['nt'] > 1)


@st.composite
def box(draw, lowturb=False):
    """A box defined by the user (dictionary keys)"""
    if lowturb:
        sc = st.sampled_from([0.0, 1e-2, 1e-3, 0.05, 1e-4])
        base = st.sampled_from([12.3, 8.0, -7.77, 25.01, 100.0, 3.14159])
    else:
        sc = st.sampled_from([1.0, 3.3, 10.0, 0.2, 50.0])
        base = st.sampled_from([0.0, 10.0, 8.25, -5.0, 0.01])
    return dict(ny=draw(st.integers(2, 6)), nz=draw(st.integers(2, 6)), nt=draw(st.integers(2, 14)), ntw=draw(st.integers(0, 4)),
                dy=draw(st.sampled_from([1.0, 2.5, 10.0, 0.125])), dz=draw(st.sampled_from([1.0, 5.0, 0.5, 12.5])),
                dt=draw(st.sampled_from([0.05, 0.1, 1.0, 0.0125])), z0=draw(st.sampled_from([10.0, 0.0, 35.25])),
                comps=draw(st.lists(st.fixed_dictionaries(dict(kind=st.sampled_from(['ramp', 'rand', 'rand', 'sine', 'alt', 'const', 'spike']),
                                                               base=base, scale=sc, seed=st.integers(0, 10 ** 6))), min_size=3, max_size=3)),
                twr=draw(st.sampled_from(['same', 'beyond', 'within'])), hastwr=draw(st.booleans()), ID=draw(st.sampled_from([None, 7, 8])),
                zRef=draw(st.sampled_from([None, 90.0, 3.5, 0.0])), uRef=draw(st.sampled_from([None, 12.5])))


def make(c):
    shp = (c['nt'], c['ny'], c['nz'])
    u = np.stack([g.build(shp, s) for s in c['comps']])
    T = TurbSimFile()
    T['u'] = u
    T['y'] = np.arange(c['ny']) * c['dy']
    T['y'] = T['y'] - T['y'].mean()
    T['z'] = c['z0'] + np.arange(c['nz']) * c['dz']
    T['t'] = np.arange(c['nt']) * c['dt']
    tw = None
    if c['hastwr']:
        f = dict(same=1.0, beyond=2.0, within=0.3)[c['twr']]
        tw = np.stack([g.build((c['nt'], c['ntw']), dict(s, scale=s['scale'] * f, kind='rand' if s['kind'] != 'const' else 'const')) for s in c['comps']])
        T['uTwr'] = tw
    if c['ID'] is not None:
        T['ID'] = c['ID']
    if c['zRef'] is not None:
        T['zRef'] = c['zRef']
    if c['uRef'] is not None:
        T['uRef'] = c['uRef']
    return T, u, (tw if tw is not None else np.zeros((3, c['nt'], 0)))


def tolerance(u, tw):
    """one 16 bit step of the component's range, plus single precision of the stored scaling"""
    tol = []
    for k in range(3):
        a = np.concatenate([u[k].ravel(), tw[k].ravel()])
        r = a.max() - a.min()
        tol.append((1.01 * r / 65535. if r > 0 else 4.1e-3) + 1e-6 * np.abs(a).max())
    return np.array(tol)


def check_write(c, ctx):
    T, u, tw = make(c)
    u0, tw0 = u.copy(), tw.copy()
    fn = ctx.path('out.bts')
    T.write(fn)
    cmp.arr_eq(T['u'], u0, 'field of the written object')
    tol = tolerance(u0, tw0)
    D = turb.bts_decode(open(fn, 'rb').read())
    cmp.eq(D['rest'], 0, 'bytes left over in the written file')
    G = TurbSimFile(fn)
    for what, U, W in (('weio', G['u'], G['uTwr']), ('independent decoder', D['u'], D['uTwr'])):
        for k in range(3):
            cmp.arr_close(U[k], u0[k], 0, tol[k], 'component %d of u (%s)' % (k, what))
            cmp.arr_close(W[k], tw0[k], 0, tol[k], 'component %d of uTwr (%s)' % (k, what))
    cmp.arr_close(G['y'], T['y'], 1e-6, 1e-6, 'y')
    cmp.arr_close(G['z'], T['z'], 1e-6, 1e-6, 'z')
    cmp.arr_close(G['t'], T['t'], 1e-6, 1e-6, 't')
    cmp.arr_close(G['zTwr'], c['z0'] - np.arange(tw0.shape[2]) * c['dz'], 1e-6, 1e-6, 'zTwr')
    cmp.eq(G['ID'], c['ID'] or 7, 'ID')
    if c['zRef'] is not None:
        cmp.arr_close(G['zRef'], c['zRef'], 1e-6, 0, 'zRef')
    if c['uRef'] is not None:
        cmp.arr_close(G['uRef'], c['uRef'], 1e-6, 0, 'uRef')
    # a second generation stays within one more step
    G.write(ctx.path('gen2.bts'))
    G2 = TurbSimFile(ctx.path('gen2.bts'))
    for k in range(3):
        cmp.arr_close(G2['u'][k], u0[k], 0, 2 * tol[k], 'component %d of u after two generations' % k)
    cmp.arr_close(G2['zRef'], G['zRef'], 1e-6, 0, 'zRef after two generations')
    cmp.arr_close(G2['uRef'], G['uRef'], 1e-6, 0, 'uRef after two generations')
    ctx.label('tower' if tw.shape[2] else 'notower', 'const' if any(s['kind'] == 'const' or s['scale'] == 0 for s in c['comps']) else 'varying')
    ctx.nontrivial(c['ny'] != c['nz'] and any(s['kind'] != 'const' for s in c['comps']))


COMPONENTS = [
    Component('decode', dec_cases(), check_dec, 500, 10000),
    Component('write_read', box(), check_write, 400, 8000),
    Component('write_read_lowturb', box(lowturb=True), check_write, 300, 6000),
]
