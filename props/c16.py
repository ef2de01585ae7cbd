"""C16: VTK legacy files."""
import numpy as np
from hypothesis import strategies as st
from vlib.core import Component, require
from vlib import gens as g, cmp
from weio.vtk_file import VTKFile, CellBlock
import weio

RULE = ('Legacy VTK files of the four dataset types, text or binary, encoded from generated grids, cells, scalars, vectors, tensors and fields of all types; objects written and read again; '
        'non-trivial: at least 4 points and one data array.')
ASSUMPTIONS = ['at least two points in one direction and one cell', 'bit arrays are not used', 'shapes (n,1) and (n), and (n,3,3) and (n,9), hold the same data', 'two-component vectors are written with a third, zero, component']
DT = {'float': 'f4', 'double': 'f8', 'int': 'i4', 'long': 'i8', 'short': 'i2', 'unsigned_char': 'u1', 'char': 'i1', 'unsigned_short': 'u2', 'unsigned_int': 'u4', 'unsigned_long': 'u8'}
CELLS = {1: ('vertex', 1), 3: ('line', 2), 5: ('triangle', 3), 9: ('quad', 4), 10: ('tetra', 4), 12: ('hexahedron', 8), 13: ('wedge', 6), 14: ('pyramid', 5), 21: ('line3', 3), 22: ('triangle6', 6), 23: ('quad8', 8), 24: ('tetra10', 10), 28: ('quad9', 9), 7: ('polygon', None)}
SPEC = g.specs(bases=[0.0, 0.0, 1.0, 30.0], scales=[1.0, 5.0, 90.0, 0.01])


@st.composite
def arrays(draw, names):
    out = []
    for n in names:
        k = draw(st.sampled_from(['SCALARS', 'SCALARS', 'VECTORS', 'TENSORS', 'FIELD', 'FIELD']))
        out.append(dict(n=n, k=k, t=draw(st.sampled_from(['float', 'double', 'float', 'int', 'long', 'short', 'unsigned_char', 'unsigned_short'])), m=draw(st.integers(1, 4)), spec=draw(SPEC), up=draw(st.booleans())))
    return out


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(['STRUCTURED_POINTS', 'RECTILINEAR_GRID', 'STRUCTURED_GRID', 'UNSTRUCTURED_GRID', 'UNSTRUCTURED_GRID']))
    dim = [draw(st.sampled_from([1, 2, 3, 4, 5])) for _ in range(3)]
    if max(dim) == 1:
        dim[draw(st.integers(0, 2))] = 3
    names = draw(g.unique_idents(0, 5, 9))
    k = draw(st.integers(0, len(names)))
    pools = [[3, 5, 9], [10, 12, 13, 14], sorted(x for x in CELLS if x != 7), [3, 5, 7, 9, 7]]
    return dict(kind=kind, dim=dim, ori=[draw(g.finite(-100, 100, 2)) for _ in range(3)], spa=[draw(st.sampled_from([1.0, 0.5, 20.0, 0.1])) for _ in range(3)], asp=draw(st.booleans()), axt=draw(st.sampled_from([0, 0, 1, 2, 3])), ascii=draw(st.booleans()), pt=draw(st.sampled_from(['float', 'double'])),
                npts=draw(st.integers(4, 30)), cells=draw(st.lists(st.sampled_from(pools[draw(st.integers(0, 3))]), min_size=1, max_size=12)), seed=draw(st.integers(0, 10 ** 6)), poly=draw(st.integers(3, 6)), v5=draw(st.booleans()),
                pd=draw(arrays(names[:k])), cd=draw(arrays(names[k:])), lut=draw(st.integers(0, 5)), color=draw(st.integers(0, 5)), binw=draw(st.booleans()), title=draw(st.sampled_from(['title', '', 'A = 3 (x)'])), twice=draw(st.booleans()), entry=draw(st.booleans()), meta=draw(st.booleans()))


IT = ['64', '32']


def val(n, a):
    m = {'SCALARS': (a['m'],), 'VECTORS': (3,), 'TENSORS': (3, 3), 'FIELD': (a['m'],)}[a['k']]
    v = g.build((n,) + m, a['spec'])
    v = v + np.arange(v.size).reshape(v.shape) % 5
    t = DT[a['t']]
    if t[0] != 'f':
        v = np.round(np.abs(v)) % 120
    return v.astype(t)


def num(v, ascii):
    if ascii:
        return (' '.join(repr(float(x)) if v.dtype.kind == 'f' else str(int(x)) for x in v.ravel()) + '\n').encode()
    return v.astype(v.dtype.newbyteorder('>')).tobytes() + b'\n'


def data_section(word, n, arr, c):
    b = ('%s %d\n' % (word, n)).encode()
    fields = []
    exp = {}
    for a in arr:
        v = val(n, a)
        exp[a['n']] = v
        t = a['t'].upper() if False else a['t']
        k = a['k'].lower() if a['up'] else a['k']
        if a['k'] == 'SCALARS':
            b += ('%s %s %s%s\nLOOKUP_TABLE %s\n' % (k, a['n'], t, ' %d' % a['m'] if a['m'] > 1 or a['up'] else '', 'default')).encode() + num(v, c['ascii'])
        elif a['k'] in ('VECTORS', 'TENSORS'):
            b += ('%s %s %s\n' % (k, a['n'], t)).encode() + num(v, c['ascii'])
        else:
            fields.append((a, v))
    if c['lut'] == 0:
        b += b'LOOKUP_TABLE mytable 2\n' + (b'0.0 0.1 0.2 1.0 0.5 0.5 0.5 1.0\n' if c['ascii'] else bytes(range(8)) + b'\n')
    if c['color'] == 0:
        b += b'COLOR_SCALARS col 3\n' + ((' '.join('%.2f' % (i % 7 / 7.) for i in range(3 * n)) + '\n').encode() if c['ascii'] else bytes([i % 200 for i in range(3 * n)]) + b'\n')
    if fields:
        b += ('FIELD FieldData %d\n' % len(fields)).encode()
        for a, v in fields:
            b += ('%s %d %d %s\n' % (a['n'], a['m'], n, a['t'])).encode() + num(v, c['ascii'])
    return b, exp


def grid_cells(dim):
    nx, ny, nz = dim
    idx = lambda i, j, k: i + nx * (j + ny * k)
    act = [d for d in range(3) if dim[d] > 1]
    out = []
    rng = [range(max(1, dim[d] - 1)) for d in range(3)]
    for k in rng[2]:
        for j in rng[1]:
            for i in rng[0]:
                o = [i, j, k]

                def at(*off):
                    p = list(o)
                    for d, f in zip(act, off):
                        p[d] += f
                    return idx(*p)
                if len(act) == 1:
                    out.append([at(0), at(1)])
                elif len(act) == 2:
                    out.append([at(0, 0), at(1, 0), at(1, 1), at(0, 1)])
                else:
                    out.append([at(0, 0, 0), at(1, 0, 0), at(1, 1, 0), at(0, 1, 0), at(0, 0, 1), at(1, 0, 1), at(1, 1, 1), at(0, 1, 1)])
    return [({1: 'line', 2: 'quad', 3: 'hexahedron'}[len(act)], out)]


def encode(c, ctx):
    rs = np.random.RandomState(c['seed'])
    dim, asc = c['dim'], c['ascii']
    v5 = c['v5'] and c['kind'] == 'UNSTRUCTURED_GRID' and 7 not in c['cells']
    b = ('# vtk DataFile Version %s\n%s\n%s\nDATASET %s\n' % ('5.1' if v5 else '3.0', c['title'], 'ASCII' if asc else 'BINARY', c['kind'])).encode()
    ft = DT[c['pt']]
    if c['kind'] == 'UNSTRUCTURED_GRID':
        n = c['npts']
        P = rs.uniform(-50, 50, (n, 3)).astype(ft)
        b += ('POINTS %d %s\n' % (n, c['pt'])).encode() + num(P, asc)
        conn = [list(rs.randint(0, n, CELLS[t][1] or (c['poly'] + i % 2))) for i, t in enumerate(c['cells'])]
        if v5:
            off = np.concatenate(([0], np.cumsum([len(x) for x in conn]))).astype('i8')
            b += ('CELLS %d %d\nOFFSETS vtktypeint%s\n' % (len(off), off[-1], IT[c['seed'] % 2])).encode() + num(off.astype('i%d' % (int(IT[c['seed'] % 2]) // 8)), asc) + ('CONNECTIVITY vtktypeint%s\n' % IT[c['seed'] // 2 % 2]).encode() + num(np.concatenate(conn).astype('i%d' % (int(IT[c['seed'] // 2 % 2]) // 8)), asc)
        else:
            flat = np.concatenate([[len(x)] + x for x in conn]).astype('i4')
            b += ('CELLS %d %d\n' % (len(conn), len(flat))).encode() + num(flat, asc)
        b += ('CELL_TYPES %d\n' % len(conn)).encode() + num(np.array(c['cells']).astype('i4'), asc)
        blocks = []
        for t, x in zip(c['cells'], conn):
            nm = CELLS[t][0] + (str(len(x)) if t == 7 else '')
            if t == 13:
                x = [x[i] for i in (0, 2, 1, 3, 5, 4)]
            if blocks and blocks[-1][0] == nm:
                blocks[-1][1].append(x)
            else:
                blocks.append((nm, [x]))
        ax = None
    else:
        n = dim[0] * dim[1] * dim[2]
        b += ('DIMENSIONS %d %d %d\n' % tuple(dim)).encode()
        if c['kind'] == 'STRUCTURED_POINTS':
            b += ('ORIGIN %r %r %r\n%s %r %r %r\n' % (tuple(c['ori']) + ('ASPECT_RATIO' if c['asp'] else 'SPACING',) + tuple(c['spa']))).encode()
            ax = [c['ori'][d] + c['spa'][d] * np.arange(dim[d]) for d in range(3)]
        else:
            ax = [(c['ori'][d] + np.cumsum(rs.uniform(0.1, 3, dim[d]))).astype(ft) for d in range(3)]
            if c['kind'] == 'RECTILINEAR_GRID':      # the type is given for each direction
                at = [[c['pt']] * 3, ['float', 'double', 'double'], ['int', 'float', 'double'], ['double', 'int', 'float']][c['axt']]
                ax = [np.round(a * 3).astype('i4') if t == 'int' else a.astype(DT[t]) for a, t in zip(ax, at)]
        P = np.array([[ax[0][i], ax[1][j], ax[2][k]] for k in range(dim[2]) for j in range(dim[1]) for i in range(dim[0])])
        if c['kind'] == 'RECTILINEAR_GRID':
            for d in range(3):
                b += ('%s_COORDINATES %d %s\n' % ('XYZ'[d], dim[d], at[d])).encode() + num(ax[d], asc)
        if c['kind'] == 'STRUCTURED_GRID':
            P = (P + rs.uniform(-0.1, 0.1, P.shape)).astype(ft)
            b += ('POINTS %d %s\n' % (n, c['pt'])).encode() + num(P, asc)
            ax = None
        blocks = grid_cells(dim)
    nc = sum(len(x) for _, x in blocks)
    pd, cd = {}, {}
    if c['pd']:
        s, pd = data_section('POINT_DATA', n, c['pd'], c)
        b += s
    if c['cd']:
        s, cd = data_section('CELL_DATA', nc, c['cd'], c)
        b += s
    p = ctx.path('a.vtk')
    open(p, 'wb').write(b)
    return p, P, blocks, pd, cd, ax


def chk(F, P, blocks, pd, cd, what, rt=0.0):
    cmp.arr_close(F.points, P, rt, 1e-9 * (np.abs(P).max() + 1) if rt else 0, what + 'points')
    cmp.list_eq([c.type for c in F.cells], [t for t, _ in blocks], what + 'cell types')
    for c, (t, x) in zip(F.cells, blocks):
        cmp.arr_eq(c.data, np.array(x), what + 'connectivity of %s' % t)
    require(set(F.point_data) == set(pd), '%spoint data %s, expected %s', what, sorted(F.point_data), sorted(pd))
    require(set(F.cell_data) == set(cd), '%scell data %s, expected %s', what, sorted(F.cell_data), sorted(cd))
    for k, v in pd.items():
        a = np.asarray(F.point_data[k])
        require(len(a) == len(v) and a.size == v.size, '%spoint data %s: shape %s, expected %s', what, k, a.shape, v.shape)
        cmp.arr_eq(a.reshape(v.shape), v, what + 'point data ' + k)
        require(a.dtype.kind == v.dtype.kind, '%stype of %s: %s, expected %s', what, k, a.dtype, v.dtype)
    for k, v in cd.items():
        a = F.cell_data[k]
        require([len(x) for x in a] == [len(x) for _, x in blocks], '%scell data %s does not match the cells', what, k)
        cmp.arr_eq(np.concatenate(a).reshape(v.shape), v, what + 'cell data ' + k)


def pad(v):
    """Two-component data are written with a third component, zero."""
    return np.pad(v, ((0, 0), (0, 1))) if v.ndim == 2 and v.shape[1] == 2 else v


def check(c, ctx):
    p, P, blocks, pd, cd, ax = encode(c, ctx)
    F = weio.read(p) if c['entry'] else VTKFile(p)
    require(type(F).__name__ == 'VTKFile', 'detected as %s', type(F).__name__)
    rt = 1e-12 if c['kind'] == 'STRUCTURED_POINTS' else 0.0
    chk(F, P, blocks, pd, cd, 'read: ', rt)
    if ax is not None:
        for nm, a in zip(('xp_grid', 'yp_grid', 'zp_grid'), ax):
            cmp.arr_close(getattr(F, nm), a, 1e-12 if rt else 0, 1e-9 if rt else 0, nm)
    if c['kind'] == 'STRUCTURED_POINTS':
        require(set(F.point_data_grid) == set(pd), 'data on the grid')
        nx, ny, nz = c['dim']
        for k, v in pd.items():
            G = F.point_data_grid[k]
            e = np.array([[[v[i + nx * (j + ny * kk)] for kk in range(nz)] for j in range(ny)] for i in range(nx)])
            require(G.shape[:3] == (nx, ny, nz), 'shape of %s on the grid: %s', k, G.shape)
            cmp.arr_eq(G.reshape(e.shape), e, 'data on the grid: ' + k)
    repr(F)
    q = ctx.path('b.vtk')
    F.write(q, binary=c['binw'])
    chk(F, P, blocks, pd, cd, 'in memory after writing: ', rt)
    pd, cd = {k: pad(v) for k, v in pd.items()}, {k: pad(v) for k, v in cd.items()}
    G = VTKFile(q)
    chk(G, np.asarray(F.points), blocks, pd, cd, 'written: ')
    if c['twice']:
        G.write(ctx.path('c.vtk'), binary=not c['binw'])
        chk(VTKFile(ctx.path('c.vtk')), np.asarray(F.points), blocks, pd, cd, 'written twice: ')
    ctx.label(c['kind'], 'ascii' if c['ascii'] else 'binary')
    ctx.nontrivial(len(P) >= 4 and (pd or cd))


# ------------------------------------------------------------------ objects made from scratch, and damaged files
@st.composite
def new_cases(draw):
    names = draw(g.unique_idents(0, 4, 9))
    return dict(n=draw(st.integers(2, 20)), seed=draw(st.integers(0, 10 ** 6)), types=draw(st.lists(st.sampled_from(['line', 'triangle', 'quad', 'wedge', 'hexahedron', 'polygon5', 'vertex']), min_size=1, max_size=4)), nc=draw(st.integers(1, 5)),
                names=names, m=draw(st.lists(st.sampled_from([0, 1, 2, 3, 9]), min_size=4, max_size=4)), dt=draw(st.lists(st.sampled_from(['f4', 'f8', 'i4', 'i8', 'u1']), min_size=4, max_size=4)), dim=draw(st.sampled_from([2, 3])), bin=draw(st.booleans()), default=draw(st.booleans()), cut=draw(st.floats(0.3, 0.99).map(lambda x: round(x, 3))), space=draw(st.integers(0, 7)) == 0)


NN = dict(line=2, triangle=3, quad=4, wedge=6, hexahedron=8, polygon5=5, vertex=1)


def check_new(c, ctx):
    rs = np.random.RandomState(c['seed'])
    F = VTKFile()
    F.points = rs.uniform(-9, 9, (c['n'], c['dim']))
    F.cells = [CellBlock(t, rs.randint(0, c['n'], (c['nc'], NN[t]))) for t in c['types']]
    pd, cd = {}, {}
    nc = c['nc'] * len(c['types'])
    F.point_data, F.cell_data = {}, {}
    for i, nm in enumerate(c['names']):
        m, dt = c['m'][i], c['dt'][i]
        N = c['n'] if i % 2 == 0 else nc
        v = (rs.uniform(0, 200, (N, m) if m else (N,))).astype(dt)
        if i % 2 == 0:
            F.point_data[nm] = v
            pd[nm] = pad(v)
        else:
            F.cell_data[nm] = np.split(v, np.arange(c['nc'], nc, c['nc']))
            cd[nm] = pad(v)
    keep = {k: v.copy() for k, v in F.point_data.items()}
    keepc = {k: [x.copy() for x in v] for k, v in F.cell_data.items()}
    p = ctx.path('n.vtk')
    if c['default']:
        F.filename = p
        F.write(binary=c['bin'])
    else:
        F.write(p, binary=c['bin'])
    for k, v in keep.items():
        cmp.arr_eq(F.point_data[k], v, 'point data in memory after writing')
    for k, v in keepc.items():
        for a, b in zip(F.cell_data[k], v):
            cmp.arr_eq(a, b, 'cell data in memory after writing')
    blocks = []
    for b in F.cells:
        if blocks and blocks[-1][0] == b.type:
            blocks[-1][1].extend(b.data.tolist())
        else:
            blocks.append((b.type, b.data.tolist()))
    P = F.points if c['dim'] == 3 else np.column_stack((F.points, np.zeros(c['n'])))
    chk(VTKFile(p), P, blocks, pd, cd, 'new object written: ')
    b = open(p, 'rb').read()
    if c['bin']:      # a file cut within its points or cells is refused
        k = int(c['cut'] * b.index(b'CELL_TYPES'))
        if k > b.index(b'POINTS'):
            q = ctx.path('cut.vtk')
            open(q, 'wb').write(b[:k])
            cmp.raises((Exception,), lambda: VTKFile(q), 'file cut at %d of %d bytes' % (k, len(b)))
    if c['space']:
        F.point_data['two words'] = F.points[:, 0]
        cmp.raises((Exception,), lambda: F.write(ctx.path('s.vtk')), 'names with blanks')
    ctx.nontrivial(c['n'] >= 4 and len(c['names']) > 0)


COMPONENTS = [Component('files', cases(), check, 400, 7000), Component('new', new_cases(), check_new, 200, 3000)]
