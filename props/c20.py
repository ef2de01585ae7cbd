"""C20: SubDyn summary files."""
import json
import numpy as np
from hypothesis import strategies as st
from vlib.core import Component, require
from vlib import gens as g, cmp
from weio.fast_summary_file import FASTSummaryFile
from weio.mini_yaml import yaml_read
import weio

RULE = ('SubDyn summary files encoded from generated structures (joints of 6 or more DOFs, retained, fixed and internal DOFs, members, modes, matrices); simple yaml files of scalars and tables; '
        'non-trivial: at least 3 joints and 1 CB mode (summary), at least one table of 2 rows (yaml).')
ASSUMPTIONS = ['joint numbers are 1..n in file order, positions distinct, at least one interface and one internal joint', 'every number of a real matrix is written with a decimal point and an integer matrix without, as SubDyn does']
SPEC = g.specs()


@st.composite
def sums(draw):
    n = draw(st.integers(2, 7))
    return dict(n=n, scale=draw(st.sampled_from([1, 1, 1, 0.125, 33.375, 101])), xyz=draw(st.lists(st.tuples(st.integers(-9, 9), st.integers(-9, 9), st.integers(-60, 30)), min_size=n, max_size=n, unique=True)), dofs=draw(st.lists(st.sampled_from([6, 6, 6, 7, 8]), min_size=n, max_size=n)),
                role=draw(st.lists(st.sampled_from(['I', 'C', 'L', 'L']), min_size=n, max_size=n)), fix=draw(st.lists(st.integers(0, 1), min_size=60, max_size=60)), nm=draw(st.integers(0, 5)), spec=draw(SPEC), spec2=draw(SPEC),
                el=draw(st.lists(st.tuples(st.integers(1, n), st.integers(1, n), st.integers(1, 4), st.integers(1, 3)), min_size=1, max_size=9)), four=draw(st.booleans()), cols=draw(st.sampled_from([9, 9, 10])), comments=draw(st.booleans()), case=draw(st.booleans()), zero=draw(st.integers(0, 3)) == 0,
                mats=draw(st.lists(st.tuples(g.ident(2, 8), st.integers(1, 8), st.integers(1, 8)), max_size=4, unique_by=lambda t: t[0])), disp=draw(st.one_of(st.none(), g.finite(0.1, 20, 2))), sort=draw(st.sampled_from([None, 0, 1, 2])), bad=draw(st.integers(0, 7)), ext=draw(st.sampled_from(['.SD.sum.yaml', '.sum.yaml', '.sum', '.txt'])))


def rnd(M, fmt='%.6E'):
    return np.array([[float(fmt % x) for x in r] for r in M]).reshape(M.shape)


def fmat(lines, key, M, rem='', fmt=' %15.6E,', pre='# %d x %d ', each=False):
    M = np.atleast_2d(M)
    lines.append('%s: %s%s' % (key, pre % M.shape, rem))
    if M.size == 0:
        lines += ['  - [ ]'] * max(1, M.shape[0])
    else:
        lines += ['  - [' + ''.join((fmt % x) for x in r) + ']' + (' # %d' % (i + 1) if each else '') for i, r in enumerate(M)]


def build(c):
    """ text of the file and the expected content"""
    n = c['n']
    rows = []; B, L, F = [], [], []
    k = 0
    roles = list(c['role'])
    roles[0], roles[-1] = 'I', 'L'
    for i in range(n):
        nd = 6 if roles[i] != 'L' else c['dofs'][i]
        for d in range(1, nd + 1):
            rows.append((i + 1, nd, d)); k += 1
            if roles[i] == 'L':
                L.append(k)
            elif roles[i] == 'I':
                (F if c['fix'][k % 60] and d > 3 and i else B).append(k)
            else:
                (F if c['fix'][k % 60] else B).append(k)
    nm = c['nm'] if L else 0
    PhiM = rnd(g.build((len(L), nm), c['spec']))
    PhiR = rnd(g.build((len(L), len(B)), c['spec2']))
    if c['zero'] and nm:
        PhiM[:, 0] = 0
    xyz = np.round(np.array(c['xyz'], float) / np.array([1, 1, 2.]) * c.get('scale', 1), 3)
    nodes = np.column_stack((np.arange(1, n + 1), xyz, np.ones((n, 1)), np.zeros((n, c['cols'] - 5))))
    el = []
    for i, (a, b, t, p) in enumerate(c['el']):
        l = float(np.linalg.norm(xyz[a - 1] - xyz[b - 1]))
        el.append([i + 1, a, b, p, p, t, round(l, 3), 0.011 * p + 0.5 * t, 7850. + i, 2.1e11 + 1e9 * i, 8.07e10 + 1e8 * i, 0.51, 4.6e-5, 4.7e-5, 9.2e-5, 0.])
    el = np.array(el)
    freq = rnd(np.abs(g.build((1, nm), c['spec2'])))
    mats = [(('M_' + k), rnd(g.build((a, b), dict(c['spec'], seed=i)))) for i, (k, a, b) in enumerate(c['mats'])]
    name = 'subdyn' if c['case'] else 'SubDyn'
    T = ['#This summary file was generated by %s  on 21-Jul-2020 at 21:06:35.' % name, '', '#Unless specified, units are consistent with Input units, [SI] system is advised.', '#___', '#TP reference point:   0.000000E+00   0.000000E+00   0.000000E+00', '#___']
    sc = [('nNodes_I', roles.count('I')), ('nNodes_C', roles.count('C')), ('nNodes_L', roles.count('L')), ('nNodes', n), ('nDOF__B', len(B)), ('nDOF__L', len(L)), ('nDOF__F', len(F)), ('nDOF_red', k), ('DTime', 0.125)]
    if c['comments']:
        T.append('# Internal FEM representation')
    for kk, v in sc:
        T.append('%-8s: %7s # Number of things: "%s" (I)' % (kk, v, kk))
    ints = ' %6d,'
    for kk, v in (('DOF___B', B), ('DOF___F', F), ('DOF___L', L)):
        fmat(T, kk, np.array(v, int).reshape(1, -1), 'all DOFs', ints)
    if c['comments']:
        T += ['', '#Index map from DOF to nodes', '#     Node No.,  DOF/Node,   NodalDOF']
    D = np.array(rows)
    if c['four']:
        D = np.column_stack((np.arange(1, k + 1), D))
    fmat(T, 'DOF2Nodes', D, '(nDOFRed x 3, for each constrained DOF)', ints, each=c['comments'])
    T.append('#     Node_[#]          X_[m]           Y_[m]           Z_[m]       JType_[-]')
    fmat(T, 'Nodes', nodes, fmt=' %14.3f,')
    T.append('#    Elem_[#]    Node_1   Node_2')
    fmat(T, 'Elements', el)
    T += ['#___', '#CB frequencies [Hz]']
    fmat(T, 'CB_frequencies', freq)
    fmat(T, 'PhiM', PhiM, '(CB modes)')
    fmat(T, 'PhiR', PhiR, '(Guyan modes)')
    for kk, M in mats:
        T.append('')
        fmat(T, kk, M)
    return T, dict(B=B, L=L, F=F, PhiM=PhiM, PhiR=PhiR, nodes=nodes, el=el, freq=freq.ravel(), mats=mats, rows=np.array(rows), sc=sc, xyz=xyz, nm=nm)


def shapes(e, maxDisp):
    """ displacement of each joint for the Guyan and CB modes, by definition"""
    n = len(e['nodes'])
    def disp(vals):
        D = np.zeros((n, 3, vals.shape[1]))
        for dof in range(len(e['rows'])):
            node, _, d = e['rows'][dof]
            if d <= 3:
                D[node - 1, d - 1, :] = vals[dof]
        for m in range(D.shape[2]):
            mx = np.abs(D[:, :, m]).max()
            if mx > 1e-5:
                D[:, :, m] *= maxDisp / mx
        return D
    N = len(e['rows'])
    gy = np.zeros((N, len(e['B']))); cb = np.zeros((N, e['nm']))
    for j, b in enumerate(e['B']):
        gy[b - 1, j] = 1
    for i, l in enumerate(e['L']):
        gy[l - 1] = e['PhiR'][i]
        cb[l - 1] = e['PhiM'][i] if e['nm'] else 0
    return disp(gy), disp(cb)


def check_object(S, c, e, ctx, what):
    require(S['module'] == 'SubDyn', '%s: module %r', what, S['module'])
    for k, v in e['sc']:
        require(k in S and S[k] == v and type(S[k]) is type(v), '%s: %s is %r, expected %r', what, k, S.get(k), v)
    for k in 'BLF':
        cmp.arr_eq(np.asarray(S['DOF___' + k]).ravel(), np.array(e[k], int) - 1, '%s: DOF___%s' % (what, k))
    cmp.arr_eq(S['DOF2Nodes'], np.column_stack((np.arange(len(e['rows'])), e['rows'])), what + ': DOF2Nodes')
    cmp.arr_eq(S['Nodes'], e['nodes'], what + ': Nodes')
    cmp.arr_close(S['Elements'], e['el'], 1e-6, 1e-9, what + ': Elements')
    for i, k in enumerate('XYZ'):
        cmp.arr_eq(S[k], e['xyz'][:, i], what + ': ' + k)
    cmp.arr_eq(np.asarray(S['CB_frequencies']).reshape(-1), e['freq'], what + ': CB_frequencies')
    for k in ('PhiM', 'PhiR'):
        if e[k].size:
            cmp.arr_eq(S[k], e[k], what + ': ' + k)
    for k, M in e['mats']:
        cmp.arr_eq(S[k], M, what + ': ' + k)


def check_modes(S, c, e, what, maxDisp=None, sort=2, kw=True):
    md = maxDisp if maxDisp is not None else 0.1 * max(np.ptp(e['xyz'][:, i]) for i in range(3))
    gy, cb = shapes(e, md)
    r = S.getModes(**(dict(maxDisp=maxDisp, sortDim=sort) if kw else {}))
    for nm, exp, (d, p, I) in (('Guyan', gy, r[:3]), ('CB', cb, r[3:])):
        I = np.asarray(I, int)
        require(sorted(I) == list(range(1, c['n'] + 1)), '%s: joints of the %s modes %r', what, nm, I)
        cmp.arr_close(p, e['xyz'][I - 1], 0, 0, '%s: joint positions of the %s modes' % (what, nm))
        cmp.arr_close(d, exp[I - 1], 1e-9, 1e-9 * max(1, md), '%s: %s modes' % (what, nm))
        if sort is None:
            require((I == np.arange(1, c['n'] + 1)).all(), '%s: order of the joints %r', what, I)
        else:
            require((np.diff(p[:, sort]) >= 0).all(), '%s: joints are not sorted along %s', what, 'xyz'[sort])
    return gy, cb


def check_table(S, c, e, gy, cb, what):
    df = S.toDataFrame()
    cols = ['z_[m]', 'x_[m]', 'y_[m]']
    pos = e['xyz']
    exp = {'z_[m]': pos[:, 2], 'x_[m]': pos[:, 0], 'y_[m]': pos[:, 1]}
    tot, dd = [], []
    amb = set()                 # columns with displacements that are zero up to rounding
    for nm, D in (('Guyan', gy), ('CB', cb)):
        a, b = [], []
        for m in range(D.shape[2]):
            for i, x in enumerate('xyz'):
                k1, k2 = '%sMode%d%s_[m]' % (nm, m + 1, x), '%sDisp%d%s_[m]' % (nm, m + 1, x)
                exp[k1] = pos[:, i] + D[:, i, m]
                exp[k2] = D[:, i, m]
                if (D[:, i, m] != 0).any():
                    a.append(k1); b.append(k2)
                    if not (np.abs(D[:, i, m]) > 1e-300).any():
                        amb |= set((k1, k2))
        tot += a; dd += b
    cmp.list_eq([k for k in df.columns if k not in amb], [k for k in cols + tot + dd if k not in amb], what + ': columns')
    key = [tuple(r) for r in df[['x_[m]', 'y_[m]', 'z_[m]']].values]
    idx = {tuple(r): i for i, r in enumerate(pos)}
    require(sorted(key) == sorted(idx), '%s: joint positions of the table %r', what, key)
    require((np.diff(df['z_[m]'].values) >= 0).all(), '%s: table is not sorted along z', what)
    I = [idx[k] for k in key]
    for k in df.columns:
        cmp.arr_close(df[k].values, exp[k][I], 1e-9, 1e-8, '%s: column %s' % (what, k))


def check_json(S, c, e, gy, cb, ctx, what):
    out = ctx.path('o.json')
    d = S.toJSON(out)
    f = json.load(open(out))
    for nm, D in (('returned', d), ('written', f)):
        cmp.list_eq([list(x) for x in D['Connectivity']], [[int(r[1]) - 1, int(r[2]) - 1] for r in e['el']], '%s: %s connectivity' % (what, nm))
        cmp.arr_eq(np.array(D['Nodes']), e['xyz'], '%s: %s nodes' % (what, nm))
        require(len(D['ElemProps']) == len(e['el']), '%s: %d element properties', what, len(D['ElemProps']))
        for p, r in zip(D['ElemProps'], e['el']):
            require(p['shape'] == 'cylinder' and p['type'] == int(r[5]), '%s: element properties %r', what, p)
            cmp.arr_close(p['Diam'], 4 * np.sqrt(r[7] / np.pi), 1e-5, 0, what + ': diameter')
        cmp.list_eq([m['name'] for m in D['Modes']], ['GY%d' % (i + 1) for i in range(gy.shape[2])] + ['CB%d' % (i + 1) for i in range(cb.shape[2])], what + ': modes')
        for i, m in enumerate(D['Modes']):
            ng = gy.shape[2]
            cmp.arr_close(np.array(m['Displ']), gy[:, :, i] if i < ng else cb[:, :, i - ng], 1e-9, 1e-8, '%s: %s displacements of %s at the nodes' % (what, nm, m['name']))
            cmp.arr_close(m['omega'], 1 if i < ng else 2 * np.pi * e['freq'][i - ng], 1e-12, 0, '%s: omega of %s' % (what, m['name']))
        cmp.arr_close(D['groundLevel'], e['xyz'][:, 2].min(), 0, 0, what + ': ground level')


def check_sum(c, ctx):
    T, e = build(c)
    c2 = dict(c, n=2, scale=1, xyz=[(0, 0, 0), (1, 2, 30)], role=['I', 'L'], el=[(1, 2, 1, 1)], mats=[], nm=2)
    T2, e2 = build(c2)
    p, p2 = ctx.path('a' + c['ext']), ctx.path('b.sum.yaml')
    open(p, 'w').write('\n'.join(T) + '\n'); open(p2, 'w').write('\n'.join(T2) + '\n')
    S = weio.read(p, fileformat=None) if c['ext'] != '.txt' else FASTSummaryFile(p)
    require(isinstance(S, FASTSummaryFile), 'read as %s', type(S).__name__)
    other = FASTSummaryFile(p2)
    for rep in range(2):        # tables, modes and JSON do not change the object
        check_object(S, c, e, ctx, 'reading %d' % rep)
        gy, cb = check_modes(S, c, e, 'modes', kw=False)
        check_modes(S, c, e, 'modes with options', c['disp'], c['sort'])
        check_table(S, c, e, gy, cb, 'table')
        check_json(S, c, e, gy, cb, ctx, 'JSON')
    check_object(other, c2, e2, ctx, 'other object')
    gy2, cb2 = check_modes(other, c2, e2, 'modes of the other object', kw=False)
    check_table(other, c2, e2, gy2, cb2, 'table of the other object')
    S.read(p2)                  # the same object reads another file
    gy2, cb2 = check_modes(S, c2, e2, 'modes after reading another file', kw=False)
    check_table(S, c2, e2, gy2, cb2, 'table after reading another file')
    if c['bad'] == 0:
        open(p, 'w').write('\n'.join(T).replace('SubDyn', 'HydroDyn').replace('subdyn', 'HydroDyn') + '\n')
        cmp.raises((NotImplementedError,), lambda: FASTSummaryFile(p), 'other module')
    elif c['bad'] == 1:
        open(p, 'w').close()
        cmp.raises((weio.EmptyFileError,), lambda: FASTSummaryFile(p), 'empty file')
    elif c['bad'] == 2:
        cmp.raises((OSError,), lambda: FASTSummaryFile(ctx.path('none.yaml')), 'missing file')
    elif c['bad'] == 3:         # end of the file is missing
        i = [i for i, l in enumerate(T) if l.startswith('Elements')][0]
        open(p, 'w').write('\n'.join(T[:i]) + '\n')
        cmp.raises((Exception,), lambda: FASTSummaryFile(p), 'truncated file')
    elif c['bad'] == 4:         # a number is missing in a table
        i = [i for i, l in enumerate(T) if l.startswith('Nodes:')][0] + 2
        t = list(T); t[i] = t[i].rsplit(',', 2)[0] + ',]'
        open(p, 'w').write('\n'.join(t) + '\n')
        cmp.raises((Exception,), lambda: FASTSummaryFile(p), 'row with a missing value')
    ctx.label('dofs%d' % min(9, len(e['F'])), 'sort%s' % c['sort'])
    ctx.nontrivial(c['n'] >= 3 and e['nm'] >= 1)


# ---------------------------------------------------------------- the yaml subset
@st.composite
def yamls(draw):
    keys = draw(g.unique_idents(1, 8, 12, extra='_'))
    ents = []
    for k in keys:
        t = draw(st.sampled_from(['int', 'float', 'str', 'imat', 'fmat', 'fmat', 'empty']))
        v = dict(int=st.integers(-10 ** 9, 10 ** 9), float=g.finite(), str=g.phrase().filter(lambda s: s.strip() and not any(x in s for x in '#:[]') and not s.strip().lower() in ('nan', 'inf', 'infinity')), imat=st.lists(st.lists(st.integers(-10 ** 6, 10 ** 6), min_size=3, max_size=3), min_size=1, max_size=5),
                 fmat=st.integers(1, 4).flatmap(lambda m: st.lists(st.lists(g.finite(-1e8, 1e8), min_size=m, max_size=m), min_size=1, max_size=5)), empty=st.just([]))[t]
        ents.append((k, t, draw(v), draw(st.booleans()), draw(st.booleans()), draw(st.sampled_from([' ', '', '  ']))))
    return dict(e=ents, given=draw(st.booleans()), nl=draw(st.booleans()))


def isnum(s):
    try:
        float(s)
        return True
    except ValueError:
        return False


def check_yaml(c, ctx):
    T, exp = [], {}
    for k, t, v, com, bl, sp in c['e']:
        rem = ' # a comment: with, [some] - signs' if com else ''
        if bl:
            T += ['', '# ' + k + ': not a key']
        if t in ('int', 'float', 'str'):
            if t == 'str' and isnum(v):
                continue
            T.append('%s%s: %s%s' % (k, sp, repr(v) if t != 'str' else v, rem))
            exp[k] = v.strip() if t == 'str' else v
        elif t == 'empty':
            T += ['%s%s:%s' % (k, sp, rem), '  - [ ]']
            exp[k] = np.zeros((1, 0))
        else:
            T.append('%s%s:%s' % (k, sp, rem))
            f = '%d' if t == 'imat' else '%.8E'
            for r in v:
                T.append('  -%s[%s%s]%s' % (sp, ', '.join(f % x for x in r), ',' if com else '', rem))
            exp[k] = np.array([[float(f % x) for x in r] for r in v]).astype(int if t == 'imat' else float)
    p = ctx.path('a.yaml')
    open(p, 'w').write('\n'.join(T) + ('\n' if c['nl'] else ''))
    own = {'before': 1}
    d = yaml_read(p, own) if c['given'] else yaml_read(p)
    require(not c['given'] or d is own, 'the dictionary given is not the one returned')
    cmp.list_eq(sorted(d), sorted(list(exp) + (['before'] if c['given'] else [])), 'keys')
    for k, v in exp.items():
        if isinstance(v, np.ndarray):
            cmp.arr_close(d[k], v, 1e-14, 0, 'value of ' + k)
            require(not v.size or d[k].dtype.kind == v.dtype.kind, 'type of %s: %s', k, d[k].dtype)
        else:
            require(type(d[k]) is type(v) and d[k] == v, 'value of %s: %r, expected %r', k, d[k], v)
    ctx.nontrivial(any(isinstance(v, np.ndarray) and len(v) > 1 for v in exp.values()))


COMPONENTS = [Component('summary', sums(), check_sum, quick=150, thorough=8000, shards=4), Component('yaml', yamls(), check_yaml, quick=400, thorough=8000, shards=2)]
