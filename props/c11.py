"""C11: HAWC2 blade layout (ae), profile coefficient (pc) and structural (st) files."""
import numpy as np
from hypothesis import strategies as st
from vlib.core import Component, require
from vlib import gens as g, cmp
from weio.hawc2_ae_file import HAWC2AEFile
from weio.hawc2_pc_file import HAWC2PCFile
from weio.hawc2_st_file import HAWC2StFile
from weio.wetb.hawc2.st_file import StFile
import weio

RULE = ('Files with generated numbers of sets, rows and values, free text after the values, and varied number formats, or objects filled set by set; '
        'non-trivial: at least 2 sets or 3 rows.')
ASSUMPTIONS = ['pc sets of a file are numbered 1, 2, ... (as HAWC2 requires)', 'structural tables are written with 8 significant digits, profile thicknesses with 8 decimals']

NUM = st.one_of(g.finite(-1e6, 1e6), g.finite(-2, 2), st.sampled_from([1e-9, 2.1e11, 8.08e10, 1e16, -180.0, 100.0]))
FMTS = ['%r', '%.17g', '%.6e', '%.4f', '%12.5E']


def fmtnum(x, f):
    s = f % x
    return s.strip(), float(s)


@st.composite
def mat(draw, n, m):
    if n * m > 60:     # large tables from a spec
        sp = draw(g.specs())
        return [[float(x) for x in r] for r in g.build((n, m), sp)]
    return draw(st.lists(st.lists(NUM, min_size=m, max_size=m), min_size=n, max_size=n))


TAIL = st.sampled_from(['', '', ' ;', ' ! remark', ' some text 12 3', '\t; comment', ' x', ' ; bl\udce5', ' ; \xe5'])


# ------------------------------------------------------------------ ae
@st.composite
def ae_cases(draw):
    ns = draw(st.integers(1, 4))
    sets = []
    for i in range(ns):
        n = draw(st.sampled_from([1, 2, 3, 5, 12]))
        a = draw(mat(n, 3))
        r = sorted(abs(x[0]) for x in a)
        ids = draw(st.lists(st.integers(1, 9), min_size=n, max_size=n))
        sets.append([[r[k]] + a[k][1:] + [ids[k]] for k in range(n)])
    nr = list(range(1, ns + 1)) if draw(st.integers(0, 2)) else draw(st.lists(st.integers(1, 20), min_size=ns, max_size=ns, unique=True))
    return dict(nr=nr, sets=sets, fmt=draw(st.sampled_from(FMTS)), tail=draw(TAIL), htail=draw(TAIL), q=draw(st.lists(st.floats(-0.2, 1.2, allow_nan=False).map(lambda x: round(x, 4)), min_size=1, max_size=3)),
                ext=draw(st.sampled_from(['ae', 'dat', 'txt'])), scratch=draw(st.booleans()))


def chk_ae(f, sets, rtol, what, nr):
    cmp.list_eq(list(f.data.ae_sets.keys()), nr, what + 'set numbers')
    for i, s in enumerate(sets):
        cmp.arr_close(f.data.ae_sets[nr[i]], np.array(s), rtol, 0, '%sset %d' % (what, i + 1))
        cmp.arr_close(f.sets[i], np.array(s), rtol, 0, '%ssets[%d]' % (what, i))
    df = f.toDataFrame()
    cols = ['radius_[m]', 'chord_[m]', 'thickness_[%]', 'pc_set_[#]']
    if len(sets) == 1:
        df = {'ae_set_%d' % nr[0]: df}
    cmp.list_eq(list(df.keys()), ['ae_set_%d' % i for i in nr], what + 'tables')
    for i, s in enumerate(sets):
        cmp.list_eq(df['ae_set_%d' % nr[i]].columns, cols, what + 'columns')
        cmp.arr_close(df['ae_set_%d' % nr[i]].values, np.array(s), rtol, 0, '%stable of set %d' % (what, i + 1))


def check_ae(c, ctx):
    sets, nr = c['sets'], c['nr']
    p = ctx.path('a.' + c['ext'])
    if c['scratch']:
        f = HAWC2AEFile()
        for i, s in enumerate(sets):
            a = np.array(s)
            f.add_set(radius=a[:, 0], chord=a[:, 1], thickness=a[:, 2], pc_set_id=a[:, 3], **({} if nr == list(range(1, len(nr) + 1)) else dict(set_id=nr[i])))
        chk_ae(f, sets, 0, 'new object: ', nr)
        f.write(p)
    else:
        L = ['%d%s' % (len(sets), c['htail'])]
        exp = []
        for i, s in enumerate(sets):
            L.append('%d %d%s' % (nr[i], len(s), c['htail']))
            e = []
            for r in s:
                t = [fmtnum(x, c['fmt']) for x in r[:3]]
                L.append(' '.join(x[0] for x in t) + ' %d' % r[3] + c['tail'])
                e.append([x[1] for x in t] + [r[3]])
            exp.append(e)
        sets = exp
        open(p, 'w', errors='surrogateescape').write('\n'.join(L) + '\n')
    f = HAWC2AEFile(p)
    chk_ae(f, sets, 0, 'read: ', nr)
    q = ctx.path('b.' + c['ext'])
    f.write(q)
    f2 = HAWC2AEFile(q)
    chk_ae(f2, sets, 0, 'after write: ', nr)
    f2.write(ctx.path('c.ae'))
    require(open(q).read() == open(ctx.path('c.ae')).read(), 'writing, reading and writing again changes the file')
    # interpolation along the blade
    for i, s in enumerate(sets):
        a = np.array(s)
        if len(set(a[:, 0])) != len(a):
            continue
        r0, r1 = a[0, 0], a[-1, 0]
        for x in c['q']:
            r = r0 + x * (r1 - r0)
            cmp.arr_close(f.data.chord(r, set_nr=nr[i]), np.interp(r, a[:, 0], a[:, 1]), 1e-12, 0, 'chord(%g)' % r)
            cmp.arr_close(f.data.thickness(r, set_nr=nr[i]), np.interp(r, a[:, 0], a[:, 2]), 1e-12, 0, 'thickness(%g)' % r)
            rs = a[np.abs(a[:, 0] - r).argmin(), 0]
            cmp.arr_close(abs(f.data.radius_ae(r, set_nr=nr[i]) - r), abs(rs - r), 1e-12, 0, 'station next to %g' % r)
            cmp.eq(float(f.data.radius_ae(a[0, 0], set_nr=nr[i])), float(a[0, 0]), 'station next to the first station')
            if nr[i] == 1:
                cmp.arr_close([f.data.chord(r), f.data.thickness(r)], [f.data.chord(r, 1), f.data.thickness(r, 1)], 0, 0, 'chord and thickness without the number of the set (1)')
        cmp.arr_close(f.data.chord(None, set_nr=nr[i]), a[:, 1], 0, 0, 'chord()')
        cmp.arr_close(f.data.thickness(None, set_nr=nr[i]), a[:, 2], 0, 0, 'thickness()')
        cmp.arr_close(f.data.radius_ae(None, set_nr=nr[i]), a[:, 0], 0, 0, 'radius_ae()')
        if nr[i] == 1:
            cmp.arr_close(f.data.radius_ae(), a[:, 0], 0, 0, 'radius_ae() of set 1')
        # at the stations themselves, well apart, the profile set is the one of the station
        if len(a) > 1 and np.min(np.diff(a[:, 0])) > 1e-3 * np.max(np.abs(a[:, 0])):
            for k in range(len(a)):
                cmp.eq(float(f.data.pc_set_nr(a[k, 0], set_nr=nr[i])), float(a[k, 3]), 'profile set at station %d' % k)
                if nr[i] == 1:
                    cmp.eq(float(f.data.pc_set_nr(a[k, 0])), float(a[k, 3]), 'profile set at station %d of set 1' % k)
    ctx.label('sets:%d' % len(sets), 'scratch' if c['scratch'] else 'text')
    ctx.nontrivial(len(sets) >= 2 or len(sets[0]) >= 3)


# ------------------------------------------------------------------ pc
@st.composite
def pc_cases(draw):
    ns = draw(st.integers(1, 3))
    sets = []
    for i in range(ns):
        k = draw(st.integers(1, 4))
        th = sorted(draw(st.lists(st.integers(1, 10 ** 4).map(lambda x: x / 100.), min_size=k, max_size=k, unique=True)))
        prof = []
        for j in range(k):
            n = draw(st.sampled_from([1, 2, 3, 7, 20]))
            a = draw(mat(n, 4))
            al = sorted(draw(st.lists(st.integers(-1800, 1800), min_size=n, max_size=n, unique=True)))
            prof.append([[al[r] / 10.] + a[r][1:] for r in range(n)])
        sets.append(dict(th=th, prof=prof))
    return dict(sets=sets, fmt=draw(st.sampled_from(FMTS)), tail=draw(TAIL), htail=draw(TAIL), ext=draw(st.sampled_from(['pc', 'dat', 'txt'])), scratch=draw(st.booleans()),
                q=draw(st.lists(st.tuples(st.floats(0, 1), st.floats(-190, 190)).map(lambda t: [round(t[0], 4), round(t[1], 3)]), min_size=1, max_size=3)))


def chk_pc(f, sets, rtol, what):
    cmp.list_eq(list(f.data.pc_sets.keys()), list(range(1, len(sets) + 1)), what + 'set numbers')
    names = []
    df = f.toDataFrame()
    for i, s in enumerate(sets):
        th, prof = f.data.pc_sets[i + 1]
        cmp.arr_close(th, s['th'], 1e-9, 1e-8, '%sthicknesses of set %d' % (what, i + 1))
        require(len(prof) == len(s['prof']), '%sset %d: %d profiles, expected %d', what, i + 1, len(prof), len(s['prof']))
        for k, a in enumerate(s['prof']):
            cmp.arr_close(prof[k], np.array(a), rtol, 0, '%sprofile %d of set %d' % (what, k + 1, i + 1))
            names.append(('pc_set_%d_t_%s' % (i + 1, th[k]), a))
    cmp.list_eq(list(df.keys()), [n for n, a in names], what + 'tables')
    for n, a in names:
        cmp.list_eq(df[n].columns, ['Alpha_[deg]', 'Cl_[-]', 'Cd_[-]', 'Cm_[-]'], what + 'columns')
        cmp.arr_close(df[n].values, np.array(a), rtol, 0, '%stable %s' % (what, n))


def check_pc(c, ctx):
    sets = c['sets']
    p = ctx.path('a.' + c['ext'])
    if c['scratch']:
        f = HAWC2PCFile()
        for i, s in enumerate(sets):
            f.add_set(i + 1, s['th'], [np.array(a) for a in s['prof']])
        chk_pc(f, sets, 0, 'new object: ')
        require(f.sets is f.data.pc_sets or set(f.sets) == set(f.data.pc_sets), 'sets')
        f.write(p)
    else:
        L = ['%d%s' % (len(sets), c['htail'])]
        exp = []
        for i, s in enumerate(sets):
            L.append('%d%s' % (len(s['th']), c['htail']))
            pr = []
            for k, a in enumerate(s['prof']):
                L.append('%d %d %s%s' % (k + 1, len(a), repr(s['th'][k]), c['htail']))
                e = []
                for r in a:
                    t = [('%.1f' % r[0], r[0])] + [fmtnum(x, c['fmt']) for x in r[1:]]
                    L.append(' '.join(x[0] for x in t) + c['tail'])
                    e.append([x[1] for x in t])
                pr.append(e)
            exp.append(dict(th=s['th'], prof=pr))
        sets = exp
        open(p, 'w', errors='surrogateescape').write('\n'.join(L) + '\n')
    f = HAWC2PCFile(p)
    chk_pc(f, sets, 1e-15 if c['scratch'] else 0, 'read: ')
    q = ctx.path('b.' + c['ext'])
    f.write(q)
    f2 = HAWC2PCFile(q)
    chk_pc(f2, sets, 1e-14, 'after write: ')
    f2.write(ctx.path('c.pc'))
    require(open(q).read() == open(ctx.path('c.pc')).read(), 'writing, reading and writing again changes the file')
    for i, s in enumerate(sets):
        th = s['th']
        if len(th) < 2:
            continue
        for x, al in c['q']:
            t = min(th[0] + x * (th[-1] - th[0]), th[-1])
            k = max(1, int(np.searchsorted(th, t)))
            a0, a1 = np.array(s['prof'][k - 1]), np.array(s['prof'][k])
            for col, fn in ((1, f.data.CL), (2, f.data.CD), (3, f.data.CM)):
                y0, y1 = np.interp(al, a0[:, 0], a0[:, col]), np.interp(al, a1[:, 0], a1[:, col])
                e = y0 + (y1 - y0) * (t - th[k - 1]) / (th[k] - th[k - 1])
                if i == 0:
                    cmp.arr_close(fn(t, al), fn(t, al, 1), 0, 0, 'coefficient %d without the number of the set (1)' % col)
                cmp.arr_close(fn(t, al, pc_set_nr=i + 1), e, 1e-7, 1e-6 * (abs(y0) + abs(y1)) + 1e-12, 'coefficient %d at thickness %g, angle %g' % (col, t, al))
            # the same with coefficients tabulated every degree
            b = max(-180, min(179, int(np.floor(al))))
            if -180 <= al <= 179:
                v = []
                for x in (b, min(b + 1, 179)):
                    y0, y1 = np.interp(x, a0[:, 0], a0[:, 1]), np.interp(x, a1[:, 0], a1[:, 1])
                    v.append(y0 + (y1 - y0) * (t - th[k - 1]) / (th[k] - th[k - 1]))
                cmp.arr_close(f.data.CL_H2(t, al, pc_set_nr=i + 1), v[0] + (v[1] - v[0]) * (al - b), 1e-7, 1e-6 * (np.abs(a0[:, 1]).max() + np.abs(a1[:, 1]).max()) + 1e-12, 'lift with angles of whole degrees')
    ctx.label('sets:%d' % len(sets), 'scratch' if c['scratch'] else 'text')
    ctx.nontrivial(len(sets) >= 2 or sum(len(a) for a in sets[0]['prof']) >= 3)


# ------------------------------------------------------------------ st
STC = 'r m x_cg y_cg ri_x ri_y x_sh y_sh E G I_x I_y I_p k_x k_y A pitch x_e y_e'.split()
FPM = ('r m x_cg y_cg ri_x ri_y pitch x_e y_e K_11 K_12 K_13 K_14 K_15 K_16 K_22 K_23 K_24 K_25 K_26 K_33 K_34 K_35 K_36 K_44 K_45 K_46 K_55 K_56 K_66').split()


@st.composite
def st_cases(draw):
    fpm = draw(st.booleans())
    nm = draw(st.integers(1, 3))
    mnr = draw(st.lists(st.integers(1, 12), min_size=nm, max_size=nm, unique=True)) if draw(st.integers(0, 2)) == 0 else list(range(1, nm + 1))
    ms = []
    for i in range(nm):
        k = draw(st.integers(1, 3))
        snr = list(range(1, k + 1)) if draw(st.integers(0, 2)) else draw(st.lists(st.integers(1, 9), min_size=k, max_size=k, unique=True))
        ms.append(dict(nr=mnr[i], subs=[dict(nr=x, n=draw(st.sampled_from([1, 2, 3, 6, 15])), spec=draw(g.specs())) for x in snr]))
    return dict(fpm=fpm, ms=ms, fmt=draw(st.sampled_from(['%r', '%.10e', '%.4e'])), semi=draw(st.booleans()), head=draw(st.booleans()), ext=draw(st.sampled_from(['st', 'dat'])),
                scratch=draw(st.booleans()), edit=draw(st.booleans()), crlf=draw(st.booleans()))


def st_table(s, m, fmt):
    a = g.build((s['n'], m), s['spec'])
    a[:, 0] = np.cumsum(0.25 + np.floor(np.abs(a[:, 0])) % 7)      # radii with 4 digits at most, all different
    return np.array([[float(fmt % x) for x in r] for r in a]).reshape(a.shape)


def chk_st(f, tabs, cols, rtol, what):
    got = [(m, s) for m in f.data.main_data_sets for s in f.data.main_data_sets[m]]
    cmp.list_eq(got, list(tabs.keys()), what + 'sets')
    df = f.toDataFrame()
    cmp.list_eq(list(df.keys()), ['%d_%d' % k for k in tabs], what + 'tables')
    for (m, s), a in tabs.items():
        cmp.arr_close(f.data.main_data_sets[m][s], a, rtol, 0, '%sset %d %d' % (what, m, s))
        d = df['%d_%d' % (m, s)]
        cmp.arr_close(d.values, a, rtol, 0, '%stable %d_%d' % (what, m, s))
        names = [str(x).split('_[')[0] for x in d.columns]
        cmp.list_eq([n.replace('_', '') for n in names], [n.replace('_', '') for n in cols], what + 'columns')


def check_st(c, ctx):
    cols = FPM if c['fpm'] else STC
    tabs = {}
    for ms in c['ms']:
        for s in ms['subs']:
            tabs[(ms['nr'], s['nr'])] = st_table(s, len(cols), c['fmt'] if not c['scratch'] else '%r')
    p = ctx.path('a.' + c['ext'])
    if c['scratch']:
        if (1, 1) not in tabs:
            return ctx.nontrivial(False)
        f = HAWC2StFile()
        f.data = StFile()
        for (m, s), a in tabs.items():
            f.data.main_data_sets.setdefault(m, {})[s] = a.copy()
        f.write(p)
        rt = 6e-8
    else:
        L = ['%d ; number of sets, Nset' % len(c['ms'])] if c['head'] else []
        for ms in c['ms']:
            L.append('#%d ; main set' % ms['nr'])
            for s in ms['subs']:
                L += ['=' * 40, ' '.join(cols), '=' * 40] if c['head'] else []
                a = tabs[(ms['nr'], s['nr'])]
                L.append('$%d %d ; sub set' % (s['nr'], len(a)))
                for r in a:
                    L.append('  '.join(c['fmt'] % x for x in r) + ((' ; remark', '; remark', ';1 2 3', ' ; bl\udce5')[len(a) % 4] if c['semi'] else ''))
        nl = '\r\n' if c['crlf'] else '\n'
        open(p, 'w', newline='', errors='surrogateescape').write(nl.join(L) + nl)
        rt = 0
    f = HAWC2StFile(p)
    chk_st(f, tabs, cols, rt, 'read: ')
    for (m, s), a in tabs.items():     # accessors by name
        for k, n in list(enumerate(cols))[::3]:
            cmp.arr_close(getattr(f.data, n)(mset=m, set=s), a[:, k], max(rt, 1e-12), 0, '%s of set %d %d' % (n, m, s))
        if len(a) > 1 and rt == 0:
            r = 0.3 * a[0, 0] + 0.7 * a[1, 0]
            k = len(cols) - 1
            e = 0.3 * a[0, k] + 0.7 * a[1, k]
            cmp.arr_close(getattr(f.data, cols[k])(r, m, s), e, 1e-6, 1e-6 * (abs(a[0, k]) + abs(a[1, k])), '%s interpolated' % cols[k])
    for (m, s), a in tabs.items():
        cmp.arr_close(f.data.radius_st(None, m, s), a[:, 0], rt, 0, 'radius_st() of set %d %d' % (m, s))
        for k in (0, len(a) // 2, -1):
            for dr in (0, 0.1):
                cmp.arr_close(f.data.radius_st(a[k, 0] + dr, m, s), a[k, 0], rt, 0, 'station of set %d %d next to %g' % (m, s, a[k, 0] + dr))
        cmp.arr_close([[float(x) for x in l.split()] for l in f.data.to_str(m, s).split('\n')], a, 1e-5, 0, 'to_str of set %d %d' % (m, s))
        if (m, s) == (1, 1):
            cmp.arr_close(getattr(f.data, cols[2])(), a[:, 2], max(rt, 1e-12), 0, '%s without the numbers of the sets (1, 1)' % cols[2])
            cmp.arr_close(f.data.radius_st(), a[:, 0], rt, 0, 'radius_st() of set 1 1')
            require(f.data.to_str() == f.data.to_str(1, 1), 'to_str() of set 1 1')
    if c['edit']:
        m, s = list(tabs)[-1]
        n = len(tabs[(m, s)])
        f.data.set_value(m, s, **{cols[1]: 7.25, cols[-1]: np.arange(n) * 0.5})
        tabs[(m, s)][:, 1] = 7.25
        tabs[(m, s)][:, -1] = np.arange(n) * 0.5
        chk_st(f, tabs, cols, rt, 'after edit: ')
    q = ctx.path('b.' + c['ext'])
    f.write(q)
    f2 = HAWC2StFile(q)
    chk_st(f2, tabs, cols, 6e-8, 'after write: ')
    f2.write(ctx.path('c.st'))
    require(open(q).read() == open(ctx.path('c.st')).read(), 'writing, reading and writing again changes the file')
    F = weio.read(ctx.path('c.st'))
    require(type(F).__name__ == 'HAWC2StFile', 'detected as %s', type(F).__name__)
    chk_st(F, tabs, cols, 6e-8, 'weio.read: ')
    ctx.label('fpm' if c['fpm'] else 'iso', 'sets:%d' % len(tabs), 'scratch' if c['scratch'] else 'text')
    ctx.nontrivial(len(tabs) >= 2 or max(len(a) for a in tabs.values()) >= 3)


# ------------------------------------------------------------------ beam element of a structural file
@st.composite
def beam_cases(draw):
    pos = lambda lo, hi: 10.0 ** draw(g.finite(lo, hi, 3))
    n = draw(st.integers(2, 5))
    return dict(rows=[dict(x_sh=draw(g.finite(-2, 2, 3)), y_sh=draw(g.finite(-2, 2, 3)), E=pos(9, 11.5), G=pos(9, 11), I_x=pos(-4, 1), I_y=pos(-4, 1), I_p=pos(-4, 1), k_x=draw(g.finite(0.1, 1, 3)), k_y=draw(g.finite(0.1, 1, 3)), A=pos(-2, 1)) for _ in range(n)],
                length=draw(g.finite(0.5, 30, 3)), at=draw(g.finite(0, 1, 3)), set=draw(st.integers(1, 3)), f=draw(st.sampled_from([0.25, 0.5, 0.7])))


def check_beam(c, ctx):
    F = StFile()
    F.cols = list(STC)
    n = len(c['rows'])
    A = np.random.RandomState(n).uniform(0.1, 2, (n, len(STC)))
    A[:, 0] = np.arange(n) * 10.0
    for i, r in enumerate(c['rows']):
        for k, v in r.items():
            A[i, STC.index(k)] = v
    F.main_data_sets = {1: {c['set']: A.copy()}}
    p = ctx.path('beam.st')
    F.save(p, precision='%24.16e')
    F = HAWC2StFile(p).data
    r = c['at'] * A[-1, 0]
    v = {k: np.interp(r, A[:, 0], A[:, STC.index(k)]) for k in c['rows'][0]}
    L, xs, ys = c['length'], v['x_sh'], v['y_sh']
    EIx, EIy, GJ, EA, Sx, Sy = v['E'] * v['I_x'], v['E'] * v['I_y'], v['G'] * v['I_p'], v['E'] * v['A'], v['k_x'] * v['G'] * v['A'], v['k_y'] * v['G'] * v['A']
    K = F.element_stiffnessmatrix(r, 1, c['set'], L)
    sc = np.sqrt(np.outer(np.diag(K), np.diag(K)))
    require(K.shape == (12, 12) and np.all(np.abs(K - K.T) <= 1e-12 * sc), 'the stiffness matrix is not symmetric')
    # motions without deformation
    R = np.zeros((12, 6))
    for i in range(6):
        R[i, i] = R[i + 6, i] = 1
    R[7, 3] = -L        # rotation about x
    R[6, 4] = L         # rotation about y
    require(np.all(np.abs(K.dot(R)) <= 1e-9 * np.abs(K).dot(np.abs(R))), 'rigid motions of the element give forces')
    # flexibility of the beam held at its first end, about the shear center of the other end
    T = np.eye(6)
    T[0, 5], T[1, 5] = -ys, xs
    Fl = T.dot(np.linalg.inv(K[6:, 6:])).dot(T.T)
    E = np.diag([L ** 3 / 3 / EIy + L / Sx, L ** 3 / 3 / EIx + L / Sy, L / EA, L / EIx, L / EIy, L / GJ])
    E[0, 4] = E[4, 0] = L ** 2 / 2 / EIy
    E[1, 3] = E[3, 1] = -L ** 2 / 2 / EIx
    sc = np.sqrt(np.outer(np.diag(E), np.diag(E)))
    require(np.all(np.abs(Fl - E) <= 1e-6 * sc), 'flexibility of the element\n%s\nexpected\n%s', Fl / sc, E / sc)
    # displacements within the element
    N = [F.shape_function_ori(r, 1, c['set'], L, z) for z in (0.0, L, c['f'] * L)]
    for S, e, w in ((N[0], np.eye(6, 12), 'first'), (N[1], np.eye(6, 12, 6), 'last')):
        require(S.shape == (6, 12) and np.allclose(S, e, 0, 1e-9), 'shape functions at the %s end', w)
    e = np.eye(6)
    e[1, 3], e[0, 4] = -c['f'] * L, c['f'] * L
    require(np.allclose(N[2].dot(R), e, 1e-9, 1e-9 * (1 + L)), 'rigid motions within the element')
    q = np.zeros(12)        # a force and a moment at the end
    f = np.array([1e3, -2e3, 5e2, 0, 0, 0.0])
    q[6:] = np.linalg.solve(K[6:, 6:], T.T.dot(f))
    u, z = N[2].dot(q), c['f'] * L
    # (about the shear center)
    ex = f[0] * (z ** 2 * (3 * L - z) / 6 / EIy + z / Sx)
    ey = f[1] * (z ** 2 * (3 * L - z) / 6 / EIx + z / Sy)
    got = T.dot(u)
    require(abs(got[0] - ex) <= 1e-6 * abs(ex) and abs(got[1] - ey) <= 1e-6 * abs(ey) and abs(got[2] - f[2] * z / EA) <= 1e-6 * abs(f[2] * z / EA), 'deflection within the element %s, expected %s %s', got[:2], ex, ey)
    ctx.nontrivial(xs != 0 and ys != 0)


COMPONENTS = [Component('element', beam_cases(), check_beam, 200, 3000), Component('ae', ae_cases(), check_ae, 300, 5000), Component('pc', pc_cases(), check_pc, 250, 4000), Component('st', st_cases(), check_st, 250, 4000)]
