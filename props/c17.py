"""C17: Tecplot tables and ROSCO performance tables."""
import numpy as np
from hypothesis import strategies as st
from vlib.core import Component, require
from vlib import gens as g, cmp
from weio.tecplot_file import TecplotFile, read_tecplot
from weio.rosco_performance_file import ROSCOPerformanceFile
import weio

RULE = ('Tecplot files laid out in many ways (title, variables over one or several lines, zones, auxiliary data, comments, blank lines) and ROSCO performance files from generated tables; objects written and read again; '
        'non-trivial: at least 2 columns and 2 rows.')
ASSUMPTIONS = ['one block of numerical data per Tecplot file', 'auxiliary texts do not look like numbers', 'ROSCO axes are written with 6 significant digits and coefficients with 6 decimals']
SPEC = g.specs()
ID = g.ident(1, 8, '').filter(lambda s: s.lower() not in ('nan', 'inf', 'infinity') and not s.lower().startswith(('title', 'variables', 'zone', 'text', 'geometry')))
NAME = st.builds(lambda a, b: a + b, ID, st.sampled_from(['', '', '_[m/s]', '[-]', ' [deg]', '(m)', ' x', ', y', '_[a,b]', ' = z', '_[\udcb0]']))


def tidy(n):
    return n.replace('[', '_[').replace('(', '_(').replace('__', '_').strip()


@st.composite
def tec_cases(draw):
    m = draw(st.one_of(st.integers(2, 6), st.integers(1, 30)))
    quoted = draw(st.integers(0, 3)) > 0
    names = draw(st.lists(NAME if quoted else ID, min_size=m, max_size=m, unique_by=lambda x: x.lower()))
    names = [n for n in names]
    text = st.text('abcxyz XYZ019.-\udcb0', min_size=1, max_size=12).map(lambda s: 'q' + s.strip())     # \udcb0: a byte that is not UTF-8
    aux = draw(st.lists(st.tuples(ID, st.one_of(text, g.finite(-1e6, 1e6, 4))), max_size=3, unique_by=lambda x: x[0]))
    zone = draw(st.lists(st.tuples(st.sampled_from(['T', 'I', 'J', 'K', 'F', 'SOLUTIONTIME', 'STRANDID']), st.one_of(text, g.finite(-1e6, 1e6, 4))), max_size=3, unique_by=lambda x: x[0]))
    return dict(names=names, quoted=quoted, n=draw(st.one_of(st.integers(1, 6), st.integers(1, 60))), spec=draw(SPEC), title=draw(st.one_of(st.none(), text)), tq=draw(st.booleans()), aux=[list(a) for a in aux], zone=[list(a) for a in zone],
                up=draw(st.booleans()), sep=draw(st.sampled_from([',', ', ', ' ', '  ', '\n', ' , ', '   '])), eq=draw(st.sampled_from([' = ', '=', '     = '])), com=draw(st.integers(0, 4)) == 0, blank=draw(st.integers(0, 3)), indent=draw(st.booleans()),
                wrap=draw(st.sampled_from([1, 3, 100])), ints=draw(st.integers(0, 4)) == 0, entry=draw(st.booleans()), prec=draw(st.sampled_from([None, None, 3, 8])), bad=draw(st.integers(0, 6)))


def chk_tec(c, F, names, M, what, rt=0.0, at=0.0):
    cmp.list_eq(F['variables'], names, what + 'variables')
    cmp.arr_close(F['data'], M, rt, at, what + 'data')
    df = F.toDataFrame()
    cmp.list_eq(list(df.columns), names, what + 'columns')
    cmp.arr_close(df.values, M, rt, at, what + 'table')
    if c['title'] is not None:
        cmp.eq(F['title'].strip('" '), c['title'].strip(), what + 'title')
    else:
        require('title' not in F, '%sa title %r appeared', what, F.get('title'))
    for k, items in (('datasetauxdata', c['aux']), ('zone', c['zone'])):
        if items:
            cmp.eq(dict(F[k]), {a: b for a, b in items}, what + k)
        else:
            require(k not in F, '%s%s appeared', what, k)


def check_tec(c, ctx):
    up = (lambda s: s.upper()) if c['up'] else (lambda s: s.lower())
    L = []
    if c['com']:
        L.append('# comment, not data')
    if c['title'] is not None:
        t = c['title'].strip()
        L.append(up('title') + c['eq'] + ('"%s"' % t if c['tq'] else t))
    if c['blank'] == 0:
        L.append('')
    sep = c['sep']
    L.append(up('variables') + c['eq'] + sep.join('"%s"' % n if c['quoted'] else n for n in c['names']))
    for k, v in c['aux']:
        L.append('%s %s=%s' % (up('datasetauxdata'), k, '"%s"' % v if isinstance(v, str) else ('"%r "' % v)))
    if c['zone']:
        L.append('%s %s' % (up('zone'), ', '.join('%s=%s' % (k, '"%s"' % v if isinstance(v, str) else repr(v)) for k, v in c['zone'])))
    if c['blank'] == 1:
        L.append('')
    if c['com']:
        L.append('# more')
    m = len(c['names'])
    M = g.build((c['n'], m), c['spec'])
    if c['ints']:
        M = np.round(np.clip(M, -1e6, 1e6))
    ind = '  ' if c['indent'] else ''
    for r in M:
        L.append(ind + '  '.join(repr(float(x)) if not c['ints'] else str(int(x)) for x in r))
        if c['com'] and c['blank'] == 2:
            L.append('# between')
    p = ctx.path('t.dat')
    open(p, 'w', errors='surrogateescape').write('\n'.join(L) + '\n')
    names = [tidy(n) for n in c['names']]
    F = weio.read(p) if c['entry'] else TecplotFile(p)
    require(isinstance(F, TecplotFile), 'read as %s', type(F).__name__)
    chk_tec(c, F, names, M, 'read: ')
    chk_tec(c, dict2(read_tecplot(p)), names, M, 'read_tecplot: ')
    repr(F)
    q = ctx.path('u.dat')
    if c['prec'] is None:
        F.write(q)
        rt = at = 0.0
    else:
        F.write(q, precision=c['prec'])
        at = 0.51 * 10.0 ** -c['prec'] + 1e-300
        rt = 0.51 * 10.0 ** -c['prec']
    chk_tec(c, F, names, M, 'in memory after writing: ')
    chk_tec(c, TecplotFile(q), [tidy(n) for n in names], M, 'written: ', rt, at)
    G = TecplotFile()
    G.filename = q
    G.read()
    G.write()
    chk_tec(c, TecplotFile(q), [tidy(n) for n in names], M, 'written in place: ', rt, at)
    if c['bad'] == 0 and m > 1:   # a row that does not have one value per variable
        L[-1 if not L[-1].startswith('#') else -2] += ' 1.0'
        open(p, 'w', errors='surrogateescape').write('\n'.join(L) + '\n')
        cmp.raises((weio.WrongFormatError, weio.BrokenFormatError), lambda: TecplotFile(p), 'row with another number of values')
    ctx.label('zone' if c['zone'] else 'nozone', 'quoted' if c['quoted'] else 'unquoted')
    ctx.nontrivial(m > 1 and c['n'] > 1)


class dict2(dict):
    def toDataFrame(self):
        import pandas as pd
        return pd.DataFrame(self['data'], columns=self['variables'])


@st.composite
def rosco_cases(draw):
    return dict(np=draw(st.integers(1, 20)), nt=draw(st.integers(1, 15)), p0=draw(g.finite(-20, 20, 2)), dp=draw(st.sampled_from([0.1, 0.5, 1.0, 2.25])), t0=draw(g.finite(0.5, 12, 2)), dt=draw(st.sampled_from([0.05, 0.25, 0.5, 1.0])),
                ws=draw(st.one_of(st.none(), st.lists(g.finite(0.1, 99, 3), min_size=1, max_size=3))), spec=draw(g.specs(bases=[0.0, 0.4, -1.0], scales=[0.1, 1.0, 0.001])), sep=draw(st.sampled_from(['   ', ' ', '\t'])), name=draw(st.sampled_from(['', 'NREL-5MW', 'x y', 'Power 1', 'TSR', 'Thrust/Torque', 'm\udcf8lle', 'Pitch angle', 'Wind speed 8'])),
                ent=draw(st.booleans()), ints=draw(st.booleans()), mut=draw(st.integers(0, 5)))


def check_rosco(c, ctx):
    P = np.round(c['p0'] + c['dp'] * np.arange(c['np']), 4)
    T = np.round(c['t0'] + c['dt'] * np.arange(c['nt']), 4)
    if c['ints']:
        P = np.round(P) + 0.0
    C = np.round(g.build((3, c['nt'], c['np']), c['spec']), 6)
    L = ['# ----- Rotor performance tables for the %s wind turbine ----- ' % c['name'], '# ------------ Written on Oct-30-19 using the ROSCO toolbox ------------ ', '']
    e = ', %d entries' if c['ent'] else ''
    row = lambda v, f='%r': c['sep'].join(f % x for x in v) + c['sep']
    L += ['# Pitch angle vector%s - x axis (matrix columns) (deg)' % (e % c['np'] if e else ''), row(P), '# TSR vector%s - y axis (matrix rows) (-)' % (e % c['nt'] if e else ''), row(T)]
    if c['ws'] is not None:
        L += ['# Wind speed vector - z axis (m/s)', row(c['ws'])]
    L += ['']
    for k, t in enumerate(('# Power coefficient', '#  Thrust coefficient', '# Torque coefficient')):
        L += [t, ''] + [row(r, '%.6f') for r in C[k]] + ['', '']
    p = ctx.path('r.txt')
    open(p, 'w', errors='surrogateescape').write('\n'.join(L) + '\n')

    def chk(F, what):
        cmp.arr_close(F['pitch'], P, 1e-12, 0, what + 'pitch')
        cmp.arr_close(F['TSR'], T, 1e-12, 0, what + 'TSR')
        if c['ws'] is None:
            require(F['WS'] is None, '%swind speed %r', what, F['WS'])
        else:
            cmp.arr_close(F['WS'], c['ws'], 1e-12, 0, what + 'wind speed')
        dfs = F.toDataFrame()
        cmp.list_eq(sorted(dfs), ['CP', 'CQ', 'CT'], what + 'tables')
        for k, nm in enumerate(('CP', 'CT', 'CQ')):
            cmp.arr_close(F[nm], C[k], 0, 1e-9, what + nm)
            cmp.list_eq(list(dfs[nm].columns), ['TSR_[-]'] + ['Pitch_{:.2f}_[deg]'.format(x) for x in P], what + 'columns')
            cmp.arr_close(dfs[nm].values, np.column_stack((T, C[k])), 1e-12, 1e-9, what + 'table ' + nm)
    F = ROSCOPerformanceFile(p)
    chk(F, 'read: ')
    repr(F)
    q = ctx.path('w.txt')
    F.write(q)
    chk(F, 'in memory after writing: ')
    chk(ROSCOPerformanceFile(q), 'written: ')
    G = ROSCOPerformanceFile()
    G['pitch'], G['TSR'], G['WS'], G['CP'], G['CT'], G['CQ'] = (P.astype(int) if c['ints'] else P), T, c['ws'], C[0], C[1], C[2]
    G.write(q)
    chk(ROSCOPerformanceFile(q), 'new object written: ')
    # incomplete tables are refused
    i = L.index('#  Thrust coefficient') if c['mut'] % 2 else L.index('# Power coefficient')
    L2 = list(L)
    if c['mut'] < 2 and c['np'] > 1:
        L2[i + 2] = L2[i + 2].split()[0]
    elif c['mut'] < 4:
        del L2[i + 2]
    else:
        L2 = L2[:L.index('# Torque coefficient') + (c['mut'] - 4)]
    open(p, 'w', errors='surrogateescape').write('\n'.join(L2) + '\n')
    cmp.raises((Exception,), lambda: ROSCOPerformanceFile(p), 'incomplete tables')
    ctx.nontrivial(c['np'] > 1 and c['nt'] > 1)


COMPONENTS = [Component('tecplot', tec_cases(), check_tec, 400, 6000), Component('rosco', rosco_cases(), check_rosco, 200, 3000)]
