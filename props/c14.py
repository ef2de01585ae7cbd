"""C14: Bladed output files and projects."""
import os
import numpy as np
from collections import OrderedDict
from hypothesis import strategies as st
from vlib.core import Component, require
from vlib import gens as g, cmp
from weio.bladed_out_file import BladedFile
import weio

RULE = ('Groups of Bladed sensor/data files encoded from generated channels: 2 or 3 dimensions, text or binary data (R*4, R*8, I*4), sections by position or name, header spacing and continued lines; read one by one and as a project; '
        'non-trivial: at least 2 channels and 2 rows.')
ASSUMPTIONS = ['positions of sections differ by at least 0.01 m (the names of the columns have two decimals)', 'columns of the same name in one table are kept once', 'a project with exactly one group of several files of equal length gives that group only (as documented in the code)']

UNITS = {'T': 's', 'P': 'W', 'A/T': 'rad/s', 'A': 'rad', 'FL': 'Nm', 'F': 'N', 'L': 'm', 'L/T': 'm/s', 'L/TT': 'm/s^2', 'N': 'N', 'FL/L': 'Nm/m', 'Q': 'Q', 'V': 'V', 'M': 'kg', 'MLL': 'kgmm', 'A/TT': 'rad/s^2', 'A/A': 'rad/rad', 'TTT': 's^2s', 'FL/A': 'Nm/rad', 'FFF': 'NNN', 'FL/AA': 'Nm/radrad', 'M/LLL': 'kg/mmm', 'FLTT': 'Nms^2'}
SPEC = g.specs(bases=[0.0, 1.0, -3.5, 12.0, 1000.0], scales=[1.0, 0.1, 250.0, 1e5])


@st.composite
def one(draw, nr, single):
    nd = draw(st.sampled_from([2, 2, 3]))
    ns = draw(st.sampled_from([1, 2, 3, 5, 9]))
    words = ['Blade', 'Tower', 'Fx', 'My', 'load', '(Root axes)', 'speed', 'POW2', 'x-pos', '1', 'Time', 'd\udce9bit']
    names = draw(st.lists(st.lists(st.sampled_from(words), min_size=1, max_size=3).map(' '.join), min_size=ns, max_size=ns, unique=True))
    nsec = draw(st.integers(1, 4))
    tick = draw(st.booleans())
    secs = ['Node %d' % (i + 1) for i in range(nsec)] if tick else [x / 100. for x in sorted(draw(st.lists(st.integers(-2000, 8000), min_size=nsec, max_size=nsec, unique=True)))]
    return dict(nr=nr, nd=nd, names=names, units=draw(st.lists(st.sampled_from(sorted(UNITS)), min_size=ns, max_size=ns)), n=draw(st.sampled_from([1, 2, 3, 10, 10, 40])), secs=secs, tick=tick,
                enc=draw(st.sampled_from(['ascii', 'R*4', 'R*4', 'R*8', 'I*4'])), spec=draw(SPEC), lead=draw(st.sampled_from([None, None, 10, 0x0a41424a])), time=draw(st.integers(0, 5)) > 0,
                min=draw(st.sampled_from([0.0, 5.0, -1.0])), step=draw(st.sampled_from([0.05, 0.5, 1.0, 0.013])), tab=draw(st.booleans()), quote=draw(st.booleans()), cont=draw(st.booleans()), contt=draw(st.booleans()), cat=draw(st.sampled_from(['Control variables', 'Blade 1 Loads: Root axes', 'Generator', 'Tower loads'])))


@st.composite
def cases(draw):
    nf = draw(st.sampled_from([1, 1, 2, 3, 4]))
    nrs = sorted(draw(st.lists(st.integers(1, 399), min_size=nf, max_size=nf, unique_by=lambda x: '%02d' % x)))
    return dict(files=[draw(one('%02d' % n, nf == 1)) for n in nrs], dir=draw(st.sampled_from(['d', '50%load', 'run [a]', 'x.%04'])), base=draw(st.sampled_from(['powprod', 'a.b', 'case 2', 'run%1', 'p[1]'])), how=draw(st.sampled_from(['$', '%'])), entry=draw(st.booleans()), pj=draw(st.booleans()))


def values(f):
    shape = (f['n'], len(f['secs']) if f['nd'] == 3 else 1, len(f['names']))
    a = g.build(shape, f['spec'])
    a += np.arange(a.size).reshape(shape) % 97 * 0.25
    if f['enc'] == 'R*4':
        a = a.astype('<f4')
    elif f['enc'] == 'I*4':
        a = np.clip(np.round(a), -2e9, 2e9).astype('<i4')
    elif f['enc'] == 'ascii':
        a = np.array([float('%.7E' % x) for x in a.ravel()]).reshape(shape)
    if f['lead'] and f['enc'] in ('R*4', 'I*4'):     # first bytes that look like text
        v = np.array([f['lead']], dtype='<u4').view('<f4' if f['enc'] == 'R*4' else '<i4')
        a.ravel()[0] = v[0]
    return a


def encode(d, base, f):
    a = values(f)
    s = '\t' if f['tab'] else '   '
    q = lambda n: n if not f['quote'] and ' ' not in n and '(' not in n else "'%s'" % n
    L = ['FILE' + s + base + '.$' + f['nr'], 'ACCESS' + s + ('S' if f['enc'] == 'ascii' else 'D'), 'FORM' + s + 'F', 'RECL' + s + '4', 'FORMAT' + s + ((f['enc'].lower() if f['contt'] else f['enc']) if f['enc'] != 'ascii' else 'R*4'), "CONTENT" + s + "'POWPROD'", 'CONFIG' + s + "'STATIONARY'",
         'NDIMENS' + s + str(f['nd']), 'DIMENS' + s + s.join(str(x) for x in ([len(f['names'])] + ([len(f['secs'])] if f['nd'] == 3 else []) + [f['n']])), 'GENLAB' + s + "'%s'" % f['cat']]
    n = [q(x) for x in f['names']]
    if f['cont'] and len(n) > 1:
        L += ['VARIAB' + s + ' '.join(n[:1]) + ' ', ' '.join(n[1:])]
    else:
        L += ['VARIAB' + s + ' '.join(n)]
    L += ['VARUNIT' + s + ' '.join(f['units'])]
    if f['nd'] == 3:
        L += ['AXISLAB' + s + "'Distance along blade'", 'AXIUNIT' + s + 'L', 'AXIMETH' + s + '3']
        if f['tick']:
            t = ["'%s'" % x for x in f['secs']]
            if f['contt'] and len(t) > 1:
                L += ['AXITICK' + s + t[0] + ' ', ' '.join(t[1:]) + ' ']
            else:
                L += ['AXITICK' + s + ' '.join(t) + ' ']
        else:
            L += ['AXIVAL' + s + ' '.join('%.7f' % x for x in f['secs'])]
    L += ['AXISLAB' + s + "'Time'", 'AXIUNIT' + s + 'T', 'AXIMETH' + s + '2']
    if f['time']:
        L += ['MIN ' + s + '%.7E' % f['min'], 'STEP' + s + '%.7E' % f['step']]
    L += ['NVARS' + s + '0', 'ULOADS   4.27E+006   5.68E+006']
    with open(os.path.join(d, base + '.%' + f['nr']), 'w', errors='surrogateescape') as fid:
        fid.write('\n'.join(L) + '\n')
    p = os.path.join(d, base + '.$' + f['nr'])
    if f['enc'] == 'ascii':
        with open(p, 'w') as fid:
            for r in a.reshape((-1, a.shape[2])):
                fid.write(' '.join('%16.7E' % x for x in r) + '\n')
    else:
        a.tofile(p)
    # expected table
    names, cols = [], []
    if f['nd'] == 3:
        for i, sec in enumerate(f['secs']):
            for j, nm in enumerate(f['names']):
                names.append((('%s-' % sec) if f['tick'] else '%sm-' % repr(float(sec))) + nm + ' [%s]' % UNITS[f['units'][j]])
                cols.append(a[:, i, j].astype(float))
    else:
        for j, nm in enumerate(f['names']):
            names.append(nm + ' [%s]' % UNITS[f['units'][j]])
            cols.append(a[:, 0, j].astype(float))
    t = np.arange(f['n']) * float('%.7E' % f['step']) + f['min'] if f['time'] else None
    return names, cols, t


def dedup(names, cols):
    o = OrderedDict()
    for n, c in zip(names, cols):
        o.setdefault(n, c)
    return o


def chk(df, exp, what):
    cmp.list_eq(df.columns, list(exp.keys()), what + 'columns')
    for j, (n, c) in enumerate(exp.items()):
        cmp.arr_close(df.iloc[:, j].values, c, 1e-14 if n == 'Time [s]' else 0, 0, what + n)


def check(c, ctx):
    d = os.path.join(ctx.dir, c['dir'])
    os.makedirs(d)
    tabs = [encode(d, c['base'], f) for f in c['files']]
    # one by one
    for f, (names, cols, t) in zip(c['files'], tabs):
        p = os.path.join(d, c['base'] + '.' + c['how'] + f['nr'])
        F = weio.read(p) if c['entry'] else BladedFile(p)
        require(type(F).__name__ == 'BladedFile', 'detected as %s', type(F).__name__)
        exp = dedup((['Time [s]'] if t is not None else []) + names, ([t] if t is not None else []) + cols)
        require(list(F.dataSets) == [f['cat']], 'datasets %s, expected %s', list(F.dataSets), f['cat'])
        for k in range(2):
            chk(F.toDataFrame(), exp, '%s: ' % f['nr'])
    if c['pj']:
        p = os.path.join(d, c['base'] + '.$PJ')
        open(p, 'w').write('<?xml version="1.0"?>\n')
        F = weio.read(p) if c['entry'] else BladedFile(p)
        grp = OrderedDict()
        nf = len(c['files'])
        for f, (names, cols, t) in zip(sorted(c['files'], key=lambda f: f['nr']), [x for _, x in sorted(zip([f['nr'] for f in c['files']], tabs), key=lambda z: z[0])]):
            if nf > 1 and t is None:
                continue
            G = grp.setdefault(f['n'], dict(n=[], c=[], cats=[]))
            if not G['cats'] and t is not None:
                G['n'].append('Time [s]')
                G['c'].append(t)
            G['cats'].append(f['cat'])
            G['n'] += names
            G['c'] += cols
        multi = [k for k in grp if len(grp[k]['cats']) > 1]
        if len(multi) == 1:
            exp = [('Misc', grp[multi[0]])]
        else:
            exp = [(None if len(G['cats']) > 1 else G['cats'][0], G) for G in grp.values()]
        require(len(F.dataSets) == len(exp), '%d datasets (%s), expected %d', len(F.dataSets), list(F.dataSets), len(exp))
        dfs = F.toDataFrame()
        if len(exp) == 1:
            dfs = {list(F.dataSets)[0]: dfs}
        got = list(dfs.items())
        require(len(got) == len(exp), '%d tables, expected %d', len(got), len(exp))
        for (k, df), (nm, G) in zip(got, exp):
            require(nm is None or k.startswith(nm), 'table %r, expected %r', k, nm)
            chk(df, dedup(G['n'], G['c']), 'project, %s: ' % k)
        ctx.label('project', 'groups:%d' % len(grp))
    ctx.label(*[f['enc'] for f in c['files']])
    ctx.nontrivial(any(len(f['names']) > 1 and f['n'] > 1 for f in c['files']))


@st.composite
def bad_cases(draw):
    return dict(f=draw(one('04', True)), cut=draw(st.integers(1, 400)), what=draw(st.sampled_from(['cut', 'extra', 'names', 'missing', 'empty'])))


def check_bad(c, ctx):
    f = c['f']
    f['n'] = max(2, f['n'])
    encode(ctx.dir, 'r', f)
    p = ctx.path('r.$04')
    BladedFile(p).toDataFrame()
    b = open(p, 'rb').read()
    if c['what'] == 'cut':      # whole rows or values are missing
        if f['enc'] == 'ascii':
            L = b.split(b'\n')[:-1]
            b = b'\n'.join(L[:max(1, len(L) - 1 - c['cut'] % (len(L) - 1))]) + b'\n'
        else:
            w = 8 if f['enc'] == 'R*8' else 4
            nv = len(b) // w
            b = b[:w * max(1, nv - 1 - c['cut'] % (nv - 1 or 1))]
            if len(b) == nv * w:
                return ctx.nontrivial(False)
        open(p, 'wb').write(b)
    elif c['what'] == 'extra':
        if f['enc'] == 'ascii':
            b = b + b.split(b'\n')[0] + b'\n'
        else:
            b = b + b[:8]
        open(p, 'wb').write(b)
    elif c['what'] == 'names':
        q = ctx.path('r.%04')
        L = open(q, errors='surrogateescape').read().split('\n')
        L = [l.replace('VARIAB', 'VARIAB surplus ') if l.startswith('VARIAB') else l for l in L]
        open(q, 'w', errors='surrogateescape').write('\n'.join(L))
    elif c['what'] == 'missing':
        os.remove(p)
        p = ctx.path('r.%04')
    else:
        open(p, 'w').close()
    cmp.raises((Exception,), lambda: BladedFile(p), 'inconsistent files (%s)' % c['what'])
    ctx.label(c['what'], f['enc'])


COMPONENTS = [Component('tables', cases(), check, 350, 6000), Component('inconsistent', bad_cases(), check_bad, 200, 3000)]
