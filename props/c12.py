"""C12: HAWC2 htc files: structure kept by reading and writing, edits change what they name."""
import os
import numpy as np
from hypothesis import strategies as st
from vlib.core import Component, require
from vlib import gens as g, cmp
from weio.wetb.hawc2.htc_file import HTCFile
from weio.hawc2_htc_file import HAWC2HTCFile
from weio.hawc2_st_file import HAWC2StFile
import weio

RULE = ('Generated trees of sections, lines, sensors and comments laid out with varied spacing, capitalisation, blank lines and inclusion of other files; histories of edits; bodies with generated geometry; '
        'non-trivial: at least 2 sections and 4 lines.')
ASSUMPTIONS = ['command names do not start with begin, end, exit or continue_in_file', 'remarks that stand alone after a blank line need not be kept',
               'main bodies are written before the other parts of their section (HAWC2 requires it)', 'names of sections are case insensitive', 'text values are written with forward slashes']

RES = set('lines contents name_ parent keys get add_section add_line delete location compare copy values comments begin_comments end_comments section_name get_section get_subsection_by_name get_element '
          'from_lines line_from_line sensors add_sensor type time sensor filename jinja_tags htc_inputfiles level modelpath initial_comments load readlines readfilelines save set_name set_time open unix_path '
          'simulation wind output aero dll hydro soil force wakes new_htc_structure main_body name data_format buffer exit inf nan infinity str_values deltat input_files output_files simulate'.split())
LOW = 'abcdefghijklmnopqrstuvwxyz'


def okname(s):
    l = s.lower()
    return l not in RES and not l.startswith(('begin', 'end', 'exit', 'continue', 'main_body', 'output', 'add_', 'get_', 'pbs')) and '__' not in s and not s.endswith('_') and not s.startswith('_')


NAME = st.one_of(st.sampled_from(['time_stop', 'solvertype', 'density', 'wsp', 'tint', 'node_distribution', 'damping_posdef', 'concentrated_mass', 'constant', 'sec', 'nsec', 'relbody', 'body1', 'a-ct', 'gravity', 'Omega0']),
                 g.ident(2, 9).filter(okname))
SNAME = st.one_of(st.sampled_from(['newmark', 'orientation', 'base', 'relative', 'constraint', 'fix1', 'bearing1', 'c2_def', 'init', 'actions', 'mann', 'type2_dll', 'dtu_we']), g.ident(2, 9).map(str.lower).filter(okname))
TEXT = st.one_of(st.sampled_from(['blade1', 'last', './log/x.log', 'data\\st\\tower.st', 'hawc_binary', '#', 'none', 'UPPER', 'a.b', '1e', '1-2', '1_2', '0x10', '--', 'x=3']),
                 st.sampled_from(['inf', 'Infinity', '1e999']), g.ident(1, 8))
NUMT = st.one_of(st.integers(-10 ** 6, 10 ** 6).map(str), g.finite(-1e6, 1e6).map(repr), g.finite(-5, 5).map(lambda x: '%.4f' % x), g.finite().map(lambda x: '%.5e' % x), g.finite(-9, 9).map(lambda x: '%.3E' % x),
                 st.sampled_from(['1.', '.5', '+3', '1e5', '-0.0', '007', '1.225d0']))
VAL = st.one_of(NUMT, NUMT, TEXT)
COM = st.sampled_from(['', '', '', 'remark', 'hub height', 'a; b', '0=none, 1=mann', '\u00e5 \u00b0', 'end of it'])


def fmt(v):
    try:
        x = float(v)
        if '_' in v or not np.isfinite(x):
            raise ValueError
    except ValueError:
        return v.replace('\\', '/')
    return int(x) if int(x) == x else x


@st.composite
def line(draw, names=NAME):
    return dict(t='l', n=draw(names), v=draw(st.lists(VAL, max_size=5)), c=draw(COM), c2=draw(st.sampled_from(['', '', '', '---- x', ' more'])))


SENS = st.builds(lambda a, b, v, c: dict(t='s', n=a, s=b, v=v, c=c, c2=''), st.sampled_from(['mbdy', 'general', 'aero', 'wind', 'constraint', 'dll', 'hydro']), st.sampled_from(['time', 'omega', 'momentvec', 'forcevec', 'free_wind', 'inpvec', 'state', 'step']),
                 st.lists(VAL, max_size=5), COM)


@st.composite
def section(draw, depth, name=None):
    n = name or draw(SNAME)
    items = []
    for k in range(draw(st.integers(0, 4))):
        if depth > 0 and draw(st.integers(0, 3)) == 0:
            items.append(draw(section(depth - 1)))
        else:
            items.append(draw(line()))
    if items and draw(st.integers(0, 3)) == 0:      # repeated commands
        items += [dict(items[draw(st.integers(0, len(items) - 1))]) for _ in range(draw(st.integers(1, 11)))]
    return dict(t='b', n=n, i=items, c=draw(COM), ec=draw(COM))


@st.composite
def body(draw, name):
    s = draw(section(1, 'main_body'))
    s['i'] = [dict(t='l', n='name', v=[name], c='', c2='')] + s['i']
    return s


@st.composite
def output(draw, name='output'):
    it = [dict(t='l', n='filename', v=['./res/r'], c='', c2=''), dict(t='l', n='time', v=['0', '10.5'], c=draw(COM), c2='')]
    if draw(st.booleans()):
        it.append(dict(t='l', n='data_format', v=[draw(st.sampled_from(['hawc_binary', 'hawc_ascii', 'gtsdf', 'flex_int']))], c='', c2=''))
    it += draw(st.lists(SENS, max_size=6))
    if name != 'output':
        it = [x for x in it if x['n'] != 'time']
    return dict(t='b', n=name, i=it, c=draw(COM), ec=draw(COM))


@st.composite
def docs(draw):
    it = []
    if draw(st.booleans()):
        s = draw(section(1, 'simulation'))
        s['i'] = [dict(t='l', n='time_stop', v=['600'], c='', c2=''), dict(t='l', n='logfile', v=['./log/a.log'], c='', c2=''), dict(t='b', n='newmark', i=[dict(t='l', n='deltat', v=['0.02'], c='', c2='')], c='', ec='')] + [x for x in s['i'] if x['n'] not in ('time_stop', 'newmark')]
        it.append(s)
    if draw(st.booleans()):
        s = draw(section(2, 'new_htc_structure'))
        for k in range(draw(st.integers(0, 3))):
            s['i'].insert(draw(st.integers(0, len(s['i']))), draw(body('b%d' % k)))
        it.append(s)
    if draw(st.booleans()):
        it.append(draw(section(1, 'wind')))
    for k in range(draw(st.integers(0, 3))):
        it.insert(draw(st.integers(0, len(it))), draw(section(2)))
    if draw(st.integers(0, 3)) == 0:
        it.insert(draw(st.integers(0, len(it))), draw(line()))
    if draw(st.booleans()):
        it.append(draw(output()))
    if draw(st.integers(0, 3)) == 0:
        it.append(draw(output('output_at_time %s %s' % (draw(st.sampled_from(['aero', 'blade1', 'mbdy'])), draw(st.sampled_from(['15.0', '3', '0.25', '1e-2']))))))
    return it


@st.composite
def styles(draw):
    return dict(ind=draw(st.sampled_from(['', '  ', '\t'])), beg=draw(st.sampled_from(['begin', 'Begin', 'BEGIN'])), end=draw(st.sampled_from(['end', 'End'])), up=draw(st.booleans()), sp=draw(st.sampled_from([' ', '  ', '\t', ' \t '])),
                presemi=draw(st.sampled_from(['', ' ', '\t'])), blank=draw(st.sampled_from([0, 0, 1, 2, 3])), crlf=draw(st.booleans()), exit=draw(st.booleans()), head=draw(st.sampled_from([0, 0, 1, 3])), bom=draw(st.integers(0, 9)) == 0,
                after=draw(st.booleans()))


def render(items, sty, level, L):
    for x in items:
        p = sty['ind'] * level
        ce = (lambda c: ';' + (' ' + c if c else ''))
        if x['t'] == 'b':
            n = x['n'].upper() if sty['up'] and not x['n'].startswith('output_at') else x['n']
            L.append(p + sty['beg'] + ' ' + n + sty['presemi'] + ce(x['c']))
            render(x['i'], sty, level + 1, L)
            L.append(p + sty['end'] + ' ' + n.split()[0] + sty['presemi'] + ce(x['ec']))
        else:
            h = [x['n']] if x['t'] == 'l' else [x['n'], x['s']]
            L.append(p + sty['sp'].join(h + x['v']) + sty['presemi'] + ce(x['c']))
            if x.get('c2'):
                L.append(p + ';' + x['c2'])
        if sty['blank']:
            L += [''] * (sty['blank'] if len(L) % 3 == 0 else sty['blank'] - 1)
    return L


def text(L, sty):
    nl = '\r\n' if sty['crlf'] else '\n'
    return nl.join(L) + nl


def savetxt(p, t, bom=False):
    b = t.encode('cp1252')
    with open(p, 'wb') as f:
        f.write((b'\xef\xbb\xbf' if bom else b'') + b)


# ------------------------------------------------------------------ model
def model(items):
    """Ordered list of (kind, name, ...), names numbered as repeated ones are."""
    out = []
    for x in items:
        if x['t'] == 'b':
            out.append(['b', x['n'].split()[0], x['n'].split()[1:], model(x['i']), x['c'].strip(), x['ec'].strip()])
        elif x['t'] == 'l':
            c = x['c'].strip() + ('\n;' + x['c2'].rstrip() if x.get('c2') else '')
            out.append(['l', x['n'], [fmt(v) for v in x['v']], c])
        else:
            out.append(['s', x['n'], x['s'], [float(v) if isinstance(v, float) else v for v in map(sfmt, x['v'])], x['c'].strip()])
    return out


def sfmt(v):
    r = fmt(v)
    return v if isinstance(r, str) else r


def actual(c, com=True):
    out = []
    for k in c.keys():
        v = c[k]
        if v.name_ == '':
            continue
        if v.contents is not None:
            arg = [v.type, v.time] if v.name_.startswith('output_at_time') else []
            kids = actual(v)
            out.append(['b', v.name_, arg, kids + sens(v), v.begin_comments.strip(), v.end_comments.strip()])
        else:
            out.append(['l', v.name_, list(v.values), v.comments.strip()])
    return out


def sens(v):
    return [['s', s.type, s.sensor, list(s.values), s.comments.strip()] for s in (getattr(v, 'sensors', None) if v.name_.startswith('output') else None) or [] if s.type or s.sensor]


def normarg(a):
    return [a[0], float(a[1])] if a else []


def norm(m, top=True):
    out = []
    for x in m:
        x = list(x)
        if x[0] == 'b':
            x[2] = normarg(x[2])
            x[3] = norm(x[3])
        out.append(x)
    return out


def bodies_first(m):
    out = []
    for x in m:
        x = list(x)
        if x[0] == 'b':
            x[3] = bodies_first(x[3])
        out.append(x)
    return [x for x in out if x[1] == 'main_body'] + [x for x in out if x[1] != 'main_body']


def nocom(m):
    out = []
    for x in m:
        if x[0] == 'b':
            out.append(x[:3] + [nocom(x[3])])
        else:
            out.append(x[:-1])
    return out


def tight(m):
    """Runs of blanks within remarks do not matter."""
    out = []
    for x in m:
        x = list(x)
        if x[0] == 'b':
            x = x[:3] + [tight(x[3])] + [ws(x[4]), ws(x[5])]
        else:
            x[-1] = ws(x[-1])
        out.append(x)
    return out


def ws(s):
    return ' '.join(s.replace(';', ' ; ').split())


def diff(a, b, path=''):
    if len(a) != len(b):
        return '%s: %d entries %s, expected %d %s' % (path, len(a), [x[1] for x in a][:12], len(b), [x[1] for x in b][:12])
    for x, y in zip(a, b):
        if x[0] == 'b' and y[0] == 'b' and x[1] == y[1]:
            d = diff(x[3], y[3], path + '/' + x[1])
            if d:
                return d
        if x != y:
            return '%s: got %r, expected %r' % (path, x if x[0] != 'b' else x[:3] + x[4:], y if y[0] != 'b' else y[:3] + y[4:])
    return None


def same(h, exp, what, com=True, order=False):
    a = norm(actual(h))
    e = norm(exp)
    if order:
        e = bodies_first(e)
    a, e = (tight(a), tight(e)) if com else (nocom(a), nocom(e))
    d = diff(a, e)
    require(d is None, '%s%s', what, d)


def keys_expected(items):
    n, out = {}, []
    for x in items:
        if x['t'] == 's':
            continue
        b = x['n'].split()[0]
        n[b] = n.get(b, 0) + 1
        out.append(b if n[b] == 1 else '%s__%d' % (b, n[b]))
    return out


def count(items):
    return sum(1 + (count(x['i']) if x['t'] == 'b' else 0) for x in items)


# ------------------------------------------------------------------ documents
@st.composite
def doc_cases(draw):
    return dict(doc=draw(docs()), sty=draw(styles()), inc=draw(st.sampled_from([0, 0, 1, 2])), deep=draw(st.integers(0, 2)), entry=draw(st.sampled_from(['HTC', 'weio', 'class'])))


def no_c2(items):
    out = []
    for x in items:
        x = dict(x)
        if x['t'] == 'b':
            x['i'] = no_c2(x['i'])
        else:
            x['c2'] = ''
        out.append(x)
    return out


def check_doc(c, ctx):
    doc, sty = c['doc'], c['sty']
    d = ctx.path('model')
    os.makedirs(os.path.join(d, 'htc/sub/subb'))
    os.makedirs(os.path.join(d, 'inc'))
    sub = ['htc', 'htc/sub', 'htc/sub/subb'][c['deep']] if c['inc'] else 'htc'
    p = os.path.join(d, sub, 'case.htc')
    head = ['; header %d' % i for i in range(sty['head'])]
    L = []
    if c['inc']:      # the model folder is found from the files that exist
        doc = [dict(t='b', n='wind', i=[dict(t='l', n='user_defined_shear', v=['./inc/shear.dat'], c='', c2='')], c='', ec='')] + [x for x in doc if x['n'] != 'wind']
        open(os.path.join(d, 'inc/shear.dat'), 'w').close()
    if c['inc']:      # parts of the file in other files
        cut = len(doc) // 2 if c['inc'] == 1 else 0
        L = render(doc[:cut], sty, 0, [])
        parts = [doc[cut:]] if c['inc'] == 1 else [[x] for x in doc]
        for i, part in enumerate(parts):
            t = text(render(part, sty, 0, []) + (['exit;', '  exit;', '\tEXIT ;'][:3][len(part) % 3:][:1] + ['begin ghost;', 'end ghost;'] if sty['exit'] else []), sty)
            savetxt(os.path.join(d, 'inc/part%d.htc' % i), t)
            L.append(('  ' if sty['ind'] else '') + 'continue_in_file ./inc/Part%d.htc ; included' % i)
    else:
        L = render(doc, sty, 0, [])
    L = head + L
    if sty['exit']:
        L.append('exit;')
        if sty['after']:
            L += ['', 'begin ghost;', '  x 1;', 'end ghost;']
    savetxt(p, text(L, sty), sty['bom'])
    if c['entry'] == 'HTC':
        h = HTCFile(p)
    else:
        F = weio.read(p) if c['entry'] == 'weio' else HAWC2HTCFile(p)
        require(type(F).__name__ == 'HAWC2HTCFile', 'detected as %s', type(F).__name__)
        h = F.data
    exp = model(doc)
    # remarks on lines of their own that follow a blank line are not attached to anything
    com = sty['blank'] == 0
    same(h, exp, 'read: ', com)
    chk_keys(h, doc, '')
    if c['inc']:
        n = sum(1 for f in h.htc_inputfiles)
        require(n == len(parts), '%d included files recorded, expected %d', n, len(parts))
    s0 = str(h)
    q = os.path.join(d, sub, 'out.htc')
    if c['entry'] == 'HTC':
        h.save(q)
    else:
        F.write(q)
    t = open(q, 'rb').read().decode('cp1252')
    require(t.replace('\r', '') == s0, 'the file saved differs from the text of the object')
    h2 = HTCFile(q)
    same(h2, exp, 'after writing: ', False, order=True)
    if com:
        same(h2, exp, 'after writing (remarks): ', True, order=True)
    require(ws(str(h2)) == ws(s0) or sty['blank'] or sty['head'], 'writing, reading and writing again changes the text')
    q2 = os.path.join(d, sub, 'out2.htc')
    h2.save(q2)
    h3 = HTCFile(q2)
    same(h3, exp, 'after writing twice: ', False, order=True)
    if sty['head'] and not sty['bom']:
        got = [l.strip() for l in t.splitlines()[:sty['head']]]
        cmp.list_eq(got, head, 'comments at the start')
    require('ghost' not in t, 'content after exit is kept')
    if not any_body_reorder(doc):
        dif = [l for l in h.compare(h2).splitlines() if l.strip(' +-\t')]
        require(not dif, 'a file differs from its copy: %s', dif[:5])
    ctx.label('entries:%d' % min(30, count(doc) // 5 * 5), 'inc:%d' % c['inc'])
    ctx.nontrivial(count(doc) >= 6)


def any_body_reorder(items):
    for x in items:
        if x['t'] == 'b':
            n = [y['n'] == 'main_body' for y in x['i'] if y['t'] != 's']
            if n != sorted(n, reverse=True) or any_body_reorder(x['i']):
                return True
    return False


def chk_keys(h, items, path):
    ks = [k for k in h.keys() if h[k].name_ != '']
    cmp.list_eq(ks, keys_expected(items), 'keys of %s' % (path or 'the file'))
    it = [x for x in items if x['t'] != 's']
    for k, x in zip(ks, it):
        if x['t'] == 'b':
            chk_keys(h[k], x['i'], path + '/' + k)


# ------------------------------------------------------------------ edits
@st.composite
def edit_cases(draw):
    ops = draw(st.lists(st.fixed_dictionaries(dict(op=st.sampled_from(['set', 'set', 'setidx', 'new', 'del', 'delobj', 'add_line', 'add_section', 'comment', 'reload', 'time', 'sensor', 'delsensor', 'query', 'copy', 'item']),
                                                   a=st.integers(0, 50), b=st.integers(0, 50), v=st.lists(st.one_of(st.integers(-99, 99), g.finite(-100, 100), st.sampled_from(['abc', 'x/y.dat', 'none'])), min_size=1, max_size=4),
                                                   n=g.ident(2, 8).filter(okname))), min_size=1, max_size=10))
    return dict(doc=draw(docs()), sty=draw(styles()), ops=ops, scratch=draw(st.integers(0, 5)) == 0)


class M(object):
    """Model node: ordered entries [key, kind, name, payload]."""

    def __init__(self, name, items=(), c='', ec='', arg=()):
        self.name, self.e, self.c, self.ec, self.sens, self.arg = name, [], c, ec, [], list(arg)
        for x in items:
            if x['t'] == 'b':
                self.add(M(x['n'].split()[0], x['i'], x['c'].strip(), x['ec'].strip(), x['n'].split()[1:]))
            elif x['t'] == 'l':
                self.add(Ml(x['n'], [fmt(v) for v in x['v']], x['c'].strip() + ('\n;' + x['c2'] if x.get('c2') else '')))
            else:
                self.sens.append(['s', x['n'], x['s'], [sfmt(v) for v in x['v']], x['c'].strip()])

    def key(self, name):
        ks = [k for k, o in self.e]
        if name not in ks:
            return name
        i = 2
        while '%s__%d' % (name, i) in ks:
            i += 1
        return '%s__%d' % (name, i)

    def add(self, o):
        self.e.append((self.key(o.name), o))
        return o

    def get(self, k):
        return dict(self.e)[k]

    def out(self):
        r = []
        for k, o in self.e:
            r.append(['b', o.name, normarg(o.arg), o.out() + [list(s) for s in o.sens], o.c, o.ec] if isinstance(o, M) else ['l', o.name, list(o.v), o.c])
        return r

    def rekey(self):      # what reading a written file gives
        es = [o for k, o in self.e]
        es = [o for o in es if o.name == 'main_body'] + [o for o in es if o.name != 'main_body']
        self.e = []
        for o in es:
            self.add(o)
            if isinstance(o, M):
                o.rekey()


class Ml(object):
    def __init__(self, n, v, c):
        self.name, self.v, self.c = n, v, c


def sections(m, h, path=''):
    out = [(path, m, h)]
    for k, o in m.e:
        if isinstance(o, M):
            out += sections(o, h[k], path + '/' + k)
    return out


def lines_of(m, h):
    return [(p, k, o, mm, hh) for p, mm, hh in sections(m, h) for k, o in mm.e if isinstance(o, Ml)]


EMPTY = [dict(t='b', n='simulation', c='', ec='', i=[dict(t='l', n='time_stop', v=['600'], c='', c2=''), dict(t='l', n='solvertype', v=['2'], c='(newmark)', c2=''), dict(t='b', n='newmark', c='', ec='', i=[dict(t='l', n='deltat', v=['0.02'], c='', c2='')])]),
         None, None]


def check_edit(c, ctx):
    sty = dict(c['sty'], blank=0, bom=False, head=0)
    d = ctx.path('m/htc')
    os.makedirs(d)
    p = os.path.join(d, 'a.htc')
    if c['scratch']:
        h = HTCFile()
        m = from_object(h)
        require([k for k, o in m.e] == ['simulation', 'wind', 'output'], 'new object has %s', [k for k, o in m.e])
    else:
        savetxt(p, text(render(c['doc'], sty, 0, []), sty))
        h = HTCFile(p)
        m = M('', c['doc'])
    other = HTCFile(p) if not c['scratch'] else HTCFile()
    other0 = str(other)
    n = 0
    m0 = nested(m)
    for o in c['ops']:
        op, v = o['op'], o['v']
        secs = sections(m, h)
        lns = lines_of(m, h)
        if op in ('set', 'setidx', 'item', 'comment', 'del', 'delobj') and not lns:
            continue
        if op in ('set', 'setidx', 'item', 'comment', 'del', 'delobj'):
            path, k, ml, mm, hh = lns[o['a'] % len(lns)]
            safe = ml.name not in RES and '-' not in ml.name or ml.name in ('filename', 'time') and 'output' == mm.name
        if op == 'set':
            if not safe:
                continue
            val = v[0] if len(v) == 1 else (tuple(v) if o['b'] % 2 else list(v))
            setattr(hh, k, val)
            ml.v = [fmt(x) if isinstance(x, str) and len(v) == 1 else x for x in v]
        elif op == 'setidx':
            if not ml.v:
                cmp.raises((IndexError, TypeError), lambda: hh[k][0], 'value that does not exist')
                continue
            i = o['b'] % len(ml.v)
            hh[k][i] = v[0]
            ml.v[i] = v[0]
        elif op == 'item':
            lo = hh[k]
            for i, x in enumerate(ml.v):
                require(lo[i] == x and isinstance(lo[i], str) == isinstance(x, str), '%s/%s value %d is %r, expected %r', path, k, i, lo[i], x)
            cmp.raises((IndexError, TypeError), lambda: lo[len(ml.v)], 'value that does not exist')
            full = (path[1:] + '/' + k) if path else k
            require(h[full] is lo and h[full.replace('/', '.')] is lo, 'access by path %s', full)
            require(h.get(full) is lo, 'get')
            require(h.get(path[1:] + '/zz_q' if path else 'zz_q', 5) == 5, 'default of get')
            continue
        elif op == 'comment':
            hh[k].comments = 'changed %d' % o['b']
            ml.c = 'changed %d' % o['b']
        elif op in ('del', 'delobj'):
            if op == 'del':
                delattr(hh, k)
            else:
                hh[k].delete()
            mm.e = [(a, b) for a, b in mm.e if a != k]
        elif op == 'new':
            path, mm, hh = secs[o['a'] % len(secs)]
            if o['n'] in [k for k, _ in mm.e] or '-' in o['n'] or path == '' or mm.name.startswith('output'):
                continue
            setattr(hh, o['n'], list(v))
            mm.e.append((o['n'], Ml(o['n'], list(v), '')))
        elif op == 'add_line':
            path, mm, hh = secs[o['a'] % len(secs)]
            if path == '' or mm.name.startswith('output'):
                continue
            nm = o['n'] if o['b'] % 3 else (mm.e[o['b'] % len(mm.e)][1].name if mm.e else o['n'])
            if nm == 'main_body':      # is a section
                continue
            hh.add_line(nm, list(v), 'added')
            mm.add(Ml(nm, list(v), 'added'))
        elif op == 'add_section':
            path, mm, hh = secs[o['a'] % len(secs)]
            nm = o['n'].lower()
            if mm.name.startswith('output'):
                continue
            have = nm in [k for k, _ in mm.e]
            dup = bool(o['b'] % 2)
            kw = dict(gain=v[0] if len(v) == 1 else list(v))
            r = hh.add_section(nm, allow_duplicate=dup, **kw)
            if have and not dup:
                require(r is hh[nm], 'add_section of an existing section does not return it')
            else:
                s = mm.add(M(nm))
                s.add(Ml('gain', list(v), ''))
        elif op == 'sensor':
            outs = [(mm, hh) for pth, mm, hh in secs if mm.name in ('output', 'output_at_time')]
            if not outs:
                continue
            mm, hh = outs[o['a'] % len(outs)]
            nr = o['b'] % (len(mm.sens) + 1)
            e = ['s', 'mbdy', o['n'], list(v), 'c']
            if o['b'] % 2:
                hh.add_sensor('mbdy', o['n'], list(v), 'c')
                mm.sens.append(e)
            else:
                hh.add_sensor('mbdy', o['n'], list(v), 'c', nr)
                mm.sens.insert(nr, e)
        elif op == 'delsensor':
            outs = [(mm, hh) for pth, mm, hh in secs if mm.sens]
            if not outs:
                continue
            mm, hh = outs[0]
            i = o['b'] % len(mm.sens)
            hh.sensors[i].delete()
            del mm.sens[i]
        elif op == 'reload':
            q = os.path.join(d, 'r%d.htc' % n)
            h.save(q)
            same_m(h, m, 'after saving: ')
            h = HTCFile(q)
            m.rekey()
        elif op == 'time':
            sec = dict(m.e)
            nm = [k for k in ('simulation', 'output') if k in sec]
            if len(nm) < 2 or 'newmark' not in dict(sec['simulation'].e) or 'deltat' not in dict(sec['simulation'].get('newmark').e) or 'time_stop' not in dict(sec['simulation'].e):
                continue
            start, stop, step = float(o['a']), float(o['a'] + o['b'] + 1), 0.01 + o['b'] / 64.
            h.set_time(start, stop, step)
            sec['simulation'].get('time_stop').v = [stop]
            sec['simulation'].get('newmark').get('deltat').v = [step]
            put(sec['output'], 'time', [start, stop])
            if 'wind' in sec:
                put(sec['wind'], 'scale_time_start', [start])
            require(h.deltat() == step, 'deltat')
        elif op == 'query':
            str(h); h.keys(); h.compare(other); repr(h)
            path, mm, hh = secs[o['a'] % len(secs)]
            if path:
                require(hh.location() == os.path.basename(h.filename or '') + path if h.filename else True, 'location %s, expected %s', hh.location() if h.filename else '', path)
        elif op == 'copy':
            path, mm, hh = secs[o['a'] % len(secs)]
            if not path:
                continue
            cp = hh.copy()
            require(ws(str(cp)) == ws(str(hh)), 'the copy of a section differs: %r / %r', str(cp)[:300], str(hh)[:300])
            if cp.keys() and cp[cp.keys()[0]].contents is None:      # a copy is independent
                cp[cp.keys()[0]].values = [1, 2, 3, 4, 5, 6, 7]
                cp[cp.keys()[0]].values.append(5)
            cp.add_line('zzz', [1])
            for s in cp.__dict__.get('sensors', []):
                s.type, s.values = 'changed', [9]
        n += 1
        same_m(h, m, 'after %s: ' % op)
    # differences with the file as it was are reported, and only then
    dif = [l for l in h.compare(other).splitlines() if l.strip(' +-\t')]
    m1 = nested(m)
    require(bool(dif) == (m0 != m1), 'comparison with the original file reports %s, expected %s', dif[:4] or 'no difference', 'differences' if m0 != m1 else 'none')
    q = os.path.join(d, 'final.htc')
    h.save(q)
    same_m(h, m, 'after the last save: ')
    m.rekey()
    same_m(HTCFile(q), m, 'saved and read: ')
    require(str(other) == other0, 'editing one object changes another')
    ctx.label('ops:%d' % n)
    ctx.nontrivial(n >= 2 and (c['scratch'] or count(c['doc']) >= 4))


def nested(m):
    return dict((k, [o.name, o.arg, nested(o), [[s[2], s[3]] for s in o.sens]] if isinstance(o, M) else list(o.v)) for k, o in m.e)


def put(mm, k, v):
    if k in dict(mm.e):
        mm.get(k).v = v
    else:
        mm.e.append((k, Ml(k, v, '')))


def from_object(h):
    def node(c, name):
        m = M(name)
        m.c, m.ec = (c.begin_comments.strip(), c.end_comments.strip()) if name else ('', '')
        for k in c.keys():
            v = c[k]
            m.e.append((k, node(v, v.name_) if v.contents is not None else Ml(v.name_, list(v.values), v.comments.strip())))
        m.sens = sens(c) if name else []
        return m
    return node(h, '')


def same_m(h, m, what):
    d = diff(tight(norm(actual(h))), tight(m.out()))
    require(d is None, '%s%s', what, d)

    def keys(hh, mm):
        cmp.list_eq([k for k in hh.keys() if hh[k].name_ != ''], [k for k, o in mm.e], what + 'keys')
        for k, o in mm.e:
            if isinstance(o, M):
                keys(hh[k], o)
    keys(h, m)


# ------------------------------------------------------------------ bodies
@st.composite
def body_cases(draw):
    nb = draw(st.integers(1, 4))
    bs = []
    for k in range(nb):
        n = draw(st.integers(2, 12))
        order = draw(st.permutations(range(n))) if draw(st.integers(0, 3)) == 0 else list(range(n))
        bs.append(dict(name=draw(st.sampled_from(['tower', 'Blade', 'hub', 'shaft'])) + str(k + 1), c2=draw(st.booleans()) or k == 0, n=n, spec=draw(g.specs()), order=list(order), st=draw(st.sampled_from([0, 0, 1, 2, 3])), new=draw(st.integers(1, 12)), mset=draw(st.integers(1, 2)), iset=draw(st.integers(1, 3))))
    return dict(bs=bs, edit=draw(st.booleans()), fmt=draw(st.sampled_from(['%r', '%.5f', '%.6e'])))


def check_body(c, ctx):
    d = ctx.path('htc')
    os.makedirs(d)
    L = ['begin new_htc_structure;']
    stt = {}
    for m in (1, 2):
        for s in (1, 2, 3):
            a = g.build((3, 19), dict(kind='ramp', base=10. * m + s, scale=1.0))
            a[:, 0] = [0, 1, 2]
            stt[(m, s)] = a
    T = ['#%d' % 2]
    T = []
    for m in (1, 2):
        T.append('#%d set' % m)
        for s in (1, 2, 3):
            T.append('$%d 3' % s)
            T += [' '.join('%r' % x for x in r) for r in stt[(m, s)]]
    open(os.path.join(d, 'st.dat'), 'w').write('\n'.join(T) + '\n')
    exp = {}
    for b in c['bs']:
        L += ['begin main_body;', '  name %s;' % b['name'], '  type timoschenko;']
        if b['st']:
            L += ['  begin timoschenko_input;', '    filename ./st.dat;'] + (['    set %d %d;' % (b['mset'], b['iset'])] if b['st'] > 1 else []) + ['  end timoschenko_input;']
        if b['c2']:
            a = g.build((b['n'], 4), b['spec'])
            a = np.array([[float(c['fmt'] % x) for x in r] for r in a])
            L += ['  begin c2_def;', '    nsec %d;' % b['n']]
            L += ['    sec %d %s;' % (i + 1, ' '.join(c['fmt'] % x for x in a[i])) for i in b['order']]
            L += ['  end c2_def;']
            exp[b['name']] = a
        L += ['end main_body;']
    L += ['end new_htc_structure;', 'exit;']
    p = os.path.join(d, 'a.htc')
    open(p, 'w').write('\n'.join(L) + '\n')
    F = weio.read(p)
    require(type(F).__name__ == 'HAWC2HTCFile', 'detected as %s', type(F).__name__)

    def chk(F, what):
        cmp.list_eq(F.bodyNames, [b['name'] for b in c['bs']], what + 'bodies')
        dfs = F.toDataFrame()
        names = []
        for b in c['bs']:
            if b['c2']:
                names.append(b['name'] + '_c2')
                if b['st']:
                    names.append(b['name'] + '_st')
        if not isinstance(dfs, dict):
            dfs = {names[0]: dfs}
        require(sorted(dfs) == sorted(names), '%stables %s, expected %s', what, list(dfs), names)
        for b in c['bs']:
            if not b['c2']:
                cmp.raises((Exception,), lambda: F.bodyC2(F.bodyByName(b['name'])), 'body without geometry')
                continue
            a = exp[b['name']]
            v = F.bodyC2(F.bodyByName(b['name']))
            cmp.arr_eq(v[:, 0], np.arange(1, len(a) + 1), what + 'section numbers')
            cmp.arr_eq(v[:, 1:], a, what + 'geometry of ' + b['name'])
            df = dfs[b['name'] + '_c2']
            cmp.list_eq(df.columns, ['z_[m]', 'x_[m]', 'y_[m]', 'twist_[deg]'], what + 'columns')
            cmp.arr_eq(df.values, a[:, [2, 0, 1, 3]], what + 'table of ' + b['name'])
            if b['st']:
                k = (b['mset'], b['iset']) if b['st'] > 1 else (1, 1)
                cmp.arr_eq(dfs[b['name'] + '_st'].values, stt[k], what + 'structural table of %s' % b['name'])
        cmp.raises((Exception,), lambda: F.bodyByName('no such body'), 'unknown body')
    chk(F, '')
    q = os.path.join(d, 'b.htc')
    F.write(q)
    chk(HAWC2HTCFile(q), 'written: ')
    if c['edit']:
        b = c['bs'][-1] if c['bs'][-1]['c2'] else c['bs'][0]
        n = max(1, min(b['new'], b['n']))
        a = g.build((n, 4), dict(kind='rand', base=1.0, scale=3.0, seed=b['new']))
        F.setBodyC2(F.bodyByName(b['name']), np.column_stack((np.arange(1, n + 1), a)))
        exp[b['name']] = a
        require(F.bodyByName(b['name']).c2_def.nsec[0] == n, 'number of sections')
        chk(F, 'after setBodyC2: ')
        F.write(q)
        G = HAWC2HTCFile(q)
        chk(G, 'after setBodyC2 and write: ')
        require(G.bodyByName(b['name']).c2_def.nsec[0] == n, 'number of sections in the file')
    ctx.label('bodies:%d' % len(c['bs']))
    ctx.nontrivial(len(c['bs']) >= 2)


# ------------------------------------------------------------------ access by name or value, comparison of files
@st.composite
def lookup_cases(draw):
    nb = draw(st.integers(1, 5))
    nm = st.one_of(st.sampled_from(['tower', 'shaft', 'hub1', 'blade1', 'Blade1', 'b-2', '1b']), g.ident(2, 8).filter(lambda s: s.lower() not in ('inf', 'nan', 'infinity')))
    return dict(names=draw(st.lists(nm, min_size=nb, max_size=nb, unique=True)), types=draw(st.lists(st.sampled_from(['timoschenko', 'rigid', 'x']), min_size=nb, max_size=nb)), nsec=draw(st.lists(st.integers(1, 6), min_size=nb, max_size=nb)),
                dlls=draw(st.lists(st.lists(st.integers(1, 90), min_size=1, max_size=8, unique=True), min_size=1, max_size=3)), seed=draw(st.integers(0, 999)), b=draw(st.integers(0, 99)), k=draw(st.integers(0, 99)),
                sens=draw(st.lists(st.tuples(st.sampled_from(['mbdy', 'aero', 'dll', 'wind']), st.sampled_from(['momentvec', 'forcevec', 'inpvec']), st.lists(st.integers(0, 9), max_size=3)).map(list), min_size=1, max_size=5)),
                change=draw(st.integers(0, 5)))


def check_lookup(c, ctx):
    rs = np.random.RandomState(c['seed'])
    nb = len(c['names'])
    X = [np.round(rs.uniform(-50, 50, (n, 4)), 3) + 0.0005 for n in c['nsec']]
    C = [np.round(rs.uniform(-50, 50, len(k)), 3) + 0.0005 for k in c['dlls']]

    def lines(change=None):
        S = ['begin simulation;', '  time_stop 100;', 'end simulation;']
        N = ['begin new_htc_structure;', '  beam_output_file_name ./log/beam.dat;']
        for i, n in enumerate(c['names']):
            N += ['  begin main_body;', '    name %s;' % n, '    type %s;' % c['types'][i], '    nbodies %d;' % (7 + i), '    begin c2_def;', '      nsec %d;' % c['nsec'][i]]
            N += ['      sec %d %s;' % (j + 1, ' '.join('%r' % x for x in r)) for j, r in enumerate(X[i])] + ['    end c2_def;', '  end main_body;']
        N += ['  begin orientation;', '    begin base;', '      body %s;' % c['names'][0], '    end base;', '  end orientation;', 'end new_htc_structure;']
        D = ['begin dll;']
        for i, k in enumerate(c['dlls']):
            D += ['  begin type2_dll;', '    name ctrl%d;' % i, '    begin init;'] + ['      constant %d %r;' % (j, float(x)) for j, x in zip(k, C[i])] + ['    end init;', '  end type2_dll;']
        D += ['end dll;']
        O = ['begin output;', '  filename ./res/a;', '  time 0 10;'] + ['  %s %s %s;' % (t, n, ' '.join(map(str, v))) for t, n, v in c['sens']] + ['end output;']
        P = [S, N, D, O]
        if change == 'order':
            P = [S, D, N, O]
        if change == 'sensor':
            O[3] = O[3].replace(c['sens'][0][0], 'hydro', 1)
        if change == 'value':
            N[3 + 0] = '    name changed;'
        if change == 'less':
            del D[1:]
            D += ['end dll;']
        return sum(P, [])
    p = ctx.path('a.htc')
    savetxt(p, '\n'.join(lines()) + '\n')
    h = HTCFile(p)
    s = h.new_htc_structure
    chg = c['b'] % nb

    def look(h, X, C, what):
        s = h.new_htc_structure
        for i, n in enumerate(c['names']):
            b = s.main_body(name=n)
            key = 'main_body' if i == 0 else 'main_body__%d' % (i + 1)
            require(b.nbodies[0] == 7 + i, '%smain_body(name=%r) is another body', what, n)
            for o in (s.get_subsection_by_name(n), s.get_section(n), s.get_element('name', n), s[key], h['new_htc_structure/' + key], getattr(s, 'main_body__%d' % (i + 1)), s.main_body(nbodies=7 + i), s.get_section(7 + i, 'nbodies'), s.main_body__1(name=n, nbodies=7 + i)):
                require(o is b, '%sthe body %r is not found in all ways', what, n)
            require(b.location() == os.path.basename(h.filename) + '/new_htc_structure/' + key, '%slocation %s', what, b.location())
            for j in range(len(X[i])):
                l = b.c2_def.sec(v0=j + 1)
                cmp.list_eq(l.values, [j + 1] + list(X[i][j]), '%ssec(v0=%d)' % (what, j + 1))
                require(b.c2_def.sec(v0=j + 1, v4=X[i][j][3]) is l and b.c2_def['sec' if j == 0 else 'sec__%d' % (j + 1)] is l and h['new_htc_structure/%s/c2_def/sec%s' % (key, '' if j == 0 else '__%d' % (j + 1))] is l, '%sline %d of %s', what, j + 1, n)
                require(l.location() == b.location() + '/c2_def/sec' + ('' if j == 0 else '__%d' % (j + 1)), '%slocation %s', what, l.location())
        for i, k in enumerate(c['dlls']):
            t = h.dll.get_subsection_by_name('ctrl%d' % i)
            require(t is h.dll.type2_dll(name='ctrl%d' % i), '%sdll %d', what, i)
            for j, x in zip(k, C[i]):
                l = t.init.constant(v0=j)
                require(l[1] == x and t.init.get_element(0, j) is l and (len(set(C[i])) < len(k) or t.init.get_element(1, x) is l), '%sconstant %d is %r, expected %r', what, j, l.values, x)
            for f in (lambda: t.init.constant(v0=100), lambda: t.init.get_element(0, 100)):
                cmp.raises((ValueError, AssertionError), f, 'constant that does not exist')
        n = 'absent'
        for f in (lambda: s.main_body(name=n), lambda: s.get_section(n), lambda: s.get_subsection_by_name(n), lambda: s.get_element('name', n), lambda: s.main_body(name=c['names'][0], nbodies=0), lambda: s.get_element(None, n)):
            cmp.raises((ValueError, AssertionError), f, 'body that does not exist')
        for t in set(c['types']):
            if c['types'].count(t) > 1:
                for f in (lambda: s.main_body(type=t), lambda: s.get_section(t, 'type'), lambda: s.get_element('type', t)):
                    cmp.raises((ValueError, AssertionError), f, 'several bodies of this type')
            else:
                require(s.main_body(type=t) is s.get_section(t, 'type') and s.get_section(t, 'type').name[0] == c['names'][c['types'].index(t)], '%sbody of type %s', what, t)
    look(h, X, C, 'read: ')
    # an edit of what was found
    j = c['k'] % c['nsec'][chg]
    X[chg][j, 2] = 77.25
    s.main_body(name=c['names'][chg]).c2_def.sec(v0=j + 1)[3] = 77.25
    i = c['k'] % len(c['dlls'])
    C[i][0] = -3.5
    h.dll.type2_dll(name='ctrl%d' % i).init.constant(v0=c['dlls'][i][0])[1] = -3.5
    look(h, X, C, 'edited: ')
    q = ctx.path('b.htc')
    h.save(q)
    look(HTCFile(q), X, C, 'edited and saved: ')
    # differences between files
    other = ctx.path('c.htc')
    changes = [None, 'order', 'sensor', 'value', 'less']
    ch = changes[c['change'] % 5]
    savetxt(other, '\n'.join(lines(ch)) + '\n')
    a, o = HTCFile(q), HTCFile(other)
    t0, t1 = str(a), str(o)
    dif = [l for l in a.compare(other).splitlines() if l.strip(' +-\t')]      # with a file
    require(dif == [l for l in a.compare(o).splitlines() if l.strip(' +-\t')], 'comparison with a file and with an object differ')
    require(bool(dif) == (ch not in (None, 'order')), 'change of %s: differences %s', ch, dif[:4])
    back = [l for l in o.compare(a).splitlines() if l.strip(' +-\t')]
    require(len(back) == len(dif), 'the comparison depends on the side: %s / %s', dif[:4], back[:4])
    from weio.wetb.hawc2.htc_contents import HTCContents
    ordered = [l for l in HTCContents.compare(a, o, compare_order=True).splitlines() if l.strip(' +-\t')]
    require(bool(ordered) == (ch is not None), 'comparison with the order, change of %s: differences %s', ch, ordered[:4])
    require(str(a) == t0 and str(o) == t1, 'comparing changes the files')
    # a body that is deleted
    if nb > 1:
        s = a.new_htc_structure
        rest = [n for k, n in enumerate(c['names']) if k != chg]
        s.main_body(name=c['names'][chg]).delete()
        cmp.list_eq([b.name[0] for b in s if b.name_ == 'main_body'], rest, 'bodies left')
        a.save(q)
        cmp.list_eq([b.name[0] for b in HTCFile(q).new_htc_structure if b.name_ == 'main_body'], rest, 'bodies left in the file')
    ctx.label('bodies:%d' % nb, str(ch))
    ctx.nontrivial(nb > 1)


COMPONENTS = [Component('doc', doc_cases(), check_doc, 250, 4000), Component('edit', edit_cases(), check_edit, 250, 5000), Component('bodies', body_cases(), check_body, 150, 2500), Component('lookup', lookup_cases(), check_lookup, 120, 3000)]
