"""C02: editing an OpenFAST input file changes what was edited and nothing else."""
import copy
import numpy as np
from hypothesis import strategies as st
from vlib.core import Component, require
from vlib import gens as g, cmp, fastin as fi, fastchk as fc
from props.c01 import write_text, lines_of
from weio.fast_input_file import FASTInputFile, FASTInputFileBase

RULE = ('A generated document and a history of up to 10 operations (set an entry under any capitalisation, change table cells, look up or set an unknown name, '
        'convert to tables, write, write and reload) checked against an ordered model; non-trivial: at least one value really changed and was then written.')
ASSUMPTIONS = ['values set by the user are numbers, logicals, one-word or quoted strings, or lists of at least two numbers or logicals']


def new_value():
    num = st.one_of(st.integers(-10 ** 9, 10 ** 9), g.finite(-1e9, 1e9), st.sampled_from([0.1, 1e-7, 1e22, float('inf')]))
    s = st.one_of(st.sampled_from([x for x in fi.FILEVALS if x != '1.5d3']), st.sampled_from(['"new file.dat"', 'abc', '"../x/y.dat"']))
    return st.one_of(num, num, st.booleans(), s, st.lists(st.one_of(st.integers(-99, 99), g.finite(-1e3, 1e3)), min_size=2, max_size=5), st.lists(st.booleans(), min_size=2, max_size=3))


UNK = ['NotThere', 'zzz', 'Ech', 'DTT', 'AirDens2', 'out list', 'TMax_', 'notthere(1)']


@st.composite
def histories(draw):
    items = draw(fi.document(min_kv=6, max_kv=12))
    n = draw(st.integers(1, 10))
    ops = []
    for _ in range(n):
        k = draw(st.sampled_from(['set', 'set', 'set', 'set', 'cell', 'cell', 'unk', 'unkset', 'df', 'write', 'reload', 'str']))
        if k == 'set':
            ops.append([k, draw(st.integers(0, 99)), draw(st.integers(0, 3)), draw(new_value())])
        elif k == 'cell':
            ops.append([k, draw(st.integers(0, 99)), draw(st.integers(0, 99)), draw(st.integers(0, 99)), g.sig(draw(g.finite(-1e6, 1e6)), 8), draw(st.booleans())])
        elif k in ('unk', 'unkset'):
            ops.append([k, draw(st.sampled_from(UNK))])
        else:
            ops.append([k])
    return dict(items=items, ops=ops)


CASE = [lambda s: s, lambda s: s.lower(), lambda s: s.upper(), lambda s: s.swapcase()]


def check_model(f, model, what, rtol=0.0):
    names = [m['name'] for m in model]
    cmp.list_eq([k for k in f.keys() if k in names], names, what + ' keys')
    for m in model:
        got = f[m['name']]
        if m['kind'] == 'tab':
            a = np.asarray(got)
            b = m['v']
            require(a.shape == b.shape, '%s table %s: shape %s, expected %s', what, m['name'], a.shape, b.shape)
            if b.dtype == object:
                cmp.list_eq([str(x) for x in a.ravel()], [str(x) for x in b.ravel()], what + ' table ' + m['name'])
            else:
                cmp.arr_close(a, b, rtol, 0, what + ' table ' + m['name'])
        elif m['kind'] == 'out':
            cmp.list_eq([str(x) for x in got[1:]], m['v'], what + ' output list')
        elif m['kind'] == 'files':
            cmp.list_eq(got, m['v'], what + ' files')
        else:
            require(fc.same_value(got, m['v']), '%s entry %r: got %r (%s), expected %r', what, m['name'], got, type(got).__name__, m['v'])


def check_history(c, ctx):
    items = c['items']
    p = ctx.path('In.dat')
    write_text(p, fi.render(items))
    f = FASTInputFile(p)
    model = []
    for name, kind, exp, it in fi.entries(items):
        if kind == 'tab':
            vals, num = fi.tab_expected(it)
            exp = np.array(vals, dtype=float if num else object).reshape(len(it['cells']), len(it['cols']))
        model.append(dict(name=name, kind=kind, v=exp))
    original = {m['name']: copy.deepcopy(m['v']) for m in model}
    touched = set()
    base = None
    if fi.exact_cells(items):
        f.write(ctx.path('base.dat'))
        base = lines_of(ctx.path('base.dat'))
    kv = [m for m in model if m['kind'] in ('num', 'bool', 'str', 'list')]
    tabs = [m for m in model if m['kind'] == 'tab' and m['v'].size > 0]
    nw, changed = 0, False
    lower = set(k.lower() for k in f.keys())
    for op in c['ops'] + [['write']]:
        k = op[0]
        if k == 'set':
            m = kv[op[1] % len(kv)]
            if m['name'] in DIMS:
                continue            # the size of a table
            f[CASE[op[2]](m['name'])] = copy.deepcopy(op[3])
            m['v'] = op[3]
            touched.add(m['name'])
        elif k == 'cell':
            if not tabs:
                continue
            m = tabs[op[1] % len(tabs)]
            i, j = op[2] % m['v'].shape[0], op[3] % m['v'].shape[1]
            new = op[4] if m['v'].dtype != object else repr(op[4])
            if op[5]:
                f[m['name']][i, j] = new
            else:
                t = np.array(f[m['name']], copy=True)
                t[i, j] = new
                f[m['name']] = t
            m['v'][i, j] = new
            touched.add(m['name'])
        elif k in ('unk', 'unkset'):
            if op[1].lower() in lower:
                continue
            if k == 'unk':
                cmp.raises(KeyError, lambda: f[op[1]], 'looking up %r, which is not in the file' % op[1])
            else:
                def put():
                    f[op[1]] = 5
                cmp.raises(KeyError, put, 'setting %r, which is not in the file' % op[1])
        elif k == 'df':
            f.toDataFrame()
        elif k == 'str':
            f.toString()
            repr(f)
        elif k in ('write', 'reload'):
            nw += 1
            q = ctx.path('w%d.dat' % nw)
            f.write(q)
            g2 = FASTInputFile(q)
            for m in model:          # a mixed table whose content became numeric is numeric
                pass
            check_model(renorm(g2, model), model, 'written file:', 6e-9)
            if base is not None:
                compare_lines(base, lines_of(q), items, touched)
            if touched:
                changed = True
            if k == 'reload':
                f = g2
                for m in model:
                    if m['kind'] == 'tab' and m['v'].dtype != object:
                        m['v'] = np.array(f[m['name']], dtype=float)
                    elif m['kind'] == 'tab' and np.asarray(f[m['name']]).dtype != object:
                        m['v'] = np.array(f[m['name']], dtype=float)
                ctx.label('reloaded')
        check_model(renorm(f, model), model, 'after %s:' % k, 6e-9)
    ctx.label(*['op-' + o[0] for o in c['ops']])
    ctx.nontrivial(changed)


DIMS = set(t[1] for t in fi.TABLES if isinstance(t[1], str)) | {'NumAFfiles', 'NumFoil'}


def renorm(f, model):
    """view of f where a table of numbers given as text compares with numbers"""
    class V(object):
        def keys(self):
            return f.keys()

        def __getitem__(self, k):
            v = f[k]
            for m in model:
                if m['name'] == k and m['kind'] == 'tab':
                    a = np.asarray(v)
                    if m['v'].dtype == object and a.dtype != object:
                        # content became numeric: compare as numbers, through repr of floats
                        b = np.array([float(x) for x in m['v'].ravel()]).reshape(m['v'].shape)
                        cmp.arr_close(a, b, 1e-12, 0, 'table ' + k)
                        return m['v']
            return v
    return V()


def compare_lines(base, new, items, touched):
    """lines of entries not edited are the same, in the same place"""
    while base and not base[-1].strip():      # blank lines at the end of the file may go when it is read again
        base = base[:-1]
    while new and not new[-1].strip():
        new = new[:-1]
    require(len(base) == len(new), 'the file written has %d lines, %d without the edits', len(new), len(base))
    skip = set()
    for it in items:
        if it['t'] == 'tab' and fi.TABLES[it['i']][0] in touched:
            skip.update(' '.join(r) for r in it['cells'])
    tabs = any(it['t'] == 'tab' and fi.TABLES[it['i']][0] in touched for it in items)
    ndiff = 0
    for a, b in zip(base, new):
        if a != b:
            ndiff += 1
            ok = tabs or any(t in b.split() and t in a.split() for t in touched)
            require(ok, 'line %r became %r although only %r were edited', a, b, sorted(touched))
    require(touched or ndiff == 0, 'lines changed without any edit')


@st.composite
def build_cases(draw):
    ks = draw(fi.keys(4, 12))
    ents = []
    for k in ks:
        ents.append([k, draw(new_value()), draw(st.sampled_from(['- a description (m)', '', '- (-)', 'no dash, with comma'])), draw(st.sampled_from(['kv', 'vk']))])
    upd = draw(st.lists(st.tuples(st.integers(0, 20), new_value(), st.integers(0, 2), st.integers(0, 3)).map(list), max_size=4))
    return dict(ents=ents, upd=upd, comments=draw(st.integers(0, 2)), head=draw(st.booleans()))


def check_build(c, ctx):
    """a file built from scratch with the adding functions"""
    f = FASTInputFileBase()
    if c['head']:
        f.addComment('------- A FILE -------')
    model = []
    for i, (k, v, d, how) in enumerate(c['ents']):
        if how == 'kv':
            f.addKeyVal(k, copy.deepcopy(v), d)
        else:
            f.addValKey(copy.deepcopy(v), k, d)
        model.append([k, v, d])
        if i == 2 and c['comments']:
            f.addComment('----- section ----')
    for i, v, how, case in c['upd']:
        m = model[i % len(model)]
        other = CASE[case](m[0])
        if how == 2:
            f[other] = copy.deepcopy(v)
        else:
            m[0] = other           # the entry is known under the name last given
            if how == 1:
                f.addKeyVal(other, copy.deepcopy(v), '- new description')
                m[2] = '- new description'
            else:
                f.addKeyVal(other, copy.deepcopy(v))
        m[1] = v
        require(fc.same_value(f[CASE[(case + 1) % 4](m[0])], v), 'entry %s looked up under another capitalisation', m[0])
    cmp.list_eq(f.keys(), [m[0] for m in model], 'keys')
    for m in model:
        require(fc.same_value(f[m[0]], m[1]), 'entry %s: %r, expected %r', m[0], f[m[0]], m[1])
    q = ctx.path('x.dat')
    f.write(q)
    r = FASTInputFile(q)
    cmp.list_eq(r.keys(), [m[0] for m in model], 'keys after write')
    for d in r:
        for m in model:
            if d['label'] == m[0]:
                cmp.eq(fi.norm_descr(d['descr']), fi.norm_descr(m[2]), 'description')
    for m in model:
        require(fc.same_value(r[m[0]], m[1]), 'entry %s after write: %r, expected %r', m[0], r[m[0]], m[1])
    ctx.nontrivial(len(c['upd']) > 0 or len(c['ents']) > 5)


@st.composite
def dup_cases(draw):
    ks = draw(fi.keys(5, 9))
    return dict(items=[draw(fi.kv(k)) for k in ks], dup=draw(st.integers(0, len(ks) - 1)), v2=draw(fi.kv('x')), new=draw(new_value()), at=draw(st.integers(0, len(ks))))


def check_dup(c, ctx):
    """a label present twice: lookup gives the first, setting sets all of them"""
    items = [dict(t='c', text='---- x ----')] + c['items']
    key = c['items'][c['dup']]['key']
    items.insert(1 + c['at'], dict(c['v2'], key=key))
    p = ctx.path('a.dat')
    write_text(p, fi.render(items))
    f = FASTInputFile(p)
    first = [it for it in items if it.get('key') == key][0]
    require(fc.same_value(f[key], fi.kv_expected(first)), 'duplicated label: %r, expected the first one %r', f[key], fi.kv_expected(first))
    f[key.upper()] = copy.deepcopy(c['new'])
    f.write(ctx.path('b.dat'))
    r = FASTInputFile(ctx.path('b.dat'))
    vals = [d['value'] for d in r if d['label'] == key]
    require(len(vals) == 2 and all(fc.same_value(v, c['new']) for v in vals), 'duplicated label: %r after setting %r', vals, c['new'])
    for it in items[1:]:
        if it['key'] != key:
            require(fc.same_value(r[it['key']], fi.kv_expected(it)), 'entry %s changed', it['key'])


COMPONENTS = [Component('histories', histories(), check_history, 150, 3000, shards=3),
              Component('from_scratch', build_cases(), check_build, 200, 4000),
              Component('duplicates', dup_cases(), check_dup, 100, 2000)]
