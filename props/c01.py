"""C01: OpenFAST input files: what is read is what the file says, and write/read preserves it."""
import os
import numpy as np
from hypothesis import strategies as st
from vlib.core import Component, require
from vlib import gens as g, cmp, fastin as fi, fastchk as fc
from weio.fast_input_file import FASTInputFile
import weio

RULE = ('A generated OpenFAST-style document (title, sections, 6..22 entries of every kind: integer, real in several notations, logical, bare or '
        'quoted string, list; up to three of 28 table layouts, file lists, output lists; varied spacing); non-trivial: at least 3 kinds of entries, or a non-empty table.')
ASSUMPTIONS = ['labels are unique up to case, and do not collide with words having a special role in the format', 'the free-text second line is not an entry: nothing is claimed on it',
               'white space inside a value or description is not significant; a description is preserved up to the dash separating it from the label',
               'table cells are written with 9 significant digits']


def write_text(path, text, enc='utf-8'):
    with open(path, 'wb') as f:
        f.write(text.encode(enc))


def lines_of(path):
    with open(path, 'rb') as f:
        return f.read().decode('utf-8', 'surrogateescape').split('\n')


def check_read(c, ctx):
    items = c['items']
    text = fi.render(items)
    if c.get('crlf'):
        text = text.replace('\n', '\r\n')
    if not c.get('eof', True):
        text = text.rstrip('\r\n')
    p = ctx.path(c.get('name', 'In.dat'))
    write_text(p, text, c.get('enc', 'utf-8'))
    raw = open(p, 'rb').read()
    f = FASTInputFile(p)
    fc.check_all(f, items, 0.0, 'read ')
    # case insensitive lookup
    for name, kind, exp, it in fi.entries(items)[:3]:
        fc.check_value(name.swapcase(), kind, f[name.swapcase()], exp)
    # write, read again
    p2 = ctx.path('Out.dat')
    f.write(p2)
    require(open(p, 'rb').read() == raw, 'writing to another file modified the file read')
    f2 = FASTInputFile(p2)
    fc.check_all(f2, items, 6e-9, 'after write ')
    cmp.list_eq(f2.keys(), f.keys(), 'keys after write')
    # descriptions and comment lines
    d1 = {d['label']: d['descr'] for d in f}
    d2 = {d['label']: d['descr'] for d in f2}
    lab = {n: it for n, k, e, it in fi.entries(items) if it['t'] == 'kv'}
    if c.get('enc', 'utf-8') == 'utf-8':
        for n, it in lab.items():
            cmp.eq(fi.norm_descr(d1[n]), fi.norm_descr(it['descr']), 'description of %s' % n)
            cmp.eq(fi.norm_descr(d2[n]), fi.norm_descr(it['descr']), 'description of %s after write' % n)
        com = [it['text'] for it in items if it['t'] == 'c' and it['text'].strip()]
        got = lines_of(p2)
        pos = 0
        for t in com:
            try:
                pos = got.index(t, pos) + 1
            except ValueError:
                require(False, 'comment line %r is missing (or misplaced) in the file written', t)
    # fixpoint: a second write gives the same file
    p3 = ctx.path('Out2.dat')
    f2.write(p3)
    a, b = open(p2, 'rb').read(), open(p3, 'rb').read()
    if fi.exact_cells(items):
        a, b = a.rstrip(b'\r\n \t'), b.rstrip(b'\r\n \t')      # empty lines at the end are not content
        require(a == b, 'writing, reading and writing again changes the file: %r', first_diff(a, b))
    # the library detects the same format
    if c.get('detect'):
        F = weio.read(p)
        fc.check_all(F, items, 0.0, 'weio.read ')
    kinds = set(k for n, k, e, it in fi.entries(items))
    ctx.label(*['has-' + k for k in kinds])
    ctx.nontrivial(len(kinds) >= 3 or any(it['t'] == 'tab' and it['cells'] for it in items))


def first_diff(a, b):
    la, lb = a.split(b'\n'), b.split(b'\n')
    for x, y in zip(la, lb):
        if x != y:
            return x[:120], y[:120]
    return len(la), len(lb)


@st.composite
def read_cases(draw):
    enc = draw(st.sampled_from(['utf-8'] * 9 + ['latin-1']))
    return dict(items=draw(fi.document(latin=enc == 'latin-1')), crlf=draw(st.integers(0, 5)) == 0, eof=draw(st.booleans()), enc=enc,
                name=draw(st.sampled_from(['In.dat', 'Main.fst', 'x.txt', 'In.DAT', 'a b.dat'])), detect=False)


@st.composite
def value_cases(draw):
    """one entry of interest among plain ones"""
    k = draw(fi.kv('TheKey'))
    return dict(v=k)


PLAIN = ['Echo', 'DT', 'TMax', 'AirDens', 'KinVisc', 'WakeMod', 'TipLoss', 'RotSpeed']


def check_value_case(c, ctx):
    items = [dict(t='c', text='------- EXAMPLE -------')]
    for i, p in enumerate(PLAIN):
        items.append(dict(t='kv', key=p, kind='num', text='%d' % i, descr='- d', pre='', sep=' '))
    items.insert(4, c['v'])
    p = ctx.path('a.dat')
    write_text(p, fi.render(items))
    f = FASTInputFile(p)
    fc.check_all(f, items)
    s = f.toString()
    write_text(ctx.path('b.dat'), s)
    f2 = FASTInputFile(ctx.path('b.dat'))
    fc.check_all(f2, items)
    require(f2.toString() == s, 'not stable: %r', s)


@st.composite
def table_cases(draw):
    return dict(t=draw(fi.table(draw(st.integers(0, len(fi.TABLES) - 1)), max_rows=9)), after=draw(st.booleans()), n2=draw(st.integers(0, 3)))


def check_table_case(c, ctx):
    it = c['t']
    lab, dim, pos, tag, nh, typ = fi.TABLES[it['i']]
    kvs = [dict(t='kv', key=p, kind='num', text='%d' % i, descr='- d', pre='', sep=' ') for i, p in enumerate(PLAIN)]
    items = [dict(t='c', text='------- EXAMPLE -------')] + kvs[:4]
    if isinstance(dim, str):
        items.append(dict(t='kv', key=dim, kind='num', text='%d' % len(it['cells']), descr='- number of rows (-)', pre='', sep=' '))
    items.append(it)
    if c['after']:
        items.append(dict(t='c', text='----- NEXT -----'))
    items += kvs[4:]
    p = ctx.path('a.dat')
    write_text(p, fi.render(items))
    f = FASTInputFile(p)
    fc.check_all(f, items)
    # as a table, with units
    df = f.toDataFrame()
    if lab != 'DampingCoeffs':
        cols = it['cols'] if nh == 1 else ['%s_%s' % (a, u.replace('(', '[').replace(')', ']')) for a, u in zip(it['cols'], it['units'])]
        cmp.list_eq(df.columns, cols, 'columns')
        vals, num = fi.tab_expected(it)
        require(df.shape == (len(vals), len(cols)), 'table of shape %s', df.shape)
        if num:
            cmp.arr_close(df.values.astype(float), np.array(vals).reshape(len(vals), len(cols)), 0, 0, 'table values')
    f.write(ctx.path('b.dat'))
    f2 = FASTInputFile(ctx.path('b.dat'))
    fc.check_all(f2, items, 6e-9)
    f2.write(ctx.path('c.dat'))
    if fi.exact_cells(items):
        require(open(ctx.path('b.dat')).read() == open(ctx.path('c.dat')).read(), 'second write differs')
    if lab != 'DampingCoeffs':
        cmp.list_eq(f2.toDataFrame().columns, cols, 'columns after write')
    ctx.label(lab)
    ctx.nontrivial(len(it['cells']) > 0)


COMPONENTS = [Component('documents', read_cases(), check_read, 220, 4000, shards=3),
              Component('single_entry', value_cases(), check_value_case, 500, 8000),
              Component('tables', table_cases(), check_table_case, 350, 6000)]
