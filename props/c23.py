"""C23: damaged files are refused: no value is made up for missing data, reading ends, and the file is left as it is."""
import io, os, random, resource, shutil
from hypothesis import strategies as st
from vlib import canon as cn
from vlib.core import Component, Violation, require
from . import c21, c22

RULE = 'a case counts when at least one damaged file was given to the reader of its format'
ASSUMPTIONS = [
    'truncated: only formats that state their size (counts, dimensions, archive or footer) are claimed to refuse shorter files; text formats without counts cannot tell; TDMS files (cut segments are read as far as they go, by design of that format) are left out',
    'mutated: limits are 60 s of processor time and 8 GB of memory for files of at most a few hundred kB; readers need milliseconds',
]

# ------------------------------------------------------------------ damage that contradicts the size stated by the file


def any_cut(b, r):
    """ any proper prefix"""
    if len(b) < 2:
        return None
    return b[:r.choice([r.randrange(1, len(b)), len(b) - r.randrange(1, min(9, len(b)))])]


def cut_lines(b, r):
    """ the last data lines are missing (all lines of the file are counted)"""
    L = b.rstrip().splitlines(True)
    if len(L) < 2:
        return None
    k = r.randrange(1, min(len(L), 6))
    return b''.join(L[:-k])


def blade(b, r):
    """ the last lines are missing (what follows the table, name of the profile file and tip distance, counts as two)"""
    L = b.rstrip().splitlines(True)
    k = r.randrange(3, min(len(L) - 1, 8))
    return b''.join(L[:-k])


def resized(b, r):
    """ bytes missing or added"""
    if r.random() < 0.5:
        return any_cut(b, r)
    return b + bytes(r.randrange(256) for _ in range(r.choice([1, 2, 3, 4, 8, 12, len(b)])))


def is_number(t):
    try:
        float(t)
        return True
    except ValueError:
        return False


def rows_below(label, ncol):
    """ removes one of the numerical rows of a table counted by the entry `label`"""
    def f(b, r):
        L = b.splitlines(True)
        lo = [i for i, l in enumerate(L) if label in l.split()[1:2]]
        if len(lo) != 1:
            return None
        n = L[lo[0]].split()[0]
        if not n.isdigit() or int(n) < 1:
            return None
        i = lo[0] + 1
        while i < len(L) and not (len(L[i].split()) >= ncol and all(is_number(t) for t in L[i].split()[:ncol])):
            i += 1
        n = int(n)
        if len(L) < i + n:
            return None
        if r.random() < 0.5 and all(not l.strip() for l in L[i + n:]):
            return b''.join(L[:i + n - r.randrange(1, n + 1)])
        k = i + r.randrange(n)
        if any(l.strip() for l in L[i + n:]):
            return None         # entries follow: the reader could take one of them for the row
        return b''.join(L[:k] + L[k + 1:])
    return f


def matrices(b, r):
    """ a row of a matrix of a super element is missing"""
    L = b.splitlines(True)
    starts = [i for i, l in enumerate(L) if l.lower().startswith(b'!dimension') and b'matrix' in L[max(i - 1, 0)].lower()]
    if not starts:
        return None
    i = r.choice(starts)
    n = int(L[i].split(b':')[1].split()[0])
    rows = range(i + 1, i + 1 + n)
    if r.random() < 0.5:
        return b''.join(L[:r.choice(list(rows))])
    k = r.choice(list(rows))
    return b''.join(L[:k] + L[k + 1:])


def last_value(b, r):
    """ the last value of a VTK text file is missing"""
    if b'\nASCII' not in b[:400].replace(b'\r', b'') or b'METADATA' in b or b'COLOR_SCALARS' in b or b'LOOKUP_TABLE mytable' in b:
        return None
    s = b.rstrip()
    t = s.split()[-1]
    if not is_number(t) or s.splitlines()[-1].split()[0].isalpha() or s.splitlines()[-1].split()[0][:1].isalpha():
        return None
    return s[:-len(t)]


def hawc2(b, r, path):
    sel = path[:-4] + '.sel'
    with open(sel, 'rb') as f:
        h = f.read().upper()
    ascii_ = b'ASCII' in h or b'BHAWC' in h
    if path.endswith('.sel'):
        L = b.rstrip().splitlines(True)
        # (the last line of a file of text results is a separator)
        return b''.join(L[:-r.randrange(2 if ascii_ else 1, 4)]) if len(L) > 16 and b'BHAWC' not in h else None
    if not ascii_:
        return any_cut(b, r)
    return cut_lines(b, r)


def bladed(b, r, path):
    d, name = os.path.split(path)
    stem, ext = os.path.splitext(name)
    if ext[1] != '$' or ext.upper() == '.$PJ':
        return None
    with open(os.path.join(d, stem + '.%' + ext[2:]), 'rb') as f:
        h = f.read()
    if b"ACCESS\tD" in h or b'ACCESS   D' in h or b'ACCESS D' in h.replace(b'\t', b' '):
        d = any_cut(b, r)
        # (the library tells binary from text data by the content, a few bytes may be a number)
        return None if d is None or all(9 <= c < 127 for c in d[:64]) else d
    return cut_lines(b, r)


def lin(b, r):
    """ a row of a matrix or of an operating point is missing, or the file ends there"""
    L = b.splitlines(True)
    rows = []
    for i, l in enumerate(L):
        t = l.replace(b':', b': ').split()
        if len(t) >= 4 and t[-2] == b'x' and t[-1].isdigit() and t[-3].isdigit() and int(t[-1]) > 0:
            rows += list(range(i + 1, i + 1 + int(t[-3])))
        elif l.startswith(b'Order of'):
            k = i + 3
            while k < len(L) and L[k].strip():
                rows.append(k)
                k += 1
    rows = [k for k in rows if k < len(L) and L[k].strip()]
    if not rows:
        return None
    k = r.choice(rows)
    return b''.join(L[:k]) if r.random() < 0.4 else b''.join(L[:k] + L[k + 1:])


def structure(b, r):
    """ a row of a set of a HAWC2 structural file is missing"""
    L = b.splitlines(True)
    rows = []
    for i, l in enumerate(L):
        if l.lstrip().startswith(b'$'):
            t = l.replace(b'$', b'').split()
            rows += list(range(i + 1, i + 1 + int(t[1])))
    rows = [k for k in rows if k < len(L)]
    if not rows:
        return None
    k = r.choice(rows)
    return b''.join(L[:k]) if r.random() < 0.4 else b''.join(L[:k] + L[k + 1:])


def rosco(b, r):
    """ rows of the last table are missing"""
    L = b.rstrip().splitlines(True)
    n = 0
    while n < len(L) and L[-1 - n].strip() and all(is_number(t) for t in L[-1 - n].split()):
        n += 1
    if not n:
        return None
    return b''.join(L[:len(L) - r.randrange(1, n + 1)])


def table_row(b, r):
    """ a row of one of the tables of numbers of an OpenFAST file is missing (numbers of rows are given)"""
    L = b.splitlines(True)
    rows = [i for i, l in enumerate(L) if len(l.split()) >= 4 and all(is_number(t) for t in l.split())]
    if not rows:
        return None
    k = r.choice(rows)
    return b''.join(L[:k] + L[k + 1:])


def points(b, r):
    """ one of the points of a user time series is missing"""
    L = b.splitlines(True)
    i = [k for k, l in enumerate(L) if l.startswith(b'--------Time Series')][0]
    rows = []
    while i - 1 - len(rows) >= 0 and all(is_number(t) for t in L[i - 1 - len(rows)].split()):
        rows.append(i - 1 - len(rows))
    k = r.choice(rows)
    return b''.join(L[:k] + L[k + 1:])


def archive(b, r, path):
    # (in a TDMS file, which is written while measuring, an incomplete last segment is legal)
    return None if path.lower().endswith('.tdms') else any_cut(b, r)


WITH_PATH = (hawc2, bladed, archive)
DAMAGE = {
    'c04.binary': any_cut, 'c05.binary_rewrite': any_cut, 'c05.table_to_binary': any_cut, 'c06.decode': any_cut, 'c06.write_read': any_cut, 'c07.mann_layout': resized,
    'c10.excel': any_cut, 'c10.parquet': any_cut, 'c11.ae': cut_lines, 'c11.pc': cut_lines, 'c13.sel_dat': hawc2, 'c14.tables': bladed,
    'c03.aerodyn_blade': rows_below(b'NumBlNds', 6), 'c03.airfoil': rows_below(b'NumAlf', 3), 'c03.super_element': matrices, 'c19.files': lin, 'c11.st': structure, 'c15.profiles': rosco, 'c15.blades': blade, 'c17.rosco': rosco, 'c18.scientific': archive, 'c18.raaw': any_cut,
    'c03.beamdyn': table_row, 'c03.elastodyn': table_row, 'c03.subdyn': table_row, 'c01.tables': table_row, 'c27.series': points,
    'c16.files': last_value, 'c16.new': last_value,
}
EXTRA = {'c17.rosco': {'.txt': 'ROSCOPerformanceFile'}, 'c27.series': {'.txt': 'TurbSimTSFile'}, 'c05.table_to_binary': {'.outb': 'FASTOutputFile'}, 'c06.write_read': {'.bts': 'TurbSimFile'}}


def class_of(name, path):
    table = c21.BY_GEN.get(name) or EXTRA[name]
    return table.get('*' if '*' in table else os.path.splitext(path)[1].lower())


@st.composite
def truncated(draw, name):
    return {'src': ['gen', name, draw(c22.COMPS[name].strategy)], 'seed': draw(st.integers(0, 9999))}


def produce(case, ctx):
    return c22.pick(c22.value(cn.pristine(lambda: c22.produce([case['src']], os.path.join(ctx.dir, 'src')))))


def check_truncated(case, ctx):
    import weio
    name = case['src'][1]
    r = random.Random(case['seed'])
    n = 0
    for p in produce(case, ctx):
        clsname = class_of(name, p)
        if clsname is None:
            continue
        cls = c21.library(clsname).constructor
        F, err = c21.attempt(lambda: cls(p))
        if F is None:
            continue        # not a valid file
        with open(p, 'rb') as f:
            b = f.read()
        for _ in range(3):
            fn = DAMAGE[name]
            d = fn(b, r, p) if fn in WITH_PATH else fn(b, r)
            if d is None or d == b:
                continue
            n += 1
            with open(p, 'wb') as f:
                f.write(d)
            G, err = c21.attempt(lambda: cls(p))
            require(err is not None, '%s accepts the file %s of which %d of %d bytes are present', clsname, os.path.basename(p), len(d), len(b))
            G, err = c21.attempt(lambda: weio.read(p))
            require(err is not None or type(G).__name__ != clsname, 'weio.read accepts a damaged %s as %s', os.path.basename(p), type(G).__name__)
            # an object that had read the file does not pretend to have read it again
            _, err = c21.attempt(lambda: F.read(p))
            require(err is not None, 'an object of class %s reads the damaged file %s', clsname, os.path.basename(p))
            with open(p, 'rb') as f:
                require(f.read() == d, 'reading a damaged file changes it')
            with open(p, 'wb') as f:
                f.write(b)
            F.read(p)
        ctx.label(clsname)
    ctx.nontrivial(n > 0)


# ------------------------------------------------------------------ arbitrary mutations
def mutate(b, r, text):
    """ one to four local damages"""
    for _ in range(r.randrange(1, 5)):
        kind = r.randrange(8)
        if not b:
            return b'x'
        i = r.randrange(len(b))
        if kind == 0:
            b = b[:i]
        elif kind == 1:
            j = min(len(b), i + r.randrange(1, 20))
            b = b[:i] + b[j:]
        elif kind == 2:
            b = b[:i] + bytes([r.randrange(256)]) + b[i + 1:]
        elif kind == 3:
            b = b[:i] + r.choice([b' ', b'\n', b'!', b'"', b'#', b'END', b'-1', b'0', b'1e99', b'nan', b'\t', b',', b'\x00', b'zone']) + b[i:]
        elif text:
            L = b.splitlines(True)
            k = r.randrange(len(L))
            if kind == 4:
                del L[k]
            elif kind == 5:
                L.insert(k, L[r.randrange(len(L))])
            elif kind == 6:     # another number
                t = L[k].split()
                num = [x for x in t if is_number(x)]
                if num:
                    x = r.choice(num)
                    L[k] = L[k].replace(x, r.choice([b'0', b'-1', b'1', b'2', b'17', b'3.5', b'x', b'']), 1)
            else:
                L[k] = L[k].rstrip() and r.choice([b'', b'\n', L[k].strip(), b'   ' + L[k], L[k].upper()])
            b = b''.join(L)
    return b or b'x'


@st.composite
def mutated(draw, name=None):
    if name is None:
        src = ['ex', draw(st.sampled_from([f for f in c21.EXAMPLES if os.path.dirname(f) == '']))]
    else:
        src = ['gen', name, draw(c22.COMPS[name].strategy)]
    return {'src': src, 'seed': draw(st.integers(0, 9999)), 'n': draw(st.integers(1, 6))}


def limited(cls, p):
    """ (forked) read with limits on time and memory; the kind of result"""
    import weio
    resource.setrlimit(resource.RLIMIT_CPU, (60, 65))
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    out = []
    for f in (lambda: cls(p), lambda: weio.read(p)):
        F, e = c21.attempt(f)
        out.append(type(e).__name__ if F is None else 'read')
        if F is not None:
            c21.attempt(lambda: F.toDataFrame())
            c21.attempt(lambda: repr(F))
    return out


def check_mutated(case, ctx):
    r = random.Random(case['seed'])
    n = 0
    files = produce(case, ctx)
    for p in files[:3]:
        clsname = c21.expected_example(os.path.basename(p)) if case['src'][0] == 'ex' else class_of(case['src'][1], p)
        if clsname is None:
            continue
        cls = c21.library(clsname).constructor
        with open(p, 'rb') as f:
            b = f.read()
        for _ in range(case['n']):
            d = mutate(b, r, b'\x00' not in b[:2000])
            with open(p, 'wb') as f:
                f.write(d)
            try:
                res = cn.pristine(lambda: limited(cls, p))
            except RuntimeError:
                raise Violation('%s does not finish reading a damaged file (%d bytes), or crashes the process' % (clsname, len(d)))
            require(res[0] == 'ok', '%s: reading a damaged file stops the process: %r', clsname, res[1:])
            with open(p, 'rb') as f:
                require(f.read() == d, 'reading a damaged file changes it')
            n += 1
            ctx.label(res[1][0])
        with open(p, 'wb') as f:
            f.write(b)
    ctx.nontrivial(n > 0)


COMPONENTS = [Component('truncated_' + name.replace('.', '_'), truncated(name), check_truncated, quick=12 if name == 'c18.raaw' else 50, thorough=200 if name == 'c18.raaw' else 1000) for name in sorted(DAMAGE)]
COMPONENTS += [Component('mutated_' + name.replace('.', '_'), mutated(name), check_mutated, quick=8, thorough=400) for name in sorted(c21.BY_GEN)]
COMPONENTS += [Component('mutated_examples', mutated(), check_mutated, quick=60, thorough=2500, shards=4)]
