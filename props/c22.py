"""C22: readers are pure: results depend on the file only, not on earlier calls; converting or exporting changes nothing."""
import hashlib, importlib, os, shutil
from hypothesis import strategies as st
import numpy as np
from vlib import core, canon as cn
from vlib.core import Component, Violation, require, REPO

RULE = 'a case counts when at least 2 objects were read and at least 4 operations were compared with the reference'
ASSUMPTIONS = [
    'the content of an object is its class, its public attributes (own dictionary items, attributes without the underscore of '
    'private caches for FASTInputFile) and its table; file name and size are not content',
    'a table returned by toDataFrame may share memory with the object: callers who modify it in place are outside the property',
]

MODULES = {'c01': None, 'c02': None, 'c03': None, 'c04': ('binary', 'text', 'elm'), 'c05': None, 'c06': None, 'c07': ('mann_layout',),
           'c09': None, 'c10': None, 'c11': None, 'c12': ('doc', 'edit', 'bodies'), 'c13': None, 'c14': None, 'c15': None, 'c16': None,
           'c17': None, 'c18': None, 'c19': None, 'c20': ('summary',), 'c27': ('wnd', 'series')}
EX = os.path.join(REPO, 'weio', 'tests', 'example_files')
MAXFILES = 6
DATED = ('ExcelFile', 'TurbSimFile', 'ROSCOPerformanceFile')     # their files contain the time of writing


def components():
    out = []
    for m in sorted(MODULES):
        mod = importlib.import_module('props.' + m)
        for c in mod.COMPONENTS:
            if MODULES[m] is None or c.name in MODULES[m]:
                out.append((m + '.' + c.name, c))
    return out


COMPS = dict(components())


def examples():
    """ example files with the companions they need"""
    out = {}
    for f in sorted(os.listdir(EX)):
        p = os.path.join(EX, f)
        if not os.path.isfile(p) or f.endswith('.dvr') or os.path.getsize(p) > 400000:
            continue
        fam = f
        for pre in ('FASTIn_', 'FASTOut', 'CSV', 'HAWC2_', 'BHAWC', 'Bladed_out_ascii', 'Bladed_out_binary_case2', 'Bladed_out_binary', 'FLEX',
                    'HAWCStab2', 'TurbSim', 'Tecplot', 'FASTLin'):
            if f.startswith(pre):
                fam = pre
                break
        out.setdefault(fam, []).append(f)
    return out


EXAMPLES = examples()


# ------------------------------------------------------------------ content of an object
def view(F):
    t = type(F).__name__
    if t.startswith('FASTInput') or hasattr(F, '_fixedfile') or hasattr(F, 'basefile'):
        return (t, tuple((str(k), cn.canon(F[k])) for k in F.keys()))
    d = {k: v for k, v in F.__dict__.items() if not (k in ('filename', 'encoding') or k.startswith('_'))}
    return (t, cn.canon(dict(F)), tuple((k, cn.canon(v)) for k, v in sorted(d.items())))


def load(path, like=None):
    """ the object of a file; files of a format that weio.read gives to another class (same extension) are read by their class"""
    import weio
    if os.path.basename(os.path.dirname(like or path)).startswith('rosco') and path.lower().endswith('.txt'):
        from weio.rosco_performance_file import ROSCOPerformanceFile
        return ROSCOPerformanceFile(path)
    return weio.read(path)


def reference(path, out):
    """ content, files written (if asked for) and table of a freshly read object; or the error"""
    try:
        F = load(path)
    except Exception as e:
        return ('error', type(e).__name__)
    v = view(F)
    w = write_to(F, out) if out else None
    return ('ok', v, cn.table(F), w)


def write_to(F, out):
    os.makedirs(os.path.dirname(out))
    name = getattr(F, 'filename', None)
    try:
        F.write(out)
    except Exception as e:
        return ('error', type(e).__name__)
    if type(F).__name__ == 'HAWC2HTCFile':      # its tables are those of the structural files next to it
        F.filename = name
    return ('ok', tree(os.path.dirname(out)))


def tree(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(r, f), 'rb') as fid:
                out[os.path.relpath(os.path.join(r, f), d)] = hashlib.sha1(fid.read()).hexdigest()
    return out


# ------------------------------------------------------------------ damage done by a careless user of an object
def damage(o, depth=0):
    if depth > 6:
        return
    if isinstance(o, np.ndarray):
        try:
            if o.dtype.kind in 'fiuc' and o.flags.writeable:
                o *= 3
                o += 7
            elif o.dtype == object:
                for x in o.ravel():
                    damage(x, depth + 1)
        except Exception:
            pass
    elif type(o).__name__ == 'DataFrame':
        try:
            o.insert(0, 'damaged', -1.0)
            for c in list(o.columns):
                o[c] = -5.0
        except Exception:
            pass
    elif isinstance(o, dict):
        for v in list(o.values()):
            damage(v, depth + 1)
        try:
            for k in list(o.keys()):
                if isinstance(o[k], (int, float, str)) and not isinstance(o[k], bool):
                    o[k] = 'damaged'
            o['damaged'] = 1
        except Exception:
            pass
        damage_attrs(o, depth)
    elif isinstance(o, list):
        for v in o:
            damage(v, depth + 1)
        o.reverse()
        o.append('damaged')
    elif type(o).__module__.startswith('weio'):
        damage_attrs(o, depth)


def damage_attrs(o, depth):
    for k, v in list(getattr(o, '__dict__', {}).items()):
        if k == 'filename':
            continue
        damage(v, depth + 1)
        if isinstance(v, (int, float, str)) and not isinstance(v, bool):
            try:
                setattr(o, k, 'damaged')
            except Exception:
                pass


# ------------------------------------------------------------------ cases
def op():
    i = st.integers(0, 99)
    return st.one_of(
        st.tuples(st.just('read'), i), st.tuples(st.just('read'), i), st.tuples(st.just('direct'), i),
        st.tuples(st.just('reread'), i, i), st.tuples(st.just('reread'), i, i), st.tuples(st.just('table'), i), st.tuples(st.just('write'), i),
        st.tuples(st.just('relative'), i), st.tuples(st.just('replace'), i, i), st.tuples(st.just('damage'), i), st.tuples(st.just('fail'), i, st.integers(0, 1000)), st.tuples(st.just('failreread'), i, st.integers(0, 1000))).map(list)


def ops(n):
    i = st.integers(0, 99)
    return st.tuples(i, i, st.lists(op(), min_size=3, max_size=n)).map(lambda t: [['read', t[0]], ['read', t[1]]] + t[2])


@st.composite
def gen_sources(draw, name):
    n = draw(st.integers(1, 2))
    out = [['gen', name, draw(COMPS[name].strategy)] for _ in range(n)]
    if draw(st.integers(0, 3)) == 0:
        other = draw(st.sampled_from(sorted(COMPS)))
        out.append(['gen', other, draw(COMPS[other].strategy)])
    return out


def case_generated(name):
    return st.fixed_dictionaries({'src': gen_sources(name), 'ops': ops(12)})


@st.composite
def case_examples(draw, fams):
    fam = draw(st.sampled_from(fams))
    files = draw(st.lists(st.sampled_from(EXAMPLES[fam]), min_size=1, max_size=4, unique=True))
    if draw(st.integers(0, 2)) == 0:
        files += draw(st.lists(st.sampled_from(sorted(f for fs in EXAMPLES.values() for f in fs)), min_size=1, max_size=2))
    return {'src': [['ex', f] for f in files], 'ops': draw(ops(14))}


def produce(src, d):
    """ (forked) create the files of the case"""
    os.makedirs(d)
    for i, s in enumerate(src):
        sub = os.path.join(d, '%s%d' % ('rosco' if s[1] == 'c17.rosco' else 's', i))
        os.mkdir(sub)
        if s[0] == 'ex':
            stem = os.path.splitext(s[1])[0]
            for f in os.listdir(EX):
                if f == s[1] or os.path.splitext(f)[0] == stem:
                    shutil.copy(os.path.join(EX, f), os.path.join(sub, f))
        else:
            try:
                COMPS[s[1]].check(s[2], core.Ctx(sub))
            except Exception:
                pass        # that is the business of the other properties; whatever files exist are used
    out = []
    for r, ds, fs in os.walk(d):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(r, f)
            if os.path.getsize(p) <= 400000 and not f.endswith('.dvr'):
                out.append(p)
    return out


def value(r):
    if r[0] != 'ok':
        raise RuntimeError('harness process: %r' % (r[1:],))
    return r[1]


def pick(out):
    """ at most MAXFILES files, spread over the sources"""
    if len(out) <= MAXFILES:
        return out
    step = len(out) / float(MAXFILES)
    return [out[int(i * step)] for i in range(MAXFILES)]


def replace_files(case, d, files):
    """ for every operation 'replace': a path, and the two contents it has one after the other"""
    out = []
    for o in case['ops']:
        if o[0] == 'replace':
            i, j = o[1] % len(files), o[2] % len(files)
            dd = os.path.join(d, 'rep%d' % len(out))
            os.mkdir(dd)
            b = []
            for k in (i, j):
                with open(files[k], 'rb') as f:
                    b.append(f.read())
            out.append((os.path.join(dd, os.path.basename(files[i])), b))
    return out


def strip(v, folder):
    """ without the folder in the names of files that are part of the content"""
    if isinstance(v, str):
        return v.replace(folder + os.sep, '').replace('./', '')
    if isinstance(v, dict):
        return {k: strip(x, folder) for k, x in v.items()}
    if isinstance(v, (tuple, list)):
        return type(v)(strip(x, folder) for x in v)
    return v


def put(p, b):
    with open(p, 'wb') as f:
        f.write(b)


def run_history(case, d, files, refs, reps, reprefs):
    """ (forked) the history; returns (violation or None, number of comparisons, number of objects)"""
    import weio
    before = tree(os.path.join(d, 'src'))
    slots = []     # (object, index of file)
    n = dict(cmp=0, obj=0, w=0, f=0, rep=0)
    good = [i for i, r in enumerate(refs) if r[0] == 'ok']

    def same(what, a, b):
        n['cmp'] += 1
        dd = cn.diff(a, b)
        require(dd is None, '%s: %s', what, dd)

    def check_obj(what, F, i):
        same('%s %s: content differs from the content of the file read in a new process' % (what, os.path.basename(files[i])), refs[i][1], view(F))

    def junk(i, k):
        with open(files[i], 'rb') as f:
            b = f.read()
        n['f'] += 1
        dd = os.path.join(d, 'junk%d' % n['f'])
        os.mkdir(dd)
        p = os.path.join(dd, os.path.basename(files[i]))
        cut = len(b) * k // 1000
        with open(p, 'wb') as f:
            f.write(b[:cut] if k % 3 else b[:cut] + b'\n#\x00!! (/= "\n' + b[cut // 2:cut])
        return p

    for o in case['ops']:
        kind = o[0]
        if kind == 'read':
            i = o[1] % len(files)
            r = None
            try:
                F = load(files[i])
            except Exception as e:
                r = ('error', type(e).__name__)
            if r is not None:
                same('reading %s' % os.path.basename(files[i]), refs[i][:2], r)
            else:
                require(refs[i][0] == 'ok', 'reading %s succeeds here, and fails in a new process (%s)', os.path.basename(files[i]), refs[i][1])
                check_obj('reading', F, i)
                slots.append((F, i))
                n['obj'] += 1
        elif kind == 'direct' and good:
            i = good[o[1] % len(good)]
            cls = [x.constructor for x in weio.fileFormats() if x.constructor.__name__ == refs[i][1][0]][0]
            F = cls(files[i])
            check_obj('constructing', F, i)
            slots.append((F, i))
            n['obj'] += 1
        elif kind == 'reread' and slots:
            s = o[1] % len(slots)
            F, j = slots[s]
            cand = [i for i in good if refs[i][1][0] == refs[j][1][0]]
            i = cand[o[2] % len(cand)]
            F.read(files[i])
            slots[s] = (F, i)
            check_obj('an object of %s that reads' % os.path.basename(files[j]), F, i)
            same('table of the object that reads %s' % os.path.basename(files[i]), refs[i][2], cn.table(F))
        elif kind == 'table' and slots:
            F, i = slots[o[1] % len(slots)]
            same('table of %s' % os.path.basename(files[i]), refs[i][2], cn.table(F))
            same('second table of %s' % os.path.basename(files[i]), refs[i][2], cn.table(F))
            check_obj('after toDataFrame,', F, i)
        elif kind == 'write' and slots:
            F, i = slots[o[1] % len(slots)]
            n['w'] += 1
            out = os.path.join(d, 'w%d' % n['w'], 'o', os.path.basename(files[i]))
            r = write_to(F, out)
            check_obj('after write (%s),' % r[0], F, i)
            w = refs[i][3]
            if w is not None and refs[i][1][0] not in DATED:
                if r[0] != w[0] or w[0] == 'error':
                    same('writing %s' % os.path.basename(files[i]), tuple(w), tuple(r))
                else:
                    same('files written for %s' % os.path.basename(files[i]), tuple(sorted(w[1].items())), tuple(sorted(r[1].items())))
        elif kind == 'relative' and good:
            i = good[o[1] % len(good)]
            cwd = os.getcwd()
            os.chdir(os.path.dirname(files[i]))
            try:
                F = load(os.path.basename(files[i]), like=files[i])
                same('table of %s, read from its folder' % os.path.basename(files[i]), refs[i][2], cn.table(F))
                same('reading %s from its folder: content' % os.path.basename(files[i]), strip(refs[i][1], os.path.dirname(files[i])), strip(view(F), os.path.dirname(files[i])))
                require(os.getcwd() == os.path.dirname(files[i]), 'reading changes the current directory')
            finally:
                os.chdir(cwd)
        elif kind == 'replace':
            p, bs = reps[n['rep']]
            last = None
            for b, ref in zip(bs, reprefs[n['rep']]):
                put(p, b)
                r, F = None, None
                try:
                    F = weio.read(p)
                except Exception as e:
                    r = ('error', type(e).__name__)
                name = os.path.basename(p)
                what = 'reading %s, whose content was replaced,' % name if b is bs[1] else 'reading %s' % name
                if r is not None:
                    same(what, ref[:2], r)
                    continue
                require(ref[0] == 'ok', '%s succeeds here, and fails in a new process (%s)', what, ref[1])
                same(what + ' content', ref[1], view(F))
                same(what + ' table', ref[2], cn.table(F))
                if last is not None and type(last).__name__ == ref[1][0]:
                    last.read(p)
                    same('an object which reads %s again after its content was replaced' % name, ref[1], view(last))
                    same('table of an object which reads %s again after its content was replaced' % name, ref[2], cn.table(last))
                last = F
            n['rep'] += 1
        elif kind == 'damage' and slots:
            s = o[1] % len(slots)
            F, i = slots.pop(s)
            damage(F)
        elif kind == 'fail':
            i = o[1] % len(files)
            try:
                weio.read(junk(i, o[2]))
            except Exception:
                pass
        elif kind == 'failreread' and slots:
            s = o[1] % len(slots)
            F, j = slots[s]
            try:
                F.read(junk(j, o[2]))
            except Exception:
                pass
            # a later, successful, read makes the object that of the file
            F.read(files[j])
            check_obj('an object which read a damaged file, and now reads', F, j)
            same('table of the object which read a damaged file, and now reads %s' % os.path.basename(files[j]), refs[j][2], cn.table(F))
        require(tree(os.path.join(d, 'src')) == before, 'operation %r changes files it has not been asked to write', o)
    for F, i in slots:
        check_obj('at the end,', F, i)
    return n['cmp'], n['obj']


def check(case, ctx):
    import weio
    weio.fileFormats()
    d = ctx.dir
    src = os.path.join(d, 'src')
    files = pick(value(cn.pristine(lambda: produce(case['src'], src))))
    if not files:
        ctx.nontrivial(False)
        return
    writes = any(o[0] == 'write' for o in case['ops'])
    refs = []
    for i, p in enumerate(files):
        out = os.path.join(d, 'ref%d' % i, 'o', os.path.basename(p)) if writes else None
        refs.append(value(cn.pristine(lambda: reference(p, out))))
    reps, reprefs = replace_files(case, d, files), []
    for p, bs in reps:
        both = []
        for b in bs:
            put(p, b)
            both.append(value(cn.pristine(lambda: reference(p, None))))
        reprefs.append(both)
        os.remove(p)
    r = cn.pristine(lambda: run_history(case, d, files, refs, reps, reprefs))
    if r[0] != 'ok':
        raise Violation('%s: %s' % (r[1], r[2]))
    ncmp, nobj = r[1]
    ctx.nontrivial(ncmp >= 4 and nobj >= 2)
    for x in refs:
        ctx.label('class: %s' % x[1][0] if x[0] == 'ok' else 'unreadable')


COMPONENTS = [Component('generated_' + name.replace('.', '_'), case_generated(name), check, quick=4 if name == 'c18.raaw' else 14, thorough=600) for name in sorted(COMPS)]
FAMILIES = sorted(EXAMPLES)
COMPONENTS += [Component('examples_%d' % i, case_examples(FAMILIES[i::7]), check, quick=28, thorough=1000) for i in range(7)]
