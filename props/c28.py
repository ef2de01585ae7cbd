"""C28: copies and pickles of file objects are complete and independent; printing an object works and changes nothing."""
import copy, os, pickle
from hypothesis import strategies as st
import numpy as np
from vlib import core, canon as cn
from vlib.core import Component, Violation, require
from props import c22

RULE = 'a case counts when at least 2 copies were made and compared'
ASSUMPTIONS = [
    'a shallow copy (copy.copy) shares its values with the original: only its content is compared',
    'content, table and files written are those of C22',
]


def probe(F):
    """ content, table and accessors of an object"""
    t = type(F).__name__
    out = [c22.view(F), cn.table(F)]
    if t == 'HAWC2StFile' and getattr(F, 'data', None) is not None:
        S = F.data
        out.append(tuple(cn.canon([np.asarray(getattr(S, c)(None, m, s)) for m in S.main_data_sets for s in S.main_data_sets[m]]) for c in S.cols if callable(getattr(S, c, None)) and c != 'r'))
    if t == 'HAWC2HTCFile' and getattr(F, 'data', None) is not None:
        out.append(str(F.data))
    if t == 'FASTInputFile':
        G = getattr(F, '_fixedfile', None)
        out.append(type(G).__name__)
        try:
            out.append(F.toString() if hasattr(F, 'toString') else None)
        except Exception as e:
            out.append(type(e).__name__)
    return tuple(out)


def tweak(o, depth=0, seen=None):
    """ an orderly edit: real numbers are doubled, in place"""
    seen = set() if seen is None else seen
    if depth > 8 or id(o) in seen:
        return
    seen.add(id(o))
    if isinstance(o, np.ndarray):
        if o.dtype.kind == 'f' and o.flags.writeable:
            o *= 2
        elif o.dtype == object:
            for k in np.ndindex(o.shape):
                if isinstance(o[k], float):
                    o[k] *= 2
    elif type(o).__name__ == 'DataFrame':
        for j in range(o.shape[1]):
            if o.dtypes.iloc[j].kind == 'f':
                o.isetitem(j, o.iloc[:, j].values * 2)
    elif isinstance(o, dict):
        for k in list(o.keys()):
            if type(o[k]) is float:
                o[k] = o[k] * 2
            else:
                tweak(o[k], depth + 1, seen)
    elif isinstance(o, list):
        for k in range(len(o)):
            if type(o[k]) is float:
                o[k] = o[k] * 2
            else:
                tweak(o[k], depth + 1, seen)
    if type(o).__module__.startswith('weio'):
        if type(o).__name__ == 'FASTInputFile':
            tweak(o.fixedfile, depth + 1, seen)
        for k, v in list(getattr(o, '__dict__', {}).items()):
            if k != 'filename':
                tweak(v, depth + 1, seen)


def reference(path, out):
    try:
        F = c22.load(path)
    except Exception as e:
        return ('error', type(e).__name__)
    r = probe(F)
    w = c22.write_to(F, out) if out else None
    return ('ok', type(F).__name__, r, w)


def op():
    i = st.integers(0, 99)
    return st.one_of(
        st.tuples(st.just('read'), i), st.tuples(st.just('deepcopy'), i), st.tuples(st.just('deepcopy'), i),
        st.tuples(st.just('pickle'), i, st.integers(2, pickle.HIGHEST_PROTOCOL)), st.tuples(st.just('send'), i), st.tuples(st.just('shallow'), i),
        st.tuples(st.just('print'), i), st.tuples(st.just('damage'), i), st.tuples(st.just('edit'), i), st.tuples(st.just('edit'), i), st.tuples(st.just('table'), i),
        st.tuples(st.just('write'), i), st.tuples(st.just('reread'), i)).map(list)


def ops(n):
    i = st.integers(0, 99)
    first = st.sampled_from([['deepcopy', 0], ['pickle', 0, 2], ['pickle', 0, pickle.HIGHEST_PROTOCOL]])
    return st.tuples(i, first, st.lists(op(), min_size=2, max_size=n)).map(lambda t: [['read', t[0]], t[1]] + t[2])


def run_history(case, d, files, refs):
    """ (forked)"""
    import weio
    before = c22.tree(os.path.join(d, 'src'))
    good = [i for i, r in enumerate(refs) if r[0] == 'ok']
    slots, nw, ncopies = [], 0, 0

    def same(what, i, want, F):
        dd = cn.diff(want, probe(F))
        require(dd is None, '%s %s (%s): %s', what, os.path.basename(files[i]), refs[i][1], dd)

    def others(what, F):
        for G, j, want in slots:
            if G is not F:
                same('after another object %s, object of' % what, j, want, G)

    for o in case['ops']:
        kind = o[0]
        if kind == 'read':
            i = good[o[1] % len(good)]
            slots.append((c22.load(files[i]), i, refs[i][2]))
            continue
        if not slots:
            continue
        s = o[1] % len(slots)
        F, i, want = slots[s]
        name = os.path.basename(files[i])
        edited = want is not refs[i][2]
        if kind in ('deepcopy', 'pickle', 'shallow'):
            try:
                G = copy.deepcopy(F) if kind == 'deepcopy' else copy.copy(F) if kind == 'shallow' else pickle.loads(pickle.dumps(F, o[2]))
            except Exception as e:
                raise Violation('%s of the object of %s (%s) fails: %s: %s' % (kind, name, refs[i][1], type(e).__name__, str(e)[:100]))
            require(type(G) is type(F), '%s of %s has class %s', kind, refs[i][1], type(G).__name__)
            require(G.filename == F.filename, '%s of the object of %s: file name %r', kind, name, G.filename)
            same('%s of the %sobject of' % (kind, 'edited ' if edited else ''), i, want, G)
            ncopies += 1
            if kind != 'shallow':
                slots.append((G, i, want))
        elif kind == 'send':
            b = pickle.dumps(F)
            r = c22.value(cn.pristine(lambda: probe(pickle.loads(b))))
            dd = cn.diff(want, r)
            require(dd is None, 'the object of %s (%s) sent to another process: %s', name, refs[i][1], dd)
            ncopies += 1
        elif kind == 'print':
            for f in (repr, str) if not edited else ():
                try:
                    t = f(F)
                except Exception as e:
                    raise Violation('%s of the object of %s (%s) raises %s: %s' % (f.__name__, name, refs[i][1], type(e).__name__, str(e)[:100]))
                require(isinstance(t, str) and len(t) > 0, '%s of the object of %s: %r', f.__name__, name, t)
            same('after printing, object of', i, want, F)
        elif kind == 'edit':
            tweak(F)
            slots[s] = (F, i, probe(F))
            others('was edited', F)
        elif kind == 'damage':
            c22.damage(F)
            slots.pop(s)
            others('was modified', F)
        elif kind == 'table':
            cn.table(F)
            same('after toDataFrame, object of', i, want, F)
        elif kind == 'reread':
            F.read(files[i])
            slots[s] = (F, i, refs[i][2])
            same('an object that reads again', i, refs[i][2], F)
            others('read its file again', F)
        elif kind == 'write':
            nw += 1
            w = refs[i][3]
            if edited:
                w = c22.write_to(copy.deepcopy(F), os.path.join(d, 'v%d' % nw, 'o', name))
            r = c22.write_to(F, os.path.join(d, 'w%d' % nw, 'o', name))
            if refs[i][1] not in c22.DATED:
                require(cn.diff(cn.canon(w), cn.canon(r)) is None, 'files written by a copy of the object of %s (%s): %r, by the object itself: %r', name, refs[i][1], r, w)
    for F, i, want in slots:
        same('at the end, object of', i, want, F)
    require(c22.tree(os.path.join(d, 'src')) == before, 'files that were not to be written have changed')
    return ncopies


def check(case, ctx):
    import weio
    weio.fileFormats()
    d = ctx.dir
    src = os.path.join(d, 'src')
    files = c22.pick(c22.value(cn.pristine(lambda: c22.produce(case['src'], src))))[:4]
    writes = any(o[0] == 'write' for o in case['ops'])
    refs = []
    for i, p in enumerate(files):
        out = os.path.join(d, 'ref%d' % i, 'o', os.path.basename(p)) if writes else None
        refs.append(c22.value(cn.pristine(lambda: reference(p, out))))
    if not any(r[0] == 'ok' for r in refs):
        ctx.nontrivial(False)
        return
    r = cn.pristine(lambda: run_history(case, d, files, refs))
    if r[0] != 'ok':
        raise Violation('%s: %s' % (r[1], r[2]))
    ctx.nontrivial(r[1] >= 2)
    for x in refs:
        ctx.label('class: %s' % x[1] if x[0] == 'ok' else 'unreadable')


def case_generated(name):
    return st.fixed_dictionaries({'src': st.tuples(st.just('gen'), st.just(name), c22.COMPS[name].strategy).map(lambda t: [list(t)]), 'ops': ops(9)})


@st.composite
def case_examples(draw, fams):
    fam = draw(st.sampled_from(fams))
    files = draw(st.lists(st.sampled_from(c22.EXAMPLES[fam]), min_size=1, max_size=2, unique=True))
    return {'src': [['ex', f] for f in files], 'ops': draw(ops(10))}


COMPONENTS = [Component('generated_' + name.replace('.', '_'), case_generated(name), check, quick=4 if name == 'c18.raaw' else 12, thorough=500) for name in sorted(c22.COMPS)]
COMPONENTS += [Component('examples_%d' % i, case_examples(c22.FAMILIES[i::7]), check, quick=24, thorough=1000) for i in range(7)]
