"""C30: several threads that read, tabulate and write files at the same time each get what they get alone."""
import importlib, os, sys, threading
from hypothesis import strategies as st
from vlib import core, canon as cn
from vlib.core import Component, Violation, require, REPO
from props import c22

RULE = 'a case counts when at least 2 threads did at least one operation each and control passed between unfinished threads at least 4 times'
ASSUMPTIONS = [
    'control passes from a thread to another between two lines of the code of weio, at the places the case says; the libraries that weio uses run without interruption',
    'every thread writes to a file of its own; an object that several threads use is only asked for its table',
]
CODE = os.path.join(os.path.realpath(REPO), 'weio') + os.sep


MAXSWITCH = 4000


class Scheduler:
    """ one thread runs at a time; after the number of lines given by the plan, the next one goes on"""

    def __init__(self, n, plan, stride):
        self.cond = threading.Condition()
        self.plan = list(plan)
        self.stride = stride
        self.alive = list(range(n))
        self.free = False
        self.progress = 0
        self.switches = 0
        self.current, self.left = None, 0
        self.turn()

    def turn(self):
        """ (with the lock) who is next, and for how long"""
        if not self.alive:
            self.current = None
            return
        if self.plan:
            k, n = self.plan.pop(0)
            nxt = self.alive[k % len(self.alive)]
        else:
            later = [t for t in self.alive if self.current is not None and t > self.current]
            nxt, n = (later or self.alive)[0], self.stride
        if self.current in self.alive and nxt != self.current:
            self.switches += 1
        if self.switches > MAXSWITCH:       # the rest one after the other
            n = 10 ** 9
        self.current, self.left = nxt, n

    def wait(self, tid):
        while self.current != tid and not self.free:
            p = self.progress
            if not self.cond.wait(5) and p == self.progress:
                self.free = True        # the running thread waits for something a paused one has: go on without order
                self.cond.notify_all()

    def start(self, tid):
        with self.cond:
            self.wait(tid)

    def point(self, tid):
        if self.free:
            return
        self.progress += 1
        self.left -= 1
        if self.left > 0:
            return
        with self.cond:
            self.turn()
            if self.current != tid:
                self.cond.notify_all()
                self.wait(tid)

    def end(self, tid):
        with self.cond:
            self.alive.remove(tid)
            if self.current == tid:
                self.turn()
            self.cond.notify_all()


def run(jobs, plan, stride):
    """ outcome of every job (a function without argument), number of switches"""
    S = Scheduler(len(jobs), plan, stride)
    out = [None] * len(jobs)

    def body(tid):
        def local(frame, event, arg):
            if event == 'line':
                S.point(tid)
            return local

        def tracer(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(CODE) else None
        S.start(tid)
        sys.settrace(tracer)
        try:
            out[tid] = ('done', jobs[tid]())
        except BaseException as e:
            out[tid] = ('failed', e)
        finally:
            sys.settrace(None)
            S.end(tid)
    T = [threading.Thread(target=body, args=(i,)) for i in range(len(jobs))]
    for t in T:
        t.start()
    for t in T:
        t.join()
    return out, S.switches, S.free


# ------------------------------------------------------------------ cases
i99 = st.integers(0, 99)
OP = st.one_of(st.tuples(st.just('read'), i99), st.tuples(st.just('read'), i99), st.tuples(st.just('direct'), i99), st.tuples(st.just('relative'), i99), st.tuples(st.just('table')), st.tuples(st.just('write')), st.tuples(st.just('shared'), i99), st.tuples(st.just('formats'))).map(list)

STRIDE = st.sampled_from([1, 1, 1, 2, 3, 5, 12, 45, 100, 300])


@st.composite
def body(draw):
    n = draw(st.integers(2, 3))
    i = draw(i99)
    first = [draw(st.sampled_from([i, i, draw(i99)])) for _ in range(n)]
    steps = st.one_of(st.integers(1, 6), st.integers(1, 60), st.integers(1, 1500))
    then = draw(st.sampled_from([[], [['table']], [['table']], [['write']]]))
    return dict(jobs=[[['read', k]] + then + draw(st.lists(OP, min_size=0, max_size=3)) for k in first], plan=draw(st.lists(st.tuples(st.integers(0, 2), steps).map(list), max_size=25)),
                rounds=draw(st.tuples(st.tuples(st.just(0), STRIDE), st.tuples(st.integers(1, 3), st.just(1)), st.tuples(st.one_of(st.integers(0, 12), st.integers(0, 150)), STRIDE), st.tuples(st.integers(1, 6), st.integers(1, 2))).map(lambda t: [list(x) for x in t])), cold=draw(st.integers(0, 3)) == 0)


def case_generated(name):
    return st.tuples(c22.gen_sources(name), body()).map(lambda t: dict(t[1], src=t[0]))


def case_examples(fams):
    return st.tuples(c22.case_examples(fams), body()).map(lambda t: dict(t[1], src=t[0]['src']))


def history(case, d, files, refs, rnd, plan, stride):
    import weio
    good = [i for i, r in enumerate(refs) if r[0] == 'ok']
    formats = [f.constructor.__name__ for f in weio.fileFormats()]
    shared = {i: c22.load(files[i]) for i in good if any(o[0] == 'shared' for ops in case['jobs'] for o in ops)}
    if case['cold']:        # the list of formats is not known yet
        importlib.reload(weio)

    cwd = os.path.realpath(d)

    def same(what, a, b):
        dd = cn.diff(a, b)
        require(dd is None, '%s: %s', what, dd)

    def job(tid, ops):
        def go():
            obj, n = None, 0
            for k, o in enumerate(ops):
                if o[0] in ('read', 'relative'):
                    i = o[1] % len(files)
                    name = os.path.basename(files[i])
                    folder = os.path.dirname(files[i])
                    try:
                        F = c22.load(files[i] if o[0] == 'read' else os.path.relpath(files[i], cwd))
                    except Exception as e:
                        same('reading %s' % name, refs[i][:2], ('error', type(e).__name__))
                        continue
                    require(refs[i][0] == 'ok', 'reading %s succeeds here, and fails alone (%s)', name, refs[i][1])
                    if o[0] == 'read':
                        same('content of %s' % name, refs[i][1], c22.view(F))
                        obj = (F, i)
                    else:
                        same('content of %s, read with a relative path' % name, c22.strip(refs[i][1], folder), c22.strip(c22.strip(c22.view(F), os.path.relpath(folder, cwd)), folder))
                    n += 1
                elif o[0] == 'direct' and good:
                    i = good[o[1] % len(good)]
                    cls = [x.constructor for x in weio.fileFormats() if x.constructor.__name__ == refs[i][1][0]][0]
                    F = cls(files[i])
                    same('content of %s, read by its class' % os.path.basename(files[i]), refs[i][1], c22.view(F))
                    obj = (F, i)
                    n += 1
                elif o[0] == 'table' and obj:
                    same('table of %s' % os.path.basename(files[obj[1]]), refs[obj[1]][2], cn.table(obj[0]))
                elif o[0] == 'shared' and good:
                    i = good[o[1] % len(good)]
                    same('table of the object of %s that several threads use' % os.path.basename(files[i]), refs[i][2], cn.table(shared[i]))
                elif o[0] == 'formats':
                    same('list of formats', formats, [f.constructor.__name__ for f in weio.fileFormats()])
                elif o[0] == 'write' and obj:
                    F, i = obj
                    name = os.path.basename(files[i])
                    r = c22.write_to(F, os.path.join(d, 'w%d_%d_%d' % (rnd, tid, k), 'o', name))
                    w = refs[i][3]
                    if w is None or refs[i][1][0] in c22.DATED:
                        require(w is None or r[0] == w[0], 'writing %s: %s, alone: %s', name, r[0], w and w[0])
                    elif r[0] != w[0] or w[0] == 'error':
                        same('writing %s' % name, tuple(w), tuple(r))
                    else:
                        same('files written for %s' % name, tuple(sorted(w[1].items())), tuple(sorted(r[1].items())))
            return n
        return go
    before = c22.tree(os.path.join(d, 'src'))
    os.chdir(cwd)
    out, switches, free = run([job(t, ops) for t, ops in enumerate(case['jobs'])], plan, stride)
    for t, o in enumerate(out):
        if o[0] == 'failed':
            if isinstance(o[1], Violation):
                raise Violation('in thread %d of %d: %s' % (t + 1, len(out), o[1]))
            raise o[1]
    for i, F in shared.items():
        same('content of the object of %s that several threads used' % os.path.basename(files[i]), refs[i][1], c22.view(F))
    require(os.getcwd() == cwd, 'the current directory has changed')
    require(c22.tree(os.path.join(d, 'src')) == before, 'the files that were read have changed')
    return sum(o[1] for o in out), switches, free


def histories(case, d, files, refs):
    """ the jobs with the plan; then with one thread some lines ahead of the others, and control passing after every few lines"""
    out = (0, 0, False)
    for k, (lag, stride) in enumerate(case['rounds']):
        r = history(case, d, files, refs, k, case['plan'] if k == 0 else [[0, lag]], stride)
        out = (max(out[0], r[0]), max(out[1], r[1]), out[2] or r[2])
    return out


def check(case, ctx):
    import weio
    weio.fileFormats()
    d = ctx.dir
    src = os.path.join(d, 'src')
    files = c22.pick(c22.value(cn.pristine(lambda: c22.produce(case['src'], src))))
    if not files:
        ctx.nontrivial(False)
        return
    writes = any(o[0] == 'write' for ops in case['jobs'] for o in ops)
    used = sorted(set(o[1] % len(files) for ops in case['jobs'] for o in ops if o[0] == 'read'))
    case = dict(case, jobs=[[['read', used.index(o[1] % len(files))] if o[0] == 'read' else o for o in ops] for ops in case['jobs']])
    files = [files[i] for i in used]
    refs = []
    for i, p in enumerate(files):
        out = os.path.join(d, 'ref%d' % i, 'o', os.path.basename(p)) if writes else None
        refs.append(c22.value(cn.pristine(lambda: c22.reference(p, out))))
    r = cn.pristine(lambda: histories(case, d, files, refs))
    if r[0] != 'ok':
        raise Violation('%s: %s' % (r[1], r[2]))
    nobj, switches, free = r[1]
    ctx.nontrivial(nobj >= 2 and switches >= 4)
    if free:
        ctx.label('not in the order of the plan')
    for x in refs:
        ctx.label('class: %s' % x[1][0] if x[0] == 'ok' else 'unreadable')


COMPONENTS = [Component('generated_' + name.replace('.', '_'), case_generated(name), check, quick=2 if name == 'c18.raaw' else 16, thorough=400) for name in sorted(c22.COMPS)]
COMPONENTS += [Component('examples_%d' % i, case_examples(c22.FAMILIES[i::6]), check, quick=30, thorough=800) for i in range(6)]
