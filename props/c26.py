"""C26: an input deck has the files its main file refers to, for every layout and history; a written deck reads back as the same deck."""
import contextlib, io, os
from hypothesis import strategies as st
from vlib import canon as cn, gens as g
from vlib.core import Component, Violation, require

RULE = 'a case counts when a main file referring to at least one module file was read'
ASSUMPTIONS = [
    'the library reads one blade file (the first) of ElastoDyn, BeamDyn and AeroDyn: decks are generated with the same file for the three blades',
    'write: files the library does not handle (AeroDyn blades and profiles with relative names, wind files, Ice, FEAM, OrcaFlex) are not claimed; all modules in use were read',
    'module files are lists of values: the content of the formats is the subject of C01 to C03',
]
MODULES = ['ElastoDyn', 'ElastoDynTower', 'ElastoDynBlade', 'InflowWind', 'AeroDyn14', 'AeroDyn15', 'AeroDynBlade', 'ServoDyn', 'HydroDyn', 'MoorDyn', 'SubDyn', 'MAP', 'BeamDyn', 'BeamDynBlade']
SHORT = {'ElastoDyn': 'ED', 'ElastoDynTower': 'EDtwr', 'ElastoDynBlade': 'EDbld', 'InflowWind': 'IW', 'AeroDyn14': 'AD', 'AeroDyn15': 'AD', 'AeroDynBlade': 'ADbld', 'ServoDyn': 'SrvD',
         'HydroDyn': 'HD', 'MoorDyn': 'MD', 'SubDyn': 'SD', 'MAP': 'MD', 'BeamDyn': 'BD', 'BeamDynBlade': 'BDbld'}
KEYS = ['ED', 'AD', 'BD', 'BDbld', 'EDtwr', 'EDbld', 'ADbld', 'AF', 'AC', 'IW', 'HD', 'SrvD', 'SD', 'MD']
REFS = ['EDFile', 'BDBldFile(1)', 'BDBldFile(2)', 'BDBldFile(3)', 'InflowFile', 'AeroFile', 'ServoFile', 'HydroFile', 'SubFile', 'MooringFile', 'IceFile',
        'TwrFile', 'BldFile1', 'BldFile2', 'BldFile3', 'BldFile(1)', 'BldFile(2)', 'BldFile(3)', 'BldFile']
UNUSED = ['unused', 'none', 'NA', 'Unused', 'NONE', 'NaN', 'UNUSED', 'na', 'UnUsed', 'nan', 'None', 'NAN']


def ref(status=('ok',) * 8 + ('missing', 'unused')):
    return st.fixed_dictionaries(dict(dir=st.sampled_from(['', '', 'sub', 'sub/deep', 'a b', '../shared', 'ABS']), quote=st.booleans(), s=st.sampled_from(status), name=g.ident(1, 6),
                                      u=st.sampled_from(UNUSED), v=g.finite(-1000, 1000, 3), comment=st.booleans()))


@st.composite
def deck(draw, complete=False, version=None):
    r = ref(('ok',)) if complete else ref()
    ver = version or draw(st.sampled_from(['OF2'] * 6 + ['AD_driver', 'F7']))
    d = {'ver': ver, 'dir': draw(st.sampled_from(['deck', 'deck', 'my deck', 'deck/case'])), 'main': draw(g.ident(1, 8)),
         'elast': draw(st.sampled_from([1, 1, 2])), 'inflow': draw(st.integers(0, 1)), 'aero': draw(st.sampled_from([0, 1, 2, 2, 2])), 'servo': draw(st.integers(0, 1)),
         'hydro': draw(st.integers(0, 1)), 'sub': draw(st.integers(0, 1)), 'moor': draw(st.integers(0, 2)), 'old': draw(st.booleans()), 'tmax': draw(g.finite(0, 1e4, 2)),
         'refs': {m: draw(r) for m in ('ElastoDyn', 'ElastoDynTower', 'ElastoDynBlade', 'InflowWind', 'AeroDyn', 'AeroDynBlade', 'ServoDyn', 'HydroDyn', 'SubDyn', 'Mooring', 'BeamDyn', 'BeamDynBlade')},
         'af': [dict(draw(r), coords=draw(st.sampled_from(['0', '0', '@', '@', 'absent'])), crel=draw(ref(('ok', 'ok', 'missing')))) for _ in range(draw(st.integers(1, 4)))]}
    return d


# ------------------------------------------------------------------ files of a deck, and what must be read from them
def module_text(kind, tag, comment, lines=()):
    L = ['------- %s INPUT FILE -------' % kind, 'generated for the deck']
    if comment:
        L += ['---------------------- SIMULATION CONTROL --------------------------------------']
    L += ['False         Echo       - Echo the input', '%s       UniqueTag     - tag of this file' % tag]
    more = ['0.0125      DT        - time step', '%d      NumberOf      - a count' % len(lines), '"text"   Text    - text', 'True     Flag     - flag']
    return '\n'.join(L + more + list(lines)) + '\n'


class Layout(object):
    """ writes a deck below root; `expect`: key -> None, or (tag, path)"""

    def __init__(self, d, root, n=0):
        self.d, self.n, self.count = d, n, 0
        self.root = root
        self.dir = os.path.join(root, d['dir'])
        os.makedirs(self.dir, exist_ok=True)
        self.expect = dict((m, None) for m in MODULES)
        self.path = {}
        self.af, self.ac = [], []
        self.main = os.path.join(self.dir, d['main'] + ('.dvr' if d['ver'] == 'AD_driver' else '.fst'))
        self.build()

    def place(self, r, base, kind, make, ext='.dat', sub=None):
        """ text of the reference (relative to base), and (tag, path) of the file, or None"""
        self.count += 1
        name = '%s_%s%d%s' % (kind, r['name'], self.count, ext)
        if r['s'] == 'unused':
            name = r['u']
        d = os.path.join(self.root, 'abs') if r['dir'] == 'ABS' else os.path.normpath(os.path.join(base, r['dir'] if sub is None else sub))
        p = os.path.join(d, name)
        text = (p if r['dir'] == 'ABS' else os.path.join(r['dir'] if sub is None else sub, name))
        if r['s'] == 'unused' and r['dir'] == 'ABS':
            text = name
        if r['quote'] or ' ' in text or make is None or text.lower() == 'nan':
            text = '"%s"' % text
        if r['s'] != 'ok':
            if r['s'] == 'unused' and make and r['comment']:      # a file of that name exists, and is not part of the deck
                os.makedirs(d, exist_ok=True)
                with open(p, 'w') as f:
                    f.write(module_text(kind, '-1', False))
            return text, None
        os.makedirs(d, exist_ok=True)
        tag = round(r['v'] + 1e5 * (self.n + 1) + 2000 * self.count, 3)
        if make:
            with open(p, 'w') as f:
                f.write(make(p, tag))
        return text, (tag, p)

    def simple(self, kind, r, base, lines=()):
        return self.place(r, base, kind, lambda p, tag: module_text(kind, repr(tag), r['comment'], lines))

    def build(self):
        d, R, E = self.d, self.d['refs'], self.expect
        if d['ver'] == 'F7':
            L = ['%r     TMax      - time' % d['tmax'], '0.01     DT   - time step', '"Tower.dat"   TwrFile   - tower', '"AD.ipt"    ADFile   - aero']
        elif d['ver'] == 'AD_driver':
            L = ['%r     TMax      - time' % d['tmax'], '%s      AeroFile     - aero' % self.aerodyn('AeroDyn15'), '%d      CompInflow - wind' % d['inflow'], '%s    InflowFile - wind' % self.inflow(),
                 '1    NumTurbines - turbines']
        else:
            L = ['%r     TMax      - time' % d['tmax'], '2     InterpOrder  - order', '---------------------- FEATURE SWITCHES AND FLAGS ------------------------------']
            L += ['%d       %s      - switch' % (d[k], 'Comp' + k.capitalize().replace('Moor', 'Mooring')) for k in ('elast', 'inflow', 'aero', 'servo', 'hydro', 'sub', 'moor')]
            L += ['0       CompIce      - switch', '---------------------- INPUT FILES ---------------------------------------------']
            # ElastoDyn, with sub files relative to it
            base = self.base('ElastoDyn')
            twr, E['ElastoDynTower'] = self.simple('EDtwr', R['ElastoDynTower'], base)
            bld, E['ElastoDynBlade'] = self.simple('EDbld', R['ElastoDynBlade'], base)
            b = 'BldFile%d' if d['old'] else 'BldFile(%d)'
            t, E['ElastoDyn'] = self.simple('ED', R['ElastoDyn'], self.dir, ['%s     %s    - blade %d' % (bld, b % (i + 1), i + 1) for i in range(3)] + ['%s    TwrFile   - tower' % twr])
            if E['ElastoDyn'] is None:
                E['ElastoDynTower'] = E['ElastoDynBlade'] = None
            L += ['%s     EDFile     - ElastoDyn' % t]
            base = self.base('BeamDyn')
            bld, x = self.simple('BDbld', R['BeamDynBlade'], base)
            t, y = self.simple('BD', R['BeamDyn'], self.dir, ['%s     BldFile    - blade' % bld])
            if d['elast'] == 2:
                E['BeamDyn'], E['BeamDynBlade'] = y, (x if y else None)
            L += ['%s     BDBldFile(%d)    - BeamDyn' % (t, i + 1) for i in range(3)]
            L += ['%s    InflowFile   - wind' % self.inflow()]
            L += ['%s    AeroFile     - aero' % self.aerodyn({0: None, 1: 'AeroDyn14', 2: 'AeroDyn15'}[d['aero']])]
            for k, m, lab in [('servo', 'ServoDyn', 'ServoFile'), ('hydro', 'HydroDyn', 'HydroFile'), ('sub', 'SubDyn', 'SubFile'), ('moor', 'Mooring', 'MooringFile')]:
                t, x = self.simple(m, R[m], self.dir)
                if d[k] > 0:
                    E[{1: 'MAP', 2: 'MoorDyn'}[d[k]] if m == 'Mooring' else m] = x
                L += ['%s     %s    - file' % (t, lab)]
            L += ['"none"     IceFile    - ice']
        text = '\n'.join(['------- MAIN INPUT FILE -------', 'a generated deck', '---------------------- SIMULATION CONTROL --------------------------------------', 'False     Echo      - echo'] + L) + '\n'
        with open(self.main, 'w') as f:
            f.write(text)

    def base(self, m):
        r = self.d['refs'][m]
        return os.path.join(self.root, 'abs') if r['dir'] == 'ABS' else os.path.normpath(os.path.join(self.dir, r['dir']))

    def inflow(self):
        t, x = self.simple('IW', self.d['refs']['InflowWind'], self.dir)
        if self.d['inflow'] > 0:
            self.expect['InflowWind'] = x
        return t

    def aerodyn(self, key):
        d, R = self.d, self.d['refs']
        base = self.base('AeroDyn')
        old = key == 'AeroDyn14'
        bld, x = self.simple('ADbld', R['AeroDynBlade'], base)
        af, ac, names = [], [], []
        for a in d['af']:
            abase = os.path.join(self.root, 'abs') if a['dir'] == 'ABS' else os.path.normpath(os.path.join(base, a['dir']))
            lines, c = [], 'none'
            if a['coords'] == '0':
                lines = ['0      NumCoords     - no coordinates']
            elif a['coords'] == '@':
                sub = a['crel']['dir'] if a['crel']['dir'] not in ('ABS', 'a b') else ''
                crel = dict(a['crel'], dir='', quote=False)
                t, c = self.place(crel, abase, 'coords', lambda p, tag: module_text('COORDS', repr(tag), False), '.txt', sub=sub)
                lines = ['@"%s"     NumCoords   - coordinates' % t]
            t, f = self.simple('af', dict(a, quote=True), base, lines)
            names.append(t)
            af.append(f)
            if f and c != 'none':
                ac.append(c)
        lines = [] if old else ['%s    ADBlFile(%d)     - blade' % (bld, i + 1) for i in range(3)]
        dim, lab = ('NumFoil', 'FoilNm') if old else ('NumAFfiles', 'AFNames')
        lines = ['%d    %s      - number of profiles' % (len(names), dim), '%s     %s    - profiles' % (names[0], lab)] + names[1:] + lines
        t, y = self.simple('AD', R['AeroDyn'], self.dir, lines)
        if key:
            self.expect[key] = y
            if y:
                if not old:
                    self.expect['AeroDynBlade'] = x
                self.af, self.ac = af, ac
        return t


def selected(lay, readlist):
    """ the expectation when only the modules of the list are read"""
    E, af, ac = dict(lay.expect), list(lay.af), list(lay.ac)
    if 'all' in readlist:
        return E, af, ac
    for m in MODULES:
        if SHORT[m] not in readlist:
            E[m] = None
    if E['ElastoDyn'] is None:
        E['ElastoDynTower'] = E['ElastoDynBlade'] = None
    if E['BeamDyn'] is None:
        E['BeamDynBlade'] = None
    if E['AeroDyn14'] is None and E['AeroDyn15'] is None:
        E['AeroDynBlade'] = None
        af, ac = [], []
    if 'AF' not in readlist:
        af, ac = [None] * len(af), []
    if 'AC' not in readlist:
        ac = [None] * len(ac)
    return E, af, ac


def check_file(F, exp, what):
    from weio.fast_input_file import FASTInputFile
    if exp is None:
        require(F is None, '%s: no file must be read', what)
        return
    require(F is not None, '%s: the file %s is not read', what, exp[1])
    require(F['UniqueTag'] == exp[0], '%s: has UniqueTag %r, the file it refers to has %r', what, F['UniqueTag'], exp[0])
    require(os.path.realpath(F.filename) == os.path.realpath(exp[1]), '%s: file name %r instead of %r', what, F.filename, exp[1])
    G = FASTInputFile(exp[1])
    require([(k, F[k]) for k in F.keys()] == [(k, G[k]) for k in G.keys()], '%s: content differs from the one of the file', what)


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


def norm(p):
    return p if p == 'none' else os.path.realpath(p)


def compare(D, lay, readlist, what):
    d = lay.d
    E, af, ac = selected(lay, readlist)
    for m in MODULES:
        check_file(D.fst_vt[m], E[m], '%s: %s' % (what, m))
    for k, exp in (('af_data', af), ('ac_data', ac)):
        require(len(D.fst_vt[k]) == len(exp), '%s: %d files in %s instead of %d', what, len(D.fst_vt[k]), k, len(exp))
        for i, (f, e) in enumerate(zip(D.fst_vt[k], exp)):
            check_file(f, e, '%s: %s[%d]' % (what, k, i))
    require(D.fst_vt['Fst']['TMax'] == d['tmax'], '%s: main file', what)
    require(D.version == d['ver'], '%s: version %r', what, D.version)
    require(D.fst is D.fst_vt['Fst'] and D.ED is D.fst_vt['ElastoDyn'] and D.IW is D.fst_vt['InflowWind'] and D.BD is D.fst_vt['BeamDyn'] and D.BDbld is D.fst_vt['BeamDynBlade'], '%s: attributes', what)
    AD = D.fst_vt['AeroDyn14'] if d['ver'] == 'OF2' and d['aero'] == 1 else D.fst_vt['AeroDyn15']
    require(D.AD is AD, '%s: attribute AD', what)
    if AD is not None:
        require(D.AD.Bld1 is D.fst_vt['AeroDynBlade'] and D.AD.AF is D.fst_vt['af_data'], '%s: attributes of AD', what)
    if d['ver'] == 'OF2':
        for m, p in (('ElastoDyn', D.ED_path), ('ElastoDynTower', D.ED_twr_path), ('ElastoDynBlade', D.ED_bld_path)):
            if E[m] is not None:
                require(norm(p) == os.path.realpath(E[m][1]), '%s: path of %s: %r', what, m, p)
        for m, p in (('BeamDyn', D.BD_path), ('BeamDynBlade', D.BD_bld_path)):
            if E[m] is not None:
                require(norm(p) == os.path.realpath(E[m][1]), '%s: path of %s: %r', what, m, p)
        if d['refs']['ElastoDyn']['s'] == 'unused':
            require(D.ED_path == 'none', '%s: path of an unused ElastoDyn file: %r', what, D.ED_path)
    got = {k: os.path.realpath(p) for k, p in D.inputfiles.items() if k not in ('Fst', 'AF', 'AC')}
    exp = {SHORT[m]: os.path.realpath(e[1]) for m, e in E.items() if e is not None}
    require(got == exp, '%s: inputfiles %r instead of %r', what, got, exp)
    repr(D)
    return sum(e is not None for e in E.values())


@st.composite
def reads(draw):
    return {'decks': draw(st.lists(deck(), min_size=1, max_size=3)),
            'list': draw(st.one_of(st.just(['all']), st.just(['all']), st.lists(st.sampled_from(KEYS), min_size=0, max_size=8, unique=True), st.sampled_from(KEYS).map(lambda k: [k]))),
            'string': draw(st.booleans()), 'cwd': draw(st.booleans()), 'again': draw(st.booleans()), 'verbose': draw(st.booleans()), 'gone': draw(st.booleans())}


def check_reads(case, ctx):
    from weio.fast_input_deck import FASTInputDeck
    lays = [Layout(d, os.path.join(ctx.dir, 'r%d' % i), i) for i, d in enumerate(case['decks'])]
    rl = case['list']
    arg = rl[0] if case['string'] and len(rl) == 1 else list(rl)
    n = 0
    for i, lay in enumerate(lays):
        cwd = os.getcwd()
        try:
            name = lay.main
            if case['cwd']:
                os.chdir(lay.dir)
                name = os.path.basename(lay.main)
            D = quiet(lambda: FASTInputDeck(name, readlist=arg, verbose=case['verbose']))
            n += compare(D, lay, rl, 'new object, deck %d' % i)
        finally:
            os.chdir(cwd)
    # one object reads the decks one after the other
    D = quiet(lambda: FASTInputDeck(lays[0].main, readlist=arg))
    for i, lay in enumerate(lays[1:] + lays[:1]):
        quiet(lambda: D.read(lay.main))
        compare(D, lay, rl, 'deck %d read by an object that had read another' % i)
    if case['again']:
        quiet(lambda: D.read())
        compare(D, lays[0], rl, 'deck read again')
    if case['gone']:
        try:
            quiet(lambda: FASTInputDeck(lays[0].main + 'x', readlist=arg))
        except Exception:
            pass
        else:
            raise Violation('a main file that does not exist is accepted')
    ctx.label(*[d['ver'] for d in case['decks']])
    ctx.label('all' if rl == ['all'] else 'subset')
    ctx.nontrivial(n > 0)


# ------------------------------------------------------------------ writing
@st.composite
def writes(draw):
    return {'deck': draw(deck(True, 'OF2')), 'out': [dict(dir=draw(st.sampled_from(['out', 'out', 'deck', 'out/more', 'o 2'])), name=draw(g.ident(1, 8)), prefix=draw(st.sampled_from(['', '', 'new_', 'A'])),
            suffix=draw(st.sampled_from(['', '', '_2', 'b'])), directory=draw(st.sampled_from([None, None, None, 'mods', '../mods', 'same'])), fn=draw(st.integers(0, 5)) > 0,
            edits=draw(st.lists(st.tuples(st.sampled_from(MODULES + ['Fst']), g.finite(-1e5, 1e5, 3)), max_size=4)), how=draw(st.sampled_from(['new', 'same', 'none']))) for _ in range(draw(st.integers(1, 3)))]}


def content(F):
    return [(k, F[k]) for k in F.keys() if k not in REFS]


def snapshot(root):
    out = {}
    for r, _, fs in os.walk(root):
        for f in fs:
            with open(os.path.join(r, f), 'rb') as h:
                out[os.path.join(r, f)] = h.read()
    return out


def check_writes(case, ctx):
    from weio.fast_input_deck import FASTInputDeck
    root = os.path.join(ctx.dir, 'r')
    d = case['deck']
    lay = Layout(d, root)
    D = quiet(lambda: FASTInputDeck(lay.main))
    compare(D, lay, ['all'], 'before writing')
    absolute = d['refs']['AeroDynBlade']['dir'] == 'ABS' and all(a['dir'] == 'ABS' for a in d['af'])
    skip = ['af_data', 'ac_data', 'AeroDynBlade'] if not absolute else []
    if d['elast'] == 2:
        skip.append('ElastoDynBlade')       # (the blades are the ones of BeamDyn)
    if d['aero'] == 1:
        skip.append('AeroDynBlade')
    for i, o in enumerate(case['out']):
        for m, v in o['edits']:
            if D.fst_vt[m] is not None and m not in skip + ['AeroDynBlade']:
                D.fst_vt[m]['TMax' if m == 'Fst' else 'UniqueTag'] = v
        want = {m: content(D.fst_vt[m]) for m in MODULES + ['Fst'] if D.fst_vt[m] is not None and m not in skip}
        waf = [[content(x) if x is not None else None for x in D.fst_vt[k]] for k in ('af_data', 'ac_data')]
        before = snapshot(root)
        folder = os.path.join(root, o['dir'])
        os.makedirs(folder, exist_ok=True)
        name = os.path.join(folder, 'w%d%s.fst' % (i, o['name']))
        if not o['fn']:
            name, folder = D.filename, os.path.dirname(D.filename)
        directory = {None: None, 'same': folder}.get(o['directory'], os.path.normpath(os.path.join(folder, str(o['directory']))))
        if directory:
            os.makedirs(directory, exist_ok=True)
        kw = dict(prefix=o['prefix'], suffix=o['suffix'])
        if directory:
            kw['directory'] = directory
        quiet(lambda: D.write(name, **kw) if o['fn'] else D.write(**kw))
        after = snapshot(root)
        for p in before:
            require(p in after, 'write removes %s', p)
        ok = (os.path.realpath(name),)
        changed = [p for p in after if before.get(p) != after[p]]
        for p in changed:
            require(os.path.realpath(p) in ok or os.path.realpath(os.path.dirname(p)) == os.path.realpath(directory or folder), 'write changes the file %s, outside of the folder of the deck', p)
            b = os.path.basename(p)
            require(os.path.realpath(p) in ok or (b.startswith(o['prefix']) and b.endswith(o['suffix'] + '.dat')), 'write names a file %s, with prefix %r and suffix %r', b, o['prefix'], o['suffix'])
        require(os.path.realpath(D.filename) == os.path.realpath(name), 'file name of the deck after writing: %r', D.filename)
        # the deck that was written
        for how in ('new', 'again'):
            if how == 'new':
                N = quiet(lambda: FASTInputDeck(name))
            elif o['how'] == 'same':
                N = D
                quiet(lambda: D.read())
            else:
                break
            what = 'deck written (%d), read by %s' % (i, {'new': 'a new object', 'again': 'the object that wrote it'}[how])
            for m in MODULES + ['Fst']:
                if m in skip:
                    continue
                got = content(N.fst_vt[m]) if N.fst_vt[m] is not None else None
                require(got == want.get(m), '%s: %s is %r instead of %r', what, m, got, want.get(m))
            refs = [(N.fst_vt['Fst'], os.path.dirname(name), k) for k in REFS[:10]] + [(N.ED, os.path.dirname(N.ED_path), k) for k in REFS if k.startswith(('BldFile', 'TwrFile')) and (d['elast'] == 1 or k == 'TwrFile')]
            refs += [(N.BD, os.path.dirname(N.BD_path), 'BldFile')] if d['elast'] == 2 else []
            for X, base, k in refs:
                if k in X.keys() and X[k].replace('"', '').lower() != 'none':
                    require(os.path.isfile(os.path.join(base, X[k].replace('"', ''))), '%s: %s refers to %s, which does not exist', what, k, X[k])
            if absolute:
                for k, w in zip(('af_data', 'ac_data'), waf):
                    require([content(x) if x is not None else None for x in N.fst_vt[k]] == w, '%s: %s', what, k)
        if o['how'] == 'new':
            D = N if how == 'new' else quiet(lambda: FASTInputDeck(name))
        ctx.label('directory' if directory else 'folder of the deck')
    ctx.nontrivial(True)


COMPONENTS = [
    Component('reads', reads(), check_reads, quick=200, thorough=4000, shards=4),
    Component('writes', writes(), check_writes, quick=150, thorough=4000, shards=4),
]
