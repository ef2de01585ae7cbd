"""C21: weio.read picks the reader by extension, content and priority, user formats included; it refuses what it cannot read."""
import fnmatch, io, os, shutil
from hypothesis import strategies as st
from vlib import canon as cn
from vlib.core import Component, Violation, require, REPO
from . import c22

RULE = ('examples, generated: a file was read through weio.read and compared with the reader it belongs to; users: at least one user format is '
        'registered and competes for a file; refusals: always')
ASSUMPTIONS = [
    'text files of ROSCO, OpenFAST outputs or HAWC2 named .txt are read as delimited text when that succeeds: the class of .txt files is only claimed for delimited text and OpenFAST inputs',
    'HAWC2 ae and pc files named .dat with comments after the numbers can be taken for OpenFAST inputs: the class is only claimed for those without',
    'the order of user formats of equal priority depends on the file system and is not claimed',
]

EX = c22.EX
BY_EXAMPLE = [('BHAWC_', 'HAWC2DatFile'), ('HAWC2_out', 'HAWC2DatFile'), ('BModesOut', 'BModesOutFile'), ('Bladed_', 'BladedFile'), ('CSV', 'CSVFile'), ('ExcelFile', 'ExcelFile'),
              ('FASTIn_', 'FASTInputFile'), ('FASTLin', 'FASTLinearizationFile'), ('FASTOut', 'FASTOutputFile'), ('FastOut', 'FASTOutputFile'), ('FASTSum', 'FASTSummaryFile'),
              ('FASTWnd', 'FASTWndFile'), ('FLEXBlade', 'FLEXBladeFile'), ('FLEXDoc', 'FLEXDocFile'), ('FLEXOut', 'FLEXOutFile'), ('FLEXProfile', 'FLEXProfileFile'),
              ('FLEXWaveKin', 'FLEXWaveKinFile'), ('HAWC2_ae', 'HAWC2AEFile'), ('HAWC2_pc', 'HAWC2PCFile'), ('HAWC2_st', 'HAWC2StFile'), ('HAWCStab2.pwr', 'HAWCStab2PwrFile'),
              ('HAWCStab2_', 'HAWCStab2IndFile'), ('Parquet', 'ParquetFile'), ('Tecplot', 'TecplotFile'), ('TurbSim_', 'TurbSimFile'), ('TurbSimTS', 'TurbSimTSFile'), ('VTK', 'VTKFile'),
              ('Elliptic_Wind.wnd', 'FASTWndFile'), ('Elliptic', 'FASTInputFile'), ('Polar2Pi', 'FASTInputFile')]


def expected_example(name):
    for pre, cls in BY_EXAMPLE:
        if name.startswith(pre):
            return cls
    return None


def example_paths():
    out = []
    for r in (EX, os.path.join(EX, 'input_decks')):
        for f in sorted(os.listdir(r)):
            if os.path.isfile(os.path.join(r, f)) and expected_example(f) and not f.endswith('.dvr'):
                out.append(os.path.relpath(os.path.join(r, f), EX))
    return out


EXAMPLES = example_paths()
COMPANIONS = ('BHAWC_', 'HAWC2_out', 'Bladed_')

# class of the files of the generators of the other properties: (generator, extensions, class)
BY_GEN = {}
for _n in c22.COMPS:
    _p = _n.split('.')[0]
    if _p in ('c01', 'c02', 'c03'):
        BY_GEN[_n] = {'.dat': 'FASTInputFile', '.fst': 'FASTInputFile', '.txt': 'FASTInputFile'}
for _n, _e, _c in [('c04.binary', '.outb', 'FASTOutputFile'), ('c04.elm', '.elm', 'FASTOutputFile'), ('c04.text', '.out .elev', 'FASTOutputFile'), ('c05.binary_rewrite', '.outb', 'FASTOutputFile'),
                   ('c05.text_rewrite', '.out', 'FASTOutputFile'), ('c06.decode', '.bts', 'TurbSimFile'), ('c07.mann_layout', '.u .v .w .bin', 'MannBoxFile'), ('c09.layouts', '.csv .txt', 'CSVFile'),
                   ('c10.csv_new', '.csv .txt', 'CSVFile'), ('c10.excel', '.xlsx', 'ExcelFile'), ('c10.parquet', '.parquet', 'ParquetFile'), ('c11.ae', '.ae .dat', 'HAWC2AEFile'),
                   ('c11.pc', '.pc .dat', 'HAWC2PCFile'), ('c11.st', '.st .dat', 'HAWC2StFile'), ('c12.doc', '.htc', 'HAWC2HTCFile'), ('c12.edit', '.htc', 'HAWC2HTCFile'),
                   ('c13.sel_dat', '.sel .dat', 'HAWC2DatFile'), ('c14.tables', '*', 'BladedFile'), ('c15.blades', '.bld .bla', 'FLEXBladeFile'), ('c15.doc', '.out', 'FLEXDocFile'),
                   ('c15.profiles', '.pro', 'FLEXProfileFile'), ('c15.results', '.res .int', 'FLEXOutFile'), ('c15.waves', '.wko', 'FLEXWaveKinFile'), ('c16.files', '.vtk', 'VTKFile'),
                   ('c16.new', '.vtk', 'VTKFile'), ('c17.tecplot', '.dat', 'TecplotFile'), ('c18.bmodes', '.out', 'BModesOutFile'), ('c18.cactus', '.in', 'CactusFile'),
                   ('c18.campbell', '.cmb', 'HAWCStab2CmbFile'), ('c19.files', '.lin', 'FASTLinearizationFile'), ('c20.summary', '.yaml .sum', 'FASTSummaryFile')]:
    BY_GEN[_n] = {x: _c for x in _e.split()}
for _x, _c in [('.pwr', 'HAWCStab2PwrFile'), ('.ind', 'HAWCStab2IndFile')]:
    BY_GEN.setdefault('c18.hawcstab2', {})[_x] = _c
for _x, _c in [('.tdms', 'TDMSFile'), ('.nc', 'NetCDFFile')]:
    BY_GEN.setdefault('c18.scientific', {})[_x] = _c
BY_GEN['c18.raaw'] = {'.mat': 'RAAWMatFile'}


def library(name):
    import weio
    for ff in weio.fileFormats():
        if ff.constructor.__name__ == name:
            return ff
    raise Violation('weio does not list the format %s' % name)


def attempt(f):
    try:
        return f(), None
    except Exception as e:
        return None, e


def compare(path, clsname, rel, ctx=None):
    """ weio.read(path) is an object of the class, with the content the class reads"""
    import weio
    ff = library(clsname)
    D, err = attempt(lambda: ff.constructor(path))
    if D is None:
        from weio.file import WrongFormatError
        if not isinstance(err, WrongFormatError):
            F, e2 = attempt(lambda: weio.read(path))
            require(F is None or type(F).__name__ != clsname, 'weio.read returns a %s for a file this class cannot read (%s)', clsname, err)
        return False
    F, e = attempt(lambda: weio.read(path))
    require(e is None, 'weio.read fails for a file that %s reads: %s: %s', clsname, type(e).__name__, str(e)[:200])
    require(type(F).__name__ == clsname, 'weio.read returns a %s instead of a %s', type(F).__name__, clsname)
    a = c22.view(D)

    def same(G, what):
        d = cn.diff(a, c22.view(G))
        require(d is None, '%s: content differs from that read by %s: %s', what, clsname, d)
    same(F, 'weio.read')
    require(F.filename == path, 'file name of the object: %r instead of %r', F.filename, path)
    fmt, G = weio.detectFormat(path)
    require(fmt.constructor is ff.constructor, 'detectFormat: %r instead of %s', fmt, clsname)
    if G is not None:
        same(G, 'detectFormat')
    same(weio.read(path, fileformat=ff), 'weio.read with the format given')
    if clsname in ('FASTInputFile', 'FASTOutputFile', 'CSVFile'):       # also functions of the package
        same(getattr(weio, clsname)(path), 'weio.%s' % clsname)
        same(getattr(weio, clsname)(filename=path), 'weio.%s' % clsname)
    if rel:
        cwd = os.getcwd()
        os.chdir(os.path.dirname(path))
        try:
            F, e = attempt(lambda: weio.read(os.path.basename(path)))
            require(e is None, 'weio.read fails for a relative path: %s: %s', type(e).__name__, str(e)[:200])
            require(type(F).__name__ == clsname, 'weio.read returns a %s instead of a %s for a relative path', type(F).__name__, clsname)
            if clsname not in ('HAWC2HTCFile', 'CactusFile'):       # whose content includes the folder of the model
                same(F, 'weio.read of a relative path')
        finally:
            os.chdir(cwd)
    return True


DIRS = st.lists(st.text(alphabet='abXY09 ._-é', min_size=1, max_size=8).map(lambda s: s.strip(' .') or 'd'), max_size=3)
STEM = st.text(alphabet='abcXYZ019_- .', min_size=1, max_size=10).map(lambda s: s.strip(' .') or 'f')
MASK = st.integers(0, 255)


def mixed(ext, mask):
    return ''.join(c.upper() if mask >> (i % 8) & 1 else c.lower() for i, c in enumerate(ext))


def check_example(case, ctx):
    p = os.path.join(EX, case['f'])
    name = os.path.basename(p)
    d = os.path.join(ctx.dir, *case['dirs']) if case['dirs'] else ctx.dir
    os.makedirs(d, exist_ok=True)
    stem, ext = os.path.splitext(name)
    if name.startswith(COMPANIONS):
        for f in os.listdir(EX):
            if os.path.splitext(f)[0] == stem:
                shutil.copy(os.path.join(EX, f), os.path.join(d, case['stem'] + os.path.splitext(f)[1]))
        target = os.path.join(d, case['stem'] + ext)
    else:
        target = os.path.join(d, case['stem'] + mixed(ext, case['mask']))
        shutil.copy(p, target)
    cls = expected_example(name)
    ok = compare(target, cls, case['rel'])
    broken = 'fail' in name
    require(ok or broken, 'the class %s cannot read the example file %s', cls, name)
    ctx.nontrivial(ok)
    ctx.label(cls)


def declared(path, clsname):
    """ under any extension the class declares, the file is read (by this class, or one that is tried earlier)"""
    import weio
    if clsname in ('HAWC2DatFile', 'BladedFile', 'MannBoxFile'):     # names of the files matter
        return
    ff = library(clsname)
    for ext in ff.extensions:
        if ext.startswith('.') and ext.lower() == ext:
            q = os.path.splitext(path)[0] + '_declared' + ext
            shutil.copy(path, q)
            D, err = attempt(lambda: ff.constructor(q))
            if D is not None:
                F, e = attempt(lambda: weio.read(q))
                require(e is None, 'weio.read fails for a file that %s reads, with the extension %s it declares: %s: %s', clsname, ext, type(e).__name__, str(e)[:200])


def numeric_only(path):
    with io.open(path, encoding='utf-8', errors='replace') as f:
        for i, l in enumerate(f):
            for t in l.split():
                try:
                    float(t)
                except ValueError:
                    return False
    return True


@st.composite
def generated(draw):
    name = draw(st.sampled_from(sorted(BY_GEN)))
    return {'src': ['gen', name, draw(c22.COMPS[name].strategy)], 'mask': draw(MASK), 'rel': draw(st.booleans()), 'stem': draw(STEM)}


def check_generated(case, ctx):
    name = case['src'][1]
    files = c22.pick(c22.value(cn.pristine(lambda: c22.produce([case['src']], os.path.join(ctx.dir, 'src')))))
    n = 0
    for i, p in enumerate(files):
        ext = os.path.splitext(p)[1].lower()
        cls = BY_GEN[name].get('*' if '*' in BY_GEN[name] else ext)
        if cls is None or os.path.getsize(p) == 0:
            continue
        if name in ('c11.ae', 'c11.pc') and ext == '.dat' and not numeric_only(p):
            continue
        if name not in ('c13.sel_dat', 'c14.tables') and '*' not in BY_GEN[name]:
            q = os.path.join(os.path.dirname(p), '%s_%d%s' % (case['stem'], i, mixed(ext, case['mask'])))
            shutil.copy(p, q)
            p = q
        if compare(p, cls, case['rel']):
            n += 1
            ctx.label(cls)
            declared(p, cls)
    ctx.nontrivial(n > 0)


# ------------------------------------------------------------------ user formats
PRIORITY = dict(CSVFile=0, ExcelFile=0, TecplotFile=10, BladedFile=10, FASTInputFile=20, FASTOutputFile=20, FASTWndFile=20, FASTLinearizationFile=20, FASTSummaryFile=20,
                TurbSimTSFile=0, TurbSimFile=20, HAWC2DatFile=30, HAWC2HTCFile=30, HAWC2StFile=30, HAWC2PCFile=30, HAWC2AEFile=30, HAWCStab2PwrFile=30, HAWCStab2IndFile=30,
                HAWCStab2CmbFile=30, MannBoxFile=30, FLEXBladeFile=40, FLEXProfileFile=40, FLEXOutFile=40, FLEXWaveKinFile=40, FLEXDocFile=40, BModesOutFile=50,
                ROSCOPerformanceFile=50, NetCDFFile=60, VTKFile=60, TDMSFile=60, ParquetFile=60, CactusFile=70, RAAWMatFile=70)
UEXTS = ['.xyz', '.q7', '.csv', '.dat', '.txt', '.out', '.XYZ', '.Raw', '.r*', '.raw', '.dat2', '.x+', '.x*z', '.bts']
FEXTS = ['.xyz', '.q7', '.csv', '.dat', '.txt', '.out', '.raw', '.rst', '.dat2', '.x+', '.xx', '.XYZ', '.xabz', '.Q7', '.x', '.bts', '']
CONTENTS = {
    'csv': 'a,b\n1,2\n3,4\n',
    'fast': '------- ELASTODYN INPUT FILE -----\nsome comment\n--------- SECTION ------\nFalse    Echo  - Echo (flag)\n  3   Method   - Integration (switch)\n"a.dat"  BldFile - file\n',
    'tecplot': 'TITLE = "x"\nVARIABLES = "a" "b"\nZONE T="z"\n1 2\n3 4\n',
    'out': 'Predictions\n\n\n\n\n\nTime Wind\n(s) (m/s)\n0.0 1.0\n1.0 2.0\n',
    'junk': 'lorem ipsum dolor\nsit amet, (consectetur)\n!!\n',
}
USERFILE = '''
%(imports)s

class %(cls)s(%(base)s):
    @staticmethod
    def defaultExtensions():
        return %(exts)r

    @staticmethod
    def formatName():
        return '%(cls)s of the user'
%(priority)s
    def _read(self, **kwargs):
%(read)s

    def toDataFrame(self):
        return None
'''
READ = '''
        with open(self.filename, 'r', errors='surrogateescape') as f:
            lines = f.read().splitlines()
        accept = lines[0].startswith('MAGIC%(k)d')
        if not (%(cond)s):
            raise %(exc)s('Not for me: ' + self.filename)
        self['user'] = %(k)d
        self['lines'] = lines
'''


def user_source(u, k):
    cond = {'magic': 'accept', 'all': 'True', 'never': 'False', 'broken': 'False', 'brokenfmt': 'False', 'magicbroken': 'accept'}[u['act']]
    exc = {'broken': 'ValueError', 'brokenfmt': 'BrokenFormatError', 'magicbroken': 'ValueError'}.get(u['act'], 'WrongFormatError')
    read = READ % dict(k=k, cond=cond, exc=exc)
    prio = '' if u['prio'] is None else '\n    @staticmethod\n    def priority():\n        return %r\n' % u['prio']
    name = user_class(u, k)
    if u['style'] == 'template':
        with io.open(os.path.join(REPO, 'weio', '_NEWFILE_TEMPLATE.py'), encoding='utf-8') as f:
            t = f.read()
        t = t.replace('XXXFile', name).replace("['.XXX']", repr(u['exts'])).replace('XXX', 'mine')
        line = [l for l in t.splitlines() if 'def priority' in l][0]
        t = t.replace(line, '    @staticmethod\n    def unused(): pass\n' + prio if u['prio'] is None else '    def priority(): return %r' % u['prio'])
        a = t.index('def _read(self')
        b = t.index('raise NotImplementedError()', a)
        return t[:b].rstrip(' ') + read.lstrip('\n') + t[b + len('raise NotImplementedError()'):]
    imports = 'from weio.file import File, WrongFormatError, BrokenFormatError'
    base = 'File'
    if u['style'] == 'subclass':
        imports += '\nfrom weio.csv_file import CSVFile\nfrom weio.fast_input_file import FASTInputFile'
        base = 'CSVFile'
    elif u['style'] == 'alone':
        imports = ("import os\nclass WrongFormatError(Exception):\n    pass\nclass BrokenFormatError(Exception):\n    pass\n"
                   "class Base(dict):\n    def __init__(self, filename=None, **kwargs):\n        self.filename = filename\n        if filename:\n            self.read(filename, **kwargs)\n"
                   "    def read(self, filename=None, **kwargs):\n        self.filename = filename or self.filename\n        self._read(**kwargs)\n")
        base = 'Base'
    return USERFILE % dict(imports=imports, cls=name, base=base, exts=u['exts'], priority=prio, read=read)


def user_class(u, k):
    return '%s%dFile%s' % (u['cls'], k, u['suf'])


USER = st.fixed_dictionaries({
    'cls': st.sampled_from(['My', 'Zed', 'Alpha', 'user_', 'x']), 'suf': st.sampled_from(['', 'Reader', '2']), 'style': st.sampled_from(['template', 'weio', 'subclass', 'alone']),
    'exts': st.lists(st.sampled_from(UEXTS), min_size=1, max_size=3, unique=True), 'prio': st.sampled_from([None, -5, 1, 3, 5, 5.5, 5.75, 15, 25, 25.5, 25.25, 35, 45, 60, 65, 99, 1000, -0.5]),
    'act': st.sampled_from(['magic', 'magic', 'magic', 'all', 'never', 'broken', 'brokenfmt', 'magicbroken'])})
USERS = st.lists(USER, min_size=1, max_size=4, unique_by=lambda u: 2 if u['prio'] is None else u['prio'])
BROKEN = st.lists(st.sampled_from(['syntax', 'noclass', 'noname', 'import']), max_size=2)
FILES = st.lists(st.fixed_dictionaries({'ext': st.one_of(st.sampled_from(FEXTS), st.integers(0, 11), st.integers(0, 11)), 'what': st.one_of(st.sampled_from(sorted(CONTENTS)), st.integers(0, 3))}), min_size=1, max_size=5)


def case_users():
    return st.fixed_dictionaries({'users': USERS, 'broken': st.one_of(st.just([]), BROKEN), 'files': FILES, 'how': st.sampled_from(['home', 'home', 'path']), 'init': st.booleans(), 'ign': st.booleans()})


def matches(ext, exts):
    ext = ext.lower()
    for e in exts:
        e = e.lower()
        if e == ext or ('*' in e and fnmatch.fnmatchcase(ext, e.replace('[', '[[]').replace('?', '[?]'))):
            return True
    return False


def outcome(f):
    try:
        F = f()
    except Exception as e:
        return ('error', type(e).__name__)
    return ('ok', type(F).__name__, F.get('user') if isinstance(F, dict) else None)


def library_outcomes(paths, home):
    """ (forked) formats of the library without user formats, and what each does with each file"""
    import weio
    os.environ['HOME'] = home
    fs = weio.fileFormats()
    out = []
    for f in fs:
        res = []
        for p in paths:
            if matches(os.path.splitext(p)[1], f.extensions):
                res.append(outcome(lambda: f.constructor(filename=p)))
            else:
                res.append(None)
        out.append((f.constructor.__name__, list(f.extensions), f.name, res))
    return out


def session(case, home, udir, paths):
    """ (forked) what a user of weio sees"""
    import weio
    out = {}
    kw = {}
    if case['how'] == 'home':
        os.environ['HOME'] = home
    else:
        os.environ['HOME'] = home + '_none'
        kw['userpath'] = udir
    nb = len(case['broken'])

    def formats(**k):
        k = dict(k, **kw)
        try:
            return weio.fileFormats(**k)
        except Exception as e:
            return type(e).__name__

    desc = lambda fs: [(f.constructor.__name__, list(f.extensions), f.name) for f in fs]
    if nb and not case['ign']:
        out['refusal'] = formats()
        if case['how'] == 'home':
            out['readrefusal'] = outcome(lambda: weio.read(paths[0]))
        for f in os.listdir(udir):
            if f.startswith('bad'):
                os.remove(os.path.join(udir, f))
        out['formats'] = desc(formats())
    elif case['ign']:
        fs, errors = formats(ignoreErrors=True)
        out['errors'] = len(errors)
        out['formats'] = desc(fs)
    else:
        out['formats'] = desc(formats())
    out['reads'] = [outcome(lambda: weio.read(p)) for p in paths]
    # later calls tell the same
    if case['ign']:
        r = formats(ignoreErrors=True)
        out['again'] = desc(r[0]) if isinstance(r, tuple) and len(r) == 2 else 'not a pair'
    out['again2'] = desc(formats())
    out['reads2'] = [outcome(lambda: weio.read(p)) for p in paths]
    if case['how'] == 'home' and not (nb and case['ign']):
        import weio.user
        out['user'] = sorted(k for k, v in vars(weio.user).items() if isinstance(v, type) and any(k == user_class(u, i) for i, u in enumerate(case['users'])))
    return out


def check_users(case, ctx):
    home = ctx.path('home')
    udir = os.path.join(home, '.local', 'share', 'weio') if case['how'] == 'home' else ctx.path('formats of user')
    os.makedirs(udir)
    os.makedirs(ctx.path('none'))
    for k, u in enumerate(case['users']):
        with io.open(os.path.join(udir, 'my_format_%d.py' % k), 'w', encoding='utf-8') as f:
            f.write(user_source(u, k))
    if case['init']:
        io.open(os.path.join(udir, '__init__.py'), 'w').close()
        with io.open(os.path.join(udir, 'notes.txt'), 'w') as f:
            f.write('class NotesFile: pass\n')
    for i, b in enumerate(case['broken']):
        with io.open(os.path.join(udir, 'bad%d.py' % i), 'w') as f:
            f.write({'syntax': 'class (', 'noclass': 'a = 1\n', 'noname': 'class BadFile(dict):\n    pass\n', 'import': 'import a_module_that_does_not_exist\n'}[b])
    paths = []
    pool = [e.replace('*', r) for u in case['users'] for e in u['exts'] for r in (('ab', 'abcdefghijklmnop0123456789', '') if '*' in e else ('',))] or ['.xyz']
    for i, s in enumerate(case['files']):
        if not isinstance(s['ext'], str):
            s['ext'] = pool[s['ext'] % len(pool)]
        p = ctx.path('file%d%s' % (i, s['ext']))
        with io.open(p, 'w') as f:
            f.write(CONTENTS[s['what']] if isinstance(s['what'], str) else 'MAGIC%d some text\nmore\n' % s['what'])
        paths.append(p)
    lib = c22.value(cn.pristine(lambda: library_outcomes(paths, ctx.path('none'))))
    got = c22.value(cn.pristine(lambda: session(case, home, udir, paths)))
    users = case['users']
    require([n for n, _, _, _ in lib] == sorted(PRIORITY, key=lambda n: (PRIORITY[n], [x[0] for x in lib].index(n))) or not set(n for n, _, _, _ in lib) <= set(PRIORITY),
            'formats of the library are not in the order of their priorities: %r', [n for n, _, _, _ in lib])
    # --- the model: stable order by priority, user formats after the library ones of the same priority
    entries = [(PRIORITY.get(n, 50), i, n, e, ('lib', r)) for i, (n, e, _, r) in enumerate(lib)]
    entries += [(2 if u['prio'] is None else u['prio'], 1000 + k, user_class(u, k), u['exts'], ('user', k, u)) for k, u in enumerate(users)]
    entries.sort(key=lambda t: t[:2])
    names = [t[2] for t in entries]
    for key in ('formats', 'again', 'again2'):
        if key in got:
            require(got[key] != 'not a pair', 'fileFormats(ignoreErrors=True) does not return formats and errors when it is called again')
            require([x[0] for x in got[key]] == names, 'order of the formats (%s): %r instead of %r', key, [x[0] for x in got[key]], names)
    if case['broken'] and not case['ign']:
        require(got['refusal'] == 'UserFormatImportError', 'broken user modules %r: %r instead of UserFormatImportError', case['broken'], got['refusal'])
        if 'readrefusal' in got:
            require(got['readrefusal'] == ('error', 'UserFormatImportError'), 'broken user modules %r: weio.read gives %r', case['broken'], got['readrefusal'])
    if case['ign']:
        require(got['errors'] == len(case['broken']), '%d errors reported for %d broken user modules', got['errors'], len(case['broken']))
    if 'user' in got:
        require(got['user'] == sorted(user_class(u, k) for k, u in enumerate(users)), 'weio.user provides %r', got['user'])
    compete = 0
    for i, (p, s) in enumerate(zip(paths, case['files'])):
        exp = None
        compete += sum(matches(s['ext'], u['exts']) for u in users)
        for t in entries:
            if not matches(s['ext'], t[3]):
                continue
            if t[4][0] == 'lib':
                r = t[4][1][i]
                if r == ('error', 'WrongFormatError'):
                    continue
                exp = r
                break
            k, u = t[4][1:]
            accept = u['act'] == 'all' or (u['act'].startswith('magic') and s['what'] == k)
            if accept:
                exp = ('ok', user_class(u, k), k)
                break
            if u['act'] in ('broken', 'magicbroken'):
                exp = ('error', 'ValueError')
                break
            if u['act'] == 'brokenfmt':
                exp = ('error', 'BrokenFormatError')
                break
        if exp is None:
            exp = ('error', 'FormatNotDetectedError')
        for key in ('reads', 'reads2'):
            require(tuple(got[key][i]) == tuple(exp), 'weio.read(%s) (content: %s) gives %r instead of %r', os.path.basename(p), s['what'], got[key][i], exp)
    ctx.nontrivial(compete > 0)
    ctx.label('broken modules' if case['broken'] else 'sound modules', case['how'])


# ------------------------------------------------------------------ refusals
EXTS = ['.csv', '.txt', '.xls', '.xlsx', '.dat', '.%04', '.$PJ', '.fst', '.fstf', '.out', '.outb', '.elm', '.elev', '.wnd', '.lin', '.sum', '.yaml', '.bts', '.sel', '.htc', '.st', '.pc', '.ae',
        '.pwr', '.ind', '.cmb', '.u', '.v', '.w', '.bin', '.bld', '.bla', '.pro', '.res', '.int', '.wko', '.nc', '.vtk', '.vtp', '.tdms', '.parquet', '.in', '.mat']
UNKNOWN = ['', '.', '.json', '.zip', '.csvv', '.da', '.xcsv', '.py', '.123', '.dat~', '.out.bak', '.u1', '.parque', '.htcx']


def case_refusals():
    return st.fixed_dictionaries({'kind': st.sampled_from(['missing', 'empty', 'unknown', 'given', 'directory']), 'ext': st.sampled_from(EXTS), 'unk': st.sampled_from(UNKNOWN),
                                  'dirs': DIRS, 'stem': STEM, 'mask': MASK, 'what': st.sampled_from(sorted(CONTENTS))})


def check_refusals(case, ctx):
    import weio
    from weio.file import EmptyFileError
    d = os.path.join(ctx.dir, *case['dirs']) if case['dirs'] else ctx.dir
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, case['stem'] + mixed(case['ext'], case['mask']))
    kind = case['kind']
    ctx.label(kind)
    if kind == 'missing':
        F, e = attempt(lambda: weio.read(p))
        require(isinstance(e, (OSError, IOError)), 'reading a missing file %s: %r instead of an OSError', case['ext'], e)
        require(not os.path.exists(p), 'reading a missing file creates it')
    elif kind == 'directory':
        os.mkdir(p)
        F, e = attempt(lambda: weio.read(p))
        require(e is not None, 'reading a directory succeeds: %r', F)
    elif kind == 'empty':
        open(p, 'w').close()
        F, e = attempt(lambda: weio.read(p))
        require(e is not None, 'reading an empty file %s succeeds: %r', case['ext'], type(F))
        require(isinstance(e, EmptyFileError) or type(e).__name__ == 'EmptyFileError', 'reading an empty file %s: %r instead of an EmptyFileError', case['ext'], e)
        require(os.path.getsize(p) == 0, 'reading an empty file changes it')
    elif kind == 'unknown':
        p = os.path.join(d, case['stem'] + case['unk'])
        with open(p, 'w') as f:
            f.write(CONTENTS[case['what']])
        F, e = attempt(lambda: weio.read(p))
        ext = os.path.splitext(p)[1].lower()
        if any(matches(ext, ff.extensions) for ff in weio.fileFormats()):
            ctx.nontrivial(False)
            return
        require(isinstance(e, weio.FormatNotDetectedError), 'reading a file of unknown extension %r: %r instead of FormatNotDetectedError', ext, e or type(F))
        require(p in str(e), 'the error does not name the file: %s', e)
    else:       # options given with the format reach the reader, as they do without
        p = os.path.join(d, case['stem'] + '.csv')
        with open(p, 'w') as f:
            f.write('1;2;3\n4;5;6\n7;8;9\n')
        ff = library('CSVFile')
        kw = {'sep': ';', 'colNames': ['a', 'b', 'c']}
        a, e1 = attempt(lambda: weio.read(p, **kw))
        b, e2 = attempt(lambda: weio.read(p, fileformat=ff, **kw))
        c, e3 = attempt(lambda: ff.constructor(p, **kw))
        require(e1 is None and e2 is None and e3 is None, 'reading with options: %r, %r, %r', e1, e2, e3)
        for x, what in ((a, 'detected'), (b, 'given')):
            dd = cn.diff(cn.table(c), cn.table(x))
            require(dd is None, 'options of weio.read (format %s): %s', what, dd)


COMPONENTS = [
    Component('examples', st.fixed_dictionaries({'f': st.sampled_from(EXAMPLES), 'dirs': DIRS, 'stem': STEM, 'mask': MASK, 'rel': st.booleans()}), check_example, quick=120, thorough=1500, shards=3),
    Component('generated', generated(), check_generated, quick=70, thorough=2000, shards=6),
    Component('users', case_users(), check_users, quick=80, thorough=3000, shards=4),
    Component('refusals', case_refusals(), check_refusals, quick=250, thorough=3000),
]
