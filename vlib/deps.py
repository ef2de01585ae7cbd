"""Make hypothesis importable by the interpreter that runs weio (offline).

The wheels of the sandbox's wheelhouse are unpacked into /verif/.deps (by setup_cmd, or
by a check that finds it missing).  Nothing is installed into the interpreter itself.
"""
import glob, os, shutil, sys, tempfile, zipfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEPS = os.path.join(HERE, '.deps')
WHEELS = '/opt/veriftools/wheels'
TAG = 'cp%d%d' % sys.version_info[:2]


def _unpack(target):
    pats = ['hypothesis-*-%s-*.whl' % TAG, 'hypothesis-*-py3-none-any.whl', 'sortedcontainers-*.whl']
    n = 0
    for p in pats:
        for w in sorted(glob.glob(os.path.join(WHEELS, p))):
            with zipfile.ZipFile(w) as z:
                z.extractall(target)
            n += 1
    return n


def ensure():
    try:
        import hypothesis  # noqa: F401
        return
    except ImportError:
        pass
    if not os.path.isdir(os.path.join(DEPS, 'hypothesis')):
        tmp = tempfile.mkdtemp(prefix='.deps-', dir=HERE)
        try:
            _unpack(tmp)
            try:
                os.rename(tmp, DEPS)
            except OSError:
                pass                       # another run was faster
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    if DEPS not in sys.path:
        sys.path.append(DEPS)
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        # last resort: the pre-installed tooling environment, only for these packages
        import importlib.util
        sp = glob.glob('/opt/veriftools/pyvenv/lib/python3*/site-packages')
        for base in sp:
            for name in ('sortedcontainers', 'hypothesis', '_hypothesis_globals', '_hypothesis_ftz_detector'):
                for loc in (os.path.join(base, name, '__init__.py'), os.path.join(base, name + '.py')):
                    if os.path.exists(loc):
                        sub = [os.path.dirname(loc)] if loc.endswith('__init__.py') else None
                        spec = importlib.util.spec_from_file_location(name, loc, submodule_search_locations=sub)
                        mod = importlib.util.module_from_spec(spec)
                        sys.modules[name] = mod
                        spec.loader.exec_module(mod)
                        break
        import hypothesis  # noqa: F401


def plain_strings():
    """Hypothesis mixes constants found in the sources of local modules into what it draws.  Numbers are welcome (sizes, thresholds);
    text is not: identifiers drawn for labels and names must not turn into key words because the sources mention them."""
    try:
        from hypothesis.internal.conjecture import providers as p
        orig, cache = p._get_local_constants, {}

        def numbers_only():
            c = orig()
            key = len(c)
            if key not in cache:
                cache.clear()
                cache[key] = p.Constants(integers=c.integers, floats=c.floats)
            return cache[key]
        numbers_only._verif = True
        if not getattr(orig, '_verif', False):
            p._get_local_constants = numbers_only
    except Exception:      # other versions of hypothesis: nothing to do
        pass


if __name__ == '__main__':
    ensure()
    import hypothesis
    print('hypothesis', hypothesis.__version__, hypothesis.__file__)
