"""python run.py <PROPERTY> [--tier quick|thorough] [--only comp,comp] [--scale x] | --replay FILE"""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
for k, v in dict(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1',
                 OPENBLAS_NUM_THREADS='1', PYTHONWARNINGS='ignore', LC_ALL='C.UTF-8').items():
    if os.environ.get(k) != v:
        os.environ.update(dict(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1',
                               OPENBLAS_NUM_THREADS='1', PYTHONWARNINGS='ignore', LC_ALL='C.UTF-8'))
        os.environ.pop('PYTHONPATH', None)
        os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path[:0] = [REPO, HERE]
from vlib import core


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--only')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--replay')
    ap.add_argument('--seed', type=int, default=None)
    a = ap.parse_args(argv)
    if a.replay:
        return core.replay(a.replay)
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED') or 1)
    return core.run_property(a.prop.upper(), tier, seed, a.only.split(',') if a.only else None, a.scale)


if __name__ == '__main__':
    import weio
    if os.path.realpath(os.path.dirname(weio.__file__)) != os.path.realpath(os.path.join(REPO, 'weio')):
        print('ERROR: weio imported from %s, not from %s' % (weio.__file__, REPO))
        sys.exit(3)
    sys.stdout.reconfigure(errors='backslashreplace')      # names in messages may hold bytes that are not UTF-8
    sys.exit(main(sys.argv[1:]))
