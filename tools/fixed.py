"""Refresh the 'fixed:' lines of known_findings.txt from /repo's log (the property of each fix is given by MAP: commit subject prefix -> id)."""
import io, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [l.rstrip('\n').split('\t') for l in io.open(os.path.join(HERE, 'tools', 'fixes.tsv'), encoding='utf-8') if '\t' in l]
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s']).decode().splitlines()
out = []
for l in log:
    h, s = l.split(' ', 1)
    if not s.startswith('fix:'):
        continue
    ids = [i for i, t in MAP if t == s]
    if not ids:
        print('no property for', s)
        continue
    out.append('fixed: property=%s %s %s' % (ids[0], h, s[4:].strip()))
p = os.path.join(HERE, 'known_findings.txt')
keep = [l.rstrip('\n') for l in io.open(p, encoding='utf-8') if not l.startswith('fixed:')]
io.open(p, 'w', encoding='utf-8').write('\n'.join(keep + out) + '\n')
