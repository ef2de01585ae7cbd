"""/opt/venv/bin/python tools/design.py: writes DESIGN.md from the property texts (tools/meta.py), the modules in props/ (rule, assumptions, components), the fixes and the planted bugs."""
import ast, importlib, io, json, os, re, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = ['/repo', HERE]
from vlib import deps
deps.ensure()
INTRO = open(os.path.join(HERE, 'tools', 'design_intro.md')).read()
OUTRO = open(os.path.join(HERE, 'tools', 'design_outro.md')).read()
ORACLE = {}
for block in re.split(r'^## ', open(os.path.join(HERE, 'tools', 'design_oracles.md')).read(), flags=re.M)[1:]:
    k, t = block.split('\n', 1)
    ORACLE[k.strip()] = t.strip()


def module(pid):
    t = ast.parse(open(os.path.join(HERE, 'props', pid.lower() + '.py')).read())
    out = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('RULE', 'ASSUMPTIONS', 'COMPONENTS'):
            out[n.targets[0].id] = n.value
    return out


def lits(node):
    return [x.value for x in ast.walk(node) if isinstance(x, ast.Constant) and isinstance(x.value, str)]


def components(pid):
    """The cases per component as registered; components of one family (same prefix) are summed up."""
    m = importlib.import_module('props.' + pid.lower())
    fam = {}
    for c in m.COMPONENTS:
        k = c.name
        for pre in ('generated_', 'examples_', 'truncated_', 'mutated_'):
            if c.name.startswith(pre) and c.name != 'mutated_examples':
                k = pre + '*'
        f = fam.setdefault(k, [0, 0, 0])
        f[0] += 1; f[1] += c.quick * c.shards; f[2] += c.thorough * c.shards
    return ', '.join('`%s`%s %d / %d' % (k, ' (%d)' % n if n > 1 else '', q, t) for k, (n, q, t) in fam.items())


props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
man = {c['property_id'] if 'property_id' in c else c.get('property'): c for c in json.load(open(os.path.join(HERE, 'MANIFEST.json'))).get('checks', [])}
fixes = {}
for l in open(os.path.join(HERE, 'known_findings.txt')):
    m = re.match(r'fixed: property=(C\d+) (\w+) (.*)', l)
    if m:
        fixes.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
seeded = {}
sd = os.path.join(HERE, 'seeded')
for b in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, b, 'meta.json')))
    seeded.setdefault(m['property'], []).append((b, m))
caught = {}
p = os.path.join(HERE, 'tools', 'caught.tsv')
if os.path.exists(p):
    for l in open(p):
        b, r = l.rstrip('\n').split('\t')
        caught[b] = r
out = [INTRO.rstrip(), '']
out += ['# Properties', '']
for q in sorted(props, key=lambda q: q['id']):
    i = q['id']
    m = module(i)
    out += ['## %s %s' % (i, q['title']), '']
    out += [ORACLE.get(i, ''), '']
    out += ['*Cases (quick / thorough):* ' + components(i) + '.', '']
    out += ['*Counts as non-trivial:* ' + ast.literal_eval(m['RULE']) if isinstance(m['RULE'], ast.Constant) else '*Counts as non-trivial:* ' + ''.join(lits(m['RULE'])), '']
    if 'ASSUMPTIONS' in m:
        out += ['*Assumptions, not claimed beyond:*'] + ['- ' + s for s in lits(m['ASSUMPTIONS'])] + ['']
    if i in fixes:
        out += ['*Defects found and repaired (%d):*' % len(fixes[i])] + ['- `%s` %s' % f for f in fixes[i]] + ['']
    if i in seeded:
        out += ['*Planted bugs:*'] + ['- `%s` (%s): %s Needs: %s' % (b, caught.get(b, 'not run'), x['what_it_breaks'].rstrip('.') + '.', x['needs']) for b, x in seeded[i]] + ['']
out += [OUTRO.rstrip(), '']
with io.open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
    f.write('\n'.join(out))
print(len('\n'.join(out).splitlines()), 'lines; without oracle text:', [q['id'] for q in props if q['id'] not in ORACLE])
