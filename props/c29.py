"""C29: HAWC2 models: the lists of files a simulation reads and writes, and the names, times, turbulence and water settings given to it."""
import os
from hypothesis import strategies as st
from vlib import cmp
from vlib.core import Component, require

RULE = 'a case counts when the model refers to at least 3 files'
ASSUMPTIONS = [
    'the model folder is found from input files which exist at one depth only; file names have no spaces and are not numbers',
    'two existing files whose names differ by case only are not generated',
    'add_mann_turbulence with file names given (the default names, pbs files and simulations need the wetb package)',
]

NAME = st.from_regex(r'[A-Za-z][A-Za-z0-9_]{0,5}', fullmatch=True)
INPUTS = ['timo', 'bladedata', 'ae', 'pc', 'bladedata_aero', 'profcoef', 'flap', 'act', 'dll', 'dll', 'shear', 'shear_turb', 'mast', 'deficit', 'water', 'soil', 'force']
OUTS = [('simulation', 'logfile'), ('simulation', 'animation'), ('simulation', 'visualization'), ('new_htc_structure', 'beam_output_file_name'),
        ('new_htc_structure', 'body_output_file_name'), ('new_htc_structure', 'struct_inertia_output_file_name'), ('new_htc_structure', 'body_eigenanalysis_file_name'),
        ('new_htc_structure', 'constraint_output_file_name'), ('export', 'filename_u'), ('export', 'filename_v'), ('export', 'filename_w'),
        ('new_htc_structure', 'system_eigenanalysis'), ('new_htc_structure', 'structure_eigenanalysis_file_name')]


@st.composite
def paths(draw):
    dirs = draw(st.lists(NAME, max_size=2))
    return '/'.join(dirs + [draw(NAME) + draw(st.sampled_from(['.dat', '.dll', '.bin', '.TXT', '']))])


@st.composite
def cases(draw):
    ins = draw(st.lists(st.tuples(st.sampled_from(INPUTS), paths(), st.booleans(), st.sampled_from(['', './']), st.sampled_from(['', 'up', 'low']), st.booleans()).map(list),
                        min_size=1, max_size=8))
    inc = draw(st.one_of(st.none(), paths()))
    return dict(root=draw(NAME), sub=draw(st.one_of(st.just([]), st.lists(NAME, min_size=1, max_size=2))), ins=ins, inc=inc,
                bodies=draw(st.integers(1, 3)),
                outs=draw(st.lists(st.tuples(st.integers(0, len(OUTS) - 1), paths()).map(list), max_size=6)),
                res=draw(st.lists(st.tuples(st.sampled_from(['output', 'output', 'output_at_time']), paths(), st.sampled_from([None, 'hawc_ascii', 'hawc_binary', 'gtsdf', 'gtsdf64', 'flex_int'])).map(list), min_size=1, max_size=3)),
                wind=draw(st.booleans()), turb=draw(st.tuples(st.integers(0, 2), st.lists(st.sampled_from('uvw'), max_size=3, unique=True), paths()).map(list)),
                aero=draw(st.booleans()),
                name=draw(NAME), subfolder=draw(st.one_of(st.just(''), st.lists(NAME, min_size=1, max_size=2).map('/'.join))),
                time=draw(st.tuples(st.one_of(st.none(), st.integers(0, 500)), st.one_of(st.none(), st.integers(501, 2000)), st.one_of(st.none(), st.sampled_from([0.01, 0.02, 0.5]))).map(list)),
                mann=draw(st.one_of(st.none(), st.fixed_dictionaries(dict(
                    L=st.sampled_from([29.4, 33.6]), ae=st.sampled_from([1, 0.5]), gamma=st.sampled_from([3.9, 2.5]), seed=st.integers(1, 9999), hf=st.booleans(),
                    names=st.one_of(NAME, st.lists(paths(), min_size=3, max_size=3)), n=st.tuples(st.integers(4, 4096), st.integers(2, 64), st.integers(2, 64)).map(list),
                    dim=st.tuples(st.integers(10, 6000), st.integers(10, 200), st.integers(10, 200)).map(list), dont=st.booleans(),
                    std=st.one_of(st.none(), st.tuples(st.integers(0, 9), st.integers(0, 9), st.integers(0, 9)).map(lambda t: [x / 4. for x in t])))))),
                export=draw(st.one_of(st.none(), st.integers(1, 20))), hydro=draw(st.one_of(st.none(), st.tuples(st.integers(0, 90), st.integers(0, 9), st.sampled_from([9.81, 9.8]), st.sampled_from([1027, 1000])).map(list))))


def recase(p, how):
    return p.upper() if how == 'up' else p.lower() if how == 'low' else p


PLACE = {'timo': ('body', 'timoschenko_input'), 'bladedata': ('body',), 'ae': ('aero',), 'pc': ('aero',), 'bladedata_aero': ('aero',), 'profcoef': ('aero',),
         'flap': ('aero', 'dynstall_ateflap'), 'act': ('aero', 'bemwake_method'), 'shear': ('wind',), 'shear_turb': ('wind',), 'mast': ('wind',), 'deficit': ('wakes',),
         'water': ('hydro', 'water_properties'), 'soil': ('soil', 'soil_element'), 'force': ('force', 'dll')}
LINE = {'timo': 'filename %s', 'bladedata': 'external_bladedata_dll a b %s', 'ae': 'ae_filename %s', 'pc': 'pc_filename %s', 'bladedata_aero': 'external_bladedata_dll a b %s',
        'profcoef': 'output_profile_coef_filename %s', 'flap': 'flap 1 2 %s', 'act': 'a-ct-filename %s', 'shear': 'user_defined_shear %s',
        'shear_turb': 'user_defined_shear_turbulence %s', 'mast': 'met_mast_wind %s', 'deficit': 'use_specific_deficit_file %s', 'water': 'water_kinematics_dll %s none',
        'soil': 'datafile %s', 'force': 'dll %s'}


def model(c, root):
    """ (lines as (sections, text), {file to create}, expected input files, expected output files)"""
    lines, create, want = [], [], set()
    done = set()
    nbody = c['bodies']
    relative = False
    ins = [list(x) for x in c['ins']]
    if c['aero'] or any(PLACE.get(k[0], ('',))[0] == 'aero' for k in ins):      # HAWC2 requires both
        for k in ('ae', 'pc'):
            if k not in [x[0] for x in ins]:
                ins.append([k, 'f.' + k, True, './', '', False])
    for n, (kind, p, ex, pre, how, absolute) in enumerate(ins):
        sec = PLACE.get(kind, ('dll', 'type2_dll__%d' % n))
        if sec[0] == 'body':
            sec = ('new_htc_structure', 'main_body__%d' % (n % nbody)) + sec[1:]
        key = (kind, sec)
        if key in done:
            continue
        done.add(key)
        p = 'In%d/%s' % (n, p)
        if ex or absolute:
            create.append(p)
        text = recase(p, how)
        ref = os.path.join(root, text) if absolute else pre + text
        want.add(os.path.join(root, p) if absolute else './' + p if ex else ref)
        relative = relative or (ex and not absolute)
        lines.append((sec, (LINE.get(kind, 'filename %s') + ';') % ref))
        if kind == 'water':
            want.add('none')
        if sec[0] == 'dll':
            a, b = os.path.splitext(ref)
            r64 = a + '_64' + b
            if absolute:
                a, b = os.path.splitext(p)
                create.append(a + '_64' + b)
                r64 = os.path.join(root, create[-1])
            want.add(r64)
    if 'new_htc_structure' in [s[0][0] for s in lines]:
        pass
    # --- output
    outs = []
    got = set()
    for i, p in c['outs']:
        if i in got:
            continue
        got.add(i)
        s, k = OUTS[i]
        p = './' + p
        lines.append((('wind', 'turb_export') if s == 'export' else (s,), '%s %s;' % (k, p)))
        outs.append(p)
        if k in ('system_eigenanalysis', 'structure_eigenanalysis_file_name'):
            outs.append(os.path.dirname(p) + '/mode*.dat')
    res = []
    for n, (s, p, f) in enumerate(c['res']):
        sec = ('%s__%d' % (s, n),)
        lines.append((sec, 'filename ./%s;' % p))
        if f:
            lines.append((sec, 'data_format %s;' % f))
        p = './' + p
        if s == 'output_at_time':
            outs.append(p + '.dat')
        elif f in ('gtsdf', 'gtsdf64'):
            res.append(p + '.hdf5')
        elif f == 'flex_int':
            res += [p + '.int', os.path.dirname(p) + '/sensor']
        else:
            res += [p + '.sel', p + '.dat']
    turb = []
    tf, comps, p = c['turb']
    wind = c['wind'] or any(s[0] == 'wind' for s, _ in lines) or c['mann']
    if wind:
        lines.append((('wind',), 'wsp 8;'))
        lines.append((('wind',), 'turb_format %d;' % tf))
        for x in comps:
            lines.append((('wind', 'mann' if tf == 1 else 'flex'), 'filename_%s ./%s_%s;' % (x, p, x)))
        if tf:
            turb = ['./%s_%s' % (p, x) for x in 'uvw' if x in comps]
    lines += [(('simulation',), 'time_stop 700;'), (('simulation', 'newmark'), 'deltat 0.1;')]
    return lines, create, want, outs, res, turb, relative, bool(wind)


def render(lines, ind=''):
    out, secs = [], []
    for s, t in lines:
        if not s:
            out.append(ind + t)
        elif s[0] not in secs:
            secs.append(s[0])
    for k in secs:
        nm = k.split('__')[0]
        out.append(ind + 'begin %s%s;' % (nm, ' aero 15' if nm == 'output_at_time' else ''))
        out += render([(s[1:], t) for s, t in lines if s and s[0] == k], ind + '  ')
        out.append(ind + 'end %s;' % nm)
    return out


def check(c, ctx):
    from weio.wetb.hawc2.htc_file import HTCFile
    root = os.path.realpath(ctx.path(c['root']))
    lines, create, want, outs, res, turb, relative, wind = model(c, root)
    hdir = os.path.join(root, 'htc', *c['sub'])
    os.makedirs(hdir)
    fn = os.path.join(hdir, 'case.htc')
    want.add(fn)
    txt = render(lines)
    if c['inc']:
        p = 'Inc/' + c['inc']
        os.makedirs(os.path.dirname(os.path.join(root, p)))
        with open(os.path.join(root, p), 'w') as f:
            f.write('plain_line 1;\n')
        want.add(os.path.join(root, p))
        txt.insert(0, 'continue_in_file ./%s;' % p)
    if not relative:                 # something to find the model folder with
        create.append('Anchor/ae')
        txt = txt + ['begin dll;', '  begin type2_dll;', '    filename ./Anchor/ae;', '  end type2_dll;', 'end dll;'] if 'begin dll;' not in txt else txt
        relative = 'begin dll;' in txt and './Anchor/ae' in '\n'.join(txt)
        if relative:
            want |= {'./Anchor/ae', './Anchor/ae_64'}
    for p in create:
        q = os.path.join(root, p)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        open(q, 'w').close()
    with open(fn, 'w') as f:
        f.write('\n'.join(txt + ['exit;', '']))
    modelpath = None if relative else root
    h = HTCFile(fn, modelpath)
    cmp.eq(h.modelpath, root + '/', 'model folder')

    def same(got, exp, what):
        require(sorted(map(str, got)) == sorted(map(str, exp)), '%s: missing %r, not expected %r', what, sorted(set(map(str, exp)) - set(map(str, got)))[:4], sorted(set(map(str, got)) - set(map(str, exp)))[:4])

    def lists(h, what, outs, res, turb):
        same(set(h.input_files()), want, 'input files' + what)
        same(h.res_file_lst(), res, 'result files' + what)
        same(h.output_files(), [x.lower() for x in outs + res], 'output files' + what)
        same(h.turbulence_files(), turb, 'turbulence files' + what)
    before = str(h)
    lists(h, '', outs, res, turb)
    cmp.eq(str(h), before, 'model after asking for the lists of files')

    # --- settings; each changes only what it is about
    t0, t1, dt = c['time']
    exp = dict((k, list(v)) for k, v in flat(h))
    outn = 'output' if 'output' in h else None
    if outn and h['output'].name_ == 'output':
        h.set_time(t0, t1, dt)
        if t1 is not None:
            exp['simulation/time_stop'] = [t1]
        if dt is not None:
            exp['simulation/newmark/deltat'] = [dt]
        if t0 is not None:
            exp['output/time'] = [t0, exp['simulation/time_stop'][0]]
            if wind:
                exp['wind/scale_time_start'] = [t0]
        same_flat(h, exp, 'set_time')
    step = exp['simulation/newmark/deltat'][0]
    cmp.eq(h.deltat(), step, 'deltat')
    m = c['mann']
    if m:
        h.add_mann_turbulence(m['L'], m['ae'], m['gamma'], m['seed'], m['hf'], m['names'] if isinstance(m['names'], str) else ['./' + x for x in m['names']], tuple(m['n']), tuple(m['dim']), m['dont'],
                              None if m['std'] is None else tuple(m['std']))
        exp['wind/turb_format'] = [1]
        exp['wind/mann/create_turb_parameters'] = [m['L'], m['ae'], m['gamma'], m['seed'], int(m['hf'])]
        names = ['./turb/%s_s%04d%s.bin' % (m['names'], m['seed'], x) for x in 'uvw'] if isinstance(m['names'], str) else ['./' + x for x in m['names']]
        for x, f, n, dim in zip('uvw', names, m['n'], m['dim']):
            exp['wind/mann/filename_' + x] = [f]
            exp['wind/mann/box_dim_' + x] = [n, float('%.4f' % (dim / n))]
        if m['dont']:
            exp['wind/mann/dont_scale'] = [1]
        if m['std'] is not None:
            exp['wind/mann/std_scaling'] = m['std']
        turb = names
        same_flat(h, exp, 'add_mann_turbulence')
        if c['export'] and outn and 'turb_export' not in h['wind']:
            h.add_turb_export('./exp_%s.turb', c['export'] if c['export'] > 3 else None)
            for x in 'uvw':
                exp['wind/turb_export/filename_' + x] = ['./exp_%s.turb' % x]
                outs = outs + ['./exp_%s.turb' % x]
            dx = exp['wind/mann/box_dim_u'][1]
            exp['wind/turb_export/samplefrq'] = [c['export'] if c['export'] > 3 else max(1, int(dx / (8 * step)))]
            t_0 = exp.get('output/time', [0])[0]
            exp['wind/turb_export/time_start'] = [t_0]
            exp['wind/turb_export/nsteps'] = [(exp['simulation/time_stop'][0] - t_0) / step]
            for x in 'vw':
                exp['wind/turb_export/box_dim_' + x] = list(exp['wind/mann/box_dim_' + x])
            same_flat(h, exp, 'add_turb_export')
    if c['hydro']:
        h.add_hydro(*c['hydro'])
        for k, v in zip(('mudlevel', 'mwl', 'gravity', 'rho'), c['hydro']):
            exp['hydro/water_properties/' + k] = [v]
        same_flat(h, exp, 'add_hydro')
    h.set_name(c['name'], c['subfolder'])
    sub = '/' + c['subfolder'] if c['subfolder'] else ''

    def change(key, new, index=0):
        old = exp[key][index]
        if old in outs:
            outs[outs.index(old)] = new
        exp[key][index] = new
    outs = list(outs)
    if 'simulation/logfile' in exp:
        change('simulation/logfile', './log%s/%s.log' % (sub, c['name']))
        if 'simulation/animation' in exp:
            change('simulation/animation', './animation%s/%s.dat' % (sub, c['name']))
        if 'simulation/visualization' in exp:
            change('simulation/visualization', './visualization%s/%s.hdf5' % (sub, c['name']))
    if outn:
        key = [k for k in exp if k == 'output/filename']
        if key:
            old, new = exp[key[0]][0], './res%s/%s' % (sub, c['name'])
            exp[key[0]] = [new]
            i = [j for j, (s, _, _) in enumerate(c['res']) if s == 'output'][0]
            f = c['res'][i][2]
            for e in (['.hdf5'] if f in ('gtsdf', 'gtsdf64') else ['.int'] if f == 'flex_int' else ['.sel', '.dat']):
                res.remove(old + e)
                res.append(new + e)
            if f == 'flex_int':
                res.remove(os.path.dirname(old) + '/sensor')
                res.append(os.path.dirname(new) + '/sensor')
    same_flat(h, exp, 'set_name')
    new = root + '/htc%s/%s.htc' % (sub, c['name'])
    cmp.eq(h.filename, new, 'name of the file')
    h.save()
    want.discard(fn)
    want.add(new)
    lists(h, ' after the settings', outs, res, turb)
    if c['inc']:                     # included files are part of the file that was saved
        want.discard(os.path.join(root, 'Inc/' + c['inc']))
    g = HTCFile(new, modelpath)
    cmp.eq(g.modelpath, root + '/', 'model folder')
    lists(g, ' of the file saved', outs, res, turb)
    for p in create:
        require(os.path.getsize(os.path.join(root, p)) == 0, 'file %s was modified', p)
    ctx.label('n%d' % len(want), 'mann' if m else '', 'auto' if modelpath is None else 'given')
    ctx.nontrivial(len(want) + len(outs) + len(res) >= 4)


def flat(h, pre=''):
    out = []
    for k in h.keys():
        v = h[k]
        out += flat(v, pre + k + '/') if v.contents is not None else [(pre + k, list(v.values))]
    return out


def same_flat(h, exp, what):
    got = dict(flat(h))
    for k in sorted(set(got) | set(exp)):
        require(k in got, '%s: %s is missing', what, k)
        require(k in exp, '%s: %s = %r is not expected', what, k, got[k])
        a, b = got[k], exp[k]
        require(len(a) == len(b) and all(x == y or (not isinstance(x, str) and not isinstance(y, str) and abs(x - y) <= 1e-9 * max(abs(x), abs(y))) for x, y in zip(a, b)), '%s: %s is %r, expected %r', what, k, a, b)


@st.composite
def aero_cases(draw):
    t = st.one_of(st.none(), st.integers(0, 500), st.integers(0, 400).map(lambda x: x / 8.))
    return dict(t=[draw(t), draw(t), draw(st.one_of(st.none(), st.sampled_from([0.01, 0.02, 0.5])))], stop0=draw(st.integers(1, 900)), wind=draw(st.one_of(st.none(), st.integers(0, 2))), old=draw(st.booleans()), name=draw(NAME), sub=draw(NAME), log=draw(st.booleans()))


def check_aero(c, ctx):
    # the variant of the model without simulation section: its settings are in test_structure
    from weio.wetb.hawc2.htc_file import H2aeroHTCFile
    os.makedirs(ctx.path('htc'))
    p = ctx.path('htc/a.htc')
    L = ['begin test_structure;', '  time_stop %d;' % c['stop0'], '  deltat 0.25;'] + (['  logfile ./log/old.log;'] if c['log'] else []) + ['  begin x;', '    y 1;', '  end x;', 'end test_structure;']
    if c['wind'] is not None:
        L += ['begin wind;', '  turb_format %d;' % c['wind'], '  wsp 8;', 'end wind;']
    L += ['begin output;', '  filename ./res/r;'] + (['  time 3 4;'] if c['old'] else []) + ['end output;', 'exit;']
    with open(p, 'w') as f:
        f.write('\n'.join(L) + '\n')
    h = H2aeroHTCFile(p, ctx.dir)
    exp = dict((k, list(v)) for k, v in flat(h))
    t0, t1, dt = c['t']
    h.set_time(t0, t1, dt)
    if t1 is not None:
        exp['test_structure/time_stop'] = [t1]
    if dt is not None:
        exp['test_structure/deltat'] = [dt]
    if t0 is not None:
        exp['output/time'] = [t0, exp['test_structure/time_stop'][0]]
        if c['wind']:
            exp['wind/scale_time_start'] = [t0]
    same_flat(h, exp, 'set_time')
    require(h.simulation is h['test_structure'], 'the simulation section is not test_structure')
    h.save()
    same_flat(H2aeroHTCFile(p, ctx.dir), exp, 'set_time, saved')
    ctx.nontrivial(t0 is not None or t1 is not None)


COMPONENTS = [Component('aero', aero_cases(), check_aero, 60, 800), Component('bookkeeping', cases(), check, 300, 5000, shards=2)]
