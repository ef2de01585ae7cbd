"""Generator and model of OpenFAST input files.

A document is a JSON list of items; render() gives the text, expected() what a user must find in it.
Items: {t:'c', text}                                        comment/section line, kept verbatim
       {t:'kv', key, kind, text, descr, pre, sep}           value(s) - label - description
       {t:'tab', i, cols, units, cells}                     table, i = index in TABLES
       {t:'files', key, dim, names, descr}                  list of file names
       {t:'out', lines, descr}                              output channel list, ends the file
"""
from hypothesis import strategies as st
from . import gens as g

# (label under which the user finds the table, dimension variable or fixed size, tag column position, tag, number of header lines, type)
TABLES = [
    ('TowProp', 'NTwInpSt', 0, 'HtFract', 2, 'num'), ('TowProp', 'NumTwrNds', 0, 'TwrElev', 2, 'num'),
    ('DLLProp', 'DLL_NumTrq', 0, 'GenSpd_TLU', 2, 'num'), ('Cases', 'NumCases', 0, 'WndSpeed', 2, 'num'),
    ('HvCoefs', 'NHvCoef', 0, 'HvCoefID', 2, 'num'), ('AxCoefs', 'NAxCoef', 0, 'AxCoefID', 2, 'num'),
    ('Joints', 'NJoints', 0, 'JointID', 2, 'num'), ('DpthProp', 'NCoefDpth', 0, 'Dpth', 2, 'num'),
    ('FillGroups', 'NFillGroups', 0, 'FillNumM', 2, 'num'), ('MGProp', 'NMGDepths', 0, 'MGDpth', 2, 'num'),
    ('SmplProp', 1, 0, 'SimplCd', 2, 'num'), ('BldAeroNodes', 'BldNodes', 0, 'RNodes', 1, 'mix'),
    ('DampingCoeffs', 1, 0, 'mu1', 2, 'num'), ('TowerProp', 'NTwrHt', 0, 'TwrHtFr', 1, 'num'),
    ('WindTurbines', 'NumTurbines', 0, 'WT_X', 2, 'mix'), ('BaseJoints', 'NReact', 0, 'RJointID', 2, 'mix'),
    ('InterfaceJoints', 'NInterf', 0, 'IJointID', 2, 'num'), ('MemberCosineMatrix', 'NCOSMs', 0, 'COSMID', 2, 'num'),
    ('ConcentratedMasses', 'NCmass', 0, 'CMJointID', 2, 'num'),
    ('TMDspProp', 'NKInpSt', 1, 'F_X', 2, 'num'), ('MemberProp', 'NCoefMembers', 1, 'MemberCd1', 2, 'num'),
    ('Members', 'NMembers', 1, 'MJointID1', 2, 'mix'), ('SectionProp', 'NPropSets', 1, 'PropD', 2, 'num'),
    ('LineTypes', 'NTypes', 1, 'Diam', 2, 'mix'), ('ConnectionProp', 'NConnects', 1, 'Type', 2, 'mix'),
    ('LineProp', 'NLines', 1, 'LineType', 2, 'mix'), ('CableProp', 'NCablePropSets', 1, 'EA', 2, 'num'),
    ('RigidProp', 'NRigidPropSets', 1, 'MatDens', 2, 'num'),
]
# labels/values with a special role in some OpenFAST file: not used for plain entries
RESERVED = (['HtFract', 'TwrElev', 'BlFract', 'Genspd_TLU', 'BlSpn', 'WndSpeed', 'HvCoefID', 'AxCoefID', 'JointID', 'Dpth', 'FillNumM', 'MGDpth',
             'SimplCd', 'RNodes', 'kp_xr', 'mu1', 'TwrHtFr', 'TwrRe', 'WT_X', 'RJointID', 'IJointID', 'COSMID', 'CMJointID', 'NumAlf', 'F_X',
             'MemberCd1', 'MJointID1', 'NOutLoc', 'NOutCnt', 'PropD', 'Diam', 'Type', 'LineType', 'GuyanDampSize', 'YoungE', 'EA', 'MatDens',
             'GridName', 'FoilNm', 'AFNames', 'kp_total', 'NumCoords', 're', 'NumBlNds', 'NBlInpSt', 'MassMatrix', 'InterpOrd', 'OutList',
             'nan', 'inf', 'infinity', 't', 'f', 'true', 'false', 'end', 'NumTabs', 'AirfoilRefPoint', 'AirfoilCoord', 'KDAdd', 'station_total',
             'BeamProperties', 'GuyanDampMatrix', 'BeamProp', 'BeamPropX', 'NXPropSets', 'MemberOuts', 'NMOutputs', 'NumFoil', 'NumAFfiles',
             'MemberGeom', 'TowerRe', 'NTwrRe', 'GridOutputs', 'nGridOut', 'AFCoeff', 'BldProp', 'TwFAM1Sh(2)', 'TITLE']
            + [x for t in TABLES for x in t if isinstance(x, str)])
_RES = set(r.lower() for r in RESERVED)
REAL_KEYS = ['Echo', 'DT', 'TMax', 'AirDens', 'KinVisc', 'WakeMod', 'TipLoss', 'BlPitch(1)', 'BlPitch(2)', 'BlPitch(3)', 'RotSpeed', 'NacYaw', 'PtfmSurge',
             'TipRad', 'HubRad', 'PreCone(1)', 'NcIMUxn', 'TowerHt', 'EDFile', 'InflowFile', 'AeroFile', 'ServoFile', 'WindType', 'PropagationDir',
             'HWindSpeed', 'PLexp', 'Filename_Uni', 'RefHt', 'SumPrint', 'OutFile', 'TabDelim', 'OutFmt', 'TStart', 'NBlGages', 'BldGagNd', 'WtrDens',
             'WaveHs', 'WaveTp', 'BldFile(1)', 'ADBlFile(1)', 'GBRatio', 'GenEff', 'VS_RtGnSp', 'DLL_FileName', 'YawDOF', 'GenDOF', 'CompElast', 'Gravity',
             'NTwOutNd', 'TwrNodeOut', 'SeaBed', 'X0', 'U_Ref', 'SSMode-1']
FILEVALS = ['"NRELOffshrBsline5MW_Blade.dat"', '"../5MW_Baseline/Airfoils/Cylinder1.dat"', '"C:\\Work dir\\wind 1.bts"', '"unused"', '"DEFAULT"', 'default',
            '"ES10.3E2"', 'none', '"a b c"', '""', '"(x,y)"', '"1,2"', 'IECKAI', '"1.2.3"', '90%', '"-"', 'SeaState.dat', '"Wind/90m_12mps"', '1.5d3', '0x10', '"T"']
COMMENT_LINES = ['---------------------- SIMULATION CONTROL --------------------------------------', '======  General Options  ============================',
                 '! a remark', '# another remark', '', '   ', '----', '---------------------- OUTPUT --------------------', '==  Flags ==  ', '!', '--- caf\xe9 \xb0 ---']
TITLES = ['------- OPENFAST EXAMPLE INPUT FILE -------', '------ v1.00.* INPUT FILE ------------------------------------------------']
TITLE2 = ['NREL 5.0 MW Baseline Wind Turbine', 'Description of the model', 'Title', '---', 'Properties, and so on (2021)', '! comment', '', 'Test TITLE - for this file: "x"']
OUTCH = ['"RtAeroCp"', '"B1N1Alpha, B1N2Alpha"', 'Wind1VelX', '"GenPwr"  - power', '"TwrBsMxt, TwrBsMyt, TwrBsMzt"   ', "'YawBrFxp'", '  "Azimuth"  ', '"PtfmTDxt"', '"TwrBendMx"', 'AppEndMxc  - end of the blade', '"M1N1Blend, M2N1Bend"', '"Spn1END"   - the end']


def is_special_text(s):
    return any(k in s.upper() for k in ('ADDITIONAL OUTPUTS', 'MESH-BASED', 'OUTPUT CHANNELS', 'OUTLIST', 'ADDITIONAL STIFFNESS', 'DISTRIBUTED PROPERTIES'))


@st.composite
def number(draw, ints=True):
    k = draw(st.sampled_from(['int', 'float', 'float', 'sci'] if ints else ['float', 'sci']))
    if k == 'int':
        v = draw(st.integers(-10 ** 6, 10 ** 6) | st.integers(0, 20) | st.integers(-10 ** 12, 10 ** 12))
        return ('+%d' % v if v > 0 and draw(st.integers(0, 9)) == 0 else '%d' % v)
    x = draw(g.finite(-1e9, 1e9) | g.finite(-1, 1) | st.sampled_from([1e-12, 6.02e23, -1e300, 5e-300]))
    if k == 'sci':
        return draw(st.sampled_from(['%.3E', '%.8e', '%.15e', '%14.6E', '%.0E'])).replace('14', '') % x
    t = draw(st.sampled_from(['%r', '%.3f', '%.1f', '%.7f']))
    if abs(x) > 1e15 and t != '%r':
        t = '%r'
    s = t % x
    return s if '.' in s or 'e' in s else s + '.0'


def kv_value():
    num = number().map(lambda s: ('num', s))
    boo = st.sampled_from(['True', 'False', 'T', 'F', 'true', 'FALSE', 't', 'TRUE']).map(lambda s: ('bool', s))
    txt = st.one_of(st.sampled_from(FILEVALS), g.ident(2, 12).filter(lambda s: s.lower() not in _RES and not s.lower().startswith('end')),
                    st.lists(g.ident(1, 8), min_size=1, max_size=4).map(lambda l: '"%s"' % ' '.join(l))).map(lambda s: ('str', s))
    return st.one_of(num, num, boo, txt, txt, list_value())


@st.composite
def list_value(draw):
    if draw(st.integers(0, 3)) == 0:
        vals = draw(st.lists(st.sampled_from(['True', 'False', 'T', 'F', 'true']), min_size=2, max_size=4))
    else:
        vals = draw(st.lists(number(), min_size=2, max_size=9 if draw(st.integers(0, 4)) == 0 else 4))
    sep = draw(st.sampled_from([', ', ',', ' , ', ',   ', '\t,']))
    return ('list', sep.join(vals))


def pyval(s):
    """What one number or logical written in the file means."""
    if s.lower() in ('t', 'true'):
        return True
    if s.lower() in ('f', 'false'):
        return False
    b = s[1:] if s[:1] in '+-' else s
    if b.isdigit():
        return int(s)
    return float(s)


def kv_expected(it):
    if it['kind'] == 'str':
        return ' '.join(it['text'].split())
    if it['kind'] == 'list':
        return [pyval(x.strip()) for x in it['text'].split(',')]
    return pyval(it['text'])


DESCRS = ['', '- Echo input data to "<RootName>.ech" (flag)', '- Time step (s)', '-  Number, of things {0: none, 1: all} (switch)', 'no dash here (-)',
          '! comment style', '- [T/F] 1, 2 or 3', '- angle (deg) [unused]', '-Attached', '- density\t(kg/m^3)', '- value = 3.0 -', '- (-)', '- "quoted" text', '- caf\xe9 (\xb0)']


def descr():
    return st.one_of(st.sampled_from(DESCRS), g.phrase(6).map(lambda s: '- ' + s if s else '')).filter(lambda s: not is_special_text(s))


@st.composite
def kv(draw, key, kind=None):
    k, text = draw(kv_value())
    if kind:
        k, text = kind
    return dict(t='kv', key=key, kind=k, text=text, descr=draw(descr()), pre=draw(st.sampled_from(['', '   ', '              ', '\t'])),
                sep=draw(st.sampled_from([' ', '   ', '\t', '            '])))


def keys(n_min, n_max):
    one = st.one_of(st.sampled_from(REAL_KEYS), g.ident(2, 14, extra='_'), st.builds(lambda a, i: '%s(%d)' % (a, i), g.ident(2, 9, extra=''), st.integers(1, 9)))
    return st.lists(one.filter(lambda s: s.lower() not in _RES and s.lower() not in ('mw', 'of') and not is_special_text(s)), min_size=n_min, max_size=n_max, unique_by=lambda s: s.lower())


@st.composite
def cell_num(draw):
    k = draw(st.integers(0, 9))
    if k < 3:
        return '%d' % draw(st.integers(-10 ** 6, 10 ** 6))
    if k == 3:
        return draw(st.sampled_from(['True', 'False', 'TRUE', 'false', 'Print', 'noprint']))
    x = draw(g.finite(-1e9, 1e9) | g.finite(-1, 1))
    if k == 4:
        return '%r' % x
    return draw(st.sampled_from(['%.8e', '%r', '%.5E', '%.4g'])) % g.sig(x, draw(st.sampled_from([2, 4, 9])))


def cell_value(s):
    return {'true': 1.0, 'false': 0.0, 'print': 1.0, 'noprint': 0.0}.get(s.lower(), None) if s.lower() in ('true', 'false', 'print', 'noprint') else float(s)


@st.composite
def table(draw, i, max_rows=6):
    label, dim, pos, tag, nh, typ = TABLES[i]
    others = draw(st.lists(g.ident(2, 17 if draw(st.integers(0, 3)) == 0 else 9, extra='_').filter(lambda s: s.lower() not in _RES), min_size=max(1, pos), max_size=7,
                           unique_by=lambda s: s.lower()))
    if draw(st.booleans()):
        tag = draw(st.sampled_from([tag, tag.lower(), tag.upper()]))
    cols = others[:pos] + [tag] + others[pos:]
    units = draw(st.lists(st.sampled_from(['(-)', '(m)', '(kg/m)', '(deg)', '(Nm^2)', '(switch)', '(rad/s)', '(1/s)', '(%)']), min_size=len(cols), max_size=len(cols)))
    n = dim if isinstance(dim, int) else draw(st.integers(0, max_rows))
    if typ == 'num':
        c = cell_num()
    else:
        c = st.one_of(cell_num().filter(lambda s: not s[0].isalpha()), st.sampled_from(['"soil.txt"', 'TRUE', 'False', '"a/b.dat"', 'p', '-', '1-2', 'Vessel', '""', 'NaN0']))
    cells = draw(st.lists(st.lists(c, min_size=len(cols), max_size=len(cols)), min_size=n, max_size=n))
    return dict(t='tab', i=i, cols=cols, units=units, cells=cells, trail=draw(st.sampled_from(['', '', ' ! note', '   '])), jn=draw(st.sampled_from(['  ', '\t', '     '])),
                hd=draw(st.sampled_from(['', '', '  [remark on the columns (m)]'])))


@st.composite
def document(draw, tables=True, min_kv=6, max_kv=22, out=True, latin=False):
    n_tab = draw(st.integers(0, 3)) if tables else 0
    ks = draw(keys(min_kv, max_kv))
    items = []
    for k in ks:
        items.append(draw(kv(k)))
    used_labels, used_dims = set(), set()
    for i in draw(st.lists(st.integers(0, len(TABLES) - 1), min_size=n_tab, max_size=n_tab, unique=True)):
        lab, dim = TABLES[i][0], TABLES[i][1]
        if lab in used_labels or dim in used_dims:
            continue
        used_labels.add(lab)
        t = draw(table(i))
        at = draw(st.integers(3, len(items)))
        while at < len(items) and items[at]['t'] == 'tab' or (at > 0 and at <= len(items) and at < len(items) and items[at - 1].get('glue')):
            at += 1
        block = [t]
        if isinstance(dim, str):
            used_dims.add(dim)
            d = draw(kv(dim, kind=('num', '%d' % len(t['cells']))))
            if draw(st.integers(0, 2)):
                block = [d, t]
                d['glue'] = True
            else:
                items.insert(draw(st.integers(0, min(3, at))), d)
                at += 1
        items[at:at] = block
    if tables and draw(st.integers(0, 4)) == 0:
        names = draw(st.lists(st.sampled_from(['"Airfoils/Cylinder1.dat"', '"Airfoils/DU40_A17.dat"', '"a.dat"', 'NACA64.dat', '"My airfoils/DU 35 (thick).dat"']), min_size=0, max_size=4))
        nm = draw(st.sampled_from([('AFNames', 'NumAFfiles'), ('FoilNm', 'NumFoil')]))
        items += [draw(kv(nm[1], kind=('num', '%d' % len(names)))), dict(draw(kv(nm[0], kind=('str', '"unused"')))) if not names else dict(t='files', key=nm[0], names=names, descr=draw(st.sampled_from(['', '- Airfoil file names (NumAFfiles lines) (quoted strings)'])))]
    if latin:
        for it in items:
            if it['t'] == 'kv' and draw(st.integers(0, 5)) == 0:
                it['descr'] = '- caf\xe9 \xb0C'
    nlines = sum(line_count(it) for it in items)
    n_com = draw(st.integers(0, int(nlines * 0.25)))
    for _ in range(n_com):
        at = draw(st.integers(0, len(items)))
        if at > 0 and items[at - 1].get('glue'):
            continue
        items.insert(at, dict(t='c', text=draw(st.sampled_from(COMMENT_LINES))))
    head = [dict(t='c', text=draw(st.sampled_from(TITLES)))] if draw(st.integers(0, 5)) else []
    if head and draw(st.integers(0, 3)):
        head.append(dict(t='title', text=draw(st.sampled_from(TITLE2))))
    items = head + items
    if out and draw(st.integers(0, 2)) == 0:
        items.append(dict(t='out', descr=draw(st.sampled_from(['- The next line(s) contains a list of output parameters.  See OutListParameters.xlsx for a listing of available output channels, (-)',
                                                              '  - output channels'])),
                          lines=draw(st.lists(st.sampled_from(OUTCH), min_size=0, max_size=6)) * draw(st.sampled_from([1] * 12 + [40, 150]))))
    return items


def line_count(it):
    if it['t'] == 'tab':
        return len(it['cells'])
    if it['t'] == 'files':
        return len(it['names'])
    return 1


def render(items):
    L = []
    for it in items:
        if it['t'] in ('c', 'title'):
            L.append(it['text'])
        elif it['t'] == 'kv':
            L.append((it['pre'] + it['text'] + it['sep'] + it['key'] + (' ' + it['descr'] if it['descr'] else '')))
        elif it['t'] == 'tab':
            nh = TABLES[it['i']][4]
            L.append(it['jn'].join(it['cols']) + (it['hd'] if nh == 2 else ''))
            if nh == 2:
                L.append(' '.join(it['units']))
            for r in it['cells']:
                L.append('  ' + it['jn'].join(r) + it['trail'])
        elif it['t'] == 'files':
            for j, n in enumerate(it['names']):
                L.append(n + ('    ' + it['key'] + '   ' + it['descr'] if j == 0 else ''))
        elif it['t'] == 'out':
            L.append('              OutList     ' + it['descr'])
            L += it['lines']
            L.append('END of input file (the word "END" must appear in the first 3 columns of this last OutList line)')
            L.append('---------------------------------------------------------------------------------------')
    return '\n'.join(L) + '\n'


def n_comments(items):
    """lines a reader of the format takes as comments"""
    return sum(1 for it in items if it['t'] in ('c', 'title'))


def entries(items):
    """ordered [(label, kind, expected, item)] for everything a user looks up by name"""
    out = []
    for it in items:
        if it['t'] == 'kv':
            out.append((it['key'], it['kind'], kv_expected(it), it))
        elif it['t'] == 'tab':
            out.append((TABLES[it['i']][0], 'tab', it, it))
        elif it['t'] == 'files':
            out.append((it['key'], 'files', list(it['names']), it))
        elif it['t'] == 'out':
            out.append(('OutList', 'out', list(it['lines']), it))
    return out


def tab_expected(it):
    """(values as list of lists, numeric?)"""
    typ = TABLES[it['i']][5]
    if typ == 'num':
        return [[cell_value(c) for c in r] for r in it['cells']], True
    allnum = True
    for r in it['cells']:
        for c in r:
            try:
                float(c)
            except ValueError:
                allnum = False
    if allnum:
        return [[float(c) for c in r] for r in it['cells']], True
    return [list(r) for r in it['cells']], False


def exact_cells(items):
    """True if every number in the tables has at most 9 significant digits"""
    for it in items:
        if it['t'] == 'tab' and TABLES[it['i']][5] == 'num':
            for r in it['cells']:
                for c in r:
                    x = cell_value(c)
                    if float('%.8e' % x) != x:
                        return False
    return True


def norm_descr(s):
    return ' '.join(s.split()).strip('-').strip()
