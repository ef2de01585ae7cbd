"""C25: structural graphs."""
import json, os
import numpy as np
from hypothesis import strategies as st
from vlib.core import Component, require, REPO
from vlib import gens as g, cmp
from props import c20
from weio.tools.graph import GraphModel, Node, Element, NodeProperty, ElemProperty, Property
from weio.fast_input_file_graph import fastToGraph
from weio.fast_summary_file import FASTSummaryFile
from weio.fast_input_file import FASTInputFile

RULE = ('Histories of additions, divisions, sorts and queries on a graph compared with a reference model after every step; SubDyn and HydroDyn inputs and SubDyn summaries with generated tables converted to graphs; '
        'non-trivial: at least 3 nodes and 2 elements.')
ASSUMPTIONS = ['elements have two distinct nodes', 'one concentrated mass per joint', 'numeric node data are present at both ends of a divided element', 'elements with different properties at their ends are refused by division']
COORD = st.one_of(st.integers(-20, 20).map(float), g.finite(-100, 100, 3))
TYPES = ['Beam', 'Cable', 'Rigid']


@st.composite
def hist(draw):
    ops = []
    n = draw(st.integers(2, 5))
    ids = draw(st.lists(st.integers(1, 60), min_size=n, max_size=n, unique=True))
    for i in ids:
        ops.append(['node', i, draw(COORD), draw(COORD), draw(COORD), draw(st.one_of(g.finite(-9, 9, 2), st.integers(-9, 9))), draw(st.booleans())])
    k = draw(st.integers(3, 14))
    for _ in range(k):
        t = draw(st.sampled_from(['node', 'elem', 'elem', 'elem', 'elem', 'divide', 'divide', 'sort', 'conn', 'repr']))
        if t == 'node':
            ops.append(['node', draw(st.integers(1, 400)), draw(COORD), draw(COORD), draw(COORD), draw(st.one_of(g.finite(-9, 9, 2), st.integers(-9, 9))), draw(st.booleans())])
        elif t == 'elem':
            ops.append(['elem', draw(st.integers(1, 400)), draw(st.integers(0, 99)), draw(st.integers(0, 99)), draw(st.integers(0, 2)), draw(st.sampled_from([None, 'list', 'array', 'list'])), draw(st.integers(0, 3)), draw(g.finite(0.1, 9, 2))])
        elif t == 'divide':
            ops.append(['divide', draw(st.integers(1, 4)), draw(st.sampled_from(['append', 'insert'])), draw(st.lists(st.integers(0, 2), max_size=2, unique=True)), draw(st.booleans()), draw(st.booleans())])
        elif t == 'sort':
            ops.append(['sort', draw(st.sampled_from(['x', 'y', 'z', 'ID', 'D']))])
        else:
            ops.append([t])
    return dict(ops=ops, mode=draw(st.booleans()), spec=draw(g.specs()), skip=draw(st.integers(0, 3)))


class Model(object):
    def __init__(self):
        self.nodes, self.elems, self.props = [], [], {}

    def node(self, i):
        return [n for n in self.nodes if n['ID'] == i][0]

    def pos(self, i):
        n = self.node(i)
        return np.array([n['x'], n['y'], n['z']])


def compare(G, m, ctx, what, files=True):
    cmp.list_eq([n.ID for n in G.Nodes], [n['ID'] for n in m.nodes], what + ': node IDs')
    for n, e in zip(G.Nodes, m.nodes):
        cmp.arr_close([n.x, n.y, n.z], [e['x'], e['y'], e['z']], 1e-12, 1e-10, '%s: position of node %d' % (what, n.ID))
        for k, v in e['data'].items():
            require(k in n.data, '%s: node %d has no %s', what, n.ID, k)
            if isinstance(v, (int, float)):
                cmp.arr_close(n.data[k], v, 1e-12, 1e-10, '%s: %s of node %d' % (what, k, n.ID))
            else:
                require(n.data[k] == v, '%s: %s of node %d is %r, expected %r', what, k, n.ID, n.data[k], v)
        require(G.getNode(n.ID) is n, '%s: getNode(%d) is another node', what, n.ID)
    cmp.list_eq([e.ID for e in G.Elements], [e['ID'] for e in m.elems], what + ': element IDs')
    for e, x in zip(G.Elements, m.elems):
        cmp.list_eq([int(i) for i in e.nodeIDs], x['nodes'], '%s: nodes of element %d' % (what, e.ID))
        require(len(e.nodes) == 2 and all(a is G.getNode(b) for a, b in zip(e.nodes, x['nodes'])), '%s: element %d does not hold its nodes', what, e.ID)
        cmp.arr_close(e.length, np.linalg.norm(m.pos(x['nodes'][0]) - m.pos(x['nodes'][1])), 1e-9, 1e-9, '%s: length of element %d' % (what, e.ID))
        for k, v in x['data'].items():
            require(e.data.get(k) == v, '%s: %s of element %d is %r, expected %r', what, k, e.ID, e.data.get(k), v)
        if x['prop'] is not None:
            s, i = x['prop']
            require(e.propset == s and [int(k) for k in e.propIDs] == [i, i], '%s: properties of element %d: %r %r', what, e.ID, e.propset, e.propIDs)
            require(e.nodeProps is not None and len(e.nodeProps) == 2 and all(p is G.getNodeProperty(s, i) for p in e.nodeProps), '%s: nodal properties of element %d: %r', what, e.ID, e.nodeProps)
        else:
            require(e.propIDs is None, '%s: element %d has properties %r', what, e.ID, e.propIDs)
        require(G.getElement(e.ID) is e, '%s: getElement(%d) is another element', what, e.ID)
    ix = {n['ID']: i for i, n in enumerate(m.nodes)}
    P = np.array([[n['x'], n['y'], n['z']] for n in m.nodes]).reshape(-1, 3)
    cmp.arr_close(G.points, P, 1e-12, 1e-10, what + ': points')
    cmp.list_eq([list(c) for c in G.connectivity], [[ix[i] for i in e['nodes']] for e in m.elems], what + ': connectivity')
    d = {n['ID']: [e['ID'] for e in m.elems if n['ID'] in e['nodes']] for n in m.nodes}
    require(dict(G.nodeIDs2ElementIDs) == d, '%s: nodeIDs2ElementIDs %r, expected %r', what, G.nodeIDs2ElementIDs, d)
    require({k: [e.ID for e in v] for k, v in G.nodeIDs2Elements.items()} == d, '%s: nodeIDs2Elements %r, expected %r', what, G.nodeIDs2Elements, d)
    require(dict(G.elementIDs2NodeIDs) == {e['ID']: e['nodes'] for e in m.elems}, '%s: elementIDs2NodeIDs %r', what, G.elementIDs2NodeIDs)
    if len(P):
        lo, hi, D = G.extent
        cmp.arr_close(np.array([lo, hi, D]), np.array([P.min(0), P.max(0), np.ptp(P, axis=0)]), 1e-12, 1e-10, what + ': extent')
        cmp.arr_close(G.maxDimension, np.ptp(P, axis=0).max(), 1e-12, 1e-10, what + ': largest dimension')
        L = np.array([[m.pos(i) for i in e['nodes']] for e in m.elems]).reshape(-1, 2, 3)
        cmp.arr_close(G.toLines(), L, 1e-12, 1e-10, what + ': lines')
        df = G.nodalDataFrame()
        cmp.list_eq(list(df['ID']), [n['ID'] for n in m.nodes], what + ': IDs of the nodal table')
        cmp.arr_close(df[['x', 'y', 'z']].values, P, 1e-12, 1e-10, what + ': positions of the nodal table')
        if any('D' in n['data'] for n in m.nodes):
            cmp.arr_close(df['D'].values, [n['data'].get('D', 0) for n in m.nodes], 1e-12, 1e-10, what + ': data of the nodal table')
        d2 = G.nodalDataFrame(sortBy='z')
        require((np.diff(d2['z'].values) >= 0).all() and sorted(d2['ID']) == sorted(df['ID']), '%s: sorted nodal table', what)
        for _, r in d2.iterrows():
            cmp.arr_close([r['x'], r['y'], r['z']], m.pos(int(r['ID'])), 1e-12, 1e-10, what + ': row of the sorted nodal table')
        if files:
            p = ctx.path('g.json')
            J = G.toJSON(p)
            for nm, j in (('returned', J), ('written', json.load(open(p)))):
                cmp.list_eq([list(c) for c in j['Connectivity']], [[ix[i] for i in e['nodes']] for e in m.elems], '%s: %s JSON connectivity' % (what, nm))
                cmp.arr_close(np.array(j['Nodes']), P, 1e-12, 1e-10, '%s: %s JSON nodes' % (what, nm))
                cmp.list_eq([(q['type'], q['Diam']) for q in j['ElemProps']], [(e['data'].get('Type', 1), e['data'].get('D', 1)) for e in m.elems], '%s: %s JSON element properties' % (what, nm))
                cmp.arr_close(j['groundLevel'], P[:, 2].min(), 1e-12, 1e-10, '%s: %s JSON ground level' % (what, nm))
    for f in (G.getNode, G.getElement):
        cmp.raises((KeyError,), lambda: f(100000), 'unknown ID')


def divide(G, m, n, method, excl, key, nocopy, what):
    old_n, old_e = [x['ID'] for x in m.nodes], [x['ID'] for x in m.elems]
    kw = dict(method=method)
    if key:
        kw.update(excludeDataKey='Type', excludeDataList=[TYPES[i] for i in excl])
    if nocopy:
        kw['keysNotToCopy'] = ['label']
    r = G.divideElements(n, **kw)
    require(r is G, '%s: returned %r', what, type(r))
    cmp.list_eq([x.ID for x in G.Nodes][:len(old_n)], old_n, what + ': nodes that were there')
    new_n = [x.ID for x in G.Nodes][len(old_n):]
    require(len(set(new_n) | set(old_n)) == len(new_n) + len(old_n), '%s: node IDs are not unique %r', what, new_n)
    all_e = [x.ID for x in G.Elements]
    require(len(set(all_e)) == len(all_e) and set(old_e) <= set(all_e), '%s: element IDs %r', what, all_e)
    split = [e for e in m.elems if not (key and e['data']['Type'] in [TYPES[i] for i in excl])]
    require(len(all_e) == len(old_e) + (n - 1) * len(split) and len(new_n) == (n - 1) * len(split), '%s: %d elements, %d new nodes', what, len(all_e), len(new_n))
    new_e = [i for i in all_e if i not in set(old_e)]
    if method == 'append':
        cmp.list_eq(all_e[:len(old_e)], old_e, what + ': elements that were there')
    by = {x.ID: x for x in G.Elements}
    elems, order, k = [], [], 0
    used = []
    for e in m.elems:
        if e not in split:
            order.append(e['ID'])
            continue
        chain = [e['ID']] + new_e[k:k + n - 1]
        k += n - 1
        if method == 'insert':
            order += chain
        else:
            order.append(e['ID'])
        a, b = e['nodes']
        pa, pb = m.pos(a), m.pos(b)
        na, nb = m.node(a), m.node(b)
        cur = a
        for i, c in enumerate(chain):
            x = by[c]
            q = [int(v) for v in x.nodeIDs]
            require(len(q) == 2 and q[0] == cur, '%s: part %d of element %d starts at node %r, expected %d', what, i, e['ID'], q, cur)
            last = i == n - 1
            require((q[1] == b) if last else (q[1] in new_n and q[1] not in used), '%s: part %d of element %d ends at node %d', what, i, e['ID'], q[1])
            if not last:
                used.append(q[1])
                f = float(i + 1) / n
                node = [v for v in G.Nodes if v.ID == q[1]][0]
                cmp.arr_close([node.x, node.y, node.z], pa * (1 - f) + pb * f, 1e-9, 1e-9, '%s: node %d of element %d' % (what, i, e['ID']))
                data = {}
                for kk in na['data']:
                    v = na['data'][kk]
                    if isinstance(v, (int, float)) and isinstance(nb['data'].get(kk), (int, float)):
                        data[kk] = v * (1 - f) + nb['data'][kk] * f
                if nocopy:
                    require('label' not in node.data, '%s: label copied to node %d', what, q[1])
                elif 'label' in na['data']:
                    data['label'] = na['data']['label']
                m.nodes.append(dict(ID=q[1], x=node.x, y=node.y, z=node.z, data=data))
            elems.append(dict(ID=c, nodes=q, data=dict(e['data']), prop=e['prop']))
            cur = q[1]
    byid = {e['ID']: e for e in elems}
    for e in m.elems:
        byid.setdefault(e['ID'], e)
    if method == 'append':
        order += new_e
    cmp.list_eq(all_e, order, what + ': order of the elements')
    m.elems = [byid[i] for i in order]
    o = {i: k for k, i in enumerate([x.ID for x in G.Nodes])}
    m.nodes.sort(key=lambda x: o[x['ID']])


def check_hist(c, ctx):
    G, m = GraphModel(), Model()
    for s in TYPES:
        G.addNodePropertySet(s)
        for i in range(4):
            G.addNodeProperty(s, NodeProperty(ID=10 * i + 1, E=float(i), D=2. * i))
    G.addElementPropertySet('El'); G.addElementProperty('El', ElemProperty(ID=3, k=5))
    G.addMiscPropertySet('Mi'); G.addMiscProperty('Mi', Property(ID=4, data=dict(v=1), w=2)); G.addMiscProperty('Mi', ElemProperty(ID=5, v=3))
    require(G.getElementProperty('El', 3)['k'] == 5 and G.getMiscProperty('Mi', 4).data == dict(v=1, w=2) and G.getMiscProperty('Mi', 5)['v'] == 3 and G.getNodeProperty('Cable', 21)['D'] == 4, 'stored properties differ')
    cmp.raises((KeyError,), lambda: G.getNodeProperty('Beam', 2), 'unknown property'); cmp.raises((KeyError,), lambda: G.getElementProperty('El', 2), 'unknown property'); cmp.raises((KeyError,), lambda: G.getMiscProperty('Mi', 2), 'unknown property')
    cmp.raises((Exception,), lambda: G.addNodeProperty('Beam', ElemProperty(ID=9)), 'property of another kind')
    nq = 0
    for o, op in enumerate(c['ops']):
        what = 'step %d (%s)' % (o, op[0])
        if op[0] == 'node':
            if op[1] in [n['ID'] for n in m.nodes]:
                continue
            data = dict(D=op[5], label='n%d' % op[1]) if op[6] else dict(D=op[5])
            G.addNode(Node(op[1], op[2], op[3], op[4], **data))
            m.nodes.append(dict(ID=op[1], x=op[2], y=op[3], z=op[4], data=data))
        elif op[0] == 'elem':
            a, b = m.nodes[op[2] % len(m.nodes)]['ID'], m.nodes[op[3] % len(m.nodes)]['ID']
            if op[1] in [e['ID'] for e in m.elems] or a == b:
                continue
            t = TYPES[op[4]]
            kw, prop = {}, None
            if op[5]:
                prop = (t, 10 * op[6] + 1)
                ids = [prop[1]] * 2
                kw = dict(propset=t, propIDs=ids if op[5] == 'list' else np.array(ids))
            G.addElement(Element(op[1], [a, b], Type=t, D=op[7], **kw))
            m.elems.append(dict(ID=op[1], nodes=[a, b], data=dict(Type=t, D=op[7]), prop=prop))
        elif op[0] == 'divide':
            if m.elems and len(m.elems) * op[1] < 200:
                divide(G, m, op[1], op[2], op[3], op[4], op[5], what)
        elif op[0] == 'sort':
            k = op[1]
            r = G.sortNodesBy(k)
            require(r is G, '%s: returned %r', what, type(r))
            new = [n.ID for n in G.Nodes]
            require(sorted(new) == sorted(n['ID'] for n in m.nodes), '%s: nodes %r', what, new)
            m.nodes = [m.node(i) for i in new]
            v = [n['data']['D'] if k == 'D' else n[k] for n in m.nodes]
            require((np.diff(v) >= 0).all(), '%s: %r is not sorted by %s', what, v, k)
        elif op[0] == 'conn':
            G.updateConnectivity()
        elif op[0] == 'repr':
            s = str(G)
            require(all(str(n.ID) in s for n in G.Nodes), '%s: printed graph lacks nodes', what)
        if c['skip'] == 0 or (o % (c['skip'] + 1)) == 0:
            compare(G, m, ctx, what, files=(o % 3 == 0))
            nq += 1
    compare(G, m, ctx, 'end')
    if c['mode'] and m.nodes and m.elems:
        D = g.build((2, len(m.nodes), 3), c['spec'])
        G.addMode(D[0], freq=0.5); G.addMode(D[1], name='named', freq=2.)
        p = ctx.path('m.json')
        G.toJSON(p)
        M = json.load(open(p))['Modes']
        require(len(M) == 2 and M[1]['name'] == 'named' and M[0]['name'] != 'named', 'modes of the JSON: %r', [x['name'] for x in M])
        for i in range(2):
            cmp.arr_close(np.array(M[i]['Displ']), D[i], 1e-12, 1e-12, 'displacements of mode %d' % i)
            cmp.arr_close(M[i]['omega'], 2 * np.pi * (0.5, 2.)[i], 1e-12, 0, 'frequency of mode %d' % i)
        cmp.raises((Exception,), lambda: G.sortNodesBy('x'), 'sort with modes')
        cmp.raises((Exception,), lambda: G.divideElements(2), 'division with modes')
        compare(G, m, ctx, 'after refused operations', files=False)
    else:
        cmp.raises((Exception,), lambda: G.divideElements(0), 'division in 0 parts')
    ctx.label(*set(o[0] for o in c['ops']))
    ctx.nontrivial(len(m.nodes) >= 3 and len(m.elems) >= 2)


# ---------------------------------------------------------------- SubDyn, HydroDyn, summary
@st.composite
def inputs(draw):
    n = draw(st.integers(2, 7))
    c = dict(kind=draw(st.sampled_from(['sd', 'hd', 'sum'])), n=n, ids=draw(st.lists(st.integers(1, 50), min_size=n, max_size=n, unique=True)), xyz=draw(st.lists(st.tuples(g.finite(-30, 30, 2), g.finite(-30, 30, 2), g.finite(-90, 30, 2)), min_size=n, max_size=n)),
             el=draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(1, n - 1), st.integers(0, 2), st.integers(0, 2), st.integers(0, 2), st.booleans()), min_size=1, max_size=8)), np=draw(st.integers(1, 3)), mtype=draw(st.booleans()), cols=draw(st.booleans()), jt=draw(st.booleans()), spec=draw(g.specs(kinds=['ramp', 'rand', 'steps'])),
             cm=draw(st.lists(st.integers(0, n - 1), max_size=3, unique=True)), inter=draw(st.integers(0, n - 1)), base=draw(st.integers(0, n - 1)), bc=draw(st.lists(st.integers(0, 1), min_size=6, max_size=6)), ssi=draw(st.booleans()), div=draw(st.integers(0, 3)), same=draw(st.booleans()), nax=draw(st.integers(1, 3)),
             smpl=draw(st.sampled_from([10, 12])), ndp=draw(st.integers(0, 3)), nmp=draw(st.integers(0, 3)), leg=draw(st.booleans()), nmg=draw(st.integers(0, 3)), obj=draw(st.booleans()))
    if c['kind'] == 'sum':
        c['sum'] = draw(c20.sums())
    return c


def mass(m, J, r):
    """6x6 mass matrix at the joint: skew-symmetric form"""
    x, y, z = r
    S = np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]])
    I = np.array([[J[0], J[3], J[4]], [J[3], J[1], J[5]], [J[4], J[5], J[2]]])
    M = np.zeros((6, 6))
    M[:3, :3] = m * np.eye(3)
    M[:3, 3:] = -m * S
    M[3:, :3] = m * S
    M[3:, 3:] = I - m * S.dot(S)
    return M


def check_inputs(c, ctx):
    if c['kind'] == 'sum':
        return check_sumgraph(c['sum'], ctx)
    n, ids = c['n'], c['ids']
    M = lambda shape, k: np.abs(g.build(shape, dict(c['spec'], seed=c['spec']['seed'] + k)))
    m = Model()
    for i in range(n):
        m.nodes.append(dict(ID=ids[i], x=c['xyz'][i][0], y=c['xyz'][i][1], z=c['xyz'][i][2], data={}))
    src = os.path.join(REPO, 'weio', 'tests', 'example_files', 'FASTIn_SbD.dat' if c['kind'] == 'sd' else 'FASTIn_HD.dat')
    obj = c['obj'] and not (c['kind'] == 'sd' and c['mtype'])
    F = FASTInputFile(src) if obj else {}
    bc = c['bc']
    el = []
    for j, (a, b, t, p, q, pot) in enumerate(c['el']):
        el.append((3 * j + 2, ids[a], ids[(a + b) % n], t, p % c['np'], p % c['np'] if c['same'] else q % c['np'], pot))
    if c['kind'] == 'sd':
        bp, cp, rp = M((c['np'], 6), 1), M((c['np'], 5 if c['cols'] else 4), 2), M((c['np'], 2), 3)
        for T in (bp, cp, rp):
            T[:, 0] = 5 * np.arange(c['np']) + 1
        F['BeamProp'] = bp
        if c['mtype']:
            F['CableProp'], F['RigidProp'] = cp, rp
        J = np.column_stack((ids, np.array(c['xyz'])))
        if c['jt']:
            J = np.column_stack((J, 1 + np.arange(n) % 4, np.zeros((n, 4))))
        F['Joints'] = J
        F['Members'] = np.array([[e[0], e[1], e[2], 5 * e[4] + 1, 5 * e[5] + 1] + ([e[3] + 1] if c['mtype'] else []) for e in el], float)
        F['InterfaceJoints'] = np.array([[ids[c['inter']]] + bc], float)
        F['BaseJoints'] = np.array([[str(ids[c['base']])] + [str(x) for x in bc[::-1]] + ['"soil.txt"']], dtype=object) if c['ssi'] else np.array([[ids[c['base']]] + bc[::-1]], float)
        CM = np.column_stack(([ids[i] for i in c['cm']], M((len(c['cm']), 10), 4))) if c['cm'] else np.zeros((0, 11))
        F['ConcentratedMasses'] = CM
        G = F.toGraph() if obj else fastToGraph(F)
        for i, nd in enumerate(m.nodes):
            nd['data']['Type'] = (1 + i % 4) if c['jt'] else 1
        for e in el:
            t = TYPES[e[3]] if c['mtype'] else 'Beam'
            m.elems.append(dict(ID=e[0], nodes=[e[1], e[2]], data=dict(Type=t, object='cylinder'), prop=(t, 5 * e[4] + 1), prop2=5 * e[5] + 1))
        for t, T, names in (('Beam', bp, ['E', 'G', 'rho', 'D', 't']), ('Cable', cp, ['EA', 'rho', 'T0', 'Chan']), ('Rigid', rp, ['rho'])):
            if t != 'Beam' and not c['mtype']:
                require(t not in G.NodePropertySets, 'property set %s', t)
                continue
            require(len(G.NodePropertySets[t]) == c['np'], '%d %s properties', len(G.NodePropertySets[t]), t)
            for r in T:
                p = G.getNodeProperty(t, r[0])
                row = list(r[1:]) + ([-1] if t == 'Cable' and not c['cols'] else [])
                require(sorted(p.data) == sorted(names), '%s property has %r', t, sorted(p.data))
                cmp.arr_close([p[k] for k in names], row, 0, 0, '%s property %d' % (t, r[0]))
        for i, k in enumerate(c['cm']):
            r = CM[i]
            cmp.arr_close(G.getNode(ids[k]).data['addedMassMatrix'], mass(r[1], r[2:8], r[8:11]), 1e-12, 1e-9 * np.abs(r).max() ** 3 + 1e-300, 'mass matrix of joint %d' % ids[k])
        for nd in G.Nodes:
            require(('addedMassMatrix' in nd.data) == (nd.ID in [ids[k] for k in c['cm']]), 'concentrated mass at joint %d', nd.ID)
            require(('IBC' in nd.data) == (nd.ID == ids[c['inter']]) and ('RBC' in nd.data) == (nd.ID == ids[c['base']]), 'boundary conditions at joint %d', nd.ID)
        cmp.list_eq([int(x) for x in G.getNode(ids[c['inter']]).data['IBC']], bc, 'interface conditions')
        cmp.list_eq([int(x) for x in G.getNode(ids[c['base']]).data['RBC'][:6]], bc[::-1], 'base conditions')
        if c['ssi']:
            require(G.getNode(ids[c['base']]).data['RBC'][6] == '"soil.txt"', 'soil file')
        files = True
    else:
        ax = M((c['nax'], 4), 1); ax[:, 0] = 2 * np.arange(c['nax']) + 1
        sec = M((c['np'], 3), 2); sec[:, 0] = 5 * np.arange(c['np']) + 1
        sm = M((1, c['smpl']), 3)
        dp, mp, mg = M((c['ndp'], 11 if c['leg'] else 13), 4), M((c['nmp'], 21 if c['leg'] else 25), 5), M((c['nmg'], 3), 6)
        F['AxCoefs'], F['SectionProp'], F['SmplProp'], F['DpthProp'], F['MemberProp'], F['MGProp'] = ax, sec, sm, dp, mp, mg
        F['FillGroups'] = np.zeros((0, 4))
        F['Joints'] = np.column_stack((ids, np.array(c['xyz']), ax[np.arange(n) % c['nax'], 0], np.zeros(n)))
        F['Members'] = np.array([[str(e[0]), str(e[1]), str(e[2]), str(5 * e[4] + 1), str(5 * e[5] + 1), '0.5000', str(e[3] + 1), 'TRUE' if e[6] else 'FALSE'] for e in el], dtype=object)
        G = F.toGraph() if obj else fastToGraph(F)
        sets = ['SimpleCoefs', 'DepthCoefs', 'MemberCoefs']
        for i, nd in enumerate(m.nodes):
            r = ax[i % c['nax']]
            nd['data'] = dict(JAxCd=float(r[1]), JAxCa=float(r[2]), JAxCp=float(r[3]))
        sn = ['Cd', 'CdMG', 'Ca', 'CaMG', 'Cp', 'CpMG'] + (['AxCd', 'AxCdMG'] if c['smpl'] == 12 else []) + ['AxCa', 'AxCaMG', 'AxCp', 'AxCpMG']
        for e in el:
            m.elems.append(dict(ID=e[0], nodes=[e[1], e[2]], data=dict(CoefMod=sets[e[3]], DivSize=0.5, Pot=e[6], object='cylinder'), prop=('Section', 5 * e[4] + 1), prop2=5 * e[5] + 1))
            if e[3] == 0:
                for i in e[1:3]:
                    m.node(i)['data'].update({k: float(v) for k, v in zip(sn, sm[0])})
        for t, T, names in (('Section', sec, ['D', 't']), ('AxCoefs', ax, ['JAxCd', 'JAxCa', 'JAxCp'])):
            require(len(G.NodePropertySets[t]) == len(T), '%d %s properties', len(G.NodePropertySets[t]), t)
            for r in T:
                cmp.arr_close([G.getNodeProperty(t, r[0])[k] for k in names], r[1:], 0, 0, '%s property %d' % (t, r[0]))
        axn = [] if c['leg'] else ['AxCd', 'AxCdMG']
        dn = ['Dpth', 'Cd', 'CdMG', 'Ca', 'CaMG', 'Cp', 'CpMG'] + axn + ['AxCa', 'AxCaMG', 'AxCp', 'AxCpMG']
        mn = ['MemberID', 'Cd1', 'Cd2', 'CdMG1', 'CdMG2', 'Ca1', 'Ca2', 'CaMG1', 'CaMG2', 'Cp1', 'Cp2', 'CpMG1', 'CpMG2'] + ([] if c['leg'] else ['AxCd1', 'AxCd2', None, None]) + ['AxCa1', 'AxCa2', 'AxCaMG1', 'AxCaMG2', 'AxCp1', 'AxCp2']
        for t, T, names in (('DepthCoefs', dp, dn), ('MemberCoefs', mp, mn), ('MG', mg, ['MGDpth', 'MGThck', 'MGDens'])):
            require(len(G.MiscPropertySets[t]) == len(T), '%d %s', len(G.MiscPropertySets[t]), t)
            for i, r in enumerate(T):
                p = G.getMiscProperty(t, i + 1)
                for k, v in zip(names, r):
                    if k:
                        cmp.arr_close(p[k], v, 0, 0, '%s of %s %d' % (k, t, i + 1))
        for e, x in zip(G.Elements, el):
            require(len(e.data['color']) == 3, 'color of element %d: %r', e.ID, e.data['color'])
        files = True
    for e, x in zip(G.Elements, m.elems):
        require([int(i) for i in e.propIDs] == [x['prop'][1], x['prop2']] and [p.ID for p in e.nodeProps] == [x['prop'][1], x['prop2']], 'properties of element %d: %r', e.ID, e.propIDs)
    uniform = all(x['prop'][1] == x['prop2'] for x in m.elems)
    if uniform:
        compare(G, m, ctx, 'graph', files)
        if c['div']:
            if c['kind'] == 'hd':       # coefficients are only at joints of some members
                for nd in m.nodes:
                    nd['data'] = {k: v for k, v in nd['data'].items() if k.startswith('J')}
            for nd in m.nodes:
                nd['data'].pop('Type', None)
            divide(G, m, c['div'], 'append' if c['cols'] else 'insert', [2] if c['mtype'] else [], c['kind'] == 'sd', False, 'division')
            compare(G, m, ctx, 'divided graph', files)
    elif c['div'] > 1:
        cmp.raises((NotImplementedError,), lambda: G.divideElements(c['div']), 'division of elements with two properties')
    ctx.label(c['kind'], 'div%d' % c['div'])
    ctx.nontrivial(n >= 3 and len(el) >= 2)


def check_sumgraph(c, ctx):
    T, e = c20.build(c)
    p = ctx.path('a.sum.yaml')
    open(p, 'w').write('\n'.join(T) + '\n')
    S = FASTSummaryFile(p)
    G = S.toGraph()
    cmp.list_eq([n.ID for n in G.Nodes], list(range(1, c['n'] + 1)), 'node IDs')
    cmp.arr_close(G.points, e['xyz'], 1e-6, 1e-5, 'points')
    for n in G.Nodes:
        cmp.list_eq([int(x) for x in n.data['DOFs']], [i for i, r in enumerate(e['rows']) if r[0] == n.ID], 'degrees of freedom of node %d' % n.ID)
    cmp.list_eq([[int(i) for i in x.nodeIDs] for x in G.Elements], [[int(r[1]), int(r[2])] for r in e['el']], 'nodes of the elements')
    cmp.list_eq([list(x) for x in G.connectivity], [[int(r[1]) - 1, int(r[2]) - 1] for r in e['el']], 'connectivity')
    for x, r in zip(G.Elements, e['el']):
        require(x.ID == int(r[0]) and x.data['Type'] == int(r[5]), 'element %r', x)
        cmp.arr_close([x.data[k] for k in ('Area', 'rho', 'E', 'G')], r[[7, 8, 9, 10]], 1e-6, 0, 'section and material of element %d' % x.ID)
    md = 0.1 * max(np.ptp(e['xyz'][:, i]) for i in range(3))
    gy, cb = c20.shapes(e, md)
    exp = [('GY%d' % (i + 1), gy[:, :, i], 1 / (2 * np.pi)) for i in range(gy.shape[2])] + [('CB%d' % (i + 1), cb[:, :, i], e['freq'][i]) for i in range(cb.shape[2])]
    p = ctx.path('o.json')
    G.toJSON(p)
    J = json.load(open(p))
    cmp.list_eq([m['name'] for m in G.Modes], [x[0] for x in exp], 'modes')
    for m, j, x in zip(G.Modes, J['Modes'], exp):
        cmp.arr_close(m['data'], x[1], 1e-9, 1e-8, 'displacements of mode ' + x[0])
        cmp.arr_close(m['freq'], x[2], 1e-12, 0, 'frequency of mode ' + x[0])
        require(j['name'] == x[0], 'name of mode %s: %r', x[0], j['name'])
        cmp.arr_close(np.array(j['Displ']), x[1], 1e-9, 1e-8, 'JSON displacements of mode ' + x[0])
        cmp.arr_close(j['omega'], 2 * np.pi * x[2], 1e-12, 0, 'JSON frequency of mode ' + x[0])
    ctx.label('sum')
    ctx.nontrivial(c['n'] >= 3 and len(e['el']) >= 2)


COMPONENTS = [Component('histories', hist(), check_hist, quick=250, thorough=6000, shards=4), Component('inputs', inputs(), check_inputs, quick=250, thorough=6000, shards=4)]
