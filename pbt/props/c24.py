"""From the interface file to what is shown: the whole chain."""
import os
import random

import numpy as np
from hypothesis import strategies as st

import gen
import hier
import models
import records as R
import shells
import sif
import vtu
from core import Facet, Violation
from props.c06 import path_matrix
from props.c20 import decode

RULE = ('(a) a random model with beams or shells of first or second order and '
        'results of 1-4 cases, real or complex, formatted or unformatted; (b) '
        'random superelement trees whose first-level files have such models. '
        'A selection (sets, kind) is taken through the documented chain: '
        'nodes at a given matrix or at the top level, elements, '
        'displacements, stresses or forces, von Mises and principal stresses, '
        'the signed largest over the cases, into a VTU file (a piece per '
        'superelement) and a VTF file (a block per superelement), with the '
        'nodes of each element its own or shared, which are read by '
        'independent readers; and through the look-up by external element and '
        'node number. At every node of every element the coordinates, numbers '
        'and values must be those that follow from the records by definition. '
        'Non-trivial: element results of more than one element type, '
        'superelement or case.')
ASSUMPTIONS = ['the domains of C07-C09, C15, C17, C20', 'results in the VTF '
               'file are given in the order of its nodes',
               'results of all cases of a question are real, or all complex '
               '(then real parts are shown)']
# node names of the VTF element types
VTF = {15: ('%BEAMS', 'a b'), 23: ('%BEAMS_3', 'a ab b'),
       25: ('%TRIANGLES', 'a b c'), 26: ('%TRIANGLES_6', 'a b c ab bc ca'),
       24: ('%QUADS', 'a b c d'), 28: ('%QUADS_8', 'a b c d ab bc cd da')}


def eig(v):
    """In-plane principal stresses and von Mises stress of (xx, yy, xy[, xz,
    yz])."""
    v = np.asarray(v, float)
    t = np.zeros((3, 3))
    t[0, 0], t[1, 1], t[0, 1] = v[:3]
    if len(v) > 3:
        t[0, 2], t[1, 2] = v[3:5]
    t = t + np.triu(t, 1).T
    w = np.linalg.eigvalsh(t)
    vm = np.sqrt(((w[0] - w[1]) ** 2 + (w[1] - w[2]) ** 2 +
                  (w[2] - w[0]) ** 2) / 2)
    a, b, c = t[0, 0], t[1, 1], t[0, 1]
    p = np.linalg.eigvalsh([[a, c], [c, b]])[::-1] if len(v) == 3 else \
        np.delete(w, np.abs(w).argmin())[::-1]
    return list(p) + [vm]


class Part(object):
    """One superelement's share of the picture."""

    def __init__(self, d, m, t, trans, kw, q, rnd):
        self.d, self.m, self.t = d, m, t
        sets, kind = models.resolve(m, q)
        kind = kind or 'shell'
        self.idx = m.selected(sets, kind)
        self.cases = [k for k in m.cases if k['run'] == q['run']]
        if len({k['cplx'] for k in self.cases}) != 1:
            self.idx = []
        if q['few'] and self.cases:
            self.cases = [k for k in self.cases
                          if rnd.randrange(2)] or self.cases[:1]
        self.elems = [m.elements[i] for i in self.idx]
        self.types = [e['type'] for e in self.elems]
        if len({models.ORDER.get(t, 0) for t in self.types}) > 1:
            self.idx = []
        if not self.idx or not self.cases:
            return
        self.kind = kind
        self.disc = dict(sets=sets, kind=kind, disconnected=True)
        self.trans, self.kw = trans, kw
        self.ask = res = dict(run=q['run'], rescases=[k['ext'] for k in self.cases],
                   sets=sets)
        self.nodes = d.get_nodes(trans=trans, **dict(self.disc, **kw))
        self.cells = d.get_elements(**self.disc)
        self.nodeno = d.get_nodenumbers(**self.disc)
        self.elemno = d.get_elementnumbers(sets, kind)
        self.disp = self.per_case(d.get_noderesults(
            'displacement', kind=kind, disconnected=True, **res))
        self.res = self.per_case(d.get_elementresults(
            'beamforce' if kind == 'beam' else 'generalstress', **res))
        self.reference()

    def per_case(self, a):
        a = a if len(self.cases) > 1 else a[None]
        return a.real if a.dtype.kind == 'c' else a

    def reference(self):
        """Per element: {node name: (node, value per case)}"""
        self.want = []
        name = 'beamforce' if self.kind == 'beam' else 'generalstress'
        for e in self.elems:
            val = [np.asarray(shells.expected(
                e['type'], self.m.elemvalues[k['ires'], e['elno']],
                name)).real for k in self.cases]
            node = dict(zip(vtu.MODEL[e['type']].split(), e['nodes']))
            at = {n: [v[i] for v in val] for i, n in enumerate(
                vtu.RESULTS[e['type']].split())}
            self.want.append({n: (node[n], at[n]) for n in node})
        self.unit = max([125. * self.m.unit] + [
            np.abs(v).max() for w in self.want for _, v in w.values()])

    # ---- what is shown -----------------------------------------------------
    def arrays(self):
        """name -> (array over the element nodes, function of the values of
        one node giving the expected row)"""
        from freesif import calc
        out = {}
        if self.kind == 'beam':
            for k in range(len(self.cases)):
                out['force %d' % k] = (self.res[k],
                                       lambda v, k=k: v[k])
            out['most'] = (calc.absmax(self.res, 0), most)
            return out
        thick = self.res.shape[-1] == 5
        vm = calc.vonmises2d    # no out-of-plane shear at the surfaces
        pr = calc.principal_thickshell if thick else calc.principal2d
        for s, side in ((0, 'lower'), (1, 'upper')):
            one = self.res[:, :, s]
            mises, princ = vm(one), pr(one)
            for k in range(len(self.cases)):
                out['%s %d' % (side, k)] = (
                    one[k], lambda v, k=k, s=s: v[k][s])
                out['mises %s %d' % (side, k)] = (
                    mises[k], lambda v, k=k, s=s: eig(v[k][s])[2:])
                out['principal %s %d' % (side, k)] = (
                    princ[k], lambda v, k=k, s=s: eig(v[k][s])[:2])
            out['most ' + side] = (
                calc.absmax(one, axis=0),
                lambda v, s=s: most([x[s] for x in v]))
        return out

    def close(self, what, got, want, unit=None):
        got = np.atleast_1d(np.asarray(got, float))
        want = np.atleast_1d(np.asarray(want, float))
        unit = self.unit if unit is None else unit
        if got.shape != want.shape or not np.all(
                np.abs(got - want) <= 1e-5 * unit):
            raise Violation('%s is %s, expected %s' % (what, got.tolist(),
                                                       want.tolist()))

    def place(self, what, node, xyz):
        p = np.array(self.m.xyz[node] + [1.])
        self.close(what + ' place of node %d' % (node + 1), xyz,
                   p.dot(self.t)[:3],
                   1. + float(np.abs(p).dot(np.abs(self.t))[:3].max()))

    def shift(self, node, k):
        return [x.real for x in self.m.nodevalues[
            'displacement', self.cases[k]['ires'], node]]


def most(values):
    v = np.asarray(values)
    # of nearly equal magnitudes either may be taken
    i = np.abs(v).argmax(0)
    return np.take_along_axis(v, i[None], 0)[0]


def ties(values):
    """Do two values nearly have the largest magnitude with unlike signs?"""
    v = np.asarray(values, float)
    top = np.abs(v).max(0)
    near = np.abs(v) >= top - 1e-4 * max(top.max(), 1e-30)
    return bool(np.any((near & (v > 0)).any(0) & (near & (v < 0)).any(0)))


def check_vtu(parts):
    from freesif.utils import VtuWriter
    w = VtuWriter('all.vtu')
    arrays = [p.arrays() for p in parts]
    for p, arrs in zip(parts, arrays):
        w.new_piece(p.nodes, p.cells)
        w.start_pointdata()
        for k in range(len(p.cases)):
            w.add_data(p.disp[k], 'displacement %d' % k)
        w.add_data(p.nodeno, 'node')
        for n in sorted(arrs):
            w.add_data_cellpoints(arrs[n][0], n)
        w.start_celldata()
        w.add_data(p.elemno, 'element')
    w.close()
    pieces = vtu.read('all.vtu')
    if len(pieces) != len(parts):
        raise Violation('%d pieces for %d superelements' % (len(pieces),
                                                            len(parts)))
    for p, arrs, piece in zip(parts, arrays, pieces):
        cells = {a[0]: a[3].ravel().tolist() for a in piece['cells']}
        point = {a[0]: a[3] for a in piece['sections'][0][1]}
        cell = {a[0]: a[3] for a in piece['sections'][1][1]}
        xyz = piece['points'][0][3]
        if cells['types'] != [vtu.CELLTYPE[t] for t in p.types]:
            raise Violation('cell types %s for %s' % (cells['types'],
                                                      p.types))
        start = 0
        for i, e in enumerate(p.elems):
            if int(cell['element'][i, 0]) != e['elnox']:
                raise Violation('cell %d has number %s, not %d' % (
                    i, cell['element'][i], e['elnox']))
            names = vtu.VTK[e['type']].split()
            stop = cells['offsets'][i]
            con = cells['connectivity'][start:stop]
            start = stop
            if len(con) != len(names):
                raise Violation('cell %d has %d nodes' % (i, len(con)))
            for n, c in zip(names, con):
                node, val = p.want[i][n]
                what = 'VTU, element %d (type %d), node %s: ' % (
                    e['elnox'], e['type'], n)
                p.place(what, node, xyz[c])
                if int(point['node'][c, 0]) != p.m.ext[node]:
                    raise Violation('%snumber %s, expected %d' % (
                        what, point['node'][c], p.m.ext[node]))
                for k in range(len(p.cases)):
                    p.close(what + 'displacement %d' % k,
                            point['displacement %d' % k][c], p.shift(node, k),
                            0.)
                for a in arrs:
                    if a.startswith('most') and ties(
                            val if p.kind == 'beam' else
                            [v[int('upper' in a)] for v in val]):
                        continue
                    p.close(what + a, point[a][c], arrs[a][1](val))


def check_vtf(parts):
    from freesif.utils.vtfdata import VtfData
    v = VtfData('all')
    keys, shown = [], []
    for p in parts:
        v.add_nodes(p.nodes, None)
        v.add_elements('part', p.cells, elem_numbers=p.elemno)
        keys.append((list(v.nodes)[-1], list(v.elems)[-1]))
    ncases = min(len(p.cases) for p in parts)
    for k in range(ncases):
        s = v.add_scalar('case %d' % k)
        for p, (nid, eid) in zip(parts, keys):
            a = p.res[k]
            a = a[:, 4] if p.kind == 'beam' else a[:, 1, 0]
            rows = {}
            i = 0
            for t in p.types:
                frm = vtu.RESULTS[t].split()
                kind, to = VTF[t]
                rows.setdefault(kind, []).append(
                    [a[i + frm.index(n)] for n in to.split()])
                i += len(frm)
            v.add_element_scalar_results(
                'PER_ELEMENT_NODE', {t: np.array(r) for t, r in rows.items()},
                elems_id=eid, scalar_id=s)
            shown.append((k, p, eid))
    v.write('all.vtf')
    got = decode('all.vtf')
    if len(got['elems']) != len(parts) or len(got['scalars']) != ncases:
        raise Violation('VTF: %d blocks, %d scalars for %d and %d' % (
            len(got['elems']), len(got['scalars']), len(parts), ncases))
    scalars = sorted(got['scalars'].items(), key=lambda x: x[1]['name'])
    scalars = {x[1]['name']: x[1]['results'] for x in scalars}
    for k, p, eid in shown:
        res = [got['results'][r]['values'] for r in scalars['case %d' % k]
               if got['results'][r]['elems'] == eid]
        if len(res) != 1:
            raise Violation('VTF: block %d has %d results of case %d' % (
                eid, len(res), k))
        block = got['elems'][eid]
        xyz = got['nodes'][block['nodes']]['xyz']
        at = {}
        for e, want in zip(p.elems, p.want):
            kind, names = VTF[e['type']]
            j = at[kind] = at.get(kind, -1) + 1
            what = 'VTF, element %d (type %d), ' % (e['elnox'], e['type'])
            if block['ids'][kind][j] != e['elnox']:
                raise Violation('%shas number %d' % (what,
                                                     block['ids'][kind][j]))
            for n, c, r in zip(names.split(), block['con'][kind][j],
                               res[0][kind][j]):
                node, val = want[n]
                p.place(what + n, node, xyz[c - 1])
                x = val[k]
                p.close(what + n, [r],
                        [x[4] if p.kind == 'beam' else x[1][0]])
    for p, (nid, eid) in zip(parts, keys):
        n = sum(len(x) for x in got['elems'][eid]['con'].values())
        if n != len(p.elems):
            raise Violation('VTF: %d elements for %d' % (n, len(p.elems)))


def check_shared(parts):
    """Exports of models whose elements share nodes."""
    from freesif.utils import VtuWriter
    from freesif.utils.vtfdata import VtfData
    w, v = VtuWriter('shared.vtu'), VtfData('shared')
    for p in parts:
        q = dict(p.disc, disconnected=False)
        nodes = p.d.get_nodes(trans=p.trans, **dict(q, **p.kw))
        cells = p.d.get_elements(**q)
        numbers = p.d.get_nodenumbers(**q)
        w.new_piece(nodes, cells)
        w.start_pointdata()
        disp = p.per_case(p.d.get_noderesults(
            'displacement', kind=p.kind, **p.ask))
        for k in range(len(p.cases)):
            w.add_data(disp[k], 'displacement %d' % k)
        w.add_data(numbers, 'node')
        w.start_celldata()
        w.add_data(p.elemno, 'element')
        v.add_nodes(nodes, numbers)
        v.add_elements('part', cells, elem_numbers=p.elemno)
    w.close()
    v.write('shared.vtf')
    pieces, got = vtu.read('shared.vtu'), decode('shared.vtf')
    if not len(pieces) == len(got['elems']) == len(parts):
        raise Violation('%d pieces and %d blocks for %d superelements' % (
            len(pieces), len(got['elems']), len(parts)))
    for p, piece, eid in zip(parts, pieces, got['elems']):
        cells = {a[0]: a[3].ravel().tolist() for a in piece['cells']}
        point = {a[0]: a[3] for a in piece['sections'][0][1]}
        number = piece['sections'][1][1][0][3]
        block = got['elems'][eid]
        ids = got['nodes'][block['nodes']]['ids']
        xyz = dict(zip(ids, got['nodes'][block['nodes']]['xyz']))
        start, at = 0, {}
        for i, e in enumerate(p.elems):
            t = e['type']
            what = 'shared nodes, element %d (type %d), ' % (e['elnox'], t)
            kind, names = VTF[t]
            j = at[kind] = at.get(kind, -1) + 1
            stop = cells['offsets'][i]
            cell = dict(zip(vtu.VTK[t].split(),
                            cells['connectivity'][start:stop]))
            start = stop
            vtf = dict(zip(names.split(), block['con'][kind][j]))
            if int(number[i, 0]) != e['elnox'] or \
                    block['ids'][kind][j] != e['elnox']:
                raise Violation('%shas numbers %s (VTU) and %s (VTF)' % (
                    what, number[i, 0], block['ids'][kind][j]))
            for n, (node, _) in p.want[i].items():
                if n not in cell or int(point['node'][cell[n], 0]) != \
                        p.m.ext[node] or vtf[n] != p.m.ext[node]:
                    raise Violation('%snode %s of %s is another one' % (
                        what, n, p.m.ext[node]))
                p.place(what + n, node, piece['points'][0][3][cell[n]])
                p.place(what + n, node, xyz[vtf[n]])
                for k in range(len(p.cases)):
                    p.close(what + 'displacement %d' % k,
                            point['displacement %d' % k][cell[n]],
                            p.shift(node, k), 0.)


def check_lookup(p, rnd):
    from freesif.calc import find_elemres_indices
    pairs, want = [], []
    for _ in range(8):
        i = rnd.randrange(len(p.elems))
        n = rnd.choice(sorted(p.want[i]))
        node, val = p.want[i][n]
        pairs.append((p.elems[i]['elnox'], p.m.ext[node]))
        want.append(val)
    ind = find_elemres_indices(pairs, p.cells, p.elemno, p.nodeno)
    for pair, i, w in zip(pairs, ind, want):
        p.close('results of element %d at node %d' % pair,
                p.res[:, i].ravel(), np.asarray(w).ravel())


def model_case(rnd, seed, form, big=0):
    pool = rnd.choice([(15, 24, 25), (15, 24, 25), (23, 26, 28),
                       (15, 23, 26, 28), (24,), (26,), (28,), (25, 23)])
    cx = rnd.choice([0, 0, 0, 1])
    return {'seed': seed, 'elems': [rnd.choice(pool) for _ in range(
        big or rnd.randrange(1, 7))], 'loose': rnd.choice([0, 0, 2]), 'sets': 2,
        'cases': [[rnd.choice([1, 1, 1, 2]), cx] for _ in range(
            rnd.randrange(1, 4))], 'seltyp': 1, 'form': form,
        'noderes': ['displacement'], 'elemres': ['RVFORCES', 'RVSTRESS'],
        'via': rnd.choice(['sif', 'h5'])}


def labels(parts):
    lab = {'type %d' % t for p in parts for t in p.types}
    lab |= {p.kind for p in parts}
    if any(len(p.cases) > 1 for p in parts):
        lab.add('several cases')
    if any(p.cases[0]['cplx'] for p in parts):
        lab.add('complex')
    if len(parts) > 1 or len(lab & {'type %d' % t for t in VTF}) > 1 or \
            'several cases' in lab:
        lab.add('nt')
    return lab


def show(parts, q, rnd):
    parts = [p for p in parts if p.idx and p.cases]
    if not parts:
        return set()
    check_vtu(parts)
    check_vtf(parts)
    check_shared(parts)
    for p in parts:
        check_lookup(p, rnd)
    return labels(parts)


def run(case, ctx):
    rnd = random.Random('chain/%s' % case['seed'])
    m = models.Model(model_case(rnd, case['seed'], case['form'],
                                case.get('big', 0)))
    d, close = models.open_model(m, case['letter'])
    lab = set()
    try:
        for q in case['asks']:
            t = np.array(hier.matrix(rnd)).reshape(4, 4)
            trans = t
            if q['plain']:
                t, trans = np.eye(4), None
            lab |= show([Part(d, m, t, trans, {}, q, rnd)], q, rnd)
    finally:
        close()
    return lab


def run_tree(case, ctx):
    import freesif as fs
    rnd = random.Random('chain/%s' % case['seed'])
    c = dict(case['tree'], usefileprefix=True, prefix='')
    rows = c['tree']['rows']
    sif.write(hier.top_name(c), [{'rec': 'IDENT', 'rows': [
        [float(rows[0][3]), float(rows[0][1]), 3., 0.]]}] +
        hier.tree_blocks(c['tree']), c['form'])
    ms = {}
    for name, group, r in hier.lower_names(c):
        blocks = [{'rec': 'IDENT', 'rows': [[float(r[3]), float(r[1]), 3.,
                                             0.]]}]
        if r[3] == 1:
            ms[group] = models.Model(model_case(
                rnd, '%s/%s' % (case['seed'], name), c['form']))
            blocks += ms[group].blocks()[1:]
        sif.write(name, blocks, rnd.choice([c['form'], case['form']]))
    fs.sif2hdf5(hier.top_name(c), 'all.h5')
    f = fs.open_hdf5('all.h5')
    lab = {c['letter']}
    try:
        g = '%s%s%d' % (c['fileprefix'], c['letter'], rows[0][1])
        for q in case['asks']:
            parts = []
            for r in rows[1:]:
                if r[3] != 1:
                    continue
                group = 'R%d_%d' % (r[1], r[2]) if c['letter'] == 'R' else \
                    'T%d' % r[1]
                t, mag, n = path_matrix(c['tree'], r, rows[0][3])
                kw = {'index': r[2]} if c['letter'] == 'T' else {}
                parts.append(Part(f[g + '/' + group], ms[group], t, 'top', kw,
                                  q, rnd))
            lab |= show(parts, q, rnd)
    finally:
        f.close()
    return lab


@st.composite
def ask(draw):
    q = models.selections(draw, 2, ('shell', 'shell', 'beam'))
    q['run'] = draw(st.sampled_from([1, 1, 1, 2]))
    q['few'] = draw(st.booleans())
    q['plain'] = draw(st.booleans())
    return q


cases = st.fixed_dictionaries({
    'seed': gen.seeds, 'form': gen.any_form,
    'letter': st.sampled_from('RRT'),
    'asks': st.lists(ask(), min_size=1, max_size=4)})
trees = st.fixed_dictionaries({
    'seed': gen.seeds, 'form': gen.any_form, 'tree': hier.hier_cases((2, 2, 3, 3, 4)),
    'asks': st.lists(ask(), min_size=1, max_size=2)})



def large(tier):
    out = []
    for i, n in enumerate((90, 260) if tier == 'quick' else
                          (90, 260, 700, 90, 260, 700, 1500)):
        out += [{'seed': 7000 + i + 100 * k, 'form': [
            {'kind': 'F', 'pad': 'short', 'eol': '\n', 'end': 0.},
            {'kind': 'U', 'chunks': [32], 'end': 0.}][k // 2],
                 'letter': 'RT'[k % 2], 'big': n, 'asks': [
                     {'sets': s, 'kind': kind, 'as': 'list', 'run': 1,
                      'few': False, 'plain': False}
                     for s, kind in ((None, 'shell'), ([0, 1], 'shell'),
                                     (None, 'beam'))]} for k in range(4)]
    return out


FACETS = [Facet('models', lambda tier: cases, run, 80, 6000),
          Facet('assemblies', lambda tier: trees, run_tree, 40, 3000),
          Facet('large models', None, run, 0, 0, fixed=large)]
