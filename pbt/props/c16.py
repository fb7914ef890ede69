"""VTU geometry shows each element right and leaves the data alone."""
import numpy as np
from hypothesis import strategies as st

import gen
import models
import vtu
from core import Facet, Violation
from props.c15 import check as check_document

RULE = ('(a) random meshes of all six element types (shared or own nodes, '
        'any memory layout) with node, cell and element-node data, written '
        'up to 4 times from the same arrays, to several pieces and files; '
        'the n-th output must have, for every cell, the nodes and the '
        'element-node results under the right node names of the VTK cell '
        'type, equal outputs for equal calls, and unchanged arrays; (b) the '
        'same for coordinates, elements and element results read from random '
        'models. Non-trivial: a type whose order differs (23, 26, 28) and '
        'writing twice.')
ASSUMPTIONS = ['element-node data belongs to elements with nodes of their '
               'own']


def expected_cells(piece, con, types):
    """Names of the nodes of every cell against the model's."""
    names = {a[0]: a[3].ravel().tolist() for a in piece['cells']}
    got, ends = names['connectivity'], names['offsets']
    if names['types'] != [vtu.CELLTYPE[t] for t in types]:
        raise Violation('cell types %s for elements %s' % (names['types'],
                                                           types))
    start = i = 0
    for k, t in enumerate(types):
        model = dict(zip(vtu.MODEL[t].split(), con[i:i + vtu.SIZE[t]]))
        i += vtu.SIZE[t]
        if ends[k] - start != vtu.SIZE[t]:
            raise Violation('cell %d has %d nodes' % (k, ends[k] - start))
        cell = dict(zip(vtu.VTK[t].split(), got[start:ends[k]]))
        start = ends[k]
        if cell != model:
            raise Violation('cell %d of type %d has nodes %s, the element '
                            '%s' % (k, t, cell, model))


def expected_results(piece, array, res, types):
    """Results at the nodes of every cell against those of the element."""
    con = {a[0]: a[3].ravel().tolist()
           for a in piece['cells']}['connectivity']
    res = np.asarray(res)
    res = res.reshape(len(res), -1)
    i = 0
    for k, t in enumerate(types):
        want = dict(zip(vtu.RESULTS[t].split(), res[i:i + vtu.SIZE[t]]))
        for n, c in zip(vtu.VTK[t].split(), con[i:i + vtu.SIZE[t]]):
            if not np.array_equal(array[3][c], want[n], equal_nan=True):
                raise Violation('cell %d of type %d has %s at node %s, the '
                                'element %s' % (k, t, array[3][c], n,
                                                want[n]))
        i += vtu.SIZE[t]


def write(path, jobs, data):
    from freesif.utils import VtuWriter
    w = VtuWriter(path)
    for _ in range(jobs):
        for pts, cells, point, cell, res in data:
            w.new_piece(pts, cells)
            w.start_pointdata()
            w.add_data(point, 'point')
            if res is not None:
                w.add_data_cellpoints(res, 'result')
                w.add_data_cellpoints(res, 'again')
            w.start_celldata()
            w.add_data(cell, 'cell')
    w.close()


def flatten(data):
    for pts, cells, point, cell, res in data:
        for a in (pts,) + tuple(cells) + (point, cell, res):
            if a is not None:
                yield a


def check(data, types, jobs, files):
    before = [np.array(a) for a in flatten(data)]
    outs = []
    for k in range(files):
        name = 'out%d.vtu' % k
        write(name, jobs, data)
        for a, b in zip(flatten(data), before):
            if a.dtype != b.dtype or a.tobytes() != b.tobytes():
                raise Violation('an array was changed from %s to %s' % (
                    b.tolist()[:20], a.tolist()[:20]))
        with open(name, 'rb') as f:
            outs.append(f.read())
        if outs[-1] != outs[0]:
            raise Violation('writing the same again gives other output')
        pieces = vtu.read(name)
        if len(pieces) != jobs * len(data):
            raise Violation('%d pieces' % len(pieces))
        for i, p in enumerate(pieces):
            pts, cells, point, cell, res = data[i % len(data)]
            ty = types[i % len(data)]
            vtu.same_array('points', p['points'][0], pts)
            expected_cells(p, cells[0].tolist(), ty)
            (_, pd), (_, cd) = p['sections']
            vtu.same_array('point data', pd[0], point)
            vtu.same_array('cell data', cd[0], cell)
            for a in pd[1:]:
                expected_results(p, a, res, ty)


def run(case, ctx):
    data, types = [], []
    for p in case['pieces']:
        pts, cells = vtu.make_piece(p['piece'])
        ty = p['piece']['types']
        point = vtu.make_array(p['point'], len(pts))
        cell = vtu.make_array(p['cell'], len(ty))
        res = vtu.make_array(p['res'], sum(vtu.SIZE[t] for t in ty)) \
            if p['piece']['disc'] else None
        data.append((pts, cells, point, cell, res))
        types.append(ty)
    check(data, types, case['jobs'], case['files'])
    lab = {'type %d' % t for ty in types for t in ty}
    if lab & {'type 23', 'type 26', 'type 28'} and \
            case['jobs'] * case['files'] > 1:
        lab.add('nt')
    return lab


def run_model(case, ctx):
    m = models.Model(case['model'])
    d, close = models.open_model(m, 'R')
    try:
        sets, kind = models.resolve(m, case['sel'])
        types = [m.elements[i]['type'] for i in m.selected(sets, kind)]
        kw = dict(sets=sets, kind=kind, disconnected=case['disc'])
        pts, cells = d.get_nodes(**kw), d.get_elements(**kw)
        point = d.get_nodenumbers(**kw)
        cell = d.get_elementnumbers(sets, kind)
        res = None
        orders = {models.ORDER.get(t, 0) for t in types}
        if case['disc'] and len(orders) == 1 and not m.cases[0]['cplx']:
            # general stresses of the upper surface, or forces
            name = 'beamforce' if orders == {0} else 'generalstress'
            kd = 'beam' if orders == {0} else 'shell'
            if kd == kind:
                res = d.get_elementresults(
                    name, rescases=m.cases[0]['ext'], run=m.cases[0]['run'],
                    sets=sets)
                if res.ndim == 3:
                    res = res[:, 1, :]
                if res.dtype.kind == 'c':
                    res = None
        check([(pts, cells, point, cell, res)], [types], case['jobs'],
              case['files'])
        lab = {'model', 'disconnected' if case['disc'] else 'connected'}
        if res is not None:
            lab.add('element results')
        if set(types) & {23, 26, 28} and case['jobs'] * case['files'] > 1:
            lab.add('nt')
        return lab
    finally:
        close()


@st.composite
def model_cases(draw, tier):
    mc = draw(models.model_cases(max_elems=8, results='elem', max_cases=1,
                                 max_sets=2))
    mc['elemres'] = ['RVFORCES', 'RVSTRESS']
    return {'model': mc, 'sel': models.selections(
        draw, mc['sets'], ('beam', 'shell', 'shell', None)),
        'disc': draw(st.sampled_from([True, True, False])),
        'jobs': draw(st.integers(1, 2)), 'files': draw(st.integers(1, 2))}


cases = st.fixed_dictionaries({
    'pieces': st.lists(st.fixed_dictionaries({
        'piece': vtu.piece_spec, 'point': vtu.array_spec,
        'cell': vtu.array_spec, 'res': vtu.array_spec}),
        min_size=1, max_size=3),
    'jobs': st.integers(1, 2), 'files': st.integers(1, 2)})

def large(tier):
    arr = {'dtype': 'f4', 'nc': 3, 'layout': 'C', 'big': False, 'seed': 1}
    ints = {'dtype': 'i4', 'layout': 'C', 'big': False}
    out = []
    for n, pieces in ((12000, 1), (3, 150)):
        out.append({'pieces': [{
            'piece': {'types': [(15, 23, 24, 25, 26, 28)[(i * i + i // 5 + j)
                                                         % 6]
                                for i in range(n)], 'extra': 3,
                      'disc': True, 'seed': j, 'points': arr, 'con': ints,
                      'off': ints, 'typ': ints},
            'point': arr, 'cell': arr, 'res': arr} for j in range(pieces)],
            'jobs': 1, 'files': 2})
    return out


FACETS = [Facet('large meshes', None, run, 0, 0, fixed=large, timeout=200),
          Facet('meshes', lambda tier: cases, run, 400, 20000),
          Facet('models', model_cases, run_model, 60, 5000)]
