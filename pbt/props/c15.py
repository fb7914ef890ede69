"""VTU output is well-formed and decodes back to the data that was written."""
import random

import numpy as np
from hypothesis import strategies as st

import vtu
from core import Facet, Violation

RULE = ('random sequences, for one writer or two in turn, of up to 14 writer '
        'calls (new_piece, start_pointdata, start_celldata, add_data, '
        'add_data_cellpoints, in any order, so also before a piece or a '
        'section is open) ended by close, with arrays of all ten types, 1d '
        'and 2d, either byte order, contiguous, strided, reversed, '
        'transposed or read-only, names with any XML characters, component '
        'names, arrays and pieces that are refused, pieces without elements, and some large documents; the '
        'document is parsed and decoded independently and compared with a '
        'model of the calls. Non-trivial: at least one data array in an open '
        'section.')
ASSUMPTIONS = ['nothing is called after close']


def run(case, ctx):
    """One or two writers, taking turns."""
    lab, rnd = set(), random.Random('turns/%d' % len(case['ops']))
    jobs = [writing('out.vtu', case['ops'], lab)]
    if case.get('other') is not None:
        jobs.append(writing('other.vtu', case['other'], lab))
        lab.add('two writers')
    while jobs:
        j = rnd.choice(jobs)
        if next(j, None) is None:
            jobs.remove(j)
    return lab


def writing(path, ops, lab):
    from freesif.utils import VtuWriter
    from freesif.exceptions import VtkError
    w = VtuWriter(path)
    pieces = []
    piece = section = None
    for op in ops:
        yield True
        k = op['op']
        if k == 'piece':
            pts, cells = vtu.make_piece(op['piece'])
            bad = op.get('bad')
            if bad:
                bad_piece(w, pts, cells, bad, VtkError)
                lab.add('refused pieces')
            if not op['piece']['types']:
                lab.add('no elements')
            w.new_piece(pts, cells)
            piece = {'points': pts, 'cells': cells, 'sections': [],
                     'types': op['piece']['types']}
            pieces.append(piece)
            section = None
            continue
        if k in ('point', 'cell'):
            call = w.start_pointdata if k == 'point' else w.start_celldata
            if piece is None:
                refused(call, VtkError, k)
                lab.add('section before a piece')
                continue
            call()
            section = ('PointData' if k == 'point' else 'CellData', [])
            piece['sections'].append(section)
            continue
        # data
        n = op['n']
        if k == 'cellpoints' and piece is not None:
            n = sum(vtu.SIZE[t] for t in piece['types'])
        elif piece is not None and section is not None and op['fit']:
            n = len(piece['points']) if section[0] == 'PointData' else \
                len(piece['types'])
        arr = vtu.make_array(op['arr'], n)
        nc = arr.shape[1] if arr.ndim == 2 else 1
        comps = op['comps'][:nc] if op['comps'] is not None else None
        call = w.add_data if k == 'data' else w.add_data_cellpoints
        kw = {} if comps is None else {'compnames': comps}
        before = arr.copy()
        if section is None:
            refused(lambda: call(arr, op['name'], **kw), VtkError, k)
            lab.add('data before a section')
            continue
        if op['wrong']:     # leaves the document as it is
            refused(lambda: call(arr.reshape(arr.shape + (1, 1)), op['name'],
                                 **kw), VtkError, 'an array of %d dimensions'
                    % (arr.ndim + 2))
            refused(lambda: call(arr.astype(op['wrong']), op['name'], **kw),
                    Exception, 'an array of type %s' % op['wrong'])
            lab.add('refused arrays')
        call(arr, op['name'], **kw)
        want = before if k == 'data' else vtu.point_order(before,
                                                          piece['types'])
        section[1].append((op['name'], comps or [], want))
        lab |= {'nt', op['arr']['dtype'], op['arr']['layout']}
        if op['arr']['big']:
            lab.add('big endian')
    yield True
    if len(ops) % 4 == 3:
        bad_piece(w, *vtu.make_piece(LAST), bad='dims', error=VtkError)
    w.close()
    check(path, pieces)


LAST = {'types': [15], 'extra': 0, 'disc': True, 'seed': 1,
        'points': {'dtype': 'f4', 'nc': 3, 'layout': 'C', 'big': False,
                   'seed': 1}}
for _k in ('con', 'off', 'typ'):
    LAST[_k] = {'dtype': 'i4', 'layout': 'C', 'big': False}


def bad_piece(w, pts, cells, bad, error):
    """A piece that cannot be written leaves the document as it is."""
    con, off, typ = cells
    if bad == 'type':
        n = np.array([1], off.dtype)
        cells = (np.concatenate([con, n]), np.concatenate(
            [off, n + len(con)]), np.concatenate([typ, n * 18]))
        error = Exception
    elif bad == 'dims':
        pts = pts.reshape(pts.shape + (1,))
    else:
        pts = pts.astype(bad)
        error = Exception
    refused(lambda: w.new_piece(pts, cells), error, 'a piece (%s)' % bad)


def refused(call, error, what):
    try:
        call()
    except error:
        return
    raise Violation('%s out of order was not refused' % what)


def check(path, pieces):
    got = vtu.read(path)
    if len(got) != len(pieces):
        raise Violation('%d pieces, expected %d' % (len(got), len(pieces)))
    for g, p in zip(got, pieces):
        con, off, typ = p['cells']
        if g['npoints'] != len(p['points']) or g['ncells'] != len(off):
            raise Violation('%d points and %d cells, expected %d and %d' % (
                g['npoints'], g['ncells'], len(p['points']), len(off)))
        if len(g['points']) != 1:
            raise Violation('%d point arrays' % len(g['points']))
        vtu.same_array('points', g['points'][0], p['points'])
        cells = {a[0]: a for a in g['cells']}
        if sorted(cells) != ['connectivity', 'offsets', 'types'] or \
                len(g['cells']) != 3:
            raise Violation('cell arrays %s' % [a[0] for a in g['cells']])
        for n, want in (
                ('connectivity', vtu.vtk_connectivity(con.tolist(),
                                                      p['types'])),
                ('offsets', off.tolist()),
                ('types', [vtu.CELLTYPE[t] for t in p['types']])):
            if cells[n][1] != 1 or cells[n][3].ravel().tolist() != want:
                raise Violation('%s are %s, expected %s' % (
                    n, cells[n][3].ravel().tolist(), want))
        if [s[0] for s in g['sections']] != [s[0] for s in p['sections']]:
            raise Violation('sections %s, expected %s' % (
                [s[0] for s in g['sections']],
                [s[0] for s in p['sections']]))
        for (tag, a), (_, b) in zip(g['sections'], p['sections']):
            if [x[0] for x in a] != [x[0] for x in b]:
                raise Violation('arrays %r in %s, expected %r' % (
                    [x[0] for x in a], tag, [x[0] for x in b]))
            for x, (name, comps, arr) in zip(a, b):
                vtu.same_array(name, x, arr)
                if x[2] != dict(enumerate(comps)):
                    raise Violation('component names of %r are %s, expected '
                                    '%s' % (name, x[2], comps))


data_op = st.fixed_dictionaries({
    'op': st.sampled_from(['data', 'data', 'cellpoints']),
    'n': st.integers(0, 6), 'fit': st.booleans(), 'arr': vtu.array_spec,
    'name': vtu.texts, 'wrong': st.sampled_from(
        [None] * 4 + ['f2', 'c8']), 'comps': st.one_of(
        st.none(), st.lists(vtu.texts, min_size=0, max_size=6),
        st.lists(vtu.texts, min_size=9, max_size=12))})
# a piece may have points only
any_piece = st.one_of([vtu.piece_spec] * 7 + [
    vtu.piece_spec.map(lambda p: dict(p, types=[]))])
op = st.one_of(
    st.fixed_dictionaries({'op': st.just('piece'),
                           'piece': any_piece, 'bad': st.sampled_from(
                               [None] * 6 + ['type', 'dims', 'f2', 'c8'])}),
    st.fixed_dictionaries({'op': st.just('point')}),
    st.fixed_dictionaries({'op': st.just('cell')}), data_op, data_op)


@st.composite
def cases(draw, tier):
    n = 14 if tier == 'quick' else 30
    ops = draw(st.lists(op, min_size=0, max_size=n))
    if draw(st.integers(0, 2)):     # mostly begin with an open section
        ops = [{'op': 'piece', 'piece': draw(vtu.piece_spec)},
               {'op': draw(st.sampled_from(['point', 'cell']))}] + ops
    other = None
    if draw(st.integers(0, 3)) == 0:
        other = [{'op': 'piece', 'piece': draw(vtu.piece_spec)}] + draw(
            st.lists(op, min_size=0, max_size=6))
    return {'ops': ops, 'other': other}


def large(tier):
    arr = {'dtype': 'f8', 'nc': 3, 'layout': 'C', 'big': False, 'seed': 1}
    ints = {'dtype': 'i8', 'layout': 'C', 'big': False}
    data = {'op': 'data', 'n': 0, 'fit': True, 'arr': arr, 'name': 'x',
            'wrong': None, 'comps': None}

    def piece(n, disc):
        rnd = random.Random(n)
        return {'op': 'piece', 'piece': {
            'types': [rnd.choice([15, 23, 24, 25, 26, 28])
                      for _ in range(n)], 'extra': 3, 'disc': disc,
            'seed': n, 'points': arr, 'con': ints, 'off': ints,
            'typ': ints}}
    one = [piece(30000, True), {'op': 'point'}, data,
           dict(data, op='cellpoints'), {'op': 'cell'},
           dict(data, arr=dict(arr, dtype='i1', nc=0))]
    small = [piece(2, False), {'op': 'cell'}, data] * 300
    many = [piece(3, False), {'op': 'point'}] + [
        dict(data, arr=dict(arr, seed=i), name='x%d' % i)
        for i in range(300)]
    wide = [piece(3, False), {'op': 'cell'}, dict(
        data, arr=dict(arr, nc=130), comps=['c%d' % i for i in range(130)])]
    return [{'ops': x, 'other': y} for x, y in (
        (one, None), (small, None), (many, one), (wide, None))]


FACETS = [Facet('large files', None, run, 0, 0, fixed=large, timeout=200),
          Facet('call sequences', cases, run, 900, 40000)]
