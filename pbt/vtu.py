"""Reading .vtu files back, and arrays to write to them."""
import base64
import random
import struct
import xml.etree.ElementTree as ET

import numpy as np
from hypothesis import strategies as st

import gen
from core import Violation

VTKTYPES = {'Int8': 'i1', 'UInt8': 'u1', 'Int16': 'i2', 'UInt16': 'u2',
            'Int32': 'i4', 'UInt32': 'u4', 'Int64': 'i8', 'UInt64': 'u8',
            'Float32': 'f4', 'Float64': 'f8'}
DTYPES = sorted(VTKTYPES.values())
# node names of the element types, in the order of the model, of results at
# the element nodes, and of the VTK cell type
MODEL = {15: 'a b', 23: 'a ab b', 24: 'a b c d', 25: 'a b c',
         26: 'a b c ab bc ca', 28: 'a ab b bc c cd d da'}
RESULTS = dict(MODEL)
RESULTS[26] = 'a ab b bc c ca'
VTK = dict(MODEL)
VTK[23] = 'a b ab'
VTK[28] = 'a b c d ab bc cd da'
CELLTYPE = {15: 3, 23: 21, 24: 9, 25: 5, 26: 22, 28: 23}
SIZE = {t: len(n.split()) for t, n in MODEL.items()}


def permutation(frm, to):
    frm, to = frm.split(), to.split()
    return [frm.index(n) for n in to]


def decode(el):
    """DataArray element -> (name, ncomps, {component names}, array)."""
    a = el.attrib
    if a.get('format') != 'binary' or a.get('type') not in VTKTYPES:
        raise Violation('DataArray attributes %s' % a)
    raw = base64.b64decode(''.join(el.text.split()), validate=True)
    n, = struct.unpack('<Q', raw[:8])
    if n != len(raw) - 8:
        raise Violation('%s: header says %d bytes, there are %d' % (
            a.get('Name'), n, len(raw) - 8))
    nc = int(a['NumberOfComponents'])
    arr = np.frombuffer(raw[8:], '<' + VTKTYPES[a['type']])
    comps = {int(k[13:]): v for k, v in a.items()
             if k.startswith('ComponentName')}
    return a.get('Name'), nc, comps, arr.reshape(-1, nc)


def read(path):
    """-> list of pieces: {npoints, ncells, points, cells, sections}."""
    with open(path, 'rb') as f:
        data = f.read()
    try:
        root = ET.fromstring(data)
    except ET.ParseError as e:
        raise Violation('not well-formed: %s' % e)
    if root.tag != 'VTKFile' or root.attrib.get('type') != \
            'UnstructuredGrid' or root.attrib.get('byte_order') != \
            'LittleEndian' or root.attrib.get('header_type') != 'UInt64':
        raise Violation('document element %s %s' % (root.tag, root.attrib))
    if [c.tag for c in root] != ['UnstructuredGrid']:
        raise Violation('contents %s' % [c.tag for c in root])
    out = []
    for p in root[0]:
        if p.tag != 'Piece':
            raise Violation('%s in the grid' % p.tag)
        piece = {'npoints': int(p.attrib['NumberOfPoints']),
                 'ncells': int(p.attrib['NumberOfCells']), 'sections': []}
        for s in p:
            arrays = [decode(x) for x in s]
            if s.tag == 'Points':
                piece['points'] = arrays
            elif s.tag == 'Cells':
                piece['cells'] = arrays
            elif s.tag in ('PointData', 'CellData'):
                piece['sections'].append((s.tag, arrays))
            else:
                raise Violation('%s in a piece' % s.tag)
        if 'points' not in piece or 'cells' not in piece:
            raise Violation('a piece without points or cells')
        out.append(piece)
    return out


def same_array(what, got, arr):
    """got: decoded; arr: what was written."""
    arr = np.asarray(arr)
    name, nc, comps, a = got
    want_nc = arr.shape[1] if arr.ndim == 2 else 1
    if nc != want_nc:
        raise Violation('%s: %d components, expected %d' % (what, nc,
                                                            want_nc))
    w = arr.reshape(-1, want_nc)
    if a.dtype.newbyteorder('=') != w.dtype.newbyteorder('='):
        raise Violation('%s: type %s, expected %s' % (what, a.dtype, w.dtype))
    if a.shape != w.shape or a.tobytes() != np.ascontiguousarray(
            w.astype(w.dtype.newbyteorder('<'))).tobytes():
        raise Violation('%s: %s, expected %s' % (what, a.tolist()[:20],
                                                 w.tolist()[:20]))


# ---- arrays ----------------------------------------------------------------

def make_array(spec, n, ncomp=None):
    """Array of length n from {"dtype", "nc", "layout", "seed", "big"}."""
    nc = spec['nc'] if ncomp is None else ncomp
    rnd = np.random.RandomState(spec['seed'] % (1 << 31))
    dt = np.dtype(spec['dtype'])
    shape = (n,) if nc == 0 else (n, nc)
    raw = rnd.bytes(int(np.prod(shape)) * dt.itemsize)
    a = np.frombuffer(raw, dt).reshape(shape).copy()
    if dt.kind == 'f' and a.size:
        k = rnd.randint(3)
        if k:
            a = (rnd.standard_normal(shape) * 10.).astype(dt)
        elif k == 0 and a.size > 2:
            a.ravel()[:2] = [np.inf, -0.]
    if spec['big']:
        a = a.astype(dt.newbyteorder('>'))
    return layout(a, spec['layout'])


def layout(a, how):
    if how == 'F':
        return np.asfortranarray(a)
    if how == 'stride':
        b = np.zeros((a.shape[0] * 2 + 1,) + a.shape[1:], a.dtype)
        b[1::2] = a
        return b[1::2]
    if how == 'reverse':
        return a[::-1].copy()[::-1]
    if how == 'columns' and a.ndim == 2:
        b = np.zeros((a.shape[0], a.shape[1] + 2), a.dtype)
        b[:, 1:-1] = a
        return b[:, 1:-1]
    if how == 'readonly':
        a = a.copy()
        a.flags.writeable = False
    return a


array_spec = st.fixed_dictionaries({
    'dtype': st.sampled_from(DTYPES), 'nc': st.sampled_from(
        [0, 0, 1, 2, 3, 3, 6, 9, 12]),
    'layout': st.sampled_from(['C', 'C', 'F', 'stride', 'reverse', 'columns',
                               'readonly']),
    'big': st.sampled_from([False, False, True]), 'seed': gen.seeds})
int_spec = st.fixed_dictionaries({
    'dtype': st.sampled_from(['i2', 'i4', 'i4', 'i8', 'u4', 'u8']),
    'layout': st.sampled_from(['C', 'C', 'stride', 'reverse', 'readonly']),
    'big': st.sampled_from([False, False, True])})
texts = st.text(st.one_of(
    st.sampled_from('ab <>&"\'\n\t;=/\u00e5\u03c3'),
    st.characters(blacklist_categories=('Cc', 'Cs'),
                  blacklist_characters='\ufffe\uffff')),
    min_size=0, max_size=12)
piece_spec = st.fixed_dictionaries({
    'types': st.lists(st.sampled_from(sorted(MODEL)), min_size=1,
                      max_size=8),
    'extra': st.integers(0, 3), 'disc': st.booleans(), 'seed': gen.seeds,
    'points': array_spec, 'con': int_spec, 'off': int_spec,
    'typ': int_spec})


def make_ints(spec, values):
    a = np.array(values, spec['dtype'])
    if spec['big']:
        a = a.astype(a.dtype.newbyteorder('>'))
    return layout(a, spec['layout'])


def make_piece(p):
    """-> points, (connectivity, offsets, types)"""
    rnd = random.Random('piece/%s' % p['seed'])
    total = sum(SIZE[t] for t in p['types'])
    offs, n = [], 0
    for t in p['types']:
        n += SIZE[t]
        offs.append(n)
    if p['disc']:
        npt, con = total, list(range(total))
    else:
        npt = max(8, total // 2) + p['extra']
        con = [x for t in p['types']
               for x in rnd.sample(range(npt), SIZE[t])]
    pts = make_array(dict(p['points'], nc=3), npt)
    return pts, (make_ints(p['con'], con), make_ints(p['off'], offs),
                 make_ints(p['typ'], p['types']))


def vtk_connectivity(con, types):
    out, i = [], 0
    for t in types:
        c = list(con[i:i + SIZE[t]])
        out += [c[k] for k in permutation(MODEL[t], VTK[t])]
        i += SIZE[t]
    return out


def point_order(arr, types):
    """Element node results in the order of the model's nodes."""
    idx, i = [], 0
    for t in types:
        idx += [i + k for k in permutation(RESULTS[t], MODEL[t])]
        i += SIZE[t]
    return np.asarray(arr)[idx]
