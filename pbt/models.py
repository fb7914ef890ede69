"""Structural finite element models: nodes, elements, sets, references,
results; as interface-file records and as plain Python data.

A case (JSON) is expanded by `Model(case)`; all values follow from its seed.
"""
import random

import numpy as np
from hypothesis import strategies as st

import gen
import records as R

# numbers of result points and components of the element types (order of the
# points: as the programs of the Sesam system write them)
POINTS = {15: (3, 6), 23: (2, 6), 24: (10, 3), 25: (8, 3), 26: (6, 5),
          28: (8, 5)}
ORDER = {24: 1, 25: 1, 26: 2, 28: 2}
OTHER = (16, 18)
G = 1. / 3 ** 0.5
FORM = {'kind': 'F', 'pad': 'short', 'eol': '\n', 'end': 0.}


class Model(object):
    def __init__(self, c):
        self.c = c
        self.rnd = rnd = random.Random('model/%s' % c['seed'])
        self.make_mesh(rnd)
        self.make_sets(rnd)
        self.make_props(rnd)
        self.make_cases(rnd)

    # ---- geometry --------------------------------------------------------
    def make_mesh(self, rnd):
        c = self.c
        types = c['elems']
        need = max([R.NNODES[t] for t in types] + [1])
        nn = max(need, min(sum(R.NNODES[t] for t in types),
                           need + rnd.randrange(0, 8 + len(types)))) + \
            c['loose']
        k = rnd.randrange(4)
        if k == 0:
            ext = list(range(1, nn + 1))
        elif k == 1:
            ext = [10 * i + 5 for i in range(nn)]
            rnd.shuffle(ext)
        else:
            ext = rnd.sample(range(1, 20 * nn + 50), nn)
        self.ext = ext
        self.xyz = [[gen.R.f32(rnd.randrange(-4000, 4000) / 16.)
                     for _ in range(3)] for _ in range(nn)]
        usable = list(range(nn))
        rnd.shuffle(usable)
        self.loose = sorted(usable[:c['loose']])
        usable = usable[c['loose']:]
        self.elements = []
        k = rnd.randrange(4)
        ne = len(types)
        if k == 0:
            elx = list(range(1, ne + 1))
        else:
            elx = rnd.sample(range(1, 10 * ne + 50), ne)
        for i, t in enumerate(types):
            self.elements.append({'elno': i + 1, 'elnox': elx[i], 'type': t,
                                  'nodes': rnd.sample(usable, R.NNODES[t])})
        self.connected = sorted({n for e in self.elements
                                 for n in e['nodes']})
        used = set(self.connected)
        self.loose = [n for n in range(nn) if n not in used]
        self.nn = nn

    # ---- sets --------------------------------------------------------------
    def make_sets(self, rnd):
        c = self.c
        self.sets = {}          # name -> set of element indices
        self.setorder = []
        self.members = []       # GSETMEMB rows
        self.setrows = []
        ne = len(self.elements)
        refs = rnd.sample(range(1, 400), c['sets'])
        names = set()
        for k in range(c['sets']):
            name = gen.word(rnd, rnd.choice([1, 4, 8, 8, 20, 64]))
            if names and rnd.randrange(4) == 0:     # nearly that of another
                name = rnd.choice(sorted(names))
                name = rnd.choice([name.swapcase(), name[:-1].strip(),
                                   name[:60] + '1', name[1:].strip()])
            while name in names or not name:
                name = gen.word(rnd, 8)
            names.add(name)
            self.setorder.append(name)
            self.setrows.append({'h': [4., float(refs[k]),
                                       100. + len(name), 0.],
                                 's': [name]})
            style = rnd.randrange(4)
            if style == 0:
                mem = [rnd.randrange(ne)]
            elif style == 1:
                mem = list(range(ne))
            elif style == 2:
                t = rnd.choice(self.elements)['type']
                mem = [i for i in range(ne) if self.elements[i]['type'] == t]
            else:
                mem = [i for i in range(ne) if rnd.random() < 0.5] or [0]
            if rnd.randrange(2):
                rnd.shuffle(mem)
            if k and rnd.randrange(6) == 0:     # nodes only, or nothing
                mem = []
            elif rnd.randrange(5) == 0:         # an element twice
                mem = mem + [rnd.choice(mem)]
            self.sets[name] = set(mem)
            if not mem:
                if rnd.randrange(2):
                    self.members.append(
                        [7., float(refs[k]), 1., 1., 0.] +
                        [float(rnd.randrange(1, self.nn + 1))
                         for _ in range(2)])
                continue
            pieces = self.cut(mem, rnd)
            for j, p in enumerate(pieces):
                p = [m + 1 for m in p]
                self.members.append([5. + len(p), float(refs[k]), j + 1.,
                                     2., 0.] + [float(x) for x in p])
            if rnd.randrange(3) == 0:   # nodes in the same set
                p = [rnd.randrange(1, self.nn + 1)
                     for _ in range(rnd.randrange(1, 6))]
                self.members.append([5. + len(p), float(refs[k]), 1., 1., 0.] +
                                    [float(x) for x in p])
        if rnd.randrange(4) == 0:       # a set without a name
            self.members.append([6., 400., 1., 2., 0.,
                                 float(rnd.randrange(1, ne + 1))])
        rnd.shuffle(self.members)

    def cut(self, xs, rnd):
        out = [xs]
        while len(out) < 4 and rnd.randrange(3) == 0:
            big = max(out, key=len)
            if len(big) < 2:
                break
            out.remove(big)
            i = rnd.randrange(1, len(big))
            out += [big[:i], big[i:]]
        return out

    # ---- sections and thicknesses ---------------------------------------
    def make_props(self, rnd):
        ng = rnd.randrange(1, 6)
        nt = rnd.randrange(1, 6)
        nos = rnd.sample(range(1, 200), ng + nt)
        if rnd.randrange(3) == 0:
            nos = nos[:ng] + nos[:nt] if nt <= ng else nos
            nos = (nos + rnd.sample(range(200, 300), ng + nt))[:ng + nt]
        self.beamprops = {}
        self.gbeamg = []
        for g in nos[:ng]:
            r = [float(g), 0.] + [gen.R.f32(rnd.uniform(-9, 99))
                                  for _ in range(14)]
            self.gbeamg.append(r)
            self.beamprops[g] = r
        self.thickness = {}
        self.gelth = []
        for g in nos[ng:]:
            th = gen.R.f32(rnd.uniform(0.001, 0.2))
            self.gelth.append([float(g), th] + ([2.] if rnd.randrange(2)
                                                else []))
            self.thickness[g] = th
        self.gelref1 = []
        for e in self.elements:
            t = e['type']
            pool = sorted(self.beamprops if t in R.BEAMS else self.thickness)
            e['geono'] = rnd.choice(pool)
            row = [float(e['elno'])] + gen.ints(rnd, 7, 0) + \
                [float(e['geono'])]
            tail = []
            for _ in range(3):
                if rnd.randrange(5) == 0:
                    row.append(-1.)
                    tail += gen.ints(rnd, R.NNODES[t], 0)
                else:
                    row.append(gen.rint(rnd, 0))
            self.gelref1.append(row + tail)

    # ---- results -------------------------------------------------------------
    def make_cases(self, rnd):
        """cases: list of {ires, run, ext, cplx}."""
        c = self.c
        self.cases = []
        self.unit = rnd.choice([1., 1., 1., 1e-12, 1e9])
        n = len(c['cases'])
        if rnd.randrange(2):
            ires = list(range(1, n + 1))
        else:
            ires = rnd.sample(range(1, 5 * n + 20), n)
            if rnd.randrange(2):
                ires.sort()
        used = set()
        for i, (run, cplx) in enumerate(c['cases']):
            while True:
                e = rnd.randrange(1, 3 * n + 10)
                if (run, e) not in used:
                    break
            used.add((run, e))
            self.cases.append({'ires': ires[i], 'run': run, 'ext': e,
                               'cplx': cplx})
        self.rdresref = [
            [7. + 3 * 0, float(k['ires']), float(k['run']), float(k['ext']),
             1., float(k['cplx']), 0.] for k in self.cases]
        self.tdload = []
        self.loadnames = {}
        for i in rnd.sample(range(1, 60), c.get('loads', 0)):
            name = gen.word(rnd, rnd.choice([1, 8, 30, 64]))
            self.loadnames[i] = name.encode()
            self.tdload.append({'h': [4., float(i), 100. + len(name), 0.],
                                's': [name]})
        self.nodevalues = {}    # (kind, ires, node) -> 6 complex numbers
        self.rv = []            # blocks
        self.resnodes = set(self.connected)
        if rnd.randrange(2):
            self.resnodes |= set(self.loose)
        elif self.loose and rnd.randrange(2):
            self.resnodes |= set(rnd.sample(self.loose, 1))
        rd = set()
        self.elemvalues = {}    # (ires, elno) -> (n points, n comps) complex
        order = sorted(self.elements, key=lambda e: e['elno'])
        for k in self.cases:
            blocks = []
            for what in c.get('noderes', ()):
                rec = {'displacement': 'RVNODDIS', 'velocity': 'RVNODVEL',
                       'acceleration': 'RVNODACC'}[what]
                rows = []
                for n in sorted(self.resnodes):
                    v = self.values(rnd, 6, k['cplx'])
                    self.nodevalues[what, k['ires'], n] = v
                    flat = self.flat(v, k['cplx'])
                    rows.append([5. + len(flat), float(k['ires']), n + 1.,
                                 0., 0.] + flat)
                blocks.append({'rec': rec, 'rows': rows})
            for rec, kinds in (('RVFORCES', R.BEAMS), ('RVSTRESS', R.SHELLS)):
                if rec not in c.get('elemres', ()):
                    continue
                rows = []
                for e in order:
                    if e['type'] not in kinds:
                        continue
                    v = self.element_values(rnd, e, k)
                    self.elemvalues[k['ires'], e['elno']] = v
                    flat = self.flat([x for p in v for x in p], k['cplx'])
                    rows.append([5. + len(flat), float(k['ires']),
                                 float(e['elno']), 1., float(e['type'])] +
                                flat)
                    rd.add((rec, e['type']))
                if rows:
                    blocks.append({'rec': rec, 'rows': rows})
            rnd.shuffle(blocks)
            self.rv.append(blocks)
        self.rdcomp = {}
        for rec, t in sorted(rd):
            nc = POINTS[t][1]
            self.rdcomp.setdefault('RD' + rec[2:], []).append(
                [3. + nc, float(t), float(nc)] + [float(i + 1)
                                                  for i in range(nc)])
        self.rdpoints = []
        if rd:
            for e in order:
                if e['type'] not in POINTS:
                    continue
                np_ = POINTS[e['type']][0]
                pts = []
                for i in range(np_):
                    pts += [i + 1.] + gen.floats(rnd, 3)
                self.rdpoints.append(
                    [0., 1., float(e['elno']), float(e['type']),
                     float(e['type']), float(np_), 10100. + np_, 0., 0.] +
                    pts)
                self.rdpoints[-1][0] = float(len(self.rdpoints[-1]))

    def values(self, rnd, n, cplx):
        out = []
        for _ in range(n):
            re = gen.R.f32(self.unit * rnd.randrange(-8000, 8000) / 64.)
            im = gen.R.f32(
                self.unit * rnd.randrange(-8000, 8000) / 64.) if cplx else 0.
            out.append(complex(re, im))
        return out

    def flat(self, v, cplx):
        if not cplx:
            return [x.real for x in v]
        return [y for x in v for y in (x.real, x.imag)]

    def element_values(self, rnd, e, k):
        np_, nc = POINTS[e['type']]
        v = [self.values(rnd, nc, k['cplx']) for _ in range(np_)]
        if e['type'] in (26, 28):   # transverse shear equal in both layers
            h = np_ // 2
            for i in range(h):
                v[h + i][3:] = v[i][3:]
        return v

    # ---- records -------------------------------------------------------------
    def blocks(self):
        rnd = random.Random('order/%s' % self.c['seed'])
        seltyp = self.c.get('seltyp', 1)
        rows = {
            'GNODE': [[float(x), i + 1., 6., 123456.]
                      for i, x in enumerate(self.ext)],
            'GCOORD': [[i + 1.] + list(x) for i, x in enumerate(self.xyz)],
            'GELMNT1': [[float(e['elnox']), float(e['elno']),
                         float(e['type']), 0.] +
                        [n + 1. for n in e['nodes']] for e in self.elements],
            'GELREF1': self.gelref1, 'GBEAMG': self.gbeamg,
            'GELTH': self.gelth, 'TDSETNAM': self.setrows,
            'GSETMEMB': self.members, 'RDRESREF': self.rdresref,
            'TDLOAD': self.tdload, 'RDPOINTS': self.rdpoints,
        }
        rows.update(self.rdcomp)
        rows = {k: list(v) for k, v in rows.items() if v}
        for rec, rs in gen.noise(rnd, gen.STRUCT_NOISE).items():
            rows.setdefault(rec, rs)
        for rec in ('GBEAMG', 'GELTH', 'TDLOAD', 'TDSETNAM'):
            if rec in rows and rec != 'TDSETNAM':
                rnd.shuffle(rows[rec])
        queues = {}
        split = rnd.randrange(2)
        for rec, rs in rows.items():
            queues[rec] = [{'rec': rec, 'rows': p}
                           for p in (self.in_order(rs, rnd) if split
                                     else [rs])]
        after = {'GELREF1': ['GELMNT1']}
        out = [{'rec': 'IDENT', 'rows': [[1., float(seltyp), 3., 0.]]}]
        if self.c.get('extra'):
            out += self.c['extra']
        style = rnd.randrange(2)
        names = sorted(queues)
        if style == 0:
            rnd.shuffle(names)
        while any(queues.values()):
            ok = [n for n in names if queues[n] and
                  not any(queues.get(a) for a in after.get(n, ()))]
            n = rnd.choice(ok) if style else ok[0]
            out.append(queues[n].pop(0))
        for blocks in self.rv:
            out += blocks
        return out

    def in_order(self, rs, rnd):
        out, i = [], 0
        while i < len(rs):
            k = rnd.choice([1, 2, 5, 50])
            out.append(rs[i:i + k])
            i += k
        return out

    # ---- selections --------------------------------------------------------
    def selected(self, sets=None, kind=None):
        """Indices of the selected elements."""
        idx = range(len(self.elements))
        if sets:
            names = [sets] if isinstance(sets, str) else sets
            want = set()
            for n in names:
                want |= self.sets[n]
            idx = [i for i in idx if i in want]
        if kind:
            types = R.BEAMS if kind == 'beam' else R.SHELLS
            idx = [i for i in idx if self.elements[i]['type'] in types]
        return list(idx)


@st.composite
def model_cases(draw, max_elems=14, types=(15, 23, 24, 25, 26, 28),
                max_cases=4, results='', loads=0, max_sets=4,
                same_complex=False):
    n = draw(st.integers(1, max_elems))
    style = draw(st.integers(0, 2))
    pool = list(types)
    if style == 0:
        pool = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=3,
                             unique=True))
    c = {'seed': draw(gen.seeds),
         'elems': draw(st.lists(st.sampled_from(pool), min_size=n,
                                max_size=n)),
         'loose': draw(st.sampled_from([0, 0, 1, 3])),
         'sets': draw(st.integers(0, max_sets)),
         'cases': [], 'loads': draw(st.integers(0, loads)) if loads else 0,
         'seltyp': draw(st.sampled_from([1, 1, 3, 21])),
         'via': draw(st.sampled_from(['sif', 'h5'])),
         'form': draw(gen.any_form)}
    if results:
        cx = draw(st.sampled_from([0, 1])) if same_complex else None
        runs = draw(st.sampled_from([(1,), (1,), (1, 2), (2,), (7, 1)]))
        k = draw(st.integers(1, max_cases))
        mix = draw(st.sampled_from([0, 1, 2, 2])) if cx is None else cx
        c['cases'] = [[draw(st.sampled_from(runs)),
                       draw(st.sampled_from([0, 1])) if mix == 2 and
                       draw(st.integers(0, 3)) == 0 else min(mix, 1)]
                      for _ in range(k)]
    return c


def open_model(m, letter='T', ctx=None):
    """Write the model's file and open it -> (data object, close())."""
    import freesif as fs
    import sif
    c = m.c
    seltyp = c.get('seltyp', 1)
    name = '%s%d.%s' % (letter, seltyp, 'FEM' if letter == 'T' else 'SIU')
    sif.write(name, m.blocks(), c['form'])
    if c['via'] == 'sif':
        d = fs.open_sif(name)
        return d, d.close
    fs.sif2hdf5(name, 'model.h5')
    f = fs.open_hdf5('model.h5')
    return f['%s%d' % (letter, seltyp)], f.close


def selections(draw, ns, kinds=(None, None, 'beam', 'shell')):
    """A selection by set positions; resolved by `resolve`."""
    sets = None
    if ns:
        sets = draw(st.one_of(
            st.none(), st.integers(0, ns - 1),
            st.lists(st.integers(0, ns - 1), min_size=1, max_size=ns)))
    return {'sets': sets, 'kind': draw(st.sampled_from(kinds)),
            'as': draw(st.sampled_from(['list', 'tuple']))}


def resolve(m, sel):
    s = sel['sets']
    if isinstance(s, int):
        sets = m.setorder[s]
    elif s is None:
        sets = None
    else:
        sets = [m.setorder[i] for i in s]
        if sel.get('as') == 'tuple':
            sets = tuple(sets)
    return sets, sel['kind']


def nodes_of(m, idx, disconnected, everything):
    """Node indices in the order of the coordinates of a selection."""
    if disconnected:
        return [n for i in idx for n in m.elements[i]['nodes']]
    if everything:
        return list(range(m.nn))
    return sorted({n for i in idx for n in m.elements[i]['nodes']})


def arr(x):
    return np.array(x)


def big_case(seed, n, types=(15, 23, 24, 25, 26, 28), sets=4, cases=0,
             cplx=0, loads=0, via='h5'):
    """A model far larger than the generated ones."""
    rnd = random.Random('big/%s' % seed)
    return {'seed': seed, 'elems': [rnd.choice(types) for _ in range(n)],
            'loose': 20, 'sets': sets, 'cases': [[1, cplx]] * cases,
            'loads': loads, 'seltyp': 1, 'via': via,
            'form': FORM}


def huge_case(seed, n=34000, types=(15, 18, 24, 25), **kw):
    """A model of more nodes and elements than 16 bits can count."""
    return dict(big_case(seed, n, types, **kw), loose=n)



ORDER_OF = {
    'get_nodes': 'sets kind disconnected trans index',
    'get_nodenumbers': 'sets kind disconnected numbertype',
    'get_elements': 'sets kind disconnected',
    'get_elementnumbers': 'sets kind numbertype',
    'get_noderesults': 'restype run rescases sets kind disconnected',
    'get_elementresults': 'restype pos run rescases sets',
    'get_section_properties': 'sets',
    'get_shell_thicknesses': 'sets',
    'get_resultcase_names': 'rescases',
}
DEFAULTS = {'disconnected': False, 'numbertype': 'external', 'index': 1,
            'run': 1, 'pos': 'nodes'}


class Caller(object):
    """The same requests with all arguments named (k=0), with those that have
    their default value left out (k=1) or given by position (k=2)."""

    def __init__(self, d, k):
        self.d, self.k = d, k % 3

    def __getattr__(self, name):
        method = getattr(self.d, name)
        order = ORDER_OF[name].split()

        def call(*args, **kw):
            kw = dict(zip(order, args), **kw)
            if self.k == 0:
                first = [kw.pop('restype')] if 'restype' in kw else []
                return method(*first, **kw)
            used = [n for n in order if n in kw and not (
                n != 'restype' and
                (kw[n] is None or kw[n] is DEFAULTS.get(n) or
                 isinstance(kw[n], (str, int)) and
                 kw[n] == DEFAULTS.get(n)))]
            if self.k == 1:
                first = [kw['restype']] if 'restype' in kw else []
                return method(*first, **{n: kw[n] for n in used
                                         if n != 'restype'})
            last = max([order.index(n) for n in used] + [-1])
            return method(*[kw.get(n, DEFAULTS.get(n))
                            for n in order[:last + 1]])
        return call
