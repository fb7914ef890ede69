"""VTF data written to a file reads back to the same model and results."""
import random
from collections import OrderedDict

import numpy as np
from hypothesis import strategies as st

import gen
from core import Facet, Violation

RULE = ('random histories (of one data set, or two in turn) of add_nodes, add_elements, add_scalar, '
        'add_element_scalar_results (explicit and automatic ids, with and '
        'without node and element numbers, all six element types mixed, '
        'results for some or all types of a block in any order), write, and '
        'continuing with a VtfData read from the file; after every write the '
        'file is read by VtfData and by an independent reader and both are '
        'compared with a model of the calls. Non-trivial: at least two '
        'element types with results and an explicit id.')
ASSUMPTIONS = ['names without double quotes and line ends', 'coordinates '
               'with five decimals, numbers below 1e9, results in single '
               'precision', 'at least one element block; new explicit ids']
TYPES = {15: ('%BEAMS', 2), 23: ('%BEAMS_3', 3), 25: ('%TRIANGLES', 3),
         26: ('%TRIANGLES_6', 6), 24: ('%QUADS', 4), 28: ('%QUADS_8', 8)}
SIZE = {n: k for n, k in TYPES.values()}
QUAD = [0, 2, 4, 6, 1, 3, 5, 7]     # corners, then midside nodes


# ---- independent reader --------------------------------------------------
def parse(path):
    """-> {kind: {id: [lines]}}"""
    out, cur = {}, None
    with open(path) as f:
        lines = f.read().split('\n')
    if lines[0] != '*VTF-1.00':
        raise Violation('first line %r' % lines[0])
    for line in lines[1:]:
        if line.startswith('*'):
            kind, no = line.split()
            if int(no) in out.setdefault(kind, OrderedDict()):
                raise Violation('two blocks %s' % line)
            cur = out[kind][int(no)] = []
        elif line.strip():
            cur.append(line)
    return out


def quoted(lines, key):
    got = [l.split(' ', 1)[1] for l in lines if l.split()[0] == key]
    if len(got) != 1 or got[0][:1] != '"' or got[0][-1:] != '"':
        raise Violation('%s lines: %s' % (key, got))
    return got[0][1:-1]


def one(lines, key):
    got = [l.split() for l in lines if l.split()[0] == key]
    return got[0][1:] if got else None


def decode(path):
    """The file as plain Python data."""
    raw = parse(path)
    d = {'nodes': {}, 'elems': {}, 'results': {}, 'scalars': {}}
    for no, ls in raw.get('*NODES', {}).items():
        with_id = ls[0].strip() == '%WITH_ID'
        rows = [l.split() for l in ls if l[0] != '%']
        d['nodes'][no] = {
            'ids': [int(r[0]) for r in rows] if with_id else None,
            'xyz': [[float(x) for x in r[with_id:]] for r in rows]}
    for no, ls in raw.get('*ELEMENTS', {}).items():
        e = {'name': quoted(ls, '%NAME'), 'desc': quoted(ls, '%DESCRIPTION'),
             'nodes': int(one(ls, '%NODES')[0][1:]), 'con': OrderedDict()}
        with_id = one(ls, '%WITH_ID') is not None
        e['ids'] = {} if with_id else None
        t = None
        for l in ls:
            w = l.split()
            if w[0] in SIZE:
                t = w[0]
                if t in e['con']:
                    raise Violation('%s twice' % t)
                e['con'][t] = []
                if with_id:
                    e['ids'][t] = []
            elif l[0] != '%':
                w = [int(x) for x in w]
                if with_id:
                    e['ids'][t].append(w.pop(0))
                e['con'][t].append(w)
        d['elems'][no] = e
    for no, ls in raw.get('*RESULTS', {}).items():
        b = int(one(ls, '%PER_ELEMENT_NODE')[0][1:])
        vals = [float(l) for l in ls if l[0] != '%']
        res = OrderedDict()
        for t, con in d['elems'][b]['con'].items():
            if not vals:
                break
            k = len(con) * SIZE[t]
            if len(vals) < k:
                raise Violation('results %d: values are missing' % no)
            res[t] = [vals[i:i + SIZE[t]] for i in range(0, k, SIZE[t])]
            vals = vals[k:]
        if vals:
            raise Violation('results %d: %d values too many' % (no,
                                                                len(vals)))
        d['results'][no] = {'elems': b, 'values': res,
                            'dim': [int(x) for x in one(ls, '%DIMENSION')]}
    for no, ls in raw.get('*GLVIEWSCALAR', {}).items():
        i = [l.split()[0] for l in ls].index('%STEP') \
            if one(ls, '%STEP') else None
        d['scalars'][no] = {
            'name': quoted(ls, '%NAME'), 'desc': quoted(ls, '%DESCRIPTION'),
            'results': [] if i is None else
            [int(x) for x in ls[i + 1].split(',')]}
    geo = raw.get('*GLVIEWGEOMETRY', {})
    if len(geo) != 1:
        raise Violation('%d geometries' % len(geo))
    for ls in geo.values():
        d['name'], d['desc'] = quoted(ls, '%NAME'), quoted(ls, '%DESCRIPTION')
        i = [l.split()[0] for l in ls].index('%ELEMENTS')
        if sorted(int(x) for x in ls[i + 1].split(',')) != \
                sorted(d['elems']):
            raise Violation('the geometry has elements %s' % ls[i + 1])
    return d


def content(v):
    """A VtfData as plain Python data."""
    L = lambda x: np.asarray(x).tolist()
    return {
        'name': v.name, 'desc': v.description,
        'nodes': {k: {'ids': None if n.nodeid_arr is None
                      else L(n.nodeid_arr), 'xyz': L(n.nodes_arr)}
                  for k, n in v.nodes.items()},
        'elems': {k: {'name': e.name, 'desc': e.description,
                      'nodes': e.nodes_id,
                      'con': {t: L(a) for t, a in e.elems_dict.items()},
                      'ids': None if not e.with_id else
                      {t: L(a) for t, a in e.elem_ids.items()}}
                  for k, e in v.elems.items()},
        'results': {k: {'elems': r.elems_id, 'dim': [r.dimension],
                        'values': {t: L(a) for t, a in r.res_dict.items()}}
                    for k, r in v.results.items()},
        'scalars': {k: {'name': s.name, 'desc': s.description,
                        'results': list(s.results_ids)}
                    for k, s in v.scalars.items()}}


def compare(what, got, want):
    for part in want:
        g, w = got[part], want[part]
        if isinstance(w, dict):
            if list(sorted(g)) != list(sorted(w)):
                raise Violation('%s: %s %s, expected %s' % (
                    what, part, sorted(g), sorted(w)))
            for k in w:
                for f in w[k]:
                    a, b = g[k][f], w[k][f]
                    if f in ('con', 'values'):
                        a, b = dict(a), dict(b)
                    if a != b:
                        raise Violation('%s: %s %d: %s is %s, expected %s' % (
                            what, part, k, f, a, b))
        elif g != w:
            raise Violation('%s: %s is %r, expected %r' % (what, part, g, w))


# ---- histories -----------------------------------------------------------
class History(object):
    def __init__(self, case, name='out'):
        from freesif.utils.vtfdata import VtfData
        self.case = case
        self.file, self.blank = name + '.vtf', name + '_spaced.vtf'
        self.rnd = random.Random('vtf/%s' % case['seed'])
        self.v = VtfData(case['name'], case['desc'])
        self.want = {'name': case['name'], 'desc': case['desc'], 'nodes': {},
                     'elems': {}, 'results': {}, 'scalars': {}}
        self.last = {}
        self.order = {}     # element block -> types with results
        self.types = {}
        self.lab = set()

    def run(self):
        for op in self.case['ops']:
            yield True
            getattr(self, 'do_' + op['op'])(op)
        self.do_write({})

    def number(self, part, op):
        """An unused explicit id or None."""
        no = op['id']
        while no in self.want[part] and no is not None:
            no += 7
        if no is not None:
            self.lab.add('explicit id')
        return no

    def added(self, part, container, no):
        new = [k for k in container if k not in self.want[part]]
        if len(new) != 1 or len(container) != len(self.want[part]) + 1:
            raise Violation('%s %s after adding one to %s' % (
                part, sorted(container), sorted(self.want[part])))
        if no is not None and new[0] != no:
            raise Violation('%s: id %d for %d' % (part, new[0], no))
        self.last[part] = new[0]
        return new[0]

    def pick(self, part, op):
        """An existing id to name explicitly, or None for the last added."""
        ids = sorted(self.want[part])
        if part in self.last and op['latest']:
            return None, self.last[part]
        if not ids:
            return None, None
        no = ids[op['which'] % len(ids)]
        return no, no

    def do_nodes(self, op):
        rnd = random.Random('nodes/%s' % op['seed'])
        n = op['n']
        big = op['big']
        xyz = np.array([[rnd.randrange(-320000, 320000) / 32. *
                         (1000 if big else 1) for _ in range(3)]
                        for _ in range(n)])
        ids = None
        if op['numbers']:
            ids = np.array(rnd.sample(range(1, 10 * n + 10), n)) + \
                rnd.choice([0, 0, 99999990, 900000000 - 10 * n])
        no = self.number('nodes', op)
        kw = {} if no is None else {'nodes_id': no}
        self.v.add_nodes(xyz, ids, **kw)
        no = self.added('nodes', self.v.nodes, no)
        self.want['nodes'][no] = {
            'ids': None if ids is None else ids.tolist(),
            'xyz': xyz.tolist()}

    def do_elems(self, op):
        give, nid = self.pick('nodes', op)
        if nid is None:
            return
        rnd = random.Random('elems/%s' % op['seed'])
        nodes = self.want['nodes'][nid]
        nn = len(nodes['xyz'])
        types = op['types']
        rows = [rnd.sample(range(nn), TYPES[t][1]) for t in types]
        con = np.array([n for r in rows for n in r], 'i4')
        offset = np.cumsum([len(r) for r in rows])
        eltyp = np.array(types, 'i4')
        elno = np.array(rnd.sample(range(1, 5 * len(types) + 20),
                                   len(types))) if op['numbers'] else None
        held = [np.array(a) for a in (con, offset, eltyp)]
        no = self.number('elems', op)
        kw = {}
        if give is not None:
            kw['nodes_id'] = give
        if no is not None:
            kw['elems_id'] = no
        if op['desc']:
            kw['description'] = op['desc']
        if elno is not None:
            kw['elem_numbers'] = elno
        self.v.add_elements(op['name'], (con, offset, eltyp), **kw)
        for a, b in zip((con, offset, eltyp), held):
            if not np.array_equal(a, b):
                raise Violation('add_elements changed its arguments')
        no = self.added('elems', self.v.elems, no)
        want = {'name': op['name'], 'desc': op['desc'], 'nodes': nid,
                'con': {}, 'ids': {} if op['numbers'] else None}
        for i, (t, r) in enumerate(zip(types, rows)):
            r = [(nodes['ids'][n] if nodes['ids'] else n + 1) for n in r]
            if t == 28:
                r = [r[j] for j in QUAD]
            want['con'].setdefault(TYPES[t][0], []).append(r)
            if op['numbers']:
                want['ids'].setdefault(TYPES[t][0], []).append(int(elno[i]))
        self.want['elems'][no] = want

    def do_scalar(self, op):
        no = self.number('scalars', op)
        if op['again'] and self.want['scalars']:    # in place of another
            no = sorted(self.want['scalars'])[
                op['which'] % len(self.want['scalars'])]
            del self.want['scalars'][no]
            self.lab.add('replaced scalar')
        kw = {} if no is None else {'scalar_id': no}
        if op['desc']:
            kw['description'] = op['desc']
        got = self.v.add_scalar(op['name'], **kw)
        no = self.added('scalars', self.v.scalars, no)
        if got != no:
            raise Violation('add_scalar returned %s for %s' % (got, no))
        self.want['scalars'][no] = {'name': op['name'], 'desc': op['desc'],
                                    'results': []}

    def do_results(self, op):
        egive, eid = self.pick('elems', op)
        sgive, sid = self.pick('scalars', op)
        if eid is None or sid is None:
            return
        rnd = random.Random('results/%s' % op['seed'])
        con = self.want['elems'][eid]['con']
        if eid not in self.order:
            order = sorted(con)
            rnd.shuffle(order)
            if op['some']:
                order = order[:1 + rnd.randrange(len(order))]
            self.order[eid] = order
        res = OrderedDict()
        for t in self.order[eid]:
            vals = [[rnd.choice([0., 1e-30, 3e33, rnd.uniform(-1, 1),
                                 rnd.uniform(-1e9, 1e9)])
                     for _ in range(SIZE[t])] for _ in con[t]]
            res[t] = np.array(vals, 'f4')
        no = self.number('results', op)
        kw = {}
        if egive is not None:
            kw['elems_id'] = egive
        if sgive is not None:
            kw['scalar_id'] = sgive
        if no is not None:
            kw['results_id'] = no
        self.v.add_element_scalar_results('PER_ELEMENT_NODE', res, **kw)
        no = self.added('results', self.v.results, no)
        self.want['results'][no] = {
            'elems': eid, 'dim': [1],
            'values': {t: a.tolist() for t, a in res.items()}}
        self.want['scalars'][sid]['results'].append(no)
        if len(res) > 1:
            self.lab.add('several types with results')

    def spaced(self):
        """Blank lines mean nothing to a reader."""
        from freesif.utils.vtfdata import VtfData
        with open(self.file) as f:
            lines = f.read().split('\n')[:-1]
        share = self.rnd.choice([0.02, 0.2, 1.])
        with open(self.blank, 'w') as f:
            for l in lines:
                f.write(l + '\n')
                if self.rnd.random() < share:
                    for _ in range(self.rnd.choice([1, 1, 2, 3])):
                        f.write(self.rnd.choice(['', ' ', '\t  ']) + '\n')
        r = VtfData()
        r.read(self.blank)
        compare('read with blank lines', content(r), self.want)

    def do_write(self, op):
        from freesif.utils.vtfdata import VtfData
        if not self.want['elems']:
            return
        compare('the data set', content(self.v), self.want)
        self.v.write(self.file)
        with open(self.file, 'rb') as f:
            first = f.read()
        self.v.write(self.file)
        with open(self.file, 'rb') as f:
            if f.read() != first:
                raise Violation('writing again gives another file')
        compare('after writing, the data set', content(self.v), self.want)
        compare('the file', decode(self.file), self.want)
        r = VtfData()
        r.read(self.file)
        compare('read back', content(r), self.want)
        for no, e in r.elems.items():
            mine = sorted(k for k, x in self.want['results'].items()
                          if x['elems'] == no)
            if sorted(e.results_ids) != mine:
                raise Violation('read back: elements %d have results %s, '
                                'expected %s' % (no, e.results_ids, mine))
        self.spaced()
        if self.want['results']:
            self.lab.add('results')
        if op.get('go on'):
            self.v = r
            self.last = {}
            self.lab.add('continued after reading')


def run(case, ctx):
    h = History(case)
    jobs, rnd = [h.run()], random.Random(case['seed'])
    if case.get('other'):
        jobs.append(History(case['other'], 'other').run())
        h.lab.add('two data sets')
    while jobs:
        j = rnd.choice(jobs)
        if next(j, None) is None:
            jobs.remove(j)
    if {'several types with results', 'explicit id'} <= h.lab:
        h.lab.add('nt')
    return h.lab


def run_refused(case, ctx):
    """Results of one block that cover different types."""
    from freesif.utils.vtfdata import VtfData
    from freesif.exceptions import VtfError
    types = case['types']
    v = VtfData()
    v.add_nodes(np.zeros((8, 3)))
    rows = [list(range(TYPES[t][1])) for t in types]
    v.add_elements('E', (np.array([n for r in rows for n in r]),
                         np.cumsum([len(r) for r in rows]), np.array(types)))
    v.add_scalar('S')
    want = {}
    for k, cover in enumerate(case['cover']):
        res = OrderedDict((TYPES[types[i]][0],
                           np.full((1, TYPES[types[i]][1]), 10 * k + i, 'f4'))
                          for i in cover if i < len(types))
        want[k + 1] = {t: a.tolist() for t, a in res.items()}
        v.add_element_scalar_results('PER_ELEMENT_NODE', res)
    covers = [[i for i in c if i < len(types)] for c in case['cover']]
    same = all(c == covers[0] for c in covers)
    try:
        v.write('out.vtf')
    except VtfError:
        if same:
            raise Violation('equal types were refused')
        return {'nt', 'refused'}
    if not same and len(set(map(tuple, map(sorted, covers)))) > 1:
        raise Violation('results for different types of one block were '
                        'written: %s of %s' % (covers, types))
    got = {k: dict(r['values']) for k, r in decode('out.vtf')[
        'results'].items()}
    if got != want:
        raise Violation('results %s were written as %s' % (want, got))
    return {'accepted'}


text = st.one_of(
    st.text(st.characters(min_codepoint=32, max_codepoint=126,
                          blacklist_characters='"'), max_size=12),
    st.sampled_from(['a  b', ' lead', 'trail ', '*NODES 1', '%NAME', '#1',
                     '%QUADS', "it's", 'x, y']))
ids = st.one_of(st.none(), st.none(), st.integers(1, 4), st.integers(1, 99))
pick = {'latest': st.booleans(), 'which': st.integers(0, 5), 'id': ids,
        'seed': gen.seeds}
types_ = st.lists(st.sampled_from(sorted(TYPES)), min_size=1, max_size=8)
OPS = {
    'nodes': {'id': ids, 'seed': gen.seeds, 'n': st.integers(8, 14),
              'numbers': st.booleans(), 'big': st.booleans()},
    'elems': dict(pick, name=text, desc=text, types=types_,
                  numbers=st.booleans()),
    'scalar': {'id': ids, 'name': text, 'desc': text,
               'again': st.sampled_from([False, False, True]),
               'which': st.integers(0, 5)},
    'results': dict(pick, some=st.booleans()),
    'write': {'go on': st.booleans()}}
op = {k: st.fixed_dictionaries(dict(v, op=st.just(k))) for k, v in
      OPS.items()}


@st.composite
def cases(draw, tier):
    ops = [draw(op['nodes']), draw(op['elems'])]
    for _ in range(draw(st.integers(0, 10 if tier == 'quick' else 20))):
        ops.append(draw(op[draw(st.sampled_from(
            ['nodes', 'elems', 'scalar', 'results', 'results', 'results',
             'scalar', 'write']))]))
    k = draw(st.integers(0, 19))
    if k == 0:          # many blocks of one kind
        ops += [draw(op[draw(st.sampled_from(['elems', 'results',
                                              'scalar']))])] * 12
    elif k == 1:
        many = draw(op['results'])
        ops += [draw(op['scalar'])] + [dict(many, latest=True, id=None)] * 12
    other = None
    if draw(st.integers(0, 4)) == 0:
        other = {'seed': draw(gen.seeds), 'name': '2', 'desc': '', 'ops': [
            draw(op['nodes']), draw(op['elems']), draw(op['scalar'])] +
            draw(st.lists(st.one_of(op['results'], op['results'],
                                    op['elems'], op['write']), max_size=4))}
    return {'seed': draw(gen.seeds), 'name': draw(text), 'desc': draw(text),
            'ops': ops, 'other': other}


def large(tier):
    nodes = {'op': 'nodes', 'id': None, 'seed': 1, 'n': 20000,
             'numbers': True, 'big': False}
    rnd = random.Random(1)
    pick = {'latest': True, 'which': 0, 'id': None, 'seed': 1}
    elems = dict(pick, op='elems', name='a', desc='b', numbers=True,
                 types=[rnd.choice(sorted(TYPES)) for _ in range(9000)])
    scalar = {'op': 'scalar', 'id': None, 'name': 's', 'desc': '',
              'again': False, 'which': 0}
    results = dict(pick, op='results', some=False)
    few = [dict(nodes, n=9), dict(elems, types=[24, 25])]
    many = few[:1] + [dict(elems, types=[24], seed=i) for i in range(120)]
    some = list(few)
    for i in range(110):
        some += [scalar, dict(results, seed=i), dict(results, seed=-1 - i)]
    return [{'seed': 1, 'name': 'n', 'desc': '', 'ops': o, 'other': None}
            for o in ([nodes, elems, scalar, results, results], many, some,
                      [nodes, elems, scalar] + [dict(results, some=True)] * 2,
                      [nodes, elems, scalar, dict(results, some=True, seed=7)],
                      few + [scalar] + [results] * 150)]


refused = st.fixed_dictionaries({
    'types': st.lists(st.sampled_from(sorted(TYPES)), min_size=2, max_size=4,
                      unique=True),
    'cover': st.lists(st.lists(st.integers(0, 1), min_size=1, max_size=2,
                               unique=True), min_size=2, max_size=3)})

FACETS = [Facet('large files', None, run, 0, 0, fixed=large, timeout=200),
          Facet('histories', cases, run, 1000, 20000),
          Facet('mixed results', lambda tier: refused, run_refused, 40, 400)]
