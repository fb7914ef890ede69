"""Hydrodynamic result files: bodies, directions, frequencies, responses; as
records and as plain Python data.
"""
import random

import numpy as np
from hypothesis import strategies as st

import gen
import records as R

FREQ_INDEP = (11, 22, 31, 32)
FREQ_DEP = (12, 21)


def f(rnd, lo=-100., hi=100.):
    return R.f32(rnd.uniform(lo, hi))


class Hydro(object):
    def __init__(self, c):
        self.c = c
        self.rnd = rnd = random.Random('hydro/%s' % c['seed'])
        self.rows = {}          # rec -> list of rows, in file order
        self.bodies = rnd.sample(range(1, 20 + c['bodies']), c['bodies']) \
            if rnd.randrange(3) else list(range(1, c['bodies'] + 1))
        conds = rnd.sample(range(1, 30 + c['bodies']), c['bodies']) \
            if rnd.randrange(3) else list(range(1, c['bodies'] + 1))
        self.cond = dict(zip(self.bodies, conds))
        order = list(self.bodies)
        rnd.shuffle(order)
        for b in order:
            n = rnd.choice([0, 0, 1, 2])
            self.add('WBODCON', [0., float(self.cond[b]), float(b), float(n)] +
                     gen.floats(rnd, 3 * n))
        d = rnd.randrange(4) > 0
        self.g, self.ro, self.depth = f(rnd, 9, 10), f(rnd, 900, 1100), \
            f(rnd, 10, 3000)
        self.hasdepth = d
        self.add('WGLOBDEF', [0., self.g, self.ro, float(d)] +
                 ([self.depth] if d else []))
        if c['domain'] == 'time':
            self.time_refs(rnd)
        else:
            self.freq_refs(rnd)
        self.make_bodies(rnd)
        if c['domain'] == 'frequency':
            self.make_responses(rnd)
            self.make_matrices(rnd)
            if c.get('panels'):
                self.make_panels(rnd)

    def add(self, rec, row):
        row = list(row)
        if R.ptype(rec) == 2:
            row[0] = float(len(row))
        self.rows.setdefault(rec, []).append(row)

    # ---- responses ---------------------------------------------------------
    def freq_refs(self, rnd):
        c = self.c
        k = rnd.randrange(3)
        dirs = [R.f32(rnd.uniform(-3.2, 6.3)) for _ in range(c['ndirs'])]
        freqs = [R.f32(rnd.uniform(0.05, 3.)) for _ in range(c['nfreqs'])]
        if rnd.randrange(3) == 0:
            dirs[0] = 0.
        if rnd.randrange(4) == 0 and dirs[0] > 0:
            freqs[0] = dirs[0]
        for xs in dirs, freqs:      # values close to each other
            if len(xs) > 1 and rnd.randrange(3) == 0:
                xs[1] = R.f32(xs[0] * (1 + rnd.choice([3e-7, 2e-5, 1e-3])))
        self.dirs, self.freqs = uniq(dirs), uniq(freqs)
        if k == 0:
            self.dirs.sort()
            self.freqs.sort()
        elif k == 1:
            self.dirs.sort(reverse=True)
            self.freqs.sort(reverse=True)
        swap = rnd.randrange(3) == 0
        first = rnd.choice([1, 1, 5, 101])
        self.iwres = {}
        n = first
        for i, d in enumerate(self.dirs):
            for j, w in enumerate(self.freqs):
                self.iwres[i, j] = n
                parts = [[1., i + 1., d], [2., j + 1., w]]
                if swap:
                    parts.reverse()
                self.add('WDRESREF', [0., float(n), 1., 2.] + parts[0] +
                         parts[1])
                n += 1
        if c.get('second'):     # second order responses refer to two of each
            for _ in range(rnd.randrange(1, 4)):
                i, j = (rnd.randrange(len(self.dirs)) for _ in range(2))
                k, l = (rnd.randrange(len(self.freqs)) for _ in range(2))
                self.add('WDRESREF', [
                    0., float(n), 2., 2.,
                    1., i + 1., self.dirs[i], j + 1., self.dirs[j],
                    2., k + 1., self.freqs[k], l + 1., self.freqs[l]])
                n += 1
        self.times = []

    def time_refs(self, rnd):
        n = self.c['nfreqs'] * 3
        times = [R.f32(rnd.uniform(0, 50)) for _ in range(n)]
        if rnd.randrange(3) == 0:
            times[1] = R.f32(times[0] * (1 + rnd.choice([3e-7, 2e-5, 1e-3])))
        self.times = uniq(sorted(times))
        for i, t in enumerate(self.times):
            self.add('WDRESREF', [0., i + 1., 1., 1., 3., i + 1., t])
        self.dirs, self.freqs, self.iwres = [], [], {}

    def make_bodies(self, rnd):
        self.props = {}
        self.sections, self.points = [], []
        for b in self.shuffled(self.bodies, rnd):
            v = [f(rnd) for _ in range(14)]
            t = [f(rnd, -1, 1) for _ in range(16)]
            self.props[b] = (v, t)
            self.add('WBODY', [0., float(self.cond[b])] + v + t)
        self.nsect = {}
        ns = self.c['sections']
        for k, b in enumerate(self.bodies):
            n = ns if k == 0 else (0 if not ns else rnd.choice([0, ns, 1]))
            self.nsect[b] = n
            for i in range(n):
                p = [f(rnd) for _ in range(9)]
                usr = float(rnd.randrange(1, 200))
                typ = float(rnd.choice([1, 2, 3]))
                self.sections.append((usr, typ, p))
                self.add('WSECTION', [0., float(b), i + 1., typ, usr] + p)
        for i in range(self.c['points']):
            p = [f(rnd) for _ in range(3)]
            self.points.append(p)
            self.add('WFKPOINT', [0., i + 1.] + p)

    def shuffled(self, xs, rnd):
        xs = list(xs)
        rnd.shuffle(xs)
        return xs

    def number(self, rnd, cplx):
        re = R.f32(rnd.randrange(-8000, 8000) / 32.)
        return complex(re, R.f32(rnd.randrange(-8000, 8000) / 32.)
                       if cplx else 0.)

    def flat(self, v, cplx):
        return [y for x in v for y in ((x.real, x.imag) if cplx
                                       else (x.real,))]

    def make_responses(self, rnd):
        """values[rec][body] is indexed as the getters' results."""
        self.values = {}
        nd, nf = len(self.dirs), len(self.freqs)
        resp = [(i, j) for i in range(nd) for j in range(nf)]
        cx = {r: rnd.randrange(4) > 0 for r in ('W1MOTION', 'W1EXFORC',
                                                'W1SFORCE', 'WFLUIDKN',
                                                'W1PANPRE')}
        self.cx = cx
        for rec in ('W1MOTION', 'W1EXFORC', 'W2MDRIFT', 'W2HDRIFT'):
            nc = 3 if rec == 'W2HDRIFT' else 6
            jobs = [(b, r) for b in self.shuffled(self.bodies, rnd)
                    for r in resp]
            if rnd.randrange(2):        # bodies within a response
                jobs.sort(key=lambda x: x[1])
            for b in self.bodies:
                self.values.setdefault(rec, {})[b] = np.zeros(
                    (nc, nd, nf), 'c16')
            for b, (i, j) in jobs:
                c = cx.get(rec, False)
                v = [self.number(rnd, c) for _ in range(nc)]
                self.values[rec][b][:, i, j] = v
                head = [0., float(self.cond[b]), float(self.iwres[i, j])]
                if rec in cx:
                    head.append(float(c))
                self.add(rec, head + self.flat(v, c))
        # sections
        for b in self.shuffled(self.bodies, rnd):
            n = self.nsect[b]
            a = np.zeros((n, 6, nd, nf), 'c16')
            for s in range(n):
                for i, j in resp:
                    c = cx['W1SFORCE']
                    v = [self.number(rnd, c) for _ in range(6)]
                    a[s, :, i, j] = v
                    self.add('W1SFORCE', [0., float(self.cond[b]), s + 1.,
                                          float(self.iwres[i, j]), float(c)] +
                             self.flat(v, c))
            self.values.setdefault('W1SFORCE', {})[b] = a
        # points
        n = len(self.points)
        p = np.zeros((n, nd, nf), 'c16')
        u = np.zeros((n, 3, nd, nf), 'c16')
        for i, j in resp:
            for k in range(n):
                c = cx['WFLUIDKN']
                v = [self.number(rnd, c) for _ in range(4)]
                p[k, i, j] = v[0]
                u[k, :, i, j] = v[1:]
                self.add('WFLUIDKN', [0., float(self.iwres[i, j]), k + 1.,
                                      float(c)] + self.flat(v, c))
        self.pressure, self.velocity = p, u

    def make_matrices(self, rnd):
        self.matrices = {}
        jobs = []
        for a in self.bodies:
            for b in self.bodies:
                if a != b and rnd.randrange(4) == 0 and \
                        not self.c.get('coupled'):
                    continue
                for t in FREQ_INDEP + FREQ_DEP:
                    if rnd.randrange(8) == 0 and t != 11:
                        continue
                    n = len(self.freqs) if t in FREQ_DEP else 1
                    m = np.array([[f(rnd) for _ in range(36)]
                                  for _ in range(n)]).reshape(n, 6, 6)
                    self.matrices[t, a, b] = m
                    for k in range(n):
                        jobs.append((k, t, a, b))
        style = rnd.randrange(3)
        if style == 0:
            jobs.sort()
        elif style == 1:
            pairs = self.shuffled(sorted({j[1:] for j in jobs}), rnd)
            pos = {p: i for i, p in enumerate(pairs)}
            jobs.sort(key=lambda j: (pos[j[1:]], j[0]))
        else:
            key = {j[1:]: rnd.random() for j in sorted(jobs)}
            jobs.sort(key=lambda j: (j[0], key[j[1:]]))
        for i, (k, t, a, b) in enumerate(jobs):
            w = float(self.iwres[0, k]) if t in FREQ_DEP else 0.
            self.add('W1MATRIX', [0., i + 1., float(self.cond[a]),
                                  float(self.cond[b]), w, float(t)] +
                     [float(x) for x in self.matrices[t, a, b][k].ravel()])

    def make_panels(self, rnd):
        nd, nf = len(self.dirs), len(self.freqs)
        self.panels, self.symm, self.panelp = {}, {}, {}
        jobs = []
        for b in self.shuffled(self.bodies, rnd):
            np_ = rnd.randrange(1, self.c['panels'] + 1)
            if b != self.bodies[0] and rnd.randrange(3) == 0:
                continue
            ids = sorted(rnd.sample(range(1, 50 + 2 * np_), np_))
            sy = sorted(rnd.sample(range(1, 5), rnd.choice([1, 1, 2, 4])))
            self.panels[b], self.symm[b] = ids, sy
            self.panelp[b] = np.zeros((np_, len(sy), nd, nf), 'c16')
            for i in range(nd):
                for j in range(nf):
                    for s in range(len(sy)):
                        for k in range(np_):
                            jobs.append((b, i, j, s, k))
        if rnd.randrange(2):
            pos = {b: i for i, b in enumerate(self.shuffled(self.bodies,
                                                            rnd))}
            jobs.sort(key=lambda x: (x[1], x[2], pos[x[0]], x[3], x[4]))
        c = self.cx['W1PANPRE']
        for b, i, j, s, k in jobs:
            v = self.number(rnd, c)
            self.panelp[b][k, s, i, j] = v
            self.add('W1PANPRE', [0., float(self.cond[b]),
                                  float(self.iwres[i, j]), k + 1.,
                                  float(self.symm[b][s]), float(c)] +
                     self.flat([v], c) + [float(self.panels[b][k]),
                                          float(rnd.randrange(1, 5))])

    # ---- records -------------------------------------------------------------
    def blocks(self):
        rnd = random.Random('order/%s' % self.c['seed'])
        rows = dict(self.rows)
        for rec, rs in gen.noise(rnd, gen.HYDRO_NOISE).items():
            rows.setdefault(rec, rs)
        split = rnd.randrange(3)
        queues = {}
        for rec, rs in rows.items():
            out, i = [], 0
            while i < len(rs):
                k = len(rs) if split == 0 else rnd.choice([1, 2, 7, 100])
                out.append({'rec': rec, 'rows': rs[i:i + k]})
                i += k
            queues[rec] = out
        names = sorted(queues)
        rnd.shuffle(names)
        out = [{'rec': 'IDENT', 'rows': [[1., float(self.c.get('seltyp', 1)),
                                          3., 0.]]}]
        while any(queues.values()):
            ok = [n for n in names if queues[n]]
            n = rnd.choice(ok) if split == 2 else ok[0]
            out.append(queues[n].pop(0))
        return out


def uniq(xs):
    out = []
    for x in xs:
        if x not in out:
            out.append(x)
    return out


@st.composite
def hydro_cases(draw, domain=('frequency',), panels=0, sections=0, points=0,
                bodies=3, big=False):
    return {'seed': draw(gen.seeds),
            'domain': draw(st.sampled_from(domain)),
            'bodies': draw(st.integers(1, bodies)),
            'ndirs': draw(st.integers(1, 12 if big else 5)),
            'nfreqs': draw(st.integers(1, 12 if big else 5)),
            'sections': draw(st.integers(0, sections)) if sections else 0,
            'points': draw(st.integers(0, points)) if points else 0,
            'panels': draw(st.integers(0, panels)) if panels else 0,
            'second': draw(st.sampled_from([False, False, True])),
            'seltyp': draw(st.sampled_from([1, 1, 4])),
            'via': draw(st.sampled_from(['sif', 'h5'])),
            'form': draw(gen.any_form)}


def big_case(seed, bodies=1, ndirs=1, nfreqs=1, sections=0, points=0,
             panels=0, via='h5', domain='frequency'):
    """Results far larger than the generated ones."""
    return {'seed': seed, 'domain': domain, 'bodies': bodies, 'ndirs': ndirs,
            'nfreqs': nfreqs, 'sections': sections, 'points': points,
            'panels': panels, 'second': True, 'seltyp': 1, 'via': via,
            'form': {'kind': 'F', 'pad': 'short', 'eol': '\n', 'end': 0.}}


def open_hydro(h):
    import freesif as fs
    import sif
    name = 'G%d.SIF' % h.c['seltyp']
    sif.write(name, h.blocks(), h.c['form'])
    if h.c['via'] == 'sif':
        d = fs.open_sif(name)
        return d, d.close
    fs.sif2hdf5(name, 'hydro.h5')
    fh = fs.open_hdf5('hydro.h5')
    return fh['G%d' % h.c['seltyp']], fh.close


def equal(what, got, want, rtol=0.):
    from core import Violation
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        raise Violation('%s: shape %s, expected %s' % (what, got.shape,
                                                       want.shape))
    if want.dtype.kind != 'c' and got.dtype.kind == 'c':
        raise Violation('%s: complex values' % what)
    with np.errstate(all='ignore'):
        bad = np.argwhere(~(np.abs(got - want) <= rtol * np.abs(want)))
    if len(bad):
        i = tuple(bad[0])
        raise Violation('%s: %s at %s, file has %s' % (what, got[i], i,
                                                       want[i]))


def twice(what, call, want, rtol=0.):
    """The answer is right, and again after the first one was changed."""
    a = call()
    equal(what, a, want, rtol)
    a = np.asarray(a)
    if a.flags.writeable:
        a[...] = 5
    equal(what + ' (second time)', call(), want, rtol)


def asked(what, method, b, want):
    """The answer for body b in every way of asking for it."""
    twice(what, lambda: method(b), want)
    equal(what + ' (bodyid=)', method(bodyid=b), want)
    if b == 1:
        equal(what + ' (by default)', method(), want)
