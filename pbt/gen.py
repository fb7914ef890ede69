"""Generator of record sequences.

A sequence is a list of blocks {"rec": NAME, "rows": [...]} (see records.py
for the rows).  Hypothesis decides which blocks there are, their sizes and a
seed for each of them; the values of a block come from that seed.  `Maker`
keeps track of what later records need from earlier ones (element types of
GELREF1, dimensions of RDIELCOR, lengths of RVSTRESS, ...).
"""
import random
import string

import numpy as np
from hypothesis import strategies as st

import records as R

ALPHABET = string.ascii_letters + string.digits + "_-+.,:;/()[]{}<>&'\"%#@!*=?"
F32_SPECIAL = [0., 1., -1., 0.5, 3.4028234663852886e38,
               -3.4028234663852886e38, 1.1754943508222875e-38, 16777216.,
               -16777217., 1e10, -1e-10, 123456.79, 9.9999998e-3, -4., -5.]


def rint(rnd, lo=0, big=True):
    k = rnd.randrange(10)
    if k < 6 or not big:
        v = rnd.randrange(0, 30)
    elif k < 8:
        v = rnd.randrange(0, 100000)
    else:
        v = rnd.randrange(0, 1 << 24)
    if lo < 0 and rnd.randrange(6) == 0:
        v = -v
    return float(max(v, lo))


def rfloat(rnd):
    k = rnd.randrange(10)
    if k < 2:
        v = rnd.choice(F32_SPECIAL)
    elif k < 4:
        v = float(rnd.randrange(-50, 50))
    elif k < 8:
        v = rnd.uniform(-1000., 1000.)
    else:
        v = rnd.uniform(-1., 1.) * 10. ** rnd.randrange(-30, 31)
    v = R.f32(v)
    if v and abs(v) < 1.2e-38:
        v = 0.
    return v


def floats(rnd, n):
    return [rfloat(rnd) for _ in range(n)]


def ints(rnd, n, lo=-1):
    return [rint(rnd, lo) for _ in range(n)]


# texts that look like the beginning of a record or like numbers
LIKE = ['IEND', 'GCOORD', 'IDENT', 'TEXT', 'TDLOAD', 'GNODE   ', 'DATE', 'IEND    ',
        '0.00', '1.00000000E+00', '-5.00', '1', '-1', 'GELMNT1 1.0', 'HIERARCH',
        'nan', 'None', '1.00000000E+00  2.00000000E+00']


def word(rnd, n):
    if n > 7 and rnd.randrange(10) == 0:
        return rnd.choice(LIKE)[:n].strip()
    s = ''.join(rnd.choice(ALPHABET + ' ') for _ in range(n))
    s = s.strip()
    return s or rnd.choice(string.ascii_letters)


class Maker(object):
    def __init__(self, seltyp=1):
        self.seltyp = seltyp
        self.elements = {}      # elno -> eltyp
        self.dims = {}          # icoref -> (nlay, nok, noj, noi)
        self.nsp = {}           # (ispalt, iielno) -> nsp
        self.icompl = {}        # ires -> flag
        self.lenrec = {}        # (RVxxx, ir) -> lenrec
        self.nelno = 0

    # ---- one block -----------------------------------------------------
    def blocks(self, rec, n, seed):
        """-> list of blocks: those needed first, then the wanted one."""
        rnd = random.Random('%s/%s' % (rec, seed))
        out = []
        for need in self.needs(rec):
            out.extend(self.blocks(need, 1 + rnd.randrange(3), seed))
        rows = [self.row(rec, rnd) for _ in range(n)]
        if R.ptype(rec) == 2:
            for r in rows:
                r[0] = float(len(r))
        out.append({'rec': rec, 'rows': rows})
        return out

    def needs(self, rec):
        if rec == 'GELREF1' and not self.elements:
            return ['GELMNT1']
        if rec in ('RVFORCES', 'RVSTRAIN', 'RVSTRESS'):
            out = []
            if not self.nsp:
                out.append('RDPOINTS')
            if not self.icompl:
                out.append('RDRESREF')
            if not any(k[0] == rec for k in self.lenrec):
                out.append('RD' + rec[2:])
            return out
        return []

    def row(self, rec, rnd):
        if rec in R.TD or rec == 'TDSERIES':
            return self.td(rnd)
        if rec in R.TEXTS:
            return self.text(rnd)
        if rec in R.FIXED:
            return self.fixed(rec, rnd)
        if rec in R.UNSUPPORTED_PTYPE:
            return self.unsupported(rec, rnd)
        if rec == 'IEND':
            return [1., 0., 0., 0.]
        if rec == 'IRECSIZE':
            return [4., float(rnd.choice([32, 128, 1024])), 0., 0.]
        return getattr(self, 'r_' + rec)(rnd)

    def td(self, rnd):
        nn, nt = rnd.choice([1, 1, 1, 2, 0]), rnd.choice([0, 0, 1, 2, 3])
        if rnd.randrange(30) == 0:
            nt = rnd.choice([9, 10, 12])
        s, total = [], 64
        for i in range(nn):
            k = rnd.choice([1, 8, 20, 64]) if nn == 1 else rnd.randrange(1, 32)
            x = word(rnd, k)
            s.append(x + ' ' * rnd.choice([0, 0, 5, 64 - len(x)]))
        for i in range(nt):
            k = rnd.choice([0, 1, 10, 64])
            x = word(rnd, k) if k else ' '
            s.append(x + ' ' * rnd.choice([0, 0, 3]))
        return {'h': [4., rint(rnd), 100. * nn + 20 * (nn > 0),
                      100. * nt + 20 * (nt > 0)], 's': s}

    def text(self, rnd):
        n = rnd.choice([0, 1, 1, 2, 4])
        if rnd.randrange(40) == 0:
            n = rnd.choice([10, 99, 100, 130])
        s = []
        for _ in range(n):
            k = rnd.choice([1, 10, 40, 64])
            x = ' ' * 8 + word(rnd, k)
            if rnd.randrange(3) == 0:
                x = x.ljust(72)
            elif rnd.randrange(8) == 0:
                x = '\0' * 72
            s.append(x)
        return {'h': [1., rint(rnd), float(n), 72.], 's': s}

    def fixed(self, rec, rnd):
        pt, cols, nopt = R.FIXED[rec]
        if rec == 'IDENT':
            return [float(rnd.choice([1, 1, 2, 5])), float(self.seltyp),
                    float(rnd.choice([2, 3])), 0.]
        r = []
        for i, (name, kind) in enumerate(cols):
            if kind == 'i':
                r.append(rint(rnd, 0 if i == 0 else -1))
            elif kind == 'f':
                r.append(rfloat(rnd))
            else:
                k = int(np.prod(R._size(kind)))
                r.extend(floats(rnd, k))
        if nopt and rnd.randrange(2):
            r = r[:-nopt]
        return r

    def unsupported(self, rec, rnd):
        n = rnd.choice([1, 2, 4, 4, 5, 8, 9, 16, 33, 36, 37, 70])
        if R.ptype(rec) == 2:
            n = max(n, 2)
        return [rint(rnd)] + floats(rnd, n - 1)

    # ---- variable records ------------------------------------------------
    def r_HIERARCH(self, rnd):
        n = rnd.randrange(0, 6)
        self.nh = getattr(self, 'nh', 0) + 1
        first = self.nh == 1
        return [8. + n, float(self.nh),
                float(self.seltyp) if first else rint(rnd, 1, False) + 500,
                1. if first else float(rnd.randrange(1, 4)),
                float(rnd.randrange(1, 5)), rint(rnd, 0, False),
                rint(rnd, 0, False), float(n)] + ints(rnd, n, 0)

    def r_GELMNT1(self, rnd):
        self.nelno += 1 + rnd.randrange(3)
        elno = self.nelno
        eltyp = rnd.choice(sorted(R.NNODES))
        self.elements[elno] = eltyp
        return ([rint(rnd), float(elno), float(eltyp), rint(rnd)] +
                ints(rnd, R.NNODES[eltyp], 0))

    def r_GELMNT2(self, rnd):
        n = rnd.choice([0, 1, 3, 4, 9, 20])
        return (ints(rnd, 4, 0) + floats(rnd, 12) + [float(n)] +
                ints(rnd, n, 0))

    def r_GELREF1(self, rnd):
        elno = rnd.choice(sorted(self.elements))
        n = R.NNODES[self.elements[elno]]
        r = [float(elno)] + ints(rnd, 7, 0)
        tail = []
        for _ in range(4):
            if rnd.randrange(3) == 0:
                r.append(-1.)
                tail += ints(rnd, n, 0)
            else:
                r.append(rint(rnd, 0))
        return r + tail

    def r_GSETMEMB(self, rnd):
        n = rnd.choice([0, 1, 2, 5, 30, 31, 32, 33, 70])
        return ([0., rint(rnd), rint(rnd), float(rnd.choice([0, 1, 2])),
                 rint(rnd)] + ints(rnd, n, 0))

    def r_SCONCEPT(self, rnd):
        if rnd.randrange(2):
            return [0., rint(rnd), 2., rint(rnd), rint(rnd)]
        a, b = rnd.randrange(0, 6), rnd.randrange(0, 6)
        return ([0., rint(rnd), 7., rint(rnd), rint(rnd), float(a), float(b)] +
                ints(rnd, a + b, 0))

    def r_SCONMESH(self, rnd):
        n = rnd.choice([0, 1, 3, 40])
        return [0., rint(rnd), 1., rint(rnd), float(n)] + ints(rnd, n, 0)

    def r_BNBCD(self, rnd):
        n = rnd.choice([0, 1, 2, 3, 6, 6, 7])
        return [rint(rnd), float(n)] + [float(rnd.randrange(5))
                                        for _ in range(n)]

    def r_BLDEP(self, rnd):
        n = rnd.choice([0, 1, 2, 6, 12])
        r = ints(rnd, 3, 0) + [float(n)]
        for _ in range(n):
            r += [float(rnd.randrange(1, 7)), float(rnd.randrange(1, 7)),
                  rfloat(rnd), 0.]
        return r

    def r_BEUSLO(self, rnd):
        n = rnd.choice([1, 2, 3, 4, 8])
        c = rnd.randrange(2)
        r = [rint(rnd), rint(rnd), float(c), rint(rnd), rint(rnd), float(n),
             rint(rnd), rint(rnd)]
        return r + floats(rnd, n * (1 + c))

    def r_BRIGAC(self, rnd):
        c = rnd.randrange(2)
        return [rint(rnd), 0., float(c), 0.] + floats(rnd, 10 + 6 * c)

    def compdef(self, rec, rnd):
        used = [k[1] for k in self.lenrec if k[0] == rec]
        ir = max(used + [0]) + 1 + rnd.randrange(3)
        n = rnd.choice([1, 2, 3, 6, 10, 40])
        self.lenrec[(rec, ir)] = n
        return [0., float(ir), float(n)] + ints(rnd, n, 0)

    def r_RDFORCES(self, rnd):
        return self.compdef('RVFORCES', rnd)

    def r_RDSTRAIN(self, rnd):
        return self.compdef('RVSTRAIN', rnd)

    def r_RDSTRESS(self, rnd):
        return self.compdef('RVSTRESS', rnd)

    def r_RDNODRES(self, rnd):
        return self.compdef('RVNODRES', rnd)

    def r_RDELNFOR(self, rnd):
        return self.compdef('RVELNFOR', rnd)

    def r_RDPOINTS(self, rnd):
        icoref = rnd.choice([15, 23, 24, 25, 26, 28, 3])
        if icoref not in self.dims:
            d = [rnd.randrange(1, 4), rnd.randrange(1, 5),
                 rnd.randrange(0, 5)]
            if rnd.randrange(6) == 0:   # two digits of ijkdim
                d = rnd.choice([[11, 1, 2], [1, 12, 2], [2, 10, 1],
                                [1, 1, 23], [1, 10, 10]])
            self.dims[icoref] = (rnd.randrange(0, 3),) + tuple(d)
        nlay, nok, noj, noi = self.dims[icoref]
        pts, nsp = [], 0
        for _ in range(nok * noj * noi):
            if rnd.randrange(4):
                nsp += 1
                pts += [float(nsp)] + floats(rnd, 3)
            else:
                pts.append(rnd.choice([0., -1.]))
        nx = rnd.choice([0, 0, 1, 2])
        key = (rnd.randrange(3), len(self.nsp) + 1)
        self.nsp[key] = nsp
        return ([0., float(key[0]), float(key[1]), float(icoref), rint(rnd),
                 float(nsp), nok * 10000. + noj * 100. + noi, float(nx),
                 float(nlay)] + pts + floats(rnd, 9 * nx))

    def r_RDIELCOR(self, rnd):
        icoref = rnd.choice([15, 24] + sorted(self.dims))
        d = self.dims.get(icoref)
        if d is None:
            d = {15: (0, 1, 1, 3), 24: (0, 2, 3, 3)}[icoref]
            self.dims[icoref] = d
        nlay, nok, noj, noi = d
        return ([0., float(icoref), rint(rnd)] +
                floats(rnd, nok + noj + noi + 2 * nlay))

    def r_RDRESREF(self, rnd):
        ires = max(list(self.icompl) + [0]) + 1 + rnd.randrange(3)
        c = rnd.randrange(2)
        self.icompl[ires] = c
        n = rnd.choice([0, 1, 1, 2, 5])
        return ([0., float(ires), rint(rnd, 0, False), rint(rnd), rint(rnd),
                 float(c), float(n)] + floats(rnd, 3 * n))

    def cmb(self, rnd):
        n = rnd.choice([0, 1, 2, 12])
        return [0., rint(rnd), float(rnd.randrange(2)), float(n)] + \
            floats(rnd, 3 * n)
    r_RBLODCMB = r_RDRESCMB = cmb

    def nodres(self, rnd):
        n = rnd.choice([1, 3, 6, 6, 12, 12, 60])
        return [0.] + ints(rnd, 4, 0) + floats(rnd, n)
    r_RVNODACC = r_RVNODDIS = r_RVNODVEL = nodres

    def elmres(self, rec, rnd):
        key = rnd.choice(sorted(self.nsp))
        ir = rnd.choice(sorted(k[1] for k in self.lenrec if k[0] == rec))
        ires = rnd.choice(sorted(self.icompl))
        n = self.nsp[key] * self.lenrec[(rec, ir)] * (1 + self.icompl[ires])
        return [0., float(ires), float(key[1]), float(key[0]), float(ir)] + \
            floats(rnd, n)

    def r_RVFORCES(self, rnd):
        return self.elmres('RVFORCES', rnd)

    def r_RVSTRAIN(self, rnd):
        return self.elmres('RVSTRAIN', rnd)

    def r_RVSTRESS(self, rnd):
        return self.elmres('RVSTRESS', rnd)

    def r_WBODCON(self, rnd):
        n = rnd.choice([0, 1, 2, 11])
        return [0., rint(rnd), rint(rnd), float(n)] + floats(rnd, 3 * n)

    def r_WDRESREF(self, rnd):
        n = rnd.choice([1, 1, 2, 5])
        types = rnd.choice([[1, 2], [1, 2], [2, 1], [1], [3], [1, 2, 3]])
        r = [0., rint(rnd), float(n), float(len(types))]
        for t in types:
            r += [float(t)] + floats(rnd, 2 * n)
        return r

    def r_WGLOBDEF(self, rnd):
        d = rnd.randrange(2)
        return [0., rfloat(rnd), rfloat(rnd), float(d)] + floats(rnd, d)

    def common1(self, rnd):
        c = rnd.randrange(2)
        return [0., rint(rnd), rint(rnd), float(c)] + floats(rnd, 6 + 6 * c)
    r_W1EXFORC = r_W1MOTION = r_W2EXFDIF = r_W2EXFSUM = common1

    def r_W1SFORCE(self, rnd):
        c = rnd.randrange(2)
        return [0.] + ints(rnd, 3, 0) + [float(c)] + floats(rnd, 6 + 6 * c)

    def r_WFLUIDKN(self, rnd):
        c = rnd.randrange(2)
        return [0.] + ints(rnd, 2, 0) + [float(c)] + floats(rnd, 4 + 4 * c)

    def r_WSURFACE(self, rnd):
        n, c = rnd.choice([0, 1, 2, 9]), rnd.randrange(2)
        fl = [rnd.randrange(2) for _ in range(3)]
        r = [0.] + ints(rnd, 2, 0) + [float(n), float(c)] + \
            [float(x) for x in fl]
        for _ in range(n):
            r += [rint(rnd, 1)] + floats(rnd, sum(fl) * (1 + c))
        return r

    def r_W1PANPRE(self, rnd):
        c = rnd.randrange(2)
        return ([0.] + ints(rnd, 4, 0) + [float(c)] + floats(rnd, 1 + c) +
                ints(rnd, 2, 0))


def disabled(rec, seed):
    """A heading record with negative first value."""
    rnd = random.Random('neg/%s/%s' % (rec, seed))
    row = [-4.] + ints(rnd, 3, 0) if rnd.randrange(2) else \
        [-5.] + ints(rnd, 4, 0)
    if R.ptype(rec) in ('td', 'text'):
        return {'rec': rec, 'rows': [{'h': [-4.] + row[1:4], 's': []}]}
    return {'rec': rec, 'rows': [row]}


# records by the kind of file they belong to
INPUT_RECS = ['DATE', 'TEXT', 'TDMATER', 'TDSECT', 'TDSETNAM', 'TDSUPNAM',
              'TSLAYER', 'TDSCONC', 'TDLOAD', 'GNODE', 'GCOORD', 'GELMNT1',
              'GELMNT2', 'GELREF1', 'GECCEN', 'GUNIVEC', 'GELTH', 'GBEAMG'] + \
    list(R.SECTION_TYPES) + ['GSETMEMB', 'MISOSEL', 'SCONCEPT', 'SCONMESH',
                             'BNBCD', 'BLDEP', 'BEUSLO', 'BGRAV', 'BRIGAC',
                             'HSUPTRAN', 'HIERARCH']
RESULT_RECS = ['RSUPTRAN', 'RDFORCES', 'RDNODRES', 'RDSTRAIN', 'RDSTRESS',
               'RDELNFOR', 'RDPOINTS', 'RDIELCOR', 'RDRESREF', 'RBLODCMB',
               'RDRESCMB', 'RVNODACC', 'RVNODDIS', 'RVNODVEL', 'RVFORCES',
               'RVSTRAIN', 'RVSTRESS', 'TDRESREF']
HYDRO_RECS = ['WBODCON', 'WDRESREF', 'WGLOBDEF', 'WBODY', 'W1MATRIX',
              'W1EXFORC', 'W1MOTION', 'W2EXFDIF', 'W2EXFSUM', 'W1SFORCE',
              'W2HDRIFT', 'W2MDRIFT', 'WFKPOINT', 'WFLUIDKN', 'WSECTION',
              'WSURFACE', 'WINPUT', 'W1PANPRE', 'TDBODNAM', 'TDRSNAM']
ALL_RECS = INPUT_RECS + RESULT_RECS + HYDRO_RECS
assert set(ALL_RECS) | {'IDENT'} == R.STORED, \
    set(ALL_RECS) ^ R.STORED
UNSUPPORTED_RECS = sorted(R.UNSUPPORTED_PTYPE)

seeds = st.integers(0, (1 << 30) - 1)


def interleave(blocks, rnd):
    """Split runs of one type in several places."""
    return blocks


def assemble(items, seltyp=1, hierarch=True):
    """items: list of (rec, n, seed) -> blocks, IDENT first."""
    mk = Maker(seltyp)
    out = mk.blocks('IDENT', 1, 0)
    seen_h = False
    for rec, n, seed in items:
        if rec == 'IDENT':
            continue
        if rec == 'HIERARCH':
            if seen_h or not hierarch:
                continue
            seen_h = True
        out.extend(mk.blocks(rec, n, seed))
    return out


def item(recs, max_rows=5):
    return st.tuples(st.sampled_from(recs),
                     st.integers(1, max_rows), seeds)


@st.composite
def record_lists(draw, recs=None, min_size=1, max_size=10, max_rows=5,
                 hierarch=True):
    """Blocks of one file. Mostly a few types with several runs each."""
    pool = recs
    if pool is None:
        pool = draw(st.sampled_from([ALL_RECS, INPUT_RECS, RESULT_RECS,
                                     HYDRO_RECS]))
    style = draw(st.integers(0, 2))
    if style == 0:
        pool = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=3,
                             unique=True))
    items = draw(st.lists(item(pool, max_rows), min_size=min_size,
                          max_size=max_size))
    seltyp = draw(st.sampled_from([1, 1, 2, 7, 12, 345]))
    return {'seltyp': seltyp, 'blocks': assemble(items, seltyp, hierarch)}


formatted_form = st.fixed_dictionaries({
    'kind': st.just('F'), 'pad': st.sampled_from(['short', 'zero']),
    'eol': st.sampled_from(['\n', '\n', '\r\n']),
    'end': st.sampled_from([0., 0., 1.])})
unformatted_form = st.fixed_dictionaries({
    'kind': st.just('U'),
    'chunks': st.one_of(st.just([32]), st.just([4]), st.just([1]),
                        st.lists(st.integers(1, 32), min_size=1,
                                 max_size=5)),
    'end': st.sampled_from([2., 0.])})
any_form = st.one_of(formatted_form, unformatted_form)


# --------------------------------------------------------------------------
# large runs, given compactly
# --------------------------------------------------------------------------

def big_rows(rec, n, seed=0):
    """n rows of one type; values cycle so that every row is different."""
    mk = Maker()
    rnd = random.Random('big/%s/%s' % (rec, seed))
    before = mk.blocks('GELMNT1', 60, seed) if rec == 'GELREF1' else []
    base = [mk.row(rec, rnd) for _ in range(97)]
    out = []
    for i in range(n):
        r = base[i % 97]
        if isinstance(r, dict):
            r = {'h': [r['h'][0], float(i)] + r['h'][2:], 's': r['s']}
        else:
            r = list(r)
            if rec == 'GELMNT1':
                r[1] = float(i + 1)
            elif rec == 'RDRESREF':
                r[1] = float(i + 1)
            elif rec == 'GELREF1':
                r[1] = float(i + 1)
            elif rec != 'RDPOINTS':
                r[1 if R.ptype(rec) == 2 else 0] = float(i % 16000000)
            if R.ptype(rec) == 2:
                r[0] = float(len(r))
        out.append(r)
    return before + [{'rec': rec, 'rows': out}]


def expand(case_blocks):
    """Blocks of a case, with {"big": rec, "n": n} entries expanded."""
    out = []
    for b in case_blocks:
        if 'big' in b:
            out.extend(big_rows(b['big'], b['n'], b.get('seed', 0)))
        elif 'alt' in b:        # two types taking turns, n times each
            a = big_rows(b['alt'][0], b['n'])[-1]['rows']
            c = big_rows(b['alt'][1], b['n'])[-1]['rows']
            for x, y in zip(a, c):
                out.append({'rec': b['alt'][0], 'rows': [x]})
                out.append({'rec': b['alt'][1], 'rows': [y]})
        else:
            out.append(b)
    return out


def has_big(case_blocks):
    return any('big' in b or 'alt' in b for b in case_blocks)


# records which no answer depends on
STRUCT_NOISE = ['DATE', 'TEXT', 'TDMATER', 'TDSECT', 'TDSUPNAM', 'TSLAYER',
                'TDSCONC', 'GELMNT2', 'GECCEN', 'GUNIVEC'] + \
    sorted(R.SECTION_TYPES) + [
        'MISOSEL', 'SCONCEPT', 'SCONMESH', 'BNBCD', 'BLDEP', 'BEUSLO',
        'BGRAV', 'BRIGAC', 'RDNODRES', 'RDELNFOR', 'RDSTRAIN', 'RBLODCMB',
        'RDRESCMB', 'TDRESREF', 'WINPUT', 'TDBODNAM', 'TDRSNAM']
HYDRO_NOISE = ['DATE', 'TEXT', 'TDMATER', 'TDSETNAM', 'TDLOAD', 'GNODE',
               'GCOORD', 'GUNIVEC', 'GELTH', 'GBEAMG', 'MISOSEL', 'BNBCD',
               'TDRSNAM', 'WINPUT', 'WSURFACE', 'TDBODNAM', 'RDELNFOR',
               'TDRESREF', 'GSETMEMB', 'BGRAV', 'TSLAYER']


def noise(rnd, types):
    """{record name: rows} of some, a few, or all of the types."""
    k = rnd.randrange(8)
    if k < 3:
        return {}
    types = list(types) if k == 7 else rnd.sample(types, rnd.randrange(1, 5))
    mk = Maker()
    return {t: mk.blocks(t, rnd.choice([1, 1, 3]), rnd.randrange(99))[-1][
        'rows'] for t in types}
