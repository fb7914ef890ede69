"""Independent description of the interface-file records freesif supports.

Nothing here is imported from freesif.  A *row* of a numeric record is the
flat list of numbers the record has in the file (header values first, then
the continuation values in file order).  A row of a text record (TDxxxx, DATE,
TEXT) is {"h": four numbers, "s": list of strings}.

`decode(rec, row)` is the reference reading of a row: a dict of column values
and a dict of the variable-length data belonging to that row.
"""
import numpy as np

F4 = np.float32


def f32(x):
    return float(F4(x))


# --------------------------------------------------------------------------
# fixed-layout records: (physical type, [(column, kind, count)], n_optional)
# physical type 1: continuation records of four values with eight blanks
# physical type 2: first value is nfield, continuation records without blanks
# kind: i int, f float, c complex
# --------------------------------------------------------------------------

def _cols(s):
    out = []
    for tok in s.split():
        name, _, kind = tok.partition(':')
        out.append((name, kind or 'f'))
    return out


FIXED = {
    'IDENT': (1, _cols('slevel:i seltyp:i selmod:i'), 0),
    'GNODE': (1, _cols('nodex:i nodeno:i ndof:i odof:i'), 0),
    'GCOORD': (1, _cols('nodeno:i xcoord ycoord zcoord'), 0),
    'GECCEN': (1, _cols('eccno:i ex ey ez'), 0),
    'GUNIVEC': (1, _cols('transno:i unix uniy uniz'), 0),
    'GELTH': (1, _cols('geono:i th nint:i'), 1),
    'GBEAMG': (1, _cols('geono:i void area ix iy iz iyz wxmin wymin wzmin '
                        'shary sharz shceny shcenz sy sz'), 0),
    'GBARM': (1, _cols('geono:i hz bt bb sfy sfz nloby:i nlobz:i'), 2),
    'GBOX': (1, _cols('geono:i hz ty t_b tt by sfy sfz nloby:i nlobz:i'), 2),
    'GCHAN': (1, _cols('geono:i hz ty by tz sfy sfz empty:i k:i nloby:i '
                       'nlobz:i'), 2),
    'GCHANR': (1, _cols('geono:i hz ty by tz sfy sfz empty:i k:i r nloby:i '
                        'nlobz:i'), 2),
    'GDOBO': (1, _cols('geono:i hz ty by tt t_b sfy sfz nloby:i nlobz:i'), 2),
    'GIORH': (1, _cols('geono:i hz ty bt tt bb t_b sfy sfz nlobyt:i nlobyb:i '
                       'nlobz:i'), 3),
    'GIORHR': (1, _cols('geono:i hz ty bt tt bb t_b sfy sfz rt rb nlobyt:i '
                        'nlobyb:i nlobz:i'), 3),
    'GLSEC': (1, _cols('geono:i hz ty by tz sfy sfz k nloby:i nlobz:i'), 2),
    'GLSECR': (1, _cols('geono:i hz ty by tz sfy sfz k r nloby:i nlobz:i'), 2),
    'GPIPE': (1, _cols('geono:i di dy t sfy sfz ncir:i nrad:i'), 2),
    'GUSYI': (1, _cols('geono:i hz ty bt b1 tt bb b2 t_b sfy sfz nlobyt:i '
                       'nlobyb:i nlobz:i'), 3),
    'MISOSEL': (1, _cols('matno:i young poiss rho damp alpha'), 0),
    'BGRAV': (1, _cols('llc:i empty1 empty2 opt:i gx gy gz'), 0),
    'WFKPOINT': (2, _cols('nfield:i ifkpnt:i fkpnt:f3'), 0),
    'WSECTION': (2, _cols('nfield:i ibody:i isect:i isecty:i secusr:i p1:f3 '
                          'p2:f3 p3:f3'), 0),
    'WINPUT': (2, _cols('nfield:i ibcond:i t:f4x4'), 0),
    'WBODY': (2, _cols('nfield:i ibcond:i clenb bmass wsarea wparea vol xcg '
                       'ycg zcg xcb ycb zcb xrb yrb zrb t:f4x4'), 0),
    'W1MATRIX': (2, _cols('nfield:i imatrx:i ibconi:i ibconj:i iwres:i '
                          'imtyp:i hmat:f6x6'), 0),
    'W2HDRIFT': (2, _cols('nfield:i ibcond:i iwres:i shfor:f3'), 0),
    'W2MDRIFT': (2, _cols('nfield:i ibcond:i iwres:i smfor:f6'), 0),
    'HSUPTRAN': (2, _cols('nfield:i itref:i t:f4x4'), 0),
    'RSUPTRAN': (2, _cols('nfield:i itref:i t:f4x4'), 0),
}

SECTION_TYPES = ('GBARM', 'GBOX', 'GCHAN', 'GCHANR', 'GDOBO', 'GIORH',
                 'GIORHR', 'GLSEC', 'GLSECR', 'GPIPE', 'GUSYI')

TD = ('TDMATER', 'TDSECT', 'TDSETNAM', 'TDSUPNAM', 'TSLAYER', 'TDSCONC',
      'TDLOAD', 'TDRESREF', 'TDBODNAM', 'TDRSNAM')
# (TDSCATTER, which freesif also lists, does not fit the eight character
# identifier field, so no file can contain it)
TEXTS = ('DATE', 'TEXT')

# records with variable parts (physical type)
VARIABLE = {
    'HIERARCH': 2, 'GELMNT1': 1, 'GELMNT2': 1, 'GELREF1': 1, 'GSETMEMB': 2,
    'SCONCEPT': 2, 'SCONMESH': 2, 'BNBCD': 1, 'BLDEP': 1, 'BEUSLO': 1,
    'BRIGAC': 1, 'RDFORCES': 2, 'RDNODRES': 2, 'RDSTRAIN': 2, 'RDSTRESS': 2,
    'RDELNFOR': 2, 'RDPOINTS': 2, 'RDIELCOR': 2, 'RDRESREF': 2,
    'RBLODCMB': 2, 'RDRESCMB': 2, 'RVNODACC': 2, 'RVNODDIS': 2,
    'RVNODVEL': 2, 'RVFORCES': 2, 'RVSTRAIN': 2, 'RVSTRESS': 2,
    'WBODCON': 2, 'WDRESREF': 2, 'WGLOBDEF': 2, 'W1EXFORC': 2,
    'W1MOTION': 2, 'W2EXFDIF': 2, 'W2EXFSUM': 2, 'W1SFORCE': 2,
    'WFLUIDKN': 2, 'WSURFACE': 2, 'W1PANPRE': 2,
}

STORED = set(FIXED) | set(VARIABLE) | set(TD) | set(TEXTS)

# legal Sesam record types freesif has no reader for (physical type)
UNSUPPORTED = {
    1: ('ACFD', 'ADDATA', 'BEISTE', 'BELFIX', 'BELLAX', 'BELLO2', 'BELOAD1',
        'BEDRAG1', 'BEMASS1', 'BEUVLO', 'BEWAKIN', 'BEWALO1', 'BNACCLO',
        'BNDISPL', 'BNDOF', 'BNINCO', 'BNLOAD', 'BNLOAX', 'BNMASS', 'BNTEMP',
        'BNTRCOS', 'BNWALO', 'BRIGDI', 'BRIGVE', 'BQDP', 'GCROINT', 'GECC',
        'GELINT', 'GELSTRP', 'GLMASS', 'GSEPSPEC', 'GSLAYER', 'GSLPLATE',
        'GSLSTIFF', 'GTONP', 'MAXDMP', 'MAXSPR', 'MCNT', 'MGDAMP', 'MGLDAMP',
        'MGLMASS', 'MGMASS', 'MGSPRNG', 'MISOAL', 'MISOEML', 'MISOHL',
        'MISOHNL', 'MISOPL', 'MISTEL', 'MORSMEL', 'MORSSEL', 'MORSSOL',
        'MSHGLSP', 'MTEMP', 'MTENONL', 'MTRMEL', 'MTRSEL', 'MTRSOL', 'BSELL',
        'TNODE', 'TELEMENT'),
    2: ('RDMLFACT', 'RDNODBOC', 'RDNODREA', 'RDSERIES', 'RDTRANS',
        'RSUMLOAD', 'RSUMMASS', 'RSUMREAC', 'RVABSCIS', 'RVELNFOR',
        'RVNODREA', 'RVORDINA', 'HSUPSTAT', 'W2FLUDIF', 'W2FLUSUM',
        'WGRESPON', 'WSCATTER', 'SCONPLIS', 'SPROSELE', 'SPROMATR',
        'SPROSEGM', 'SPROHYDR', 'SPROCODE', 'SPROORIE', 'SPROECCE',
        'AMATRIX', 'AMDACCL', 'AMDDAMP', 'AMDDISP', 'AMDFREQ', 'AMDLOAD',
        'AMDMASS', 'AMDSTIFF', 'AMDVELO'),
    'td': ('TDSERIES',),
}
UNSUPPORTED_PTYPE = {n: t for t, ns in UNSUPPORTED.items() for n in ns}

NNODES = {15: 2, 16: 2, 18: 1, 23: 3, 24: 4, 25: 3, 26: 6, 28: 8}
BEAMS = (15, 23)
SHELLS = (24, 25, 26, 28)


def ptype(rec):
    if rec in TD:
        return 'td'
    if rec in TEXTS:
        return 'text'
    if rec in FIXED:
        return FIXED[rec][0]
    if rec in VARIABLE:
        return VARIABLE[rec]
    if rec in UNSUPPORTED_PTYPE:
        return UNSUPPORTED_PTYPE[rec]
    if rec in ('IEND', 'IRECSIZE'):
        return 1
    raise KeyError(rec)


def _size(kind):
    if len(kind) == 1:
        return ()
    dims = kind[1:].split('x')
    return tuple(int(d) for d in dims)


def fixed_length(rec):
    n = 0
    for _, kind in FIXED[rec][1]:
        s = _size(kind)
        n += int(np.prod(s)) if s else 1
    return n


def _cplx(vals):
    return [[vals[i], vals[i + 1]] for i in range(0, len(vals), 2)]


def _C(pairs):
    a = np.array(pairs, 'f4').reshape(-1, 2)
    out = np.empty(len(a), 'c8')
    out.real = a[:, 0]
    out.imag = a[:, 1]
    return out


def decode(rec, row):
    """-> (columns, arrays) the record must be stored as."""
    if rec in TD:
        h, s = row['h'], row['s']
        nnam = int(h[2]) // 100
        name = ''.join(x.strip() for x in s[:nnam])
        return (dict(nfield=h[0], idno=h[1], codnam=h[2], codtxt=h[3],
                     name=name.encode()),
                {'text': [x.strip().encode() for x in s[nnam:]]})
    if rec in TEXTS:
        h, s = row['h'], row['s']
        return (dict(type=h[0], subtype=h[1], nrecs=h[2], nbyte=h[3]),
                {'recs': [x.encode()[:72] for x in s]})
    r = list(row)
    if rec in FIXED:
        n = fixed_length(rec)
        r = (r + [0.] * n)[:n]
        cols, i = {}, 0
        for name, kind in FIXED[rec][1]:
            shape = _size(kind)
            if shape:
                k = int(np.prod(shape))
                cols[name] = np.array(r[i:i + k], 'f4').reshape(shape)
                i += k
            else:
                cols[name] = r[i]
                i += 1
        return cols, {}
    return globals()['_d_' + rec](r)


def _names(names, r):
    return dict(zip(names.split(), r))


def _d_HIERARCH(r):
    return (_names('nfield ihref iselty indsel islevl itref ihpref nsub', r),
            {'ihsref': r[8:8 + int(r[7])]})


def _d_GELMNT1(r):
    n = NNODES[int(r[2])]
    return _names('elnox elno eltyp eltyad', r), {'nodin': r[4:4 + n]}


def _d_GELMNT2(r):
    c = _names('subno slevel stype addno', r)
    c['t'] = np.array(r[4:16], 'f4')
    c['nnod'] = r[16]
    return c, {'nod': r[17:17 + int(r[16])]}


def _d_GELREF1(r):
    c = _names('elno matno addno intno mintno strano streno strepono geono '
               'fixno eccno transno', r)
    rest = r[12:]
    flags = [k for k in ('geono', 'fixno', 'eccno', 'transno') if c[k] == -1]
    arrs = {k: [] for k in ('geono', 'fixno', 'eccno', 'transno')}
    if flags:
        n = len(rest) // len(flags)
        for i, k in enumerate(flags):
            arrs[k] = rest[i * n:(i + 1) * n]
    return c, arrs


def _d_GSETMEMB(r):
    return (_names('nfield isref index istype isorig', r), {'irmemb': r[5:]})


def _d_SCONCEPT(r):
    c = _names('nfield ircon scontype sconrole irparent', r)
    if int(r[2]) == 7:
        np_, nj = int(r[5]), int(r[6])
        c.update(npart=r[5], njoin=r[6])
        return c, {'irpart': r[7:7 + np_], 'irjoin': r[7 + np_:7 + np_ + nj]}
    c.update(npart=0., njoin=0.)
    return c, {'irpart': [], 'irjoin': []}


def _d_SCONMESH(r):
    return _names('nfield ircon numrep typrep nferep', r), {'irferep': r[5:]}


def _d_BNBCD(r):
    return _names('nodeno ndof', r), {'fix': r[2:2 + int(r[1])]}


def _d_BLDEP(r):
    n = int(r[3])
    deps = [r[4 + 4 * i:7 + 4 * i] for i in range(n)]
    return _names('nodeno cnod ndof ndep', r), {'deps': deps}


def _d_BEUSLO(r):
    c = _names('llc lotyp complx layer elno ndof intno side', r)
    n = int(r[5])
    return c, {'rload': r[8:8 + n],
               'iload': r[8 + n:8 + 2 * n] if r[2] else []}


def _d_BRIGAC(r):
    names = ('llc empty1 complx empty2 xcoord ycoord zcoord empty3 raccl1 '
             'raccl2 raccl3 raccl4 raccl5 raccl6 iaccl1 iaccl2 iaccl3 iaccl4 '
             'iaccl5 iaccl6')
    return _names(names, (r + [0.] * 6)[:20]), {}


def _compdef(r):
    return _names('nfield ir lenrec', r), {'icomp': r[3:3 + int(r[2])]}


_d_RDFORCES = _d_RDNODRES = _d_RDSTRAIN = _d_RDSTRESS = _d_RDELNFOR = _compdef


def _d_RDPOINTS(r):
    c = _names('nfield ispalt iielno icoref ieltyp nsp ijkdim nsptra nlay', r)
    i = 9
    pts = []
    k = int(r[6])
    for _ in range((k // 10000) * (k % 10000 // 100) * (k % 100)):
        if r[i] > 0:
            pts.append(r[i:i + 4])
            i += 4
        else:
            i += 1
    xf = []
    for _ in range(int(r[7])):
        xf.append([r[i:i + 3], r[i + 3:i + 6], r[i + 6:i + 9]])
        i += 9
    return c, {'respoint': pts, 'xform': xf}


def _d_RDIELCOR(r, dims=None):
    # dims (nlay, nok, noj, noi) travel with the row as a trailing tuple
    raise NotImplementedError


def decode_rdielcor(r, dims):
    nlay, nok, noj, noi = dims
    c = _names('nfield icoref igrid', r)
    i = 3
    g = r[i:i + nok]; i += nok
    b = r[i:i + noj]; i += noj
    a = r[i:i + noi]; i += noi
    lay = [r[i + 2 * k:i + 2 * k + 2] for k in range(nlay)]
    return c, {'gamma': g, 'beta': b, 'alpha': a, 'layers': lay}


def _d_RDRESREF(r):
    c = _names('nfield ires irno ieres icalty icompl numtyp', r)
    n = int(r[6])
    return c, {'reftyps': [r[7 + 3 * i:10 + 3 * i] for i in range(n)]}


def _cmb(r, name):
    c = _names('nfield ires icompl nblc', r)
    return c, {name: [r[4 + 3 * i:7 + 3 * i] for i in range(int(r[3]))]}


def _d_RBLODCMB(r):
    return _cmb(r, 'blcs')


def _d_RDRESCMB(r):
    return _cmb(r, 'rcs')


def _nod(name):
    def f(r):
        return (_names('nfield ires iinod irdva itrans', r), {name: r[5:]})
    return f


_d_RVNODACC, _d_RVNODDIS, _d_RVNODVEL = _nod('acc'), _nod('dis'), _nod('vel')


def _elm(name):
    def f(r):
        return _names('nfield ires iielno ispalt ir', r), {name: r[5:]}
    return f


_d_RVFORCES, _d_RVSTRAIN, _d_RVSTRESS = (_elm('force'), _elm('strain'),
                                         _elm('stress'))


def _d_WBODCON(r):
    n = int(r[3])
    return (_names('nfield ibcond ibody numcon', r),
            {'refcond': [r[4 + 3 * i:7 + 3 * i] for i in range(n)]})


def _d_WDRESREF(r):
    c = _names('nfield iwres nresrf numtyp', r)
    arrs = {'dir': [], 'freq': [], 'time': []}
    i = 4
    for _ in range(int(r[3])):
        key = {1: 'dir', 2: 'freq', 3: 'time'}[int(r[i])]
        i += 1
        for _ in range(int(r[2])):
            arrs[key].append(r[i:i + 2])
            i += 2
    return c, arrs


def _d_WGLOBDEF(r):
    c = _names('nfield g ro idepth', r)
    if int(r[3]):
        c['depth'] = r[4]
    return c, {}


def _six(r, i, cplx):
    if cplx:
        return _C(_cplx(r[i:i + 12]))
    return np.array(r[i:i + 6], 'f4').astype('c8')


def _common1(r):
    c = _names('nfield ibcond iwres icompl', r)
    c['data'] = _six(r, 4, int(r[3]))
    return c, {}


_d_W1EXFORC = _d_W1MOTION = _d_W2EXFDIF = _d_W2EXFSUM = _common1


def _d_W1SFORCE(r):
    c = _names('nfield ibcond isect iwres icompl', r)
    c['data'] = _six(r, 5, int(r[4]))
    return c, {}


def _d_WFLUIDKN(r):
    c = _names('nfield iwres ifkpnt icompl', r)
    if int(r[3]):
        d = _C(_cplx(r[4:12]))
    else:
        d = np.array(r[4:8], 'f4').astype('c8')
    c['p'], c['v'] = d[0], d[1:]
    return c, {}


def _d_WSURFACE(r):
    c = _names('nfield iwres indxwr nnode icompl icompx icompy icompz', r)
    flags = [int(x) for x in r[5:8]]
    cplx = int(r[4])
    pts, i = [], 8
    while i < int(r[0]):
        p = [complex(r[i], 0)]
        i += 1
        for fl in flags:
            if fl:
                p.append(complex(r[i], r[i + 1] if cplx else 0))
                i += 2 if cplx else 1
            else:
                p.append(0j)
        pts.append(p)
    return c, {'zelev': pts}


def _d_W1PANPRE(r):
    c = _names('nfield ibcond iwres ippan isymm1 icompl', r)
    if int(r[5]):
        c['p'] = _C([[r[6], r[7]]])[0]
        c['ipan'], c['isymm2'] = r[8], r[9]
    else:
        c['p'] = np.complex64(r[6])
        c['ipan'], c['isymm2'] = r[7], r[8]
    return c, {}


ARRAYS = {
    'HIERARCH': {'ihsref': ()}, 'GELMNT1': {'nodin': ()},
    'GELMNT2': {'nod': ()},
    'GELREF1': {'geono': (), 'fixno': (), 'eccno': (), 'transno': ()},
    'GSETMEMB': {'irmemb': ()}, 'SCONCEPT': {'irpart': (), 'irjoin': ()},
    'SCONMESH': {'irferep': ()}, 'BNBCD': {'fix': ()}, 'BLDEP': {'deps': (3,)},
    'BEUSLO': {'rload': (), 'iload': ()},
    'RDFORCES': {'icomp': ()}, 'RDNODRES': {'icomp': ()},
    'RDSTRAIN': {'icomp': ()}, 'RDSTRESS': {'icomp': ()},
    'RDELNFOR': {'icomp': ()},
    'RDPOINTS': {'respoint': (4,), 'xform': (3, 3)},
    'RDIELCOR': {'gamma': (), 'beta': (), 'alpha': (), 'layers': (2,)},
    'RDRESREF': {'reftyps': (3,)}, 'RBLODCMB': {'blcs': (3,)},
    'RDRESCMB': {'rcs': (3,)}, 'RVNODACC': {'acc': ()},
    'RVNODDIS': {'dis': ()}, 'RVNODVEL': {'vel': ()},
    'RVFORCES': {'force': ()}, 'RVSTRAIN': {'strain': ()},
    'RVSTRESS': {'stress': ()}, 'WBODCON': {'refcond': (3,)},
    'WDRESREF': {'dir': (2,), 'freq': (2,), 'time': (2,)},
    'WSURFACE': {'zelev': (4,)},
}
for _n in TD:
    ARRAYS[_n] = {'text': ()}
for _n in TEXTS:
    ARRAYS[_n] = {'recs': ()}


# --------------------------------------------------------------------------
# physical writers
# --------------------------------------------------------------------------

BLANK8 = ' ' * 8


def fmt(x):
    s = '%16.8E' % x
    assert len(s) == 16, s
    return s


def formatted_lines(blocks, pad='short'):
    """pad: 'short' stops a line after the last value, 'zero' fills it up."""
    cache = {}

    def num(x):
        s = cache.get(x)
        if s is None:
            s = cache[x] = fmt(x)
        return s
    zero = fmt(0.)
    for b in blocks:
        rec = b['rec']
        head = '%-8s' % rec
        pt = ptype(rec)
        if pt in ('td', 'text'):
            for row in b['rows']:
                yield head + ''.join(num(x) for x in row['h'])
                for s in row['s']:
                    if pt == 'td':
                        yield BLANK8 + s
                    else:
                        yield s
            continue
        for row in b['rows']:
            vals = [num(x) for x in row]
            if pad == 'zero' and len(vals) % 4:
                vals += [zero] * (4 - len(vals) % 4)
            yield head + ''.join(vals[:4])
            if rec == 'BLDEP' and pad == 'short':
                # the fourth place of these lines is blank
                for i in range(4, len(vals), 4):
                    yield BLANK8 + ''.join(vals[i:i + 3])
                continue
            for i in range(4, len(vals), 4):
                yield BLANK8 + ''.join(vals[i:i + 4])


def formatted_bytes(blocks, pad='short', eol='\n', endcode=0.,
                    tail=''):
    lines = list(formatted_lines(blocks, pad))
    lines.append('IEND    ' + ''.join(fmt(x) for x in (endcode, 0., 0., 0.)))
    return (eol.join(lines) + eol + tail).encode('latin-1')


def _phys(payload):
    n = len(payload)
    assert n <= 128
    m = b'\x81' if n == 128 else bytes([n])
    return m + payload + m


def unformatted_records(blocks, chunks=(32,)):
    """chunks: sizes (1..32) used cyclically for the pieces of type 2 data."""
    ci = 0
    for b in blocks:
        rec = b['rec']
        head = ('%-8s' % rec).encode()
        pt = ptype(rec)
        for row in b['rows']:
            if pt in ('td', 'text'):
                yield _phys(head + np.array(row['h'], '<f4').tobytes())
                for s in row['s']:
                    yield _phys(s.encode())
                continue
            n = len(row)
            if pt == 1 or n < 4:
                vals = list(row) + [0.] * (-n % 4)
                raw = np.array(vals, '<f4').tobytes()
                yield _phys(head + raw[:16])
                for i in range(16, len(raw), 16):
                    yield _phys(b' ' * 8 + raw[i:i + 16])
            else:
                raw = np.array(row, '<f4').tobytes()
                yield _phys(head + raw[:16])
                i = 16
                while i < len(raw):
                    k = 4 * chunks[ci % len(chunks)]
                    ci += 1
                    yield _phys(raw[i:i + k])
                    i += k


def unformatted_bytes(blocks, chunks=(32,), endcode=2.):
    out = [b'K']
    out.extend(unformatted_records(blocks, chunks))
    out.append(_phys(b'IEND    ' +
                     np.array([endcode, 0, 0, 0], '<f4').tobytes()))
    out.append(b'\x82')
    return b''.join(out)


def file_bytes(blocks, form):
    """form: {"kind": "F", pad, eol} or {"kind": "U", chunks}"""
    if form['kind'] == 'F':
        return formatted_bytes(blocks, form.get('pad', 'short'),
                               form.get('eol', '\n'), form.get('end', 0.))
    return unformatted_bytes(blocks, form.get('chunks', [32]),
                             form.get('end', 2.))


# --------------------------------------------------------------------------
# expected contents and comparison with an HDF5 group
# --------------------------------------------------------------------------

def expected_tables(blocks):
    """{rec: [(cols, arrs), ...]} in file order, reference reading."""
    out = {}
    dims = {}
    for b in blocks:
        rec = b['rec']
        if rec not in STORED:
            continue
        rows = out.setdefault(rec, [])
        for row in b['rows']:
            h = row['h'] if isinstance(row, dict) else row
            if h[0] < 0:
                continue
            if rec == 'RDPOINTS':
                k = int(row[6])
                dims[int(row[3])] = (int(row[8]), k // 10000,
                                     k % 10000 // 100, k % 100)
            if rec == 'RDIELCOR':
                ic = int(row[1])
                dm = dims.get(ic) or {15: (0, 1, 1, 3),
                                      24: (0, 2, 3, 3)}[ic]
                rows.append(decode_rdielcor(list(row), dm))
            else:
                rows.append(decode(rec, row))
    return {k: v for k, v in out.items() if v}


class Mismatch(Exception):
    pass


def _same_scalar_col(actual, expect, where):
    expect = list(expect)
    if expect and isinstance(expect[0], bytes):
        got = [bytes(x) for x in actual]
        exp = [e.rstrip(b'\0') for e in expect]
        if got != exp:
            i = next((k for k in range(min(len(got), len(exp)))
                      if got[k] != exp[k]), -1)
            raise Mismatch('%s: row %d is %r, file has %r' % (
                where, i, got[i], exp[i]))
        return
    exp = np.array(expect)
    if exp.dtype.kind == 'c':
        exp = exp.astype('c8')
        act = actual.astype('c8')
    elif actual.dtype.kind in 'iu':
        # integer column: the file has whole numbers there
        exp = exp.astype('f8')
        act = actual.astype('f8')
    else:
        exp = exp.astype('f4')
        act = actual.astype('f4')
    if act.shape != exp.shape:
        raise Mismatch('%s: shape %s, expected %s' % (where, act.shape,
                                                      exp.shape))
    bad = np.nonzero(~(act == exp).reshape(len(exp), -1).all(axis=1))[0] \
        if len(exp) else []
    if len(bad):
        i = int(bad[0])
        raise Mismatch('%s: row %d is %s, file has %s' % (where, i, act[i],
                                                          exp[i]))


def compare_group(group, blocks, only=None, extra_ok=()):
    """Raise Mismatch unless the HDF5 group holds exactly the given records."""
    exp = expected_tables(blocks)
    if only is not None:
        exp = {k: v for k, v in exp.items() if k in only}
    tabs = {n._v_name: n for n in group._f_iter_nodes('Table')}
    arrs = {n._v_name: n for n in group._f_iter_nodes('Array')}
    want_tabs = {k.lower() for k in exp}
    surplus = set(tabs) - want_tabs - set(extra_ok)
    for name in sorted(surplus):
        if len(tabs[name]):
            raise Mismatch('table %s is stored but the file has no such '
                           'record' % name)
    for rec in sorted(exp):
        rows = exp[rec]
        name = rec.lower()
        if name not in tabs:
            raise Mismatch('%s: no table' % rec)
        t = tabs[name][:]
        if len(t) != len(rows):
            raise Mismatch('%s: %d rows stored, file has %d' % (rec, len(t),
                                                                len(rows)))
        for col in rows[0][0]:
            if col not in t.dtype.names:
                raise Mismatch('%s: no column %s' % (rec, col))
            try:
                e = [r[0][col] for r in rows]
            except KeyError:        # not given for every row (depth)
                sel = [i for i, r in enumerate(rows) if col in r[0]]
                _same_scalar_col(t[col][sel], [rows[i][0][col] for i in sel],
                                 '%s.%s' % (rec, col))
                continue
            _same_scalar_col(t[col], e, '%s.%s' % (rec, col))
        for arr, shape in ARRAYS.get(rec, {}).items():
            full = '%s_%s' % (name, arr)
            if full not in arrs:
                raise Mismatch('%s: no array %s' % (rec, full))
            a = arrs[full][:]
            start, stop = t[arr + '_start'], t[arr + '_stop']
            if not (len(a) == 0 and not np.any(stop - start)):
                if a.shape[1:] != shape:
                    raise Mismatch('%s: array %s has item shape %s' % (
                        rec, arr, a.shape[1:]))
            _compare_ragged(a, start, stop, [r[1][arr] for r in rows], shape,
                            '%s.%s' % (rec, arr))


def _compare_ragged(a, start, stop, lists, shape, where):
    lens = np.array([len(x) for x in lists])
    n = stop.astype('i8') - start
    bad = np.nonzero(n != lens)[0]
    if len(bad):
        i = int(bad[0])
        raise Mismatch('%s: row %d has %d items, file has %d' % (
            where, i, n[i], lens[i]))
    total = int(lens.sum())
    if len(a) != total:
        raise Mismatch('%s: %d items stored, file has %d' % (where, len(a),
                                                             total))
    if not total:
        return
    idx = np.concatenate([np.arange(s, e) for s, e in zip(start, stop)])
    if idx.min() < 0 or idx.max() >= len(a):
        raise Mismatch('%s: range outside the stored data' % where)
    got = a[idx]
    flat = [y for x in lists for y in x]
    _same_scalar_col(got, flat, where)


def snapshot(h5):
    """Plain-Python copy of everything stored in a tables.File."""
    out = {}
    for g in h5.walk_groups('/'):
        node = {'tables': {}, 'arrays': {}, 'attrs': {}}
        for n in g._f_iter_nodes('Table'):
            node['tables'][n._v_name] = n[:]
        for n in g._f_iter_nodes('Array'):
            node['arrays'][n._v_name] = n[:]
        for k in g._v_attrs._v_attrnamesuser:
            node['attrs'][k] = g._v_attrs[k]
        out[g._v_pathname] = node
    return out


def _eq(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype.names or b.dtype.names:
        if a.dtype.names != b.dtype.names or a.shape != b.shape:
            return False
        return all(_eq(a[n], b[n]) for n in a.dtype.names)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in 'fc' or b.dtype.kind in 'fc':
        return bool(np.array_equal(a, b, equal_nan=True))
    return bool(np.array_equal(a, b))


def compare_snapshots(a, b, what='', ignore_attrs=()):
    if set(a) != set(b):
        raise Mismatch('%sgroups differ: %s / %s' % (
            what, sorted(set(a) - set(b)), sorted(set(b) - set(a))))
    for g in sorted(a):
        for kind in ('tables', 'arrays'):
            x, y = a[g][kind], b[g][kind]
            if set(x) != set(y):
                raise Mismatch('%s%s: %s differ: %s / %s' % (
                    what, g, kind, sorted(set(x) - set(y)),
                    sorted(set(y) - set(x))))
            for n in sorted(x):
                if not _eq(x[n], y[n]):
                    raise Mismatch('%s%s: %s differs: %s / %s' % (
                        what, g, n, str(x[n][:6]), str(y[n][:6])))
        x, y = a[g]['attrs'], b[g]['attrs']
        for k in sorted(set(x) | set(y)):
            if k in ignore_attrs:
                continue
            if k not in x or k not in y or str(x[k]) != str(y[k]):
                raise Mismatch('%s%s: attribute %s differs: %s / %s' % (
                    what, g, k, x.get(k), y.get(k)))
