"""Formatted files: every record, field and array is kept."""
from hypothesis import strategies as st

import gen
import records as R
import sif
from core import Facet

RULE = ('record sequences drawn over all supported record types (values from '
        'the whole float32 / 24-bit integer range, optional fields, variable '
        'lengths incl. empty, several runs per type, LF/CRLF, short and '
        'zero-padded lines; fixed cases around 100 000 and 200 000 rows), '
        'written as a formatted file, converted, and every stored row and '
        'array compared with an independent decoder. Non-trivial: at least '
        'three runs of records and a row longer than its header line.')
ASSUMPTIONS = ['32-bit precision: integer fields are whole numbers below 2^24',
               'the independent record descriptions in pbt/records.py']

NAMES = st.sampled_from(['T1.FEM', 'R1.SIF', 'G1.SIF', 'L3.FEM', 'ab_T12.FEM'])


def group_of(name, seltyp):
    prefix = name[:3] if name.startswith('ab_') else ''
    return '/%s%s%d' % (prefix, name[len(prefix)], seltyp)


def run(case, ctx):
    blocks = gen.expand(case['blocks'])
    sif.write(case['name'], blocks, case['form'])
    sif.convert(case['name'], 'out.h5')
    group = group_of(case['name'], case['seltyp'])
    sif.check_group('out.h5', group, blocks)
    lab = sif.labels(blocks, case['form'])
    if gen.has_big(case['blocks']):
        lab.add('more than 99 998 rows')
        lab.add('nt')
    if sif.nontrivial(blocks):
        lab.add('nt')
    return lab


@st.composite
def cases(draw, recs=None, **kw):
    c = draw(gen.record_lists(recs, **kw))
    c['form'] = draw(gen.formatted_form)
    c['name'] = draw(NAMES)
    return c


def one_type(tier):
    """Long runs and many runs of a single type."""
    return st.sampled_from(gen.ALL_RECS).flatmap(
        lambda r: cases([r], min_size=1, max_size=4, max_rows=12))


FORM = {'kind': 'F', 'pad': 'short', 'eol': '\n', 'end': 0.}


def big_case(rec, n, extra=(), name='T1.FEM'):
    mk = gen.Maker(1)
    blocks = mk.blocks('IDENT', 1, 0)
    blocks.append({'big': rec, 'n': n})
    for x in extra:
        if isinstance(x, str):
            blocks.extend(gen.Maker(1).blocks(x, 2, 5))
        else:
            blocks.append(x)
    return {'seltyp': 1, 'blocks': blocks, 'form': FORM, 'name': name}


def every_type(tier):
    """One small file per record type, with two runs of it."""
    out = []
    for rec in gen.ALL_RECS:
        for seed in (3,) if tier == 'quick' else (3, 4, 5, 6):
            items = [(rec, 3, seed)]
            if rec != 'HIERARCH':
                items += [('GCOORD', 1, 1), (rec, 2, seed + 100)]
            out.append({'seltyp': 1, 'blocks': gen.assemble(items),
                        'form': dict(FORM, pad='zero' if seed % 2 else
                                     'short'),
                        'name': 'T1.FEM'})
    return out


def big(tier):
    out = [
        big_case('GCOORD', 100000),
        big_case('GCOORD', 100001, ['GNODE', {'big': 'GCOORD', 'n': 3,
                                              'seed': 1}]),
        big_case('GNODE', 99999, ['GCOORD', {'big': 'GNODE', 'n': 2,
                                             'seed': 2}]),
        big_case('BNBCD', 100002, ['GNODE', {'big': 'BNBCD', 'n': 5,
                                             'seed': 2}]),
        big_case('GELMNT1', 100001),
        big_case('GELTH', 100000),
        big_case('SCONCEPT', 100001, ['GCOORD', {'big': 'SCONCEPT', 'n': 3,
                                                 'seed': 1}]),
        big_case('GELREF1', 100001, ['GNODE']),
        big_case('BEUSLO', 100000, ['GNODE', {'big': 'BEUSLO', 'n': 2,
                                              'seed': 1}]),
        big_case('RVNODDIS', 100001),
        big_case('GSETMEMB', 100000, ['TDSETNAM']),
    ]
    if tier != 'quick':
        out += [big_case(r, n) for r in
                ('GCOORD', 'GNODE', 'GECCEN', 'GBEAMG', 'GPIPE', 'BEUSLO',
                 'BLDEP', 'TDSETNAM', 'TEXT', 'WDRESREF', 'W1MOTION',
                 'W1PANPRE', 'WSURFACE', 'RDPOINTS', 'RDRESREF', 'RBLODCMB',
                 'HSUPTRAN', 'SCONCEPT', 'BRIGAC', 'GELMNT2')
                for n in (99999, 100000, 100001, 200001)]
    return out


FACETS = [
    Facet('every type', None, run, 0, 0, fixed=every_type),
    Facet('large runs', None, run, 0, 0, fixed=big, timeout=200),
    Facet('sequences', lambda tier: cases(), run, 220, 6000),
    Facet('single type', one_type, run, 100, 3000),
    Facet('long files', lambda tier: cases(max_size=30, min_size=10), run,
          25, 1500),
]
