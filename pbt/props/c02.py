"""Unformatted and formatted files with the same records convert alike."""
from hypothesis import strategies as st

import gen
import records as R
import sif
from core import Facet
from props import c01

RULE = ('record sequences as for C01, each written once as a formatted file '
        '(random padding and line ends) and once or twice as an unformatted '
        'file (type 1 records in pieces of four values, type 2 records in '
        'pieces of 1 to 32 values, random cyclic piece sizes); everything '
        'stored, attributes included, must be equal, and equal to the '
        'independent decoder. Non-trivial: at least three runs and rows '
        'longer than a header.')
ASSUMPTIONS = c01.ASSUMPTIONS + [
    'values whose four bytes are all blanks do not occur (they cannot be '
    'told from the mark of a continuation record)']


def run(case, ctx):
    blocks = gen.expand(case['blocks'])
    name = case['name']
    group = c01.group_of(name, case['seltyp'])
    snaps = []
    lab = set()
    for i, form in enumerate([case['form']] + case['unf']):
        sif.write(name, blocks, form)
        sif.convert(name, 'o%d.h5' % i)
        snaps.append(sif.snapshot('o%d.h5' % i))
        lab |= sif.labels(blocks, form)
    sif.check_group('o1.h5', group, blocks)
    for i, s in enumerate(snaps[1:]):
        R.compare_snapshots(snaps[0], s, 'formatted/unformatted %s: ' %
                            case['unf'][i]['chunks'])
    if gen.has_big(case['blocks']) or sif.nontrivial(blocks):
        lab.add('nt')
    return lab


@st.composite
def cases(draw, recs=None, **kw):
    c = draw(gen.record_lists(recs, **kw))
    c['form'] = draw(gen.formatted_form)
    c['unf'] = draw(st.lists(gen.unformatted_form, min_size=1, max_size=2))
    c['name'] = draw(c01.NAMES)
    return c


def one_type(tier):
    return st.sampled_from(gen.ALL_RECS).flatmap(
        lambda r: cases([r], min_size=1, max_size=4, max_rows=8))


def unf(*chunks):
    return {'kind': 'U', 'chunks': list(chunks), 'end': 2.}


def every_type(tier):
    out = []
    for c in c01.every_type(tier):
        c['unf'] = [unf(32), unf(3, 1, 7)]
        out.append(c)
    return out


def big(tier):
    recs = ['GCOORD', 'RVNODDIS', 'GELMNT1']
    if tier != 'quick':
        recs += ['BNBCD', 'RBLODCMB', 'WFLUIDKN', 'TDSETNAM', 'GPIPE']
    out = []
    for r in recs:
        c = c01.big_case(r, 100001, [{'big': r, 'n': 3, 'seed': 1}]
                         if r != 'GELMNT1' else ['GNODE'])
        c['unf'] = [unf(32)]
        out.append(c)
    return out


FACETS = [
    Facet('every type', None, run, 0, 0, fixed=every_type),
    Facet('large runs', None, run, 0, 0, fixed=big, timeout=200),
    Facet('sequences', lambda tier: cases(), run, 150, 5000),
    Facet('single type', one_type, run, 80, 2500),
    Facet('long files', lambda tier: cases(max_size=30, min_size=10), run,
          15, 1000),
]
