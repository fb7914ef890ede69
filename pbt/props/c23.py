"""A file that was cut short is not converted as if it were complete."""
import os
import random

from hypothesis import strategies as st

import gen
import hier
import records as R
import sif
from core import Facet, Violation
from props import c01

RULE = ('(a) record sequences as for C01, formatted or unformatted, cut at '
        'places drawn over the whole file and at the edges of lines, names, '
        'numbers and physical records and in the last kilobyte, converted to '
        'HDF5 (new target, target with another file\'s data, with a list of '
        'wanted records) or opened directly; (b) hierarchies as for C05 of '
        'which one file is cut. The conversion must fail, or what it made '
        'must be equal to the conversion of the complete file; other data in '
        'the target stays as it was, and the complete file converts as ever '
        'afterwards. Every cut is timed (a conversion that does not end is a '
        'violation). Non-trivial: at least three cuts before the last '
        'record, all refused.')
ASSUMPTIONS = c01.ASSUMPTIONS + ['the complete file ends with IEND, which '
                                 'occurs nowhere else']


def places(data, form, seed, n):
    """Lengths to cut the file to."""
    rnd = random.Random('cut/%s' % seed)
    last = data.rfind(b'IEND')
    edges = [i for i in range(len(data)) if data[i:i + 1] == b'\n'] \
        if form['kind'] == 'F' else edges_u(data)
    out = []
    for _ in range(n):
        k = rnd.randrange(6)
        if k == 0:
            out.append(rnd.randrange(len(data)))
        elif k == 1:
            out.append(rnd.choice(edges) + rnd.choice([0, 1, 2]))
        elif k == 2:
            i = rnd.choice(edges)
            out.append(i + rnd.choice([1, 5, 8, 9, 10, 13, 17, 24, 25, 40]))
        elif k == 3:
            out.append(max(1, last - rnd.randrange(200)))
        elif k == 4:
            out.append(last + rnd.randrange(5))
        else:
            out.append(max(1, len(data) - rnd.randrange(90)))
    return [min(max(1, c), len(data) - 1) for c in out], last


def edges_u(data):
    """Ends of the physical records of an unformatted file."""
    out, i = [0], 1
    while i < len(data) and data[i] != 130:
        i += 2 + (128 if data[i] == 129 else data[i])
        out.append(i - 1)
    return out


def clean(snap):
    for g in snap.values():
        if 'RECORDS' in g['attrs']:
            g['attrs']['RECORDS'] = [x for x in g['attrs']['RECORDS']
                                     if x not in ('IEND', 'IRECSIZE')]
    return snap


def put(name, data):
    with open(name, 'wb') as f:
        f.write(data)


def run(case, ctx):
    import freesif as fs
    blocks = gen.expand(case['blocks'])
    data = R.file_bytes(blocks, case['form'])
    name = case['name']
    only = case['only']
    put(name, data)
    put('T900.FEM', R.file_bytes(gen.assemble([('GNODE', 3, 1)], 900, False),
                                 {'kind': 'F', 'pad': 'short', 'eol': '\n',
                                  'end': 0.}))
    sif.convert(name, 'full.h5', only=only)
    full = clean(sif.snapshot('full.h5'))
    cuts, last = places(data, case['form'], case['seed'], case['n'])
    refused = 0
    lab = {case['form']['kind'], case['how']}
    for c in cuts:
        put(name, data[:c])
        what = '%s cut from %d to %d bytes (%s)' % (name, len(data), c,
                                                    case['how'])
        if case['how'] == 'direct':
            try:
                d = fs.open_sif(name)
            except Exception:
                refused += c < last
                continue
            d.close()
            if c < last:
                raise Violation(what + ' was opened')
            continue
        append = case['how'] == 'append'
        if append:
            sif.convert('T900.FEM', 'cut.h5')
            other = sif.snapshot('cut.h5')
        try:
            sif.convert(name, 'cut.h5', append=append, only=only)
            ok = True
        except Exception:
            ok = False
            refused += c < last
        if ok or append:
            have = sif.snapshot('cut.h5')
        if append:
            R.compare_snapshots(
                other, {k: v for k, v in have.items() if k in other},
                what + ', data of the other file: ')
        if ok:
            have = {k: v for k, v in have.items()
                    if not append or k == '/' or k not in other}
            want = dict(full)
            if append:
                have.pop('/', None), want.pop('/', None)
            try:
                R.compare_snapshots(want, clean(have), what)
            except R.Mismatch as e:
                raise Violation('%s was converted: %s' % (what, e))
    put(name, data)
    sif.convert(name, 'again.h5', only=only)
    R.compare_snapshots(full, clean(sif.snapshot('again.h5')),
                        'the complete file after the cut ones: ')
    if refused >= 3:
        lab.add('nt')
    return lab


@st.composite
def cases(draw, tier):
    c = draw(gen.record_lists(hierarch=False, max_rows=4, max_size=8))
    c['form'] = draw(gen.any_form)
    c['name'] = '%s%d.%s' % (draw(st.sampled_from('TRG')), c['seltyp'],
                             draw(st.sampled_from(['FEM', 'SIF', 'SIU'])))
    c['how'] = draw(st.sampled_from(['new', 'new', 'append', 'direct']))
    recs = sorted({b['rec'] for b in gen.expand(c['blocks'])} - {'IDENT'})
    c['only'] = None
    if c['how'] != 'direct' and recs and draw(st.integers(0, 3)) == 0:
        c['only'] = ['IDENT'] + closed(draw(st.lists(
            st.sampled_from(recs), min_size=1, unique=True)), recs)
    c['seed'] = draw(gen.seeds)
    c['n'] = draw(st.integers(3, 8 if tier == 'quick' else 16))
    return c


def closed(wanted, recs):
    """Wanted types with the ones they are read with."""
    if all(w[:2] not in ('RV', 'RD', 'GE', 'W1', 'WF') for w in wanted):
        return wanted
    return list(recs)


def run_hier(case, ctx):
    fs = hier.files(case)
    rnd = random.Random('which/%s' % case['cut'])
    for name, blocks, _, _ in fs:
        sif.write(name, blocks, case['form'])
    sif.convert(fs[0][0], 'full.h5')
    full = clean(sif.snapshot('full.h5'))
    refused = 0
    for _ in range(3):
        i = rnd.randrange(len(fs))
        name = fs[i][0]
        with open(name, 'rb') as f:
            data = f.read()
        cuts, last = places(data, case['form'], rnd.random(), 1)
        put(name, data[:cuts[0]])
        what = '%s (file %d of %d) cut from %d to %d bytes' % (
            name, i + 1, len(fs), len(data), cuts[0])
        try:
            sif.convert(fs[0][0], 'cut.h5')
            ok = True
        except Exception:
            ok = False
            refused += cuts[0] < last
        if ok:
            try:
                R.compare_snapshots(full, clean(sif.snapshot('cut.h5')),
                                    what)
            except R.Mismatch as e:
                raise Violation('%s was converted: %s' % (what, e))
        put(name, data)
    sif.convert(fs[0][0], 'again.h5')
    R.compare_snapshots(full, clean(sif.snapshot('again.h5')),
                        'the complete files after the cut ones: ')
    lab = {case['letter'], 'files:%d' % min(len(fs), 6)}
    if refused and len(fs) > 1:
        lab.add('nt')
    return lab


@st.composite
def hier_cases(draw):
    c = draw(hier.hier_cases())
    c['cut'] = draw(gen.seeds)
    return c


FACETS = [Facet('single files', cases, run, 90, 9000, timeout=30),
          Facet('hierarchies', lambda tier: hier_cases(), run_hier, 12, 1200)]
