"""Unsupported, disabled and excluded records disturb nothing else."""
import random

from hypothesis import strategies as st

import gen
import records as R
import sif
from core import Facet, Violation
from props import c01

RULE = ('(a) record sequences as for C01 into which records of ~95 legal but '
        'unsupported types (with and without continuation, in runs), '
        'heading records with negative first value, IRECSIZE and IEND records '
        'with a continuation code are inserted anywhere, also between records '
        'of one type; everything stored must equal the conversion without '
        'them. (b) conversion with a list of wanted types (closed under what '
        'they need) against the full conversion. Both formatted and '
        'unformatted. Non-trivial: something is inserted between or excluded '
        'from at least two other runs.')
ASSUMPTIONS = c01.ASSUMPTIONS + [
    'a record with negative first value stands before a run of records of a '
    'type, not inside it, and has four or five values (-4, -5)']


# ---- (a) ----------------------------------------------------------------

def insert(case):
    """Blocks with the junk of the case at its places."""
    blocks = gen.expand(case['blocks'])
    rows = [(b['rec'], r) for b in blocks for r in b['rows']]
    junk = []
    for where, kind, rec, n, seed in case['junk']:
        # after IDENT, before IEND
        pos = 1 + where % len(rows)
        junk.append((pos, kind, rec, n, seed))
    out = []
    split = False
    for i in range(len(rows) + 1):
        here = [j for j in junk if j[0] == i]
        for _, kind, rec, n, seed in here:
            if kind == 'neg':
                prev = out[-1]['rec'] if out else None
                last_neg = out and is_neg(out[-1])
                if prev == rec and not last_neg:
                    continue        # would stand inside a run
                out.append(gen.disabled(rec, seed))
            elif kind == 'unsup':
                out.extend(gen.Maker(1).blocks(rec, n, seed))
            else:
                out.extend(gen.Maker(1).blocks(rec, 1, seed))
            if 0 < i < len(rows) and rows[i - 1][0] == rows[i][0]:
                split = True
        if i < len(rows):
            rec, row = rows[i]
            if out and out[-1]['rec'] == rec and not is_neg(out[-1]):
                out[-1]['rows'].append(row)
            else:
                out.append({'rec': rec, 'rows': [row]})
    return out, split


def is_neg(b):
    r = b['rows'][0]
    return (r['h'] if isinstance(r, dict) else r)[0] < 0


def run_insert(case, ctx):
    blocks = gen.expand(case['blocks'])
    mixed, split = insert(case)
    name = case['name']
    sif.write(name, blocks, case['form'])
    sif.convert(name, 'a.h5')
    sif.write(name, mixed, case['form'])
    sif.convert(name, 'b.h5')
    a, b = sif.snapshot('a.h5'), sif.snapshot('b.h5')
    for s in (a, b):        # IEND, IRECSIZE: not data
        for g in s.values():
            if 'RECORDS' in g['attrs']:
                g['attrs']['RECORDS'] = [x for x in g['attrs']['RECORDS']
                                         if x not in ('IEND', 'IRECSIZE')]
    R.compare_snapshots(a, b, 'without/with the extra records: ')
    sif.check_group('b.h5', c01.group_of(name, case['seltyp']), blocks)
    lab = {'inserted:' + k for _, k, _, _, _ in case['junk']}
    lab |= {'inserted ' + r for _, k, r, _, _ in case['junk']
            if k == 'unsup'}
    lab.add(case['form']['kind'])
    if split:
        lab.add('inside a run')
    if len(blocks) >= 3 and len(mixed) > len(blocks):
        lab.add('nt')
    return lab


junk = st.tuples(st.integers(0, 1000), st.just('unsup'),
                 st.sampled_from(gen.UNSUPPORTED_RECS), st.integers(1, 4),
                 gen.seeds)
neg = st.tuples(st.integers(0, 1000), st.just('neg'),
                st.sampled_from(gen.ALL_RECS + gen.UNSUPPORTED_RECS),
                st.just(1), gen.seeds)
misc = st.tuples(st.integers(0, 1000), st.just('misc'),
                 st.sampled_from(['IEND', 'IRECSIZE']), st.just(1), gen.seeds)


@st.composite
def insert_cases(draw):
    # HIERARCH must stay one run
    c = draw(gen.record_lists(hierarch=False))
    c['junk'] = draw(st.lists(st.one_of(junk, junk, neg, neg, misc),
                              min_size=1, max_size=6))
    c['form'] = draw(gen.any_form)
    c['name'] = draw(c01.NAMES)
    return c


def each_unsupported(tier):
    out = []
    for i, rec in enumerate(gen.UNSUPPORTED_RECS):
        for form in ({'kind': 'F', 'pad': 'short', 'eol': '\n', 'end': 0.},
                     {'kind': 'U', 'chunks': [32], 'end': 2.},
                     {'kind': 'U', 'chunks': [5, 2], 'end': 2.}):
            base = gen.assemble([('GBEAMG', 3, 1), ('GSETMEMB', 3, 2),
                                 ('GPIPE', 2, 3), ('TDSETNAM', 2, 4)])
            out.append({'seltyp': 1, 'blocks': base, 'form': form,
                        'name': 'T1.FEM',
                        'junk': [[k, 'unsup', rec, 1 + (i + k) % 3, i + k]
                                 for k in (0, 1, 4, 6, 7, 9)]})
    return out


def headings(blocks, rec, seed):
    """Disabled records of a type before some of the runs."""
    out, pos = [], 0
    for k, b in enumerate(blocks):
        if k and (b['rec'] == rec or (k + seed) % 4 == 0):
            # insert() counts places from 1
            out.append([pos - 1, 'neg', rec, 1, seed + k])
        pos += len(b['rows'])
    return out


def each_disabled(tier):
    out = []
    for rec in gen.ALL_RECS + gen.UNSUPPORTED_RECS:
        if rec == 'HIERARCH':
            continue
        for form in ({'kind': 'F', 'pad': 'zero', 'eol': '\n', 'end': 0.},
                     {'kind': 'U', 'chunks': [32], 'end': 2.}):
            items = [('TDSETNAM', 2, 1), ('GCOORD', 2, 2), (rec, 2, 3),
                     ('GSETMEMB', 2, 4), (rec, 1, 5), ('MISOSEL', 1, 6)]
            if rec in gen.UNSUPPORTED_RECS:
                items = [i for i in items if i[0] != rec]
            blocks = gen.assemble(items)
            out.append({'seltyp': 1, 'blocks': blocks, 'form': form,
                        'name': 'T1.FEM',
                        'junk': headings(blocks, rec, len(out)) +
                        [[0, 'neg', rec, 1, len(out) + 7]]})
    return out


# ---- (b) ----------------------------------------------------------------

NEEDS = {'GELREF1': ['GELMNT1'], 'RDIELCOR': ['RDPOINTS'],
         'RVFORCES': ['RDPOINTS', 'RDRESREF', 'RDFORCES'],
         'RVSTRAIN': ['RDPOINTS', 'RDRESREF', 'RDSTRAIN'],
         'RVSTRESS': ['RDPOINTS', 'RDRESREF', 'RDSTRESS']}


def run_only(case, ctx):
    blocks = gen.expand(case['blocks'])
    full = blocks
    if case['junk']:
        full, _ = insert(case)
    name = case['name']
    sif.write(name, full, case['form'])
    present = sif.record_order(blocks)
    rnd = random.Random('only/%s' % case['pick'])
    only = {r for r in present if rnd.random() < case['share']}
    if case.get('drop'):
        only = {r for r in present if r != case['drop'] and
                case['drop'] not in NEEDS.get(r, ())}
    for r in sorted(only):
        only.update(NEEDS.get(r, ()))
    only.add('IDENT')
    if case['iend']:
        only.add('IEND')
    if case['absent']:
        only.add('MORSMEL')
        only.add('GUSYI')
    form = {'list': list, 'tuple': tuple, 'set': set}[case['type']]
    only_arg = form(sorted(only))
    sif.convert(name, 'b.h5', only=only_arg)
    group = c01.group_of(name, case['seltyp'])
    sif.check_group('b.h5', group, blocks, only)
    sif.convert(name, 'a.h5')
    a, b = sif.snapshot('a.h5'), sif.snapshot('b.h5')
    wanted = {r.lower() for r in only}
    for kind in ('tables', 'arrays'):
        for k in list(a[group][kind]):
            if k.split('_')[0] not in wanted:
                del a[group][kind][k]
    for s in (a, b):
        for k in ('RECORDS', 'LEVEL', 'INDEX'):
            s[group]['attrs'].pop(k, None)
    R.compare_snapshots(a, b, 'all/selected: ')
    excluded = [r for r in present if r not in only]
    lab = {case['form']['kind'], 'only as ' + case['type']}
    if excluded:
        lab.add('some excluded')
    if excluded and len(only & set(present)) >= 2:
        lab.add('nt')
    return lab


def each_excluded(tier):
    """One record type excluded at a time."""
    out = []
    for rec in gen.ALL_RECS:
        if rec == 'HIERARCH':
            continue
        for form in ({'kind': 'F', 'pad': 'short', 'eol': '\n', 'end': 0.},
                     {'kind': 'U', 'chunks': [32], 'end': 2.},
                     {'kind': 'U', 'chunks': [2, 5], 'end': 2.}):
            items = [('GBEAMG', 2, 1), (rec, 4, 2), ('GSETMEMB', 3, 3),
                     (rec, 2, 4), ('GPIPE', 2, 5), (rec, 3, 6)]
            blocks = gen.assemble(items)
            out.append({'seltyp': 1, 'blocks': blocks,
                        'form': form, 'name': 'T1.FEM',
                        'junk': headings(blocks, rec, len(out)),
                        'drop': rec, 'pick': 0, 'share': 1., 'iend': True,
                        'absent': False, 'type': 'list'})
    return out


@st.composite
def only_cases(draw):
    c = draw(gen.record_lists(min_size=2, hierarch=draw(st.booleans())))
    if any(b['rec'] == 'HIERARCH' for b in c['blocks']):
        c['junk'] = []
    else:
        c['junk'] = draw(st.lists(st.one_of(junk, neg), max_size=3))
    c['form'] = draw(gen.any_form)
    c['name'] = draw(c01.NAMES)
    c['pick'] = draw(gen.seeds)
    c['share'] = draw(st.sampled_from([0.2, 0.5, 0.8]))
    c['iend'] = draw(st.booleans())
    c['absent'] = draw(st.booleans())
    c['type'] = draw(st.sampled_from(['list', 'tuple', 'set']))
    return c


FACETS = [
    Facet('each unsupported type', None, run_insert, 0, 0,
          fixed=each_unsupported),
    Facet('each disabled type', None, run_insert, 0, 0, fixed=each_disabled),
    Facet('each excluded type', None, run_only, 0, 0, fixed=each_excluded),
    Facet('inserted records', lambda tier: insert_cases(), run_insert, 130,
          5000),
    Facet('selected records', lambda tier: only_cases(), run_only, 90, 4000),
]
