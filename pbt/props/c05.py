"""Superelement hierarchies end up complete and in the right groups."""
import os
import random

import tables as tb
from hypothesis import strategies as st

import gen
import hier
import records as R
import sif
from core import Facet, Violation

RULE = ('random superelement trees (1-4 levels, shared and repeated '
        'superelement types, level skips, depth- or breadth-first reference '
        'order, permuted repetition indices) written as T or R file sets '
        '(prefixes, letter case, each file formatted or unformatted, with its '
        'own random records), a random subset of the lower-level files '
        'missing; converted and compared group by group with the generated '
        'records, attributes and the keys and classes of the opened file. '
        'Non-trivial: at least two lower-level groups.')
ASSUMPTIONS = ['HIERARCH records stand in reference order, the top level '
               'first, on the top level file',
               'lower-level files have the same letter case as the top level '
               'file']

CLASSES = {'TOPLEVEL': 'TopLevelData', 'INTERLEVEL': 'InterLevelData',
           'FIRSTLEVEL': 'FirstLevelData'}


def write_files(case, d='.', missing=()):
    fs = hier.files(case)
    for i, (name, blocks, _, _) in enumerate(fs):
        if i == 0 or i not in missing:
            forms = case.get('forms') or [case['form']]
            sif.write(os.path.join(d, name), blocks,
                      case['form'] if i == 0 else forms[i % len(forms)])
    for name, blocks in decoys(case, fs):
        sif.write(os.path.join(d, name), blocks, case['form'])
    return fs


def decoys(case, fs):
    """Files of other superelements lying in the same directory."""
    used = {f[0].lower() for f in fs}
    out = []
    for name in ('T77.FEM', 'R77H2.SIU', 'q' + fs[-1][0]):
        if name.lower() not in used:
            out.append((name, hier.content('decoy', 77, 1)))
    return out


def expected_attrs(blocks, attrs):
    a = dict(attrs)
    names = sif.record_order(blocks)
    a['RECORDS'] = names + ['IEND']
    return a


def check(h5, fs, present, exact=True):
    """Compare every group of the file with what it must hold."""
    want = {g: (blocks, attrs) for i, (_, blocks, g, attrs) in enumerate(fs)
            if i in present}
    with tb.open_file(h5, 'r') as f:
        got = {g._v_pathname for g in f.walk_groups('/')} - {'/'}
        if exact and got != set(want):
            raise Violation('groups are %s, expected %s' % (
                sorted(got), sorted(want)))
        for g, (blocks, attrs) in sorted(want.items()):
            node = f.get_node(g)
            try:
                R.compare_group(node, blocks)
            except R.Mismatch as e:
                raise Violation('%s: %s' % (g, e))
            check_attrs(node, expected_attrs(blocks, attrs), g)


def check_attrs(node, want, g):
    have = {k: node._v_attrs[k] for k in node._v_attrs._v_attrnamesuser}
    for k, v in want.items():
        if k == 'RECORDS':
            a = [x for x in have.get(k, []) if x not in ('IEND', 'IRECSIZE')]
            b = [x for x in v if x not in ('IEND', 'IRECSIZE')]
            if a != b:
                raise Violation('%s: RECORDS is %s, expected %s' % (g, a, b))
        elif k not in have or not (have[k] == v):
            raise Violation('%s: %s is %r, expected %r' % (
                g, k, have.get(k), v))


def run(case, ctx):
    import freesif as fs_
    n = len(hier.files(case))
    rnd = random.Random('missing/%s' % case['miss'][1])
    missing = {i for i in range(1, n) if rnd.random() < case['miss'][0]}
    fs = write_files(case, '.', missing)
    present = set(range(n)) - missing
    name = fs[0][0]
    if case['link']:    # stands for the file it leads to
        os.makedirs('links')
        os.symlink(os.path.abspath(name), 'links/' + case['link'])
        name = 'links/' + case['link']
    out = sif.convert(name, case.get('target'), prefix=case['prefix'],
                      usefileprefix=case['usefileprefix'])
    exp = os.path.abspath(case.get('target') or fs[0][0][:-3] + 'h5')
    if out != exp:
        raise Violation('returned %r, not %r' % (out, exp))
    check(exp, fs, present)
    # the opened file
    f = fs_.open_hdf5(exp)
    try:
        want = {fs[i][2][1:]: CLASSES[fs[i][3]['LEVEL']] for i in present}
        if set(f.keys()) != set(want):
            raise Violation('keys are %s, expected %s' % (
                sorted(f.keys()), sorted(want)))
        for k, cls in want.items():
            if type(f[k]).__name__ != cls:
                raise Violation('%s is a %s, expected %s' % (
                    k, type(f[k]).__name__, cls))
    finally:
        f.close()
    lab = {case['letter'], case['form']['kind'],
           ''.join(sorted({f['kind'] for f in case.get('forms') or []})),
           'levels:%d' % case['tree']['rows'][0][3]}
    if missing:
        lab.add('missing files')
    types = [r[1] for r in case['tree']['rows']]
    if len(set(types)) < len(types):
        lab.add('repeated superelements')
    if case['lower']:
        lab.add('lower case names')
    if len(present) >= 3:
        lab.add('nt')
    return lab


@st.composite
def cases(draw):
    c = draw(hier.hier_cases())
    c['miss'] = [draw(st.sampled_from([0., 0., 0.3, 0.6])), draw(gen.seeds)]
    c['forms'] = draw(st.one_of(st.none(), st.lists(
        gen.any_form, min_size=1, max_size=3)))
    c['target'] = draw(st.sampled_from([None, 'out.h5']))
    c['link'] = draw(st.sampled_from([None, None, None, 'T88.FEM', 'latest']))
    return c


def large(tier):
    """A superelement repeated more than a hundred times."""
    out = []
    for letter, cap in (('R', 112), ('T', 140)) if tier == 'quick' else (
            ('R', 320), ('T', 400), ('R', 1001)):
        rows = [[1, 9, 1, 2, 0, 0, list(range(2, cap + 1))]] + [
            [i, 13, i - 1, 1, 1, 1, []] for i in range(2, cap + 1)]
        out.append({'letter': letter,
                    'tree': {'rows': rows, 'trans': {
                        '1': hier.matrix(random.Random(cap))}},
                    'lower': False, 'ext': 'FEM' if letter == 'T' else 'SIU',
                    'fileprefix': '', 'prefix': '', 'usefileprefix': True,
                    'form': {'kind': 'F', 'pad': 'short', 'eol': '\n',
                             'end': 0.}, 'seed': cap,
                    'miss': [0.1, 1], 'target': None, 'link': None})
    return out


FACETS = [Facet('hierarchies', lambda tier: cases(), run, 150, 8000),
          Facet('many repetitions', None, run, 1, 1, fixed=large,
                timeout=600)]
