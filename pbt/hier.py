"""Superelement hierarchies: trees, the files they consist of, and what a
conversion of them must give.

A tree is {"rows": [[ihref, iselty, indsel, islevl, itref, ihpref,
[ihsref...]], ...], "trans": {itref: [16 numbers]}}; rows are in ihref order,
the top level first.
"""
import random

import numpy as np
from hypothesis import strategies as st

import gen
import records as R

PREFIXES = ['', '', 'ab_', 'x-', 'Case1-', 'RT', '20150105_', '_x', '__']


def make_tree(seed, toplevel, nplan, width, skip, cap=40):
    """A random tree below a superelement on level `toplevel`."""
    rnd = random.Random('tree/%s' % seed)
    k = rnd.randrange(4)
    pool = list(range(1, 25)) if k == 0 else \
        rnd.sample(range(1, 60 if k < 3 else 9999), 24)
    numbers = iter(pool)
    # types per level, each with a fixed list of children
    types = {l: [next(numbers) for _ in range(1 if l == toplevel else
                                              rnd.randrange(1, nplan + 1))]
             for l in range(1, toplevel + 1)}
    children = {}
    for l in range(2, toplevel + 1):
        for t in types[l]:
            kids = []
            for _ in range(rnd.randrange(1, width + 1)):
                lower = l - 1
                if skip and l > 2 and rnd.randrange(3) == 0:
                    lower = rnd.randrange(1, l - 1)
                kids.append((lower, rnd.choice(types[lower])))
            children[t] = kids
    # expand to instances
    nodes = [dict(level=toplevel, type=types[toplevel][0], parent=None,
                  kids=[])]
    i = 0
    while i < len(nodes):
        n = nodes[i]
        for lower, t in children.get(n['type'], ()):
            if len(nodes) >= cap:
                break
            k = dict(level=lower, type=t, parent=i, kids=[])
            n['kids'].append(len(nodes))
            nodes.append(k)
        i += 1
    # traversal order
    order = list(range(len(nodes)))
    if rnd.randrange(2):            # depth first
        order = []

        def walk(j):
            order.append(j)
            for k in nodes[j]['kids']:
                walk(k)
        walk(0)
    ref = {j: i + 1 for i, j in enumerate(order)}
    count = {}
    rows = []
    indices = {}
    for t in set(n['type'] for n in nodes):
        k = sum(n['type'] == t for n in nodes)
        ix = list(range(1, k + 1))
        if rnd.randrange(3) == 0:
            rnd.shuffle(ix)
        indices[t] = ix
    itrefs = list(range(1, len(nodes)))
    if rnd.randrange(2):
        rnd.shuffle(itrefs)
    if len(itrefs) > 2 and rnd.randrange(3) == 0:
        itrefs[-1] = itrefs[0]      # shared transformation
    for i, j in enumerate(order):
        n = nodes[j]
        c = count.get(n['type'], 0)
        count[n['type']] = c + 1
        rows.append([i + 1, n['type'], indices[n['type']][c], n['level'],
                     0 if i == 0 else itrefs[i - 1],
                     0 if i == 0 else ref[n['parent']],
                     [ref[k] for k in n['kids']]])
    trans = {}
    for t in sorted(set(r[4] for r in rows[1:])):
        trans[str(t)] = matrix(rnd)
    return {'rows': rows, 'trans': trans}


def matrix(rnd):
    """4x4, row vector convention: rotation-like part, translation in the
    last row, last column 0 0 0 1 (mostly)."""
    m = np.zeros((4, 4))
    k = rnd.randrange(4)
    if k == 0:                      # permutation of the axes with signs
        p = rnd.sample(range(3), 3)
        for i in range(3):
            m[i, p[i]] = rnd.choice([1., -1.])
    elif k == 1:
        a = rnd.uniform(0, 6.28)
        m[:3, :3] = np.eye(3)
        m[0, 0] = m[1, 1] = np.cos(a)
        m[0, 1], m[1, 0] = np.sin(a), -np.sin(a)
    else:
        m[:3, :3] = [[rnd.randrange(-3, 4) for _ in range(3)]
                     for _ in range(3)]
    m[3, :3] = [rnd.randrange(-20, 20) / 2. for _ in range(3)]
    m[3, 3] = 1.
    return [float(np.float32(x)) for x in m.ravel()]


def tree_blocks(tree):
    rows = [[8. + len(r[6])] + [float(x) for x in r[:6]] +
            [float(len(r[6]))] + [float(x) for x in r[6]]
            for r in tree['rows']]
    out = [{'rec': 'HIERARCH', 'rows': rows}]
    if tree['trans']:
        out.append({'rec': 'HSUPTRAN', 'rows': [
            [18., float(k)] + list(v)
            for k, v in sorted(tree['trans'].items(),
                               key=lambda kv: int(kv[0]))]})
    return out


def setcase(s, lower):
    return s.lower() if lower else s.upper()


def top_name(case):
    return '%s%s%d.%s' % (case['fileprefix'],
                          setcase(case['letter'], case['lower']),
                          case['tree']['rows'][0][1], case['ext'])


def lower_names(case):
    """[(file name, group name, hierarchy row)] of the lower-level files."""
    out = []
    for r in case['tree']['rows'][1:]:
        if case['letter'] == 'R':
            if r[3] == 1:
                out.append(('%s%s%d%s%d.%s' % (
                    case['fileprefix'], setcase('R', case['lower']), r[1],
                    setcase('H', case['lower']), r[0], case['ext']),
                    'R%d_%d' % (r[1], r[2]), r))
        elif r[2] == 1:
            out.append(('%s%s%d.%s' % (
                case['fileprefix'], setcase('T', case['lower']), r[1],
                case['ext']), 'T%d' % r[1], r))
    return out


def content(seed, seltyp, level, big=False):
    rnd = random.Random('content/%s/%s' % (seed, seltyp))
    n = rnd.randrange(1, 7)
    recs = [r for r in gen.INPUT_RECS + gen.RESULT_RECS if r != 'HIERARCH']
    items = [(rnd.choice(recs), rnd.randrange(1, 4), rnd.randrange(1 << 30))
             for _ in range(n)]
    blocks = gen.assemble(items, seltyp, hierarch=False)
    blocks[0]['rows'][0][0] = float(level)
    return blocks


def files(case):
    """[(file name, blocks, group, attributes)]: top level first."""
    rows = case['tree']['rows']
    top = content(case['seed'], rows[0][1], rows[0][3])
    rnd = random.Random('place/%s' % case['seed'])
    k = rnd.randrange(1, len(top) + 1)
    top = top[:k] + tree_blocks(case['tree']) + top[k:]
    prefix = case.get('prefix', '')
    if case.get('usefileprefix', True):
        prefix += case['fileprefix']
    gtop = '/%s%s%d' % (prefix, case['letter'], rows[0][1])
    level = 'TOPLEVEL'
    attrs = {'DATATYPE': 'STRUCTURAL', 'FILETYPE': case['letter'],
             'SELTYP': rows[0][1], 'LEVEL': level}
    if case['letter'] == 'R' and rows[0][3] == 1:
        attrs['LEVEL'] = 'FIRSTLEVEL'
        attrs['INDEX'] = None
    out = [(top_name(case), top, gtop, attrs)]
    for i, (name, group, r) in enumerate(lower_names(case)):
        a = {'DATATYPE': 'STRUCTURAL', 'FILETYPE': case['letter'],
             'SELTYP': r[1],
             'LEVEL': 'INTERLEVEL' if r[3] > 1 else 'FIRSTLEVEL'}
        if case['letter'] == 'R':
            a['INDEX'] = r[2]
        out.append((name, content('%s/%d' % (case['seed'], i), r[1], r[3]),
                    gtop + '/' + group, a))
    return out


@st.composite
def hier_cases(draw, levels=(2, 2, 3, 3, 4, 1, 5)):
    letter = draw(st.sampled_from(['T', 'T', 'R', 'R']))
    top = draw(st.sampled_from(levels))
    if letter == 'T' and top == 1:
        top = 2
    tree = make_tree(draw(gen.seeds), top, draw(st.integers(1, 3)),
                     draw(st.sampled_from([2, 3, 2, 3, 2, 3, 2, 11])),
                     draw(st.booleans()))
    lower = draw(st.booleans())
    return {'letter': letter, 'tree': tree, 'lower': lower,
            'ext': draw(st.sampled_from(
                ['FEM', 'fem'] if letter == 'T' else
                ['SIF', 'SIU', 'sif', 'siu'])),
            'fileprefix': draw(st.sampled_from(PREFIXES)),
            'prefix': draw(st.sampled_from(['', '', 'my_', 'M', '_z-'])),
            'usefileprefix': draw(st.booleans()),
            'form': draw(gen.any_form),
            'seed': draw(gen.seeds)}
