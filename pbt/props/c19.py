"""FormattedFile: what is written reads back; records are counted right."""
import random

from hypothesis import strategies as st

import gen
import records as R
import sif
from core import Facet, Violation

RULE = ('(a) random sequences of write_record (0-40 values), write_floats '
        '(0-20 values, continuing the line) and write_string calls, to one file '
        'or two in turn, read back '
        'with read_headerrec / read_floats (in random portions) / '
        'read_stringrec and compared with what was written (nine significant '
        'digits); non-trivial: at least three calls and some values that do '
        'not fill a line. (b) get_recordcount of generated files (supported '
        'and unsupported types, formatted and unformatted) against the true '
        'numbers; non-trivial: at least three runs.')
ASSUMPTIONS = ['record names of at most eight characters; text without line '
               'ends; the written file ends with a complete line',
               'the entry get_recordcount adds for the end of the file (empty '
               'name) is not looked at']


def value(v):
    return float('%.8e' % v)


def turns(rnd, jobs):
    """Run generators a step at a time, in any order."""
    jobs = list(jobs)
    while jobs:
        j = rnd.choice(jobs)
        if next(j, None) is None:
            jobs.remove(j)


def writing(name, case, ops, groups):
    from freesif.sequentialparser.sequentialfiles import FormattedFile
    f = FormattedFile(name, 'w')
    for op in ops + [['rec', 'IEND', [0., 0., 0., 0.]]]:
        yield True
        if op[0] == 'rec':
            f.write_record(op[1], tuple(op[2]) if case['tuples'] else op[2])
            groups.append(['rec', op[1], list(op[2])])
        elif op[0] == 'floats':
            if not groups:
                continue
            f.write_floats(tuple(op[1]) if case['tuples'] else op[1])
            if groups[-1][0] == 'str':
                groups.append(['floats', '', list(op[1])])
            else:
                groups[-1][2].extend(op[1])
        else:
            if op[2] is None:
                f.write_string(op[1])
                groups.append(['str', ' ' * 8 + op[1]])
            else:
                f.write_string(op[1], op[2])
                groups.append(['str', ' ' * op[2] + op[1]])
    f.close()


def reading(name, groups, rnd):
    from freesif.sequentialparser.sequentialfiles import FormattedFile
    g = FormattedFile(name)
    try:
        for i, gr in enumerate(groups):
            yield True
            if gr[0] == 'str':
                s = g.read_stringrec()
                if s != gr[1]:
                    raise Violation('text %r was read as %r' % (gr[1], s))
                continue
            want = [value(v) for v in gr[2]]
            got = []
            if gr[0] == 'rec':
                name, vals = g.read_headerrec()
                if name != gr[1]:
                    raise Violation('record %r was read as %r' % (gr[1],
                                                                  name))
                got += vals
                if len(vals) != min(4, len(want)):
                    raise Violation('%s: %d values on the first line, not %d'
                                    % (name, len(vals), min(4, len(want))))
            while len(got) < len(want):
                yield True
                k = rnd.randrange(1, len(want) - len(got) + 1)
                vals = g.read_floats(k)
                if len(vals) != k:
                    raise Violation('%s: %d values asked for, got %d' % (
                        gr[1], k, len(vals)))
                got += vals
            if got != want:
                raise Violation('%s: wrote %s, read %s' % (gr[1], want, got))
        if g.f.read() != '':
            raise Violation('more lines than were written')
    finally:
        g.close()


def run_write(case, ctx):
    rnd = random.Random(case['seed'])
    files = {'w.txt': (case['ops'], [])}
    if case['other']:
        files['x.txt'] = (case['other'], [])
    turns(rnd, [writing(n, case, ops, g) for n, (ops, g) in files.items()])
    turns(rnd, [reading(n, g, rnd) for n, (_, g) in files.items()])
    lab = {op[0] for op in case['ops']}
    if case['other']:
        lab.add('two files')
    if len(case['ops']) >= 3 and any(
            g[0] != 'str' and len(g[2]) % 4 for g in files['w.txt'][1]):
        lab.add('nt')
    return lab


numbers = st.one_of(
    st.integers(-1000, 1000), st.floats(-1e4, 1e4),
    st.floats(allow_nan=False, allow_infinity=False, width=32),
    st.floats(allow_nan=False, allow_infinity=False))
sizes = st.one_of(st.integers(0, 9), st.integers(0, 40))


def values(n=40):
    return st.one_of(st.lists(numbers, max_size=9),
                     st.integers(0, n).flatmap(
                         lambda k: st.lists(numbers, min_size=k,
                                            max_size=k)))


names = st.sampled_from(['GNODE', 'GCOORD', 'BNBCD', 'TEXT', 'GELMNT1',
                         'RVSTRESS', 'A', 'HIERARCH'])
text = st.text(st.sampled_from(gen.ALPHABET + ' '), max_size=64)
ops = st.lists(st.one_of(
    st.tuples(st.just('rec'), names, values()),
    st.tuples(st.just('floats'), values(20)),
    st.tuples(st.just('floats'), values(20)),
    st.tuples(st.just('str'), text,
              st.one_of(st.none(), st.integers(0, 12)))),
    min_size=1, max_size=12)


def write_cases(tier):
    return st.fixed_dictionaries({'ops': ops, 'tuples': st.booleans(),
                                  'other': st.one_of(st.none(), st.none(),
                                                     ops),
                                  'seed': st.integers(0, 1000)})


def run_count(case, ctx):
    from freesif.sequentialparser.sequentialfiles import (FormattedFile,
                                                          UnformattedFile)
    blocks = case['blocks']
    sif.write('x.FEM', blocks, case['form'])
    cls = FormattedFile if case['form']['kind'] == 'F' else UnformattedFile
    f = cls('x.FEM')
    try:
        got = dict(f.get_recordcount())
    finally:
        f.close()
    got.pop('', None)
    want = {'IEND': 1}
    for b in blocks:
        want[b['rec']] = want.get(b['rec'], 0) + len(b['rows'])
    if got != want:
        bad = {k: (got.get(k), want.get(k)) for k in set(got) | set(want)
               if got.get(k) != want.get(k)}
        raise Violation('counts (found, true) differ: %s' % bad)
    lab = sif.labels(blocks, case['form'])
    if sum(sif.runs(blocks).values()) >= 3:
        lab.add('nt')
    return lab


@st.composite
def count_cases(draw):
    c = draw(gen.record_lists(gen.ALL_RECS + gen.UNSUPPORTED_RECS +
                              ['IEND', 'IRECSIZE']))
    c['form'] = draw(gen.any_form)
    return c


def large(tier):
    rnd = random.Random(1)
    long = [['rec', 'GELMNT1', [rnd.uniform(-9, 9) for _ in range(20003)]],
            ['floats', [float(i) for i in range(10001)]]]
    many = []
    for i in range(12000):
        many += [['rec', 'TDLOAD', [float(i), 1., 2., 3.][:1 + i % 4]],
                 ['str', 'number %d' % i, None]]
    return [{'ops': o, 'other': x, 'tuples': False, 'seed': 1}
            for o, x in ((long, None), (many, long))]


def large_counts(tier):
    form = {'kind': 'F', 'pad': 'short', 'eol': '\n', 'end': 0.}
    unf = {'kind': 'U', 'chunks': [4], 'end': 2.}
    out = []
    for f in form, unf:
        blocks = gen.Maker(1).blocks('IDENT', 1, 0)
        for i in range(40):
            blocks += gen.Maker(1).blocks('GCOORD', 1 + 997 * (i % 3), i)
            blocks += gen.Maker(1).blocks('GNODE', 1 + 499 * (i % 2), i)
        out.append({'seltyp': 1, 'blocks': blocks, 'form': f})
    return out


FACETS = [
    Facet('large files', None, run_write, 0, 0, fixed=large, timeout=200),
    Facet('large counts', None, run_count, 0, 0, fixed=large_counts,
          timeout=200),
    Facet('write and read', write_cases, run_write, 1000, 60000),
    Facet('counts', lambda tier: count_cases(), run_count, 400, 20000),
]
