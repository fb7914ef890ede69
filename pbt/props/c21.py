"""Every way of opening the same data gives the same answers."""
import os

from hypothesis import strategies as st

import answers
import gen
import records as R
import sources
from core import Facet, Violation

RULE = ('(a) random structural, hydrodynamic and hierarchical sources under '
        'random legal names (prefixes that look like names, letter case, '
        'index suffix, large type numbers) opened directly and through .h5 '
        'files made with random prefix options, default or given targets, '
        'appended, as a list or from another directory: same datasets and '
        'identical answers to every call, and opening directly writes no '
        'file; (b) names that are illegal or of binary files: refused, '
        'nothing written, an existing target unchanged; legal ones '
        'accepted. Non-trivial: (a) options or a name other than the plain '
        'ones; (b) a refusal with an existing target.')
ASSUMPTIONS = ['the type number in the name is that of the data']
PREFIXES = ['', '', 'ab_', 'x-', 'Case1-', 'RT', '20150105_', 'T1', 'H1_',
            'l', 'R1H2-', 'T1H2', 'a_b-c_', '_x', '__']


def tree_of(d='.'):
    out = {}
    for top, _, fs in os.walk(d):
        for n in fs:
            p = os.path.join(top, n)
            with open(p, 'rb') as f:
                out[p] = f.read()
    return out


def run(case, ctx):
    import freesif as fs
    plain = dict(case['source'])
    for k in ('prefix', 'usefileprefix'):
        plain.pop(k, None)
    a, b = (sources.Source(c, 0, 10) for c in (plain, case['source']))
    path = a.write(case['dir'])
    where = path if case['path'] == 'relative' else os.path.abspath(path)
    if case['path'] == 'cwd':
        os.chdir(case['dir'])
        where = a.name
    elif case['path'] == 'link':    # stands for the file it leads to
        os.makedirs('links')
        os.symlink(where, 'links/' + case['link'])
        where = 'links/' + case['link']
    before = tree_of()
    kw = {'prefix': case['source']['prefix'],
          'usefileprefix': case['source']['usefileprefix']}
    target = case['target']
    if case['via'] == 'append':
        with open('zq_T9.FEM', 'wb') as f:
            f.write(R.file_bytes(gen.assemble([('GCOORD', 2, 5)], 9),
                                 {'kind': 'F'}))
        fs.sif2hdf5('zq_T9.FEM', target or 'app.h5')
        h5 = fs.sif2hdf5(where, target or 'app.h5', True, **kw)
    elif case['via'] == 'list':
        fs.sif2hdf5([where], target, prefix=[kw['prefix']],
                    usefileprefix=kw['usefileprefix'])
        h5 = target or a.name[:-3] + 'h5'
    else:
        h5 = fs.sif2hdf5(where, target, **kw)
    after = tree_of()
    d = fs.open_sif(where)
    f0 = d.file
    if tree_of() != after:
        raise Violation('opening directly changed files: %s' % sorted(
            set(tree_of()) ^ set(after)))
    f1 = fs.open_hdf5(h5)
    # a relative whose name differs in the prefix only, open at the same time
    dirn, base = os.path.split(os.path.realpath(where))
    other = os.path.join(dirn, 'rel_' + base)
    with open(other, 'wb') as f:
        f.write(open(where, 'rb').read())
    d2 = fs.open_sif(other)
    f2 = d2.file
    os.remove(other)
    try:
        if 'rel_' + a.top not in f2 or f2['rel_' + a.top] is not d2:
            raise Violation('%s opened next to %s has datasets %s' % (
                other, where, sorted(f2.keys())))
        for c in a.calls[a.top][:2]:
            if a.kind != 'hier' and answers.answer(d2, c) != \
                    answers.answer(d, c):
                raise Violation('%s of two files with the same content' %
                                answers.show(c))
        f2.close()
        if set(f0.keys()) != a.keys:
            raise Violation('opened directly: datasets %s, expected %s' % (
                sorted(f0.keys()), sorted(a.keys)))
        keys = set(f1.keys()) - ({'zq_T9'} if case['via'] == 'append'
                                 else set())
        if keys != b.keys:
            raise Violation('converted: datasets %s, expected %s' % (
                sorted(keys), sorted(b.keys)))
        if f0[a.top] is not d:
            raise Violation('open_sif does not give %s' % a.top)
        oks = 0
        for k in sorted(a.keys):
            k1 = b.top + k[len(a.top):]
            if type(f0[k]) is not type(f1[k1]):
                raise Violation('%s is a %s, %s a %s' % (
                    k, type(f0[k]).__name__, k1, type(f1[k1]).__name__))
            for order in (1, -1):
                for c in a.calls[k][::order]:
                    x, y = (answers.answer(f[key], c)
                            for f, key in ((f0, k), (f1, k1)))
                    if x != y:
                        raise Violation('%s of %s gives %s directly and %s '
                                        'converted' % (
                                            answers.show(c), k, str(x)[:300],
                                            str(y)[:300]))
                    oks += x[0] == 'ok'
    finally:
        f0.close()
        f1.close()
        f2.close()
    for p in before:
        if tree_of().get(p) != before[p]:
            raise Violation('the input %s was changed' % p)
    s = case['source']
    lab = {s['kind'], case['via'], case['path'], 'answers'} if oks else set()
    if s['fileprefix'] or s['prefix'] or s['lower'] or \
            not s['usefileprefix']:
        lab.add('nt')
    return lab


@st.composite
def cases(draw, tier):
    s = draw(sources.sources(big=True))
    s['fileprefix'] = draw(st.sampled_from(PREFIXES))
    s['lower'] = draw(st.sampled_from([False, False, True]))
    s['extcase'] = draw(st.sampled_from(['upper', 'lower', 'title']))
    s['prefix'] = draw(st.sampled_from(['', '', 'p_', 'R_', 'zz', 'T1_',
                                            '_z-']))
    s['usefileprefix'] = draw(st.booleans())
    s['h'] = draw(st.sampled_from(['', '', '', 'H1', 'h12']))
    k = s['kind']
    if k != 'hier':
        s[k]['seltyp'] = draw(st.sampled_from([1, 1, 2, 10, 99, 100, 12345]))
    return {'source': s,
            'via': draw(st.sampled_from(['plain', 'plain', 'append',
                                         'list'])),
            'target': draw(st.sampled_from([None, 'out.h5', 'T1.h5'])),
            'path': draw(st.sampled_from(['relative', 'absolute', 'cwd',
                                          'link'])),
            'link': draw(st.sampled_from(['T1.FEM', 'ab_R7H2.SIU', 'x',
                                          'latest.sif'])),
            'dir': draw(st.sampled_from(['in/put', 'T7.FEM', 'd.h5/a b'])),
            }


# ---- names ---------------------------------------------------------------
def legal(name):
    """Prefix, letter, number without leading zero, index, extension."""
    stem, dot, ext = name.rpartition('.')
    if not dot or ext.lower() not in ('sif', 'siu', 'fem'):
        return False
    for k in range(len(stem)):
        pre, rest = stem[:k], stem[k:].lower()
        if not all(c.isalnum() or c in '_-' for c in pre) or \
                rest[0] not in 'rtgl':
            continue
        no, h, index = rest[1:].partition('h')
        if number(no) and (not h or number(index)):
            return True
    return False


def number(s):
    return s.isdigit() and s[0] != '0'


def run_names(case, ctx):
    import freesif as fs
    name = case['name']
    if '/' in name or name in ('.', '..', ''):
        return set()
    os.makedirs('d')
    content = R.file_bytes(gen.assemble([('GCOORD', 2, case['seed'])],
                                        case['no']), {'kind': 'F'})
    with open('d/' + name, 'wb') as f:
        f.write(content)
    if case['exists']:
        with open('t.h5', 'wb') as f:
            f.write(b'precious')
    before = tree_of()
    ok = legal(name)
    lab = {'legal' if ok else 'illegal'}
    calls = [('sif2hdf5', lambda: fs.sif2hdf5('d/' + name, 't.h5')),
             ('sif2hdf5', lambda: fs.sif2hdf5('d/' + name)),
             ('sif2hdf5', lambda: fs.sif2hdf5(['d/' + name], 't.h5')),
             ('sif2hdf5 in memory',
              lambda: fs.sif2hdf5('d/' + name, in_memory=True).close()),
             ('open_sif', lambda: fs.open_sif('d/' + name).close())]
    if ok:
        # calls that make no sense are refused before anything is written
        for what, call in [
                ('append without a target',
                 lambda: fs.sif2hdf5('d/' + name, append=True)),
                ('a list in memory', lambda: fs.sif2hdf5(
                    ['d/' + name], in_memory=True)),
                ('a number', lambda: fs.sif2hdf5(1, 't.h5'))]:
            try:
                call()
            except (TypeError, ValueError):
                pass
            else:
                raise Violation('%s was accepted' % what)
            if tree_of() != before:
                raise Violation('%s changed files' % what)
        # conversion works, into a new file
        calls[1][1]()
        return lab
    for what, call in calls:
        try:
            call()
        except Exception:
            pass
        else:
            raise Violation('%s accepted the name %r' % (what, name))
        if tree_of() != before:
            raise Violation('%s of %r changed files' % (what, name))
    if case['exists']:
        lab.add('nt')
    return lab


@st.composite
def names(draw):
    pre = draw(st.sampled_from(PREFIXES + ['my file ', 'a.b', 'a+', '(1)']))
    letter = draw(st.sampled_from('RTGLrtglRTGLXSH') | st.just(''))
    no = draw(st.sampled_from(['1', '2', '10', '0', '01', '', '1a', '-1',
                               '1 ', '1.']))
    h = draw(st.sampled_from(['', '', '', 'H1', 'h23', 'H', 'H0', 'H01',
                              'I1', '_1', 'H1H2']))
    ext = draw(st.sampled_from(['.SIF', '.SIU', '.FEM', '.fem', '.Sif',
                                '.SIN', '.sin', '.SI', '.SIFF', '.FEM.bak',
                                '.FEMX', '.txt', '', '_FEM', '.h5', '.LIS',
                                '.FEM~', '. FEM', '.SIX']))
    if draw(st.integers(0, 2)):     # only one thing wrong
        pick = draw(st.integers(0, 4))
        if pick != 0:
            pre = ''
        if pick != 1:
            letter = 'T'
        if pick != 2:
            no = '1'
        if pick != 3:
            h = ''
        if pick != 4:
            ext = '.FEM'
    return pre + letter + no + h + ext


name_cases = st.fixed_dictionaries({
    'name': names(), 'seed': gen.seeds, 'exists': st.booleans(),
    'no': st.just(1)})

def fixed_names(tier):
    for ext in ('SIN', 'sin', 'Sin', 'SIX', 'txt', 'SIF.bak', 'SIF '):
        for stem in ('R1', 'x_r20', 'T3H2'):
            yield {'name': stem + '.' + ext, 'seed': 1, 'exists': True,
                   'no': 1}


FACETS = [Facet('ways of opening', cases, run, 60, 5000),
          Facet('names', lambda tier: name_cases, run_names, 120, 3000,
                fixed=fixed_names)]
