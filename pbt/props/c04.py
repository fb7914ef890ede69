"""A conversion depends only on its own files, whatever came before."""
import atexit
import os
import random

import tables as tb
from hypothesis import strategies as st

import fresh
import gen
import hier
import records as R
import sif
from core import Facet, Violation, quiet

RULE = ('histories of 2-8 conversions in one process over a pool of 2-4 '
        'sources (single T/R/L/G files with random records, T and R '
        'hierarchies, files lacking a record others depend on, malformed or '
        'cut-off files, illegal and missing names), with record selections, '
        'prefixes, in-memory targets, default and shared targets, append, '
        'and lists of files; some conversions are interrupted on their way. '
        'Each conversion must give what it gives in a '
        'process that has converted nothing (a fork of the freshly imported '
        'package), groups already in the target stay as they are, and a '
        'conversion fails exactly if it fails there. Non-trivial: at least '
        'two successful conversions of different sources, or a failed one '
        'followed by a successful one.')
ASSUMPTIONS = ['appending a group that is already in the target is refused',
               'what a failed conversion leaves in its own target is not '
               'looked at']


# ---- the fresh process ---------------------------------------------------

def fresh_convert(req):
    """Snapshot of a conversion into a new in-memory file."""
    import freesif as fs
    os.chdir(req['cwd'])
    with quiet():
        try:
            f = fs.sif2hdf5(req['name'], prefix=req['prefix'],
                            usefileprefix=req['usefileprefix'],
                            only=req['only'], in_memory=True)
            return 'ok', R.snapshot(f)
        except Exception as e:
            return 'err', type(e).__name__


def ready():
    if not fresh._state or fresh._state.get('owner') != os.getpid():
        import freesif.sequentialparser.parsers  # noqa: F401
        fresh.start(fresh_convert)
        atexit.register(fresh.stop)


ready()


# ---- sources -------------------------------------------------------------

def source_files(src):
    """[(file name, bytes)], first one is the file to convert."""
    k = src['kind']
    if k == 'hier':
        fs = hier.files(src['case'])
        out = [(n, R.file_bytes(b, src['case']['form'])) for n, b, _, _ in fs]
        if src['cut'] and len(out) > 1:
            n, b = out[-1]
            out[-1] = (n, spoil(b, src['case']['form'], src['cut']))
        return out
    if k == 'single':
        blocks = [b for b in src['blocks'] if b['rec'] != src['drop']]
        data = R.file_bytes(blocks, src['form'])
        if src['cut']:
            data = spoil(data, src['form'], src['cut'])
        return [(src['name'], data)]
    if k == 'bad name':
        return [(src['name'], R.file_bytes(gen.assemble([]), src['form']))]
    return []


def spoil(data, form, how):
    if form['kind'] == 'U':
        return data[:1 + (len(data) - 2) * (how % 97) // 97]
    lines = data.split(b'\n')
    i = how % max(len(lines) - 2, 1)
    # letters where a number should be
    lines.insert(i + 1, b'GCOORD  ' + b' no number here ' * 4)
    return b'\n'.join(lines)


BAD_NAMES = ['T1.txt', 'model.fem', 'T0.FEM', 'R1.SIN', 'X1.FEM', 'T1_FEM',
             'T1.FEMX']


@st.composite
def sources(draw):
    kind = draw(st.sampled_from(['single', 'single', 'single', 'hier',
                                 'hier', 'bad name', 'missing']))
    if kind == 'hier':
        c = draw(hier.hier_cases((1, 2, 2, 3)))
        return {'kind': kind, 'case': c,
                'cut': draw(st.sampled_from([0, 0, 0, 0, 1])) and
                draw(st.integers(1, 500))}
    if kind == 'bad name':
        return {'kind': kind, 'name': draw(st.sampled_from(BAD_NAMES)),
                'form': draw(gen.any_form)}
    if kind == 'missing':
        return {'kind': kind, 'name': 'T9.FEM'}
    c = draw(gen.record_lists(max_size=6, max_rows=3))
    recs = sorted({b['rec'] for b in c['blocks']} - {'IDENT'})
    drop = None
    if recs and draw(st.integers(0, 3)) == 0:
        drop = draw(st.sampled_from(recs))
    return {'kind': kind, 'blocks': c['blocks'], 'drop': drop,
            'cut': draw(st.sampled_from([0, 0, 0, 0, 1])) and
            draw(st.integers(1, 500)),
            'form': draw(gen.any_form),
            'name': draw(st.sampled_from(['T1.FEM', 'R1.SIF', 'G1.SIF',
                                          'L2.FEM', 'p_R3.SIU', 't4.fem']))}


FAMILIES = {'GELREF1': ['GELMNT1'],
            'RVSTRESS': ['RDPOINTS', 'RDRESREF', 'RDSTRESS'],
            'RVSTRAIN': ['RDPOINTS', 'RDRESREF', 'RDSTRAIN'],
            'RVFORCES': ['RDPOINTS', 'RDRESREF', 'RDFORCES']}


@st.composite
def relatives(draw, family):
    """Files with the same dependent records, some without what they need."""
    items = draw(st.lists(gen.item(gen.INPUT_RECS, 2), max_size=2))
    items = [i for i in items if i[0] != 'HIERARCH']
    items += [(family, draw(st.integers(1, 3)), draw(gen.seeds))]
    drop = draw(st.sampled_from([None] + FAMILIES[family]))
    return {'kind': 'single', 'blocks': gen.assemble(items, 1), 'drop': drop,
            'cut': 0, 'form': draw(gen.any_form),
            'name': draw(st.sampled_from(['T1.FEM', 'R1.SIF', 'L1.FEM']))}


@st.composite
def histories(draw):
    family = draw(st.sampled_from([None, None, None] + sorted(FAMILIES)))
    one = relatives(family) if family else sources()
    srcs = draw(st.lists(one, min_size=2, max_size=4))
    n = len(srcs)
    step = st.fixed_dictionaries({
        'src': st.integers(0, n - 1),
        'target': st.sampled_from(['a.h5', 'a.h5', 'a.h5', 'b.h5', 'sub/c.h5',
                                   None, 'memory']),
        'append': st.sampled_from([True, True, False]),
        'prefix': st.sampled_from(['', '', 'p_', 'q', 'R_', 'zz']),
        'usefileprefix': st.sampled_from([True, True, False]),
        'only': st.one_of(st.none(), st.none(), st.none(), gen.seeds),
        'also': st.one_of(st.none(), st.none(), st.none(),
                          st.lists(st.integers(0, n - 1), min_size=0,
                                   max_size=2)),
        'prefixes': st.sampled_from(['same', 'list', 'none']),
        'interrupt': st.one_of(st.none(), st.none(), st.none(),
                               st.integers(1, 12)),
    })
    return {'sources': srcs,
            'steps': draw(st.lists(step, min_size=2, max_size=8))}


def only_list(srcs, seed):
    recs = set()
    for src in srcs:
        recs |= {b['rec'] for b in src['blocks']} \
            if src['kind'] == 'single' else {
                'HIERARCH', 'HSUPTRAN', 'GCOORD', 'GNODE', 'TDLOAD',
                'GELMNT1', 'GBEAMG', 'GBOX', 'RDRESREF', 'RVNODDIS'}
    rnd = random.Random('only/%s' % seed)
    # dependencies are left out now and then: then it must always fail
    only = [r for r in sorted(recs) if rnd.random() < 0.7]
    return sorted(set(only) | {'IDENT'})


ALL = set(gen.ALL_RECS) | {'IDENT', 'HIERARCH', 'HSUPTRAN', 'DATE', 'TEXT',
                           'GCOORD', 'GNODE', 'IEND'}


class Interrupt(KeyboardInterrupt):
    pass


class Only(list):
    """All record types; the user gives up at the n-th one asked for."""

    def __init__(self, n):
        super(Only, self).__init__(sorted(ALL))
        self.n = n

    def __contains__(self, name):
        self.n -= 1
        if self.n <= 0:
            raise Interrupt()
        return super(Only, self).__contains__(name)


def interrupted(case, dirs, step, m, lab):
    """A conversion that is stopped from outside on its way."""
    import freesif as fs
    src, path = case['sources'][step['src']], dirs[step['src']]
    if src['kind'] in ('bad name', 'missing'):
        return
    memory = step['target'] == 'memory'
    t = step['target'] or os.path.basename(path)[:-3] + 'h5'
    append = step['append'] and step['target'] is not None
    if not memory:
        if append and t in m.files:
            m.dirty.setdefault(t, set()).update(
                possible_tops(src, path, step['prefix']))
        else:
            m.files[t] = {}
            m.dirty[t] = {'*'}
    try:
        f = fs.sif2hdf5(path, step['target'], append, only=Only(
            step['interrupt']), prefix=step['prefix'], in_memory=memory,
            usefileprefix=step['usefileprefix'])
        if memory:
            f.close()
    except Interrupt:
        lab.add('interrupted')
    except Exception:
        pass
    compare(m, t)


# ---- running a history ----------------------------------------------------

class Model(object):
    """What each target must hold. A group listed in `dirty` was left behind
    by a failed conversion."""

    def __init__(self):
        self.files = {}
        self.dirty = {}


def run(case, ctx):
    ready()
    dirs = []
    for i, src in enumerate(case['sources']):
        d = 'src%d' % i
        os.makedirs(d)
        fs = source_files(src)
        for n, b in fs:
            with open(os.path.join(d, n), 'wb') as f:
                f.write(b)
        dirs.append(os.path.join(d, fs[0][0] if fs else src['name']))
    os.makedirs('sub')
    m = Model()
    ok_sources, failed, recovered = set(), False, False
    lab = set()
    for step in case['steps']:
        names = [step['src']] + (step['also'] or [])
        if step['interrupt']:
            interrupted(case, dirs, step, m, lab)
            failed = True
        outcome = do_step(case, dirs, names, step, m, lab)
        if outcome == 'ok':
            ok_sources.update(names)
            recovered = recovered or failed
        elif outcome == 'err':
            failed = True
        compare(m, step['target'])
    for t in list(m.files):
        compare(m, t)
    if len(ok_sources) >= 2 or recovered:
        lab.add('nt')
    return lab


def compare(m, target):
    if target not in m.files:
        return
    want = m.files[target]
    dirty = m.dirty.get(target, set())
    got = sif.snapshot(target)
    got.pop('/', None)

    def is_dirty(g):
        return '*' in dirty or g.split('/')[1] in dirty
    for g in list(got):
        if g not in want and is_dirty(g):
            del got[g]
    R.compare_snapshots(want, got, '%s: expected/found: ' % target)


def reference(dirs, i, prefix, step, only):
    return fresh.call({'cwd': os.getcwd(), 'name': dirs[i],
                       'prefix': prefix, 'only': only,
                       'usefileprefix': step['usefileprefix']})


def do_step(case, dirs, srcs, step, m, lab):
    import freesif as fs
    is_list = step['also'] is not None
    target, append = step['target'], step['append']
    if is_list and target == 'memory':
        target = 'a.h5'
    if target is None:
        append = False
    if step['prefixes'] == 'same' or not is_list:
        prefixes = [step['prefix']] * len(srcs)
        prefix_arg = step['prefix']
    elif step['prefixes'] == 'none':
        prefixes = [''] * len(srcs)
        prefix_arg = ''
    else:
        prefixes = [step['prefix'] + chr(97 + k) for k in range(len(srcs))]
        prefix_arg = list(prefixes)
    refs = []
    only = None
    if step['only'] is not None:    # one selection for all sources
        only = only_list([case['sources'][i] for i in srcs], step['only'])
    for i, p in zip(srcs, prefixes):
        ref = reference(dirs, i, p, step, only)
        if ref[0] == 'ok':
            check_names(case['sources'][i], dirs[i], p, step, ref[1])
        refs.append(ref)
    kw = dict(prefix=prefix_arg, usefileprefix=step['usefileprefix'],
              only=only)

    if target == 'memory':
        before = listing()
        try:
            f = fs.sif2hdf5(dirs[srcs[0]], in_memory=True, **kw)
            res = ('ok', R.snapshot(f))
            f.close()
        except Exception as e:
            res = ('err', type(e).__name__)
        if listing() != before:
            raise Violation('an in-memory conversion changed files: %s' % (
                sorted(set(listing()) ^ set(before))))
        same(refs[0], res, 'in memory %s' % dirs[srcs[0]])
        lab.add('in memory')
        return res[0]

    # what must be there afterwards
    plan = []
    outcome = 'ok'
    sim = {}
    for k, (i, ref) in enumerate(zip(srcs, refs)):
        t = target if target is not None else \
            os.path.basename(dirs[i])[:-3] + 'h5'
        app = append or (is_list and target is not None and k > 0)
        new = set(ref[1]) - {'/'} if ref[0] == 'ok' else set()
        tops = {g.split('/')[1] for g in new}
        dirty = m.dirty.get(t, set())
        if app and ref[0] == 'ok' and ('*' in dirty or dirty & tops):
            # a failed conversion may have left such a group behind
            return 'skipped'
        there = sim.setdefault(t, set(m.files.get(t, {})))
        clash = app and bool(there & new)
        plan.append((t, app, ref, clash))
        if ref[0] == 'err' or clash:
            outcome = 'err'
            break
        if not app:
            there.clear()
        there |= new

    arg = [dirs[i] for i in srcs] if is_list else dirs[srcs[0]]
    if is_list and step['prefix'] == 'q':
        arg = tuple(arg)
    before = listing()
    try:
        ret = fs.sif2hdf5(arg, target, append, **kw)
        res = 'ok'
    except Exception as e:
        res, ret = 'err', e
    if res != outcome:
        raise Violation('conversion of %s into %s (append %s) %s, but in a '
                        'new process it %s' % (
                            arg, target, append,
                            'failed with %s: %s' % (type(ret).__name__, ret)
                            if res == 'err' else 'succeeded',
                            'succeeds' if outcome == 'ok' else
                            'fails (%s)' % (plan[-1][2][1]
                                            if plan[-1][2][0] == 'err' else
                                            'group exists')))
    if res == 'ok':
        want = None if is_list else os.path.abspath(plan[0][0])
        if ret != want:
            raise Violation('returned %r, expected %r' % (ret, want))
    for k, (t, app, ref, clash) in enumerate(plan):
        src = case['sources'][srcs[k]]
        if clash:
            lab.add('append to existing group')
            continue
        if ref[0] == 'err':
            lab.add('failed: ' + ref[1])
            if src['kind'] in ('bad name', 'missing'):
                continue        # refused before the target is opened
            if app and t in m.files:
                m.dirty.setdefault(t, set()).update(
                    possible_tops(src, dirs[srcs[k]], prefixes[k]))
            else:
                m.files[t] = {}
                m.dirty[t] = {'*'}
            continue
        new = {g: v for g, v in ref[1].items() if g != '/'}
        if app:
            lab.add('append')
            m.files.setdefault(t, {}).update(new)
        else:
            m.files[t] = new
            m.dirty.pop(t, None)
    if is_list:
        lab.add('list of files')
    if step['only'] is not None:
        lab.add('selection for a list' if is_list and len(set(srcs)) > 1
                else 'selection')
    touched = {os.path.normpath(p[0]) for p in plan}
    gone = {n for n, _ in before} - {n for n, _ in listing()}
    if gone:
        raise Violation('files disappeared: %s' % sorted(gone))
    extra = {n for n, _ in listing()} - {n for n, _ in before} - touched
    if extra:
        raise Violation('unexpected files were written: %s' % sorted(extra))
    return res


def check_names(src, path, prefix, step, groups):
    if step['usefileprefix']:
        prefix += file_prefix(path)
    letter = os.path.basename(path)[len(file_prefix(path))].upper()
    want = {prefix + letter + str(n) for n in numbers(src)}
    tops = {g.split('/')[1] for g in groups if g != '/'}
    if not tops <= want:
        raise Violation('%s with prefix %r is in the groups %s, expected '
                        'one of %s' % (path, step['prefix'], sorted(tops),
                                       sorted(want)))


def possible_tops(src, path, prefix):
    """Top groups a failed conversion may have begun to write."""
    return {prefix + fp + letter + str(n)
            for fp in (file_prefix(path), '')
            for letter in 'TRLG' for n in numbers(src)}


def file_prefix(path):
    import re
    return re.match(r'(?i)([\w-]*?)[rtlg][1-9]\d*(h\d+)?\.',
                    os.path.basename(path)).group(1)


def numbers(src):
    if src['kind'] == 'hier':
        return [src['case']['tree']['rows'][0][1]]
    out = []
    for b in src['blocks']:
        if b['rec'] == 'IDENT':
            out.append(int(b['rows'][0][1]))
        elif b['rec'] == 'HIERARCH':
            out.append(int(b['rows'][0][2]))
    return out


def listing():
    out = []
    for d, _, fs in os.walk('.'):
        for n in fs:
            p = os.path.normpath(os.path.join(d, n))
            out.append((p, os.path.getsize(p)))
    return sorted(out)


def same(ref, res, what):
    if ref[0] != res[0]:
        raise Violation('%s: %s here, %s in a new process' % (
            what, res if res[0] == 'err' else 'succeeds',
            ref if ref[0] == 'err' else 'succeeds'))
    if ref[0] == 'ok':
        R.compare_snapshots(ref[1], res[1], '%s: new process/here: ' % what)


FACETS = [Facet('histories', lambda tier: histories(), run, 36, 2500,
                timeout=120)]
