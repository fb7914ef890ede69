"""Open files behave as dictionaries and closed ones refuse, in any order."""
import os
import random

from hypothesis import strategies as st

import answers
import gen
import sources
from core import Facet, Violation

RULE = ('histories of up to 20 operations over 2-3 (thorough 4) sources (structural '
        'models, hydrodynamic results, T and R hierarchies, several in one '
        '.h5 file): open from .h5 (also the same file several times) or '
        'directly, from a PyTables file too, dictionary operations and iteration, text forms, data '
        'methods, failing to open, close, close through a data object, close '
        'again, close all. After every operation all handles ever opened are '
        'looked at: open ones must hold their datasets and give the answers '
        'a single newly opened file gave, closed ones must raise '
        'ClosedFileError everywhere. Non-trivial: at least two files open at '
        'once, one of them used after another was closed.')
ASSUMPTIONS = ['files opened directly at the same time have different names']


class Handle(object):
    def __init__(self, f, keys, calls):
        self.f, self.keys, self.calls = f, keys, calls
        self.data = {}
        self.open = True


class History(object):
    def __init__(self, case):
        import freesif as fs
        self.fs = fs
        self.rnd = random.Random('history/%s' % case['seed'])
        self.src = []
        self.h5 = []        # (path, keys, calls)
        for i, s in enumerate(case['sources']):
            s = sources.Source(s, i)
            s.path = s.write('d%d' % i)
            self.src.append(s)
            name = ['d%d.h5', 'd%d.hdf5', 'h5.d%d', 'T1.FEM_%d'][
                case['seed'] % 4 if i else 0] % i
            fs.sif2hdf5(s.path, name)
            self.h5.append((name, s.keys, s.calls))
        if case['together']:
            fs.sif2hdf5([s.path for s in self.src], 'all.h5')
            calls = {}
            for s in self.src:
                calls.update(s.calls)
            self.h5.append(('all.h5', set(calls), calls))
        self.handles = []
        self.known = {}     # (dataset, call) -> answer
        self.lab = set()
        self.most = 0
        self.bytes = {path: content(path) for path, _, _ in self.h5}
        for path, keys, calls in self.h5:
            f = fs.open_hdf5(path)
            for k in calls:
                for c in calls[k]:
                    a = answers.answer(f[k], c)
                    old = self.known.setdefault((k, repr(c)), a)
                    if a != old:
                        raise Violation('%s of %s differs in %s' % (
                            answers.show(c), k, path))
            f.close()

    def unchanged(self):
        for path, b in self.bytes.items():
            if content(path) != b:
                raise Violation('%s was changed by reading it' % path)

    # ---- looking at handles ------------------------------------------------
    def look(self, h, full):
        if h.open:
            self.look_open(h, full)
        else:
            self.look_closed(h, full)

    def look_open(self, h, full):
        f = h.f
        if set(f.keys()) != h.keys or len(f.keys()) != len(h.keys):
            raise Violation('keys are %s, expected %s' % (
                sorted(f.keys()), sorted(h.keys)))
        for k in h.keys:
            h.data.setdefault(k, f[k])
        if not full:
            return
        for k in sorted(h.keys):
            if f[k] is not h.data[k] or f.get(k) is not h.data[k] or \
                    f.get(k, 0) is not h.data[k] or \
                    k not in f:
                raise Violation('dataset %s of an open file' % k)
        for k in ('nothing', '', sorted(h.keys)[0] + 'x'):
            if k in f or f.get(k) is not None or f.get(k, 7) != 7:
                raise Violation('dataset %r is not there' % k)
            for d in (0, '', False, [], (), object(), k):
                if f.get(k, d) is not d or f.get(name=k, d=d) is not d:
                    raise Violation('get(%r, %r) gives %r' % (
                        k, d, f.get(k, d)))
            try:
                f[k]
            except KeyError:
                pass
            else:
                raise Violation('dataset %r is not there' % k)
        want = sorted(id(d) for d in h.data.values())
        for name, xs in (('iteration', iter(f)), ('values', f.values()),
                         ('second iteration', [d for d in f])):
            if sorted(id(d) for d in xs) != want:
                raise Violation('%s does not give the datasets' % name)
        if [f[k] for k in f.keys()] != list(f.values()) or \
                list(zip(f.keys(), f.values())) != list(f.items()):
            raise Violation('keys, values and items are in different orders')
        for k, d in h.data.items():
            if d.file is not f:
                raise Violation('%s does not belong to its file' % k)
        items = dict(f.items())
        if set(items) != h.keys or any(items[k] is not h.data[k]
                                       for k in items):
            raise Violation('items are %s' % sorted(items))

    def look_closed(self, h, full):
        from freesif.exceptions import ClosedFileError
        f = h.f
        k = sorted(h.keys)[0]
        tries = [('keys', f.keys), ('[]', lambda: f[k])]
        if full:
            tries += [('values', f.values), ('items', f.items),
                      ('get', lambda: f.get(k)),
                      ('get with default', lambda: f.get('nothing', 1)),
                      ('in', lambda: k in f),
                      ('[] of an unknown name', lambda: f['nothing']),
                      ('iteration', lambda: list(iter(f))),
                      ('for', lambda: [d for d in f])]
        for name, t in tries:
            refused('%s of a closed file' % name, t, ClosedFileError)
        for k, d in sorted(h.data.items()):
            cs = h.calls.get(k, [])
            for c in cs if full else cs[:2]:
                refused('%s of %s after closing' % (answers.show(c), k),
                        lambda: getattr(d, c[0])(*c[1], **c[2]),
                        ClosedFileError)

    def look_all(self):
        for h in self.handles:
            self.look(h, False)

    # ---- operations -------------------------------------------------------
    def pick(self, op):
        return self.handles[op['h'] % len(self.handles)] if self.handles \
            else None

    def do_open(self, op):
        path, keys, calls = self.h5[op['h'] % len(self.h5)]
        if any(h.open and h.path == path for h in self.handles):
            self.lab.add('the same file twice')
        if op['n'] == 4:
            f = self.fs.File(path)
        elif op['n'] == 5:      # of a file opened with PyTables
            import tables as tb
            f = self.fs.File(tb.open_file(path))
            self.lab.add('tables.File')
        else:
            f = self.fs.open_hdf5(os.path.abspath(path) if op['n'] % 2
                                  else path)
        if f.filename != path:
            raise Violation('%s opened as %s' % (path, f.filename))
        self.add(f, keys, calls, path)

    def do_direct(self, op):
        i = op['h'] % len(self.src)
        s = self.src[i]
        if any(h.open and h.path == i for h in self.handles):
            return
        if op['n'] % 3 == 2:
            f = self.fs.File(self.fs.sif2hdf5(s.path, in_memory=True))
            d = f[s.top]
            self.lab.add('tables.File')
        else:
            d = self.fs.open_sif(s.path)
            f = d.file
        self.add(f, s.keys, s.calls, i)
        if f[s.top] is not d:
            raise Violation('open_sif gives another dataset than %s' % s.top)
        self.lab.add('direct')

    def add(self, f, keys, calls, path):
        h = Handle(f, keys, calls)
        h.path = path
        self.handles.append(h)
        self.look(h, True)
        self.most = max(self.most, sum(h.open for h in self.handles))

    def do_fail(self, op):
        """Opening something that is no such file."""
        with open('bad.h5', 'wb') as f:
            f.write(b'no file of this kind')
        for call in (lambda: self.fs.open_hdf5('none.h5'),
                     lambda: self.fs.open_hdf5('bad.h5'),
                     lambda: self.fs.open_sif('d0/T99.FEM'),
                     lambda: self.fs.open_sif('d0/none')):
            try:
                call()
            except Exception:
                continue
            raise Violation('opened a file that does not exist')
        self.lab.add('failed')

    def do_look(self, op):
        h = self.pick(op)
        if h:
            self.look(h, True)
            self.used(h)

    def used(self, h):
        if h.open and self.most > 1 and any(not x.open
                                            for x in self.handles):
            self.lab.add('nt')

    def do_text(self, op):
        h = self.pick(op)
        if not h:
            return
        s, r = str(h.f), repr(h.f)
        for k in h.keys if h.open else ():
            if k not in s:
                raise Violation('%s is not in %r' % (k, s))
            if k.split('/')[-1] not in r:
                raise Violation('%s is not in %r' % (k, r))
        if h.open and not len(h.keys) == len(s.splitlines()) == \
                len(r.splitlines()):
            raise Violation('text forms %r, %r of %s' % (s, r, h.keys))
        for k, d in h.data.items():
            a, b = str(d), repr(d)
            if ('losed' in a, 'losed' in b) != (not h.open, not h.open):
                raise Violation('text forms %r, %r' % (a, b))
        if ('losed' in s, 'losed' in r) != (not h.open, not h.open):
            raise Violation('text forms %r, %r' % (s, r))
        self.lab.add('text, ' + ('open' if h.open else 'closed'))

    def do_read(self, op):
        h = self.pick(op)
        if not h:
            return
        if not h.open:
            return self.look(h, True)
        self.used(h)
        for k, d in sorted(h.data.items()):
            cs = h.calls.get(k, [])
            for c in cs[op['n'] % 3::3]:
                a = answers.answer(d, c)
                if a != self.known[k, repr(c)]:
                    raise Violation('%s of %s gives %s, in a file opened '
                                    'alone %s' % (
                                        answers.show(c), k, str(a)[:300],
                                        str(self.known[k, repr(c)])[:300]))

    def do_close(self, op):
        h = self.pick(op)
        if h:
            if not h.open:
                self.lab.add('closed again')
            h.f.close()
            h.open = False

    def do_through(self, op):
        h = self.pick(op)
        if h:
            ds = [d for k, d in sorted(h.data.items())]
            ds[op['n'] % len(ds)].close()
            if h.open:
                self.lab.add('closed through data')
            h.open = False

    def do_all(self, op):
        from freesif.data.file import close_all_files
        close_all_files()
        if sum(h.open for h in self.handles) > 1:
            self.lab.add('closed all')
        for h in self.handles:
            h.open = False


def refused(what, call, error):
    try:
        got = call()
    except error:
        return
    except Exception as e:
        raise Violation('%s raises %s: %s' % (what, type(e).__name__, e))
    raise Violation('%s gives %s' % (what, repr(got)[:200]))


def content(path):
    with open(path, 'rb') as f:
        return f.read()


def run(case, ctx):
    h = History(case)
    for op in case['ops']:
        getattr(h, 'do_' + op['op'])(op)
        h.look_all()
    for x in h.handles:
        h.look(x, True)
    h.do_all({})
    for x in h.handles:
        h.look(x, True)
    import tables as tb
    left = [x.filename for x in tb.file._open_files.handlers]
    if left:
        raise Violation('still open: %s' % left)
    h.unchanged()
    return h.lab


OPS = ['open', 'open', 'open', 'direct', 'direct', 'look', 'look', 'text',
       'text', 'read', 'read', 'read', 'close', 'close', 'through', 'all',
       'fail']
op = st.fixed_dictionaries({'op': st.sampled_from(OPS),
                            'h': st.integers(0, 7), 'n': st.integers(0, 5)})


@st.composite
def cases(draw, tier):
    big = tier == 'thorough'
    ops = [{'op': draw(st.sampled_from(['open', 'direct'])),
            'h': draw(st.integers(0, 3)), 'n': 0}
           for _ in range(draw(st.integers(1, 4)))]
    # a few groups of operations on any handles
    for _ in range(draw(st.integers(2, 6 if big else 4))):
        ops += draw(st.lists(op, min_size=2, max_size=4))
    srcs = draw(st.lists(sources.sources(), min_size=2,
                         max_size=4 if big else 3))
    if draw(st.booleans()):     # names differ in the prefix only
        for s in srcs[1:]:
            if s['kind'] == srcs[0]['kind'] == 'model':
                s['letter'], s['ext'] = srcs[0]['letter'], srcs[0]['ext']
    return {'seed': draw(gen.seeds), 'together': draw(st.booleans()),
            'sources': srcs, 'ops': ops}


FACETS = [Facet('histories', cases, run, 30, 3000, timeout=120)]
