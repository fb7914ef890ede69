"""Shared machinery of the checks: environment, case running, shards.

A property module (props/cXX.py) provides

    TITLE    text for the evidence rule
    RULE     how cases are made and what makes one non-trivial
    FACETS   list of Facet

and a Facet has a Hypothesis strategy making JSON-able cases and a function
that runs one case against the code in /repo and an independent oracle.
`run(case, ctx)` raises on a violation and returns a set of labels; the case
is non-trivial if 'nt' is among them.
"""
import contextlib
import hashlib
import io
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

REPO = os.environ.get('FREESIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def setup_path():
    os.environ.setdefault('HYPOTHESIS_NO_PLUGINS', '1')
    sys.dont_write_bytecode = True
    here = os.path.dirname(os.path.abspath(__file__))
    if here not in sys.path:
        sys.path.insert(0, here)
    sys.path.insert(0, REPO)
    if VT_SITE not in sys.path:
        sys.path.append(VT_SITE)
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    import freesif
    if not os.path.realpath(freesif.__file__).startswith(
            os.path.realpath(REPO) + os.sep):
        raise SystemExit('freesif is not imported from %s' % REPO)


class Violation(Exception):
    """The property does not hold for this case."""


class CaseTimeout(BaseException):
    """Not an Exception: a case that expects errors must not catch it."""


class Facet(object):
    def __init__(self, name, strategy, run, quick, thorough=None, fixed=None,
                 timeout=60):
        """strategy: callable tier -> Hypothesis strategy (or None)
        quick/thorough: examples per shard
        fixed: callable tier -> list of cases that are run once (split over
        the shards)"""
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 10
        self.fixed = fixed
        self.timeout = timeout


class Ctx(object):
    """Scratch directory and process state of one case."""

    def __init__(self, root):
        self.root = root
        self.n = 0

    def new_dir(self):
        self.n += 1
        d = os.path.join(self.root, 'c%d' % self.n)
        os.makedirs(d)
        return d


def _alarm(signum, frame):
    raise CaseTimeout('the case did not finish in time')


@contextlib.contextmanager
def quiet():
    out, err = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = out, err


def close_everything():
    import tables
    import freesif.data.file as ff
    try:
        ff.close_all_files()
    except Exception:
        pass
    for h in list(tables.file._open_files.handlers):
        try:
            h.close()
        except Exception:
            pass
    try:
        ff._open_files.clear()
    except Exception:
        pass


def run_case(facet, case, root, timeout=None):
    """-> (labels, None) or (None, message). Harness trouble propagates."""
    d = tempfile.mkdtemp(dir=root)
    cwd = os.getcwd()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout or facet.timeout, 10)
    try:
        os.chdir(d)
        try:
            with quiet(), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                labels = facet.run(case, Ctx(d))
            return set(labels or ()), None
        except (KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except OSError as e:
            if e.errno in (28, 24):     # no space, too many files
                raise
            return None, describe(e)
        except (Exception, CaseTimeout) as e:
            if type(e).__module__.startswith('hypothesis'):
                raise
            return None, describe(e)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        os.chdir(cwd)
        with quiet():
            close_everything()
        shutil.rmtree(d, ignore_errors=True)


def describe(e):
    from records import Mismatch
    if isinstance(e, (Violation, Mismatch)):
        return str(e)[:2000]
    tb = traceback.extract_tb(e.__traceback__)
    where = ''
    for f in tb:
        where = '%s:%d' % (os.path.relpath(f.filename, '/'), f.lineno)
    return ('%s: %s (at %s)' % (type(e).__name__, e, where))[:2000]


def digest(case):
    s = json.dumps(case, sort_keys=True, default=str)
    return hashlib.md5(s.encode()).hexdigest()[:16]


def short(case, n=1500):
    s = json.dumps(case, sort_keys=True, default=str)
    if len(s) <= n:
        return json.loads(s)
    return s[:n] + '... (%d characters)' % len(s)


def to_plain(x):
    """JSON-able copy of a case."""
    import numpy as np
    if isinstance(x, dict):
        return {str(k): to_plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [to_plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return to_plain(x.tolist())
    if isinstance(x, np.generic):
        return x.item()
    return x


class ShardStats(object):
    def __init__(self):
        self.evaluations = 0
        self.skipped = 0
        self.hashes = set()
        self.labels = {}
        self.samples = []
        self.facets = {}
        self.failure = None     # (facet name, case, message)

    def note(self, facet, case, labels):
        self.evaluations += 1
        f = self.facets.setdefault(facet.name, [0, 0])
        f[0] += 1
        for l in labels:
            if l != 'nt':
                self.labels[l] = self.labels.get(l, 0) + 1
        if 'nt' in labels:
            h = facet.name + digest(case)
            if h not in self.hashes:
                self.hashes.add(h)
                f[1] += 1
                if f[1] in (1, 5):
                    self.samples.append({'facet': facet.name,
                                         'case': short(case)})

    def as_dict(self):
        return dict(evaluations=self.evaluations, skipped=self.skipped,
                    hashes=sorted(self.hashes), labels=self.labels,
                    samples=self.samples, facets=self.facets,
                    failure=self.failure)


def make_body(facet, state, stats, t_end, root):
    def body(case):
        if state['fail'] is None and time.time() > t_end:
            stats.skipped += 1
            return
        case = to_plain(case)
        labels, msg = run_case(facet, case, root)
        if msg is not None:
            if state['fail'] is None:
                stats.evaluations += 1
            state['fail'] = (facet.name, case, msg)
            raise Violation(msg)
        if state['fail'] is None:
            stats.note(facet, case, labels)
    return body


# Examples within a round resemble each other; another round starts afresh.
ROUNDS = {'quick': 2, 'thorough': 1}


def one_round(facet, tier, body, n, seed, state):
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    test = settings(
        max_examples=n, deadline=None, database=None,
        phases=((Phase.generate,) if os.environ.get('PBT_NOSHRINK')
                else (Phase.generate, Phase.shrink)),
        suppress_health_check=list(HealthCheck), print_blob=False,
        report_multiple_bugs=False, verbosity=hypothesis.Verbosity.quiet,
    )(hypothesis.seed(seed)(given(facet.strategy(tier))(body)))
    try:
        test()
    except BaseException as e:
        if state['fail'] is None:
            raise
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise


def run_shard(module, tier, seed, shard, nshards, root, budget):
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = 25
    stats = ShardStats()
    t_end = time.time() + budget

    for facet in module.FACETS:
        if facet.fixed is not None:
            for i, case in enumerate(facet.fixed(tier)):
                if i % nshards != shard:
                    continue
                if time.time() > t_end:
                    stats.skipped += 1
                    continue
                labels, msg = run_case(facet, case, root, 280)
                if msg is not None:
                    stats.evaluations += 1
                    stats.failure = (facet.name, case, msg)
                    return stats
                stats.note(facet, case, labels)
        n = facet.quick if tier == 'quick' else facet.thorough
        if facet.strategy is None or not n:
            continue
        state = {'fail': None}
        body = make_body(facet, state, stats, t_end, root)
        fid = int(hashlib.md5(facet.name.encode()).hexdigest()[:6], 16)
        for k in range(ROUNDS[tier]):
            one_round(facet, tier, body, n,
                      (seed * 1000003 + shard + 5000 * k) * 16777216 + fid,
                      state)
            if state['fail'] is not None:
                break
        if state['fail'] is not None:
            stats.failure = state['fail']
            return stats
    return stats
