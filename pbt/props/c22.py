"""What is not there is refused, and a refused request changes nothing."""
import os
import random
import shutil

import numpy as np
from hypothesis import strategies as st

import answers
import gen
import hier
import hydro
import models
import records as R
import sif
import sources
from core import Facet, Violation
from props import c06

RULE = ('random models with results and random hydrodynamic results, from '
        'which some record types may be missing; a series of requests, each '
        'with exactly one thing wrong (a result type, kind, unit, number type '
        'or matrix type that does not exist, spelled nearly like an existing '
        'one; a set, result case, run or body that is not on the file, alone '
        'or together with existing ones; records that are not on the file; '
        'results of the other domain; a result case without (or with fewer) '
        'results of the type; a matrix of another shape; a missing '
        'dataset; real and complex results in one request; matrices that are '
        'not on the file; levels, strings, indices and superelements that '
        'are not in the hierarchy of random superelement trees), mixed with legal ones whose answers must be the same '
        'before and after; conversions and openings of files that do not '
        'exist or have no legal name, with and without an existing target. '
        'Every wrong request must raise, of the class documented for it, and '
        'the files on disk must be as before. Non-trivial: at least three '
        'refused requests and one legal one.')
ASSUMPTIONS = ['a request has one thing wrong at a time',
               'set names are not compared in trailing blanks']

WRONG = {
    'noderesult': ['displacements', 'Displacement', 'DISPLACEMENT',
                   'displace', 'reaction', 'generalstress', 'beamforce', '',
                   'velocity ', None, 1],
    'elementresult': ['stress', 'GeneralStress', 'generalstresses',
                      'beamforces', 'beamstress', 'displacement', '', None,
                      'decomposed', 2],
    'kind': ['beams', 'shells', 'Beam', 'SHELL', 'plate', 'solid', 'all',
             'beam ', 3],
    'numbertype': ['Internal', 'EXTERNAL', 'int', 'ext', '', None, 'intern',
                   0],
    'fluid': ['elevations', 'Pressure', 'velocities', '', None, 'acceleration',
              'p'],
    'unit': ['deg', 'rad', 'Degrees', 'RADIANS', '', None, 'degree'],
    'mtyp': [0, 1, 2, 10, 13, 23, 33, 41, 110, -11, 111],
}


def expect(what, call, classes, before=None):
    """The call must raise one of the classes."""
    try:
        r = call()
    except classes:
        return
    except Exception as e:
        raise Violation('%s raised %s: %s, not %s' % (
            what, type(e).__name__, e,
            '/'.join(c.__name__ for c in classes)))
    raise Violation('%s was answered: %r' % (what, str(r)[:80]))


def near(names, rnd):
    """A name that is not among the names, but like one."""
    have = {n.strip() for n in names}
    out = ['no such set', 'x', '*', '0', 'name']
    for n in names:
        out += [n + 'x', n[:-1], 'x' + n, n[1:], n.swapcase(), n * 2]
    out = [n for n in out if n.strip() and n.strip() not in have and
           len(n) < 80]
    return rnd.choice(out)


# --------------------------------------------------------------------------
# structural data
# --------------------------------------------------------------------------

NEEDS = {       # record type -> calls that cannot do without it
    'GNODE': [('get_nodenumbers', (), {})],
    'GCOORD': [('get_nodes', (), {})],
    'GELMNT1': [('get_elements', (), {}), ('get_elementnumbers', (), {})],
    'GELREF1': [('get_section_properties', (), {}),
                ('get_shell_thicknesses', (), {})],
    'GBEAMG': [('get_section_properties', (), {})],
    'GELTH': [('get_shell_thicknesses', (), {})],
    'RDRESREF': [('get_noderesults', ('displacement',), {}),
                 ('get_elementresults', ('beamforce',), {}),
                 ('get_elementresults', ('generalstress',), {})],
    'RVNODDIS': [('get_noderesults', ('displacement',), {})],
    'RVNODVEL': [('get_noderesults', ('velocity',), {})],
    'RVNODACC': [('get_noderesults', ('acceleration',), {})],
    'RVFORCES': [('get_elementresults', ('beamforce',), {})],
    'RVSTRESS': [('get_elementresults', ('generalstress',), {}),
                 ('get_elementresults', ('decomposedstress',), {})],
    'TDLOAD': [('get_resultcase_names', (), {})],
}


def gone(missing):
    """Results are read with the references to their cases, element
    references with the elements."""
    out = set(missing)
    if 'GELMNT1' in out:
        out.add('GELREF1')
    if 'RDRESREF' in out:
        out |= {r for r in NEEDS if r.startswith('RV')}
    return out


class Wanted(object):
    """A model without the records of some types."""

    def __init__(self, m, missing, bare=None):
        self.m, self.missing, self.bare = m, missing, bare
        self.c = m.c

    def blocks(self):
        out = [b for b in self.m.blocks() if b['rec'] not in self.missing]
        if self.bare is None:
            return out
        rec, k, part = self.bare
        out = [dict(b, rows=list(b['rows'])) if b['rec'] == rec else b
               for b in out]
        mine = [(b, r) for b in out if b['rec'] == rec for r in b['rows']
                if r[1] == k['ires']]
        for b, r in mine[:1] if part else mine:
            b['rows'] = [x for x in b['rows'] if x is not r]
        return [b for b in out if b.get('rows') != []]


RESULTS = {'RVNODDIS': ('get_noderesults', ['displacement']),
           'RVNODVEL': ('get_noderesults', ['velocity']),
           'RVNODACC': ('get_noderesults', ['acceleration']),
           'RVFORCES': ('get_elementresults', ['beamforce']),
           'RVSTRESS': ('get_elementresults', ['generalstress',
                                               'decomposedstress'])}


def make_bare(m, has, rnd):
    """A result case without results of some type (or with fewer than the
    other cases): (record type, case, whether only fewer), or None."""
    recs = sorted(set(RESULTS) & has)
    sh = {m.elements[i]['type'] for i in m.selected(None, 'shell')}
    if not (sh <= {24, 25} or sh <= {26, 28}):
        recs = [r for r in recs if r != 'RVSTRESS']
    if len(m.cases) < 2 or not recs or 'RDRESREF' not in has:
        return None
    if not {'GELMNT1', 'GCOORD', 'GNODE'} <= has:
        return None
    return (rnd.choice(recs), rnd.choice(m.cases), rnd.randrange(3) == 0)


def wrong_bare(m, bare, rnd):
    rec, k, part = bare
    like = [c['ext'] for c in m.cases if c is not k and
            c['run'] == k['run'] and bool(c['cplx']) == bool(k['cplx'])]
    if part and not like:
        return None
    name, types = RESULTS[rec]
    arg = [k['ext']] + (rnd.sample(like, rnd.randrange(
        1 if part else 0, len(like) + 1)))
    rnd.shuffle(arg)
    if len(arg) == 1 and rnd.randrange(2):
        arg = arg[0]
    else:
        arg = rnd.choice([list, tuple, np.array])(arg)
    kw = {'run': k['run'], 'rescases': arg}
    if rnd.randrange(3) == 0 and all(
            bool(c['cplx']) == bool(k['cplx']) for c in m.cases
            if c['run'] == k['run']):
        del kw['rescases']
    return name, (rnd.choice(types),), kw


def wrong_struct(m, has, rnd):
    """(text, name, args, kw, exception classes) of one wrong request, or
    None."""
    from freesif.exceptions import (ConditionError, NoSuchRecordError,
                                    ResultError, HierarchyError)
    nodes_ok = 'GELMNT1' in has and 'GCOORD' in has and 'GNODE' in has
    runs = {c['run'] for c in m.cases}
    cases = {r: [c['ext'] for c in m.cases if c['run'] == r] for r in runs}
    # one run whose cases can be asked for together
    plain = [r for r in runs if len({c['cplx'] for c in m.cases
                                     if c['run'] == r}) == 1]
    run = rnd.choice(sorted(plain)) if plain else None
    results = []
    if run is not None and 'RDRESREF' in has and nodes_ok:
        for rec, t in (('RVNODDIS', 'displacement'),
                       ('RVNODVEL', 'velocity'),
                       ('RVNODACC', 'acceleration')):
            if rec in has:
                results.append(('get_noderesults', (t,), {'run': run}))
        if 'RVFORCES' in has and m.selected(None, 'beam'):
            results.append(('get_elementresults', ('beamforce',),
                            {'run': run}))
        sh = {m.elements[i]['type'] for i in m.selected(None, 'shell')}
        if 'RVSTRESS' in has and sh and (sh <= {24, 25} or sh <= {26, 28}):
            for t in ('generalstress', 'decomposedstress'):
                results.append(('get_elementresults', (t,), {'run': run}))
    geometry = [('get_nodes', (), {}), ('get_elements', (), {}),
                ('get_nodenumbers', (), {}), ('get_elementnumbers', (), {})]
    what = rnd.choice(['records', 'restype', 'kind', 'numbertype', 'set',
                       'set', 'case', 'case', 'run', 'trans', 'mixed'])
    if what == 'mixed':     # real and complex results in one answer
        mixed = sorted(runs - set(plain))
        if not mixed or 'RDRESREF' not in has or not nodes_ok:
            return None
        r = rnd.choice(mixed)
        pool = [('get_noderesults', (t,)) for rec, t in (
            ('RVNODDIS', 'displacement'), ('RVNODVEL', 'velocity'),
            ('RVNODACC', 'acceleration')) if rec in has]
        if 'RVFORCES' in has and m.selected(None, 'beam'):
            pool.append(('get_elementresults', ('beamforce',)))
        sh = {m.elements[i]['type'] for i in m.selected(None, 'shell')}
        if 'RVSTRESS' in has and sh and (sh <= {24, 25} or sh <= {26, 28}):
            pool.append(('get_elementresults', (rnd.choice(
                ['generalstress', 'decomposedstress']),)))
        if not pool:
            return None
        name, args = rnd.choice(pool)
        kw = {'run': r}
        if rnd.randrange(3):
            of = [[c['ext'] for c in m.cases if c['run'] == r and
                   bool(c['cplx']) == k] for k in (False, True)]
            arg = [x for k in of for x in rnd.sample(k, rnd.randrange(
                1, len(k) + 1))]
            rnd.shuffle(arg)
            kw['rescases'] = rnd.choice([list, tuple, np.array])(arg)
        return what, name, args, kw, (ResultError,)
    if what == 'records':
        gone = [r for r in sorted(NEEDS) if r not in has]
        if not gone:
            return None
        name, args, kw = rnd.choice(NEEDS[rnd.choice(gone)])
        if run is not None and name.endswith('results'):
            kw = dict(kw, run=run)
        return what, name, args, kw, (NoSuchRecordError,)
    if what == 'restype':
        f = rnd.choice(['node', 'element'])
        return (what, 'get_%sresults' % f,
                (rnd.choice(WRONG[f + 'result']),),
                {'run': run} if run is not None else {}, (ValueError,))
    if what == 'kind':
        if not nodes_ok:
            return None
        pool = geometry + [r for r in results if r[0] == 'get_noderesults']
        name, args, kw = rnd.choice(pool)
        return (what, name, args, dict(kw, kind=rnd.choice(WRONG['kind'])),
                (ValueError,))
    if what == 'numbertype':
        name = rnd.choice(['get_nodenumbers', 'get_elementnumbers'])
        if not nodes_ok:
            return None
        return (what, name, (), {'numbertype': rnd.choice(
            WRONG['numbertype'])}, (ValueError,))
    if what == 'set':
        if not nodes_ok:
            return None
        pool = geometry + results
        if {'GELREF1', 'GBEAMG'} <= has and m.selected(None, 'beam'):
            pool.append(('get_section_properties', (), {}))
        if {'GELREF1', 'GELTH'} <= has and m.selected(None, 'shell'):
            pool.append(('get_shell_thicknesses', (), {}))
        name, args, kw = rnd.choice(pool)
        s = near(m.setorder, rnd)
        k = rnd.randrange(3)
        if k and m.setorder:
            s = [s, rnd.choice(m.setorder)]
            if k == 2:
                s.reverse()
            if rnd.randrange(3) == 0:
                s = tuple(s)
        kw = dict(kw, sets=s)
        if {'TDSETNAM', 'GSETMEMB'} <= has:
            return what, name, args, kw, (ConditionError,)
        return what, name, args, kw, (NoSuchRecordError, ConditionError)
    if what in ('case', 'run'):
        if not results:
            return None
        name, args, kw = rnd.choice(results)
        kw = dict(kw)
        if what == 'run':
            kw['run'] = rnd.choice([r for r in (0, 3, 99, -1, 8, 70)
                                    if r not in runs])
            if rnd.randrange(2):
                kw['rescases'] = rnd.choice([
                    cases[run], cases[run][:1], cases[run][0]])
            # the class is not documented
            return what, name, args, kw, (Exception,)
        mine = cases[run]
        others = [c['ext'] for c in m.cases if c['run'] != run] + \
            [0, -1, 4711, max(mine) + 1, min(mine) - 1]
        others = [c for c in others if c not in mine]
        bad = rnd.choice(others)
        some = rnd.sample(mine, rnd.randrange(0, len(mine) + 1))
        k = rnd.randrange(5)
        if k == 0:
            arg = bad
        elif k == 1:
            arg = np.int64(bad)
        else:
            arg = some + [bad]
            rnd.shuffle(arg)
            arg = {2: list, 3: tuple, 4: np.array}[k](arg)
        kw['rescases'] = arg
        return what, name, args, kw, (ResultError,)
    if not nodes_ok:
        return None
    t = rnd.choice(SHAPES + [(3, 3), 'top', 'level', 'level'])
    if isinstance(t, tuple):
        return (what, 'get_nodes', (), {'trans': np.ones(t)}, (ValueError,))
    # the data belongs to no top level
    return (what, 'get_nodes', (), {'trans': 'top' if t == 'top' else
                                    rnd.choice([1, 2, np.int32(3)])},
            (HierarchyError,))


def run_struct(case, ctx):
    from freesif.exceptions import ResultError
    m = models.Model(case['model'])
    rnd = random.Random('wrong/%s' % case['model']['seed'])
    has = {b['rec'] for b in m.blocks()} - gone(case['missing'])
    bare = make_bare(m, has, rnd) if case['bare'] else None
    d, close = models.open_model(Wanted(m, gone(case['missing']), bare),
                                 case['letter'])
    lab = set()
    try:
        calls = answers.struct_calls(m, case['model']['seed'], 4)
        before = [answers.answer(d, c) for c in calls]
        n = 0
        for _ in range(case['n']):
            w = wrong_struct(m, has, rnd)
            if bare and rnd.randrange(3) == 0:
                w = wrong_bare(m, bare, rnd)
                if w is not None:
                    w = ('bare case',) + w + ((ResultError,),)
            if w is None:
                continue
            what, name, args, kw, classes = w
            expect(answers.show((name, args, kw)),
                   lambda: getattr(d, name)(*args, **kw), classes)
            lab.add(what)
            n += 1
            if rnd.randrange(3) == 0:
                check_same(d, calls, before)
        check_same(d, calls, before)
        if n >= 3 and any(b[0] == 'ok' for b in before):
            lab.add('nt')
    finally:
        close()
    return lab


def check_same(d, calls, before):
    for c, b in zip(calls, before):
        a = answers.answer(d, c)
        if a != b:
            raise Violation('%s has another answer after a refused request: '
                            '%s / %s' % (answers.show(c), str(b)[:100],
                                         str(a)[:100]))


@st.composite
def struct_cases(draw, tier):
    mc = draw(models.model_cases(max_elems=6, max_sets=3, max_cases=4,
                                 results='both', loads=2,
                                 types=draw(st.sampled_from([
                                     (15, 23, 24, 25), (15, 26, 28),
                                     (15, 23, 24, 25, 26, 28)]))))
    mc['noderes'] = ['displacement', 'velocity', 'acceleration']
    mc['elemres'] = ['RVFORCES', 'RVSTRESS']
    return {'model': mc, 'letter': draw(st.sampled_from('TR')),
            'missing': draw(st.one_of(
                st.just([]),
                st.lists(st.sampled_from(sorted(NEEDS) +
                                         ['TDSETNAM', 'GSETMEMB']),
                         max_size=3, unique=True))),
            'bare': draw(st.integers(0, 2)) == 0,
            'n': draw(st.integers(3, 12))}


# --------------------------------------------------------------------------
# hydrodynamic data
# --------------------------------------------------------------------------

HYDRO_NEEDS = {
    'W1MOTION': 'get_motion_raos', 'W1EXFORC': 'get_excitationforce_raos',
    'W1SFORCE': 'get_sectionforce_raos', 'W2MDRIFT': 'get_meandrift',
    'W2HDRIFT': 'get_horiz_meandrift', 'WBODY': 'get_bodyproperties',
    'W1MATRIX': 'get_matrix', 'WFLUIDKN': 'get_fluidkinematics_raos',
    'WSECTION': 'get_sections', 'WFKPOINT': 'get_points',
}
PER_BODY = ['get_bodyproperties', 'get_motion_raos',
            'get_excitationforce_raos', 'get_sectionforce_raos',
            'get_meandrift', 'get_horiz_meandrift',
            'get_pressure_panel_ids', 'get_panel_pressures']
REC_OF = {v: k for k, v in HYDRO_NEEDS.items()}
REC_OF.update(get_pressure_panel_ids='W1PANPRE',
              get_panel_pressures='W1PANPRE')
PAIRS = ['get_bodymass', 'get_addedmass', 'get_potentialdamping',
         'get_viscousdamping', 'get_hydrostatic_restoring',
         'get_mooring_restoring']
FREQ_ONLY = ['get_angular_freqs', 'get_periods', 'get_motion_raos',
             'get_excitationforce_raos', 'get_sectionforce_raos',
             'get_meandrift', 'get_horiz_meandrift',
             'get_pressure_panel_ids', 'get_panel_pressures',
             'get_fluidkinematics_raos']


def wrong_hydro(h, has, rnd):
    from freesif.exceptions import (ConditionError, NoSuchRecordError,
                                    ResultError)
    freq = h.c['domain'] == 'frequency'
    body = rnd.choice(h.bodies)
    what = rnd.choice(['records', 'body', 'body', 'body', 'fluid', 'unit',
                       'mtyp', 'domain', 'matrix', 'matrix'])
    if what == 'matrix':        # bodies on the file, matrix not
        if 'W1MATRIX' not in has:
            return None
        absent = [(t, a, b) for t in hydro.FREQ_INDEP for a in h.bodies
                  for b in h.bodies if (t, a, b) not in h.matrices]
        if not absent:
            return None
        t, a, b = rnd.choice(absent)
        name = {11: 'get_bodymass', 22: 'get_viscousdamping',
                31: 'get_hydrostatic_restoring',
                32: 'get_mooring_restoring'}[t]
        if rnd.randrange(2):
            return what, 'get_matrix', (t, a, b), {}, (ConditionError,)
        return what, name, (a, b), {}, (ConditionError,)
    if what == 'records':
        gone = [r for r in sorted(HYDRO_NEEDS) if r not in has]
        if not freq:
            gone = [r for r in gone if HYDRO_NEEDS[r] not in FREQ_ONLY]
        if not gone:
            return None
        rec = rnd.choice(gone)
        name = HYDRO_NEEDS[rec]
        args = (rnd.choice([11, 12]), body, body) if name == 'get_matrix' \
            else () if name in ('get_fluidkinematics_raos', 'get_sections',
                                'get_points') else (body,)
        return what, name, args, {}, (NoSuchRecordError,)
    if what == 'body':
        bad = rnd.choice([b for b in (0, -1, 1, 2, 3, max(h.bodies) + 1, 99,
                                      np.int32(77))
                          if b not in h.bodies])
        pool = [p for p in PER_BODY if REC_OF[p] in has and
                (freq or p not in FREQ_ONLY)]
        if 'W1MATRIX' in has:
            pool += ['get_matrix'] + PAIRS
        if not pool:
            return None
        name = rnd.choice(pool)
        if name in PER_BODY:
            return what, name, (bad,), {}, (ConditionError,)
        pair = rnd.choice([(bad, body), (body, bad), (bad, bad)])
        if name == 'get_matrix':
            pair = (rnd.choice(answers.MATRICES),) + pair
        return what, name, pair, {}, (ConditionError,)
    if what == 'fluid':
        if not freq or 'WFLUIDKN' not in has:
            return None
        return (what, 'get_fluidkinematics_raos',
                (rnd.choice(WRONG['fluid']),), {}, (ValueError,))
    if what == 'unit':
        return (what, 'get_directions', (rnd.choice(WRONG['unit']),), {},
                (ValueError,))
    if what == 'mtyp':
        if 'W1MATRIX' not in has:
            return None
        return (what, 'get_matrix', (rnd.choice(WRONG['mtyp']), body, body),
                {}, (ValueError,))
    if freq:
        return what, 'get_timesteps', (), {}, (ResultError,)
    name = rnd.choice(FREQ_ONLY)
    args = () if name in ('get_angular_freqs', 'get_periods',
                          'get_fluidkinematics_raos') else (body,)
    return what, name, args, {}, (ResultError,)


def run_hydro(case, ctx):
    h = hydro.Hydro(case['hydro'])
    d, close = hydro.open_hydro(Wanted(h, set(case['missing'])))
    rnd = random.Random('wrong/%s' % case['hydro']['seed'])
    lab = set()
    try:
        has = {b['rec'] for b in h.blocks()} - set(case['missing'])
        calls = answers.hydro_calls(h)
        rnd.shuffle(calls)
        calls = calls[:12]
        before = [answers.answer(d, c) for c in calls]
        n = 0
        for _ in range(case['n']):
            w = wrong_hydro(h, has, rnd)
            if w is None:
                continue
            what, name, args, kw, classes = w
            expect(answers.show((name, args, kw)),
                   lambda: getattr(d, name)(*args, **kw), classes)
            lab.add(what)
            n += 1
            if rnd.randrange(3) == 0:
                check_same(d, calls, before)
        check_same(d, calls, before)
        if n >= 3 and any(b[0] == 'ok' for b in before):
            lab.add('nt')
    finally:
        close()
    lab.add(case['hydro']['domain'])
    return lab


@st.composite
def hydro_cases(draw, tier):
    return {'hydro': draw(hydro.hydro_cases(
        ('frequency', 'frequency', 'time'), panels=2, sections=2, points=2)),
        'missing': draw(st.one_of(
            st.just([]), st.lists(st.sampled_from(
                sorted(HYDRO_NEEDS) + ['W1PANPRE']), max_size=4,
                unique=True))),
        'n': draw(st.integers(3, 12))}


# --------------------------------------------------------------------------
# hierarchies
# --------------------------------------------------------------------------

SHAPES = [(3, 3), (3, 4), (4, 3), (2, 4, 4), (4, 5), (1, 4), (16,), (4,),
          (4, 4, 1), (4, 1), (1, 4, 4), (), (0,), (4, 0), (5, 5)]
STRINGS = ['bottom', 'Top', 'TOP', 'top ', ' top', 'to', '', '1', '2',
           'level', 'toplevel', 'topp', 'None']


def wrong_hier(c, ms, rnd):
    """(text, method, args, kw, row of the first-level superelement asked or
    None for the top level, exception classes)."""
    from freesif.exceptions import (ConditionError, HierarchyError)
    rows = c['tree']['rows']
    toplevel = rows[0][3]
    r = rnd.choice(rows[1:])
    first = [x for x in rows[1:] if x[3] == 1]
    what = rnd.choice(['level', 'level', 'no level', 'element', 'string',
                       'shape', 'index', 'set'])
    if what == 'level':
        bad = rnd.choice([toplevel + 1, toplevel + 2, 99, 0, -1, -toplevel,
                          1 - toplevel])
    elif what == 'no level':    # there is such a level, but not above r
        bad = [l for l in range(2, toplevel)
               if l != r[3] and c06.path_matrix(c['tree'], r, l) is None]
        if not bad:
            return None
        bad = rnd.choice(bad)
    if what in ('level', 'no level'):
        if rnd.randrange(3) == 0:
            bad = rnd.choice([np.int64, np.int32])(bad)
        if r[3] == 1 and rnd.randrange(2):
            return (what, 'get_nodes', (), dict(c06.index(c, r), trans=bad),
                    r, (HierarchyError,))
        return (what, 'get_transformation', (r[1], r[2], bad), {}, None,
                (HierarchyError,))
    if what == 'element':
        have = {(x[1], x[2]) for x in rows}
        bad = rnd.choice([x for x in (
            (r[1], max(x[2] for x in rows if x[1] == r[1]) + 1),
            (r[1], 0), (r[1], -1), (r[1], 99),
            (max(x[1] for x in rows) + 1, 1), (0, 1), (-1, 1))
            if x not in have])
        lv = rnd.choice(['top', toplevel])
        return (what, 'get_transformation', bad + (lv,), {}, None,
                (ConditionError,))
    if not first:
        return None
    r = rnd.choice(first)
    if what == 'string':
        return (what, 'get_nodes', (), dict(
            c06.index(c, r), trans=rnd.choice(STRINGS)), r, (ValueError,))
    if what == 'shape':
        return (what, 'get_nodes', (), dict(
            c06.index(c, r), trans=np.ones(rnd.choice(SHAPES))), r,
            (ValueError,))
    if what == 'index':
        if c['letter'] == 'R':
            return None
        bad = rnd.choice([0, -1, 99, 1 + max(x[2] for x in rows
                                             if x[1] == r[1])])
        return (what, 'get_nodes', (), {
            'index': bad, 'trans': rnd.choice(['top', toplevel])}, r,
            (ConditionError,))
    group = lower_group(c, r)
    s = near(ms[group].setorder, rnd)
    return (what, 'get_nodes', (), dict(c06.index(c, r), sets=s,
                                        trans='top'), r, (ConditionError,))


def lower_group(c, r):
    return 'R%d_%d' % (r[1], r[2]) if c['letter'] == 'R' else 'T%d' % r[1]


def run_hier(case, ctx):
    import freesif as fs
    c = dict(case['tree'], usefileprefix=True)
    ms = c06.write_tree(c, 'd', '%s' % case['seed'])
    fs.sif2hdf5(os.path.join('d', hier.top_name(c)), 'all.h5',
                prefix=c['prefix'])
    top = '%s%s%s%d' % (c['prefix'], c['fileprefix'], c['letter'],
                        c['tree']['rows'][0][1])
    rnd = random.Random('hier/%s' % case['seed'])
    f = fs.open_hdf5('all.h5')
    lab = set()
    try:
        calls = {top: answers.hier_calls(c['tree'])}
        for r in c['tree']['rows'][1:]:
            if r[3] == 1:
                key = top + '/' + lower_group(c, r)
                calls.setdefault(key, [('get_nodes', (), {})]).append(
                    ('get_nodes', (), dict(c06.index(c, r), trans='top')))
        before = {k: [answers.answer(f[k], x) for x in cs]
                  for k, cs in calls.items()}
        n = 0
        for _ in range(case['n']):
            w = wrong_hier(c, ms, rnd)
            if w is None:
                continue
            what, name, args, kw, r, classes = w
            key = top if r is None else top + '/' + lower_group(c, r)
            expect('%s of %s' % (answers.show((name, args, kw)), key),
                   lambda: getattr(f[key], name)(*args, **kw), classes)
            lab.add(what)
            n += 1
            if rnd.randrange(3) == 0:
                bad = rnd.choice([k for k in (
                    top + '/', top + '/T', top + '/' + top, 'x/' + top,
                    top + '/R1', top + '/T9999', top.swapcase())
                    if k not in calls and k.rstrip('/') not in calls and
                    not any(k == top + '/' + g for _, g, _ in
                            hier.lower_names(c))])
                expect('dataset %r' % bad, lambda: f[bad], (KeyError,))
        for k, cs in calls.items():
            check_same(f[k], cs, before[k])
        if n >= 3 and any(b[0] == 'ok' for bs in before.values()
                          for b in bs):
            lab.add('nt')
    finally:
        f.close()
    lab.add(c['letter'])
    return lab


@st.composite
def tree_cases(draw, tier):
    return {'tree': draw(hier.hier_cases((2, 3, 3, 4))),
            'seed': draw(gen.seeds), 'n': draw(st.integers(3, 12))}


# --------------------------------------------------------------------------
# files and datasets
# --------------------------------------------------------------------------

def listing():
    out = {}
    for root, dirs, files in os.walk('.'):
        for n in files:
            p = os.path.join(root, n)
            with open(p, 'rb') as f:
                out[p] = f.read()
        for n in dirs:
            out[os.path.join(root, n)] = None
    return out


def wrong_file(name, rnd):
    """(text, callable, exception classes): something that cannot be opened or
    converted. `name`: an existing interface file."""
    import freesif as fs
    base, ext = os.path.splitext(name)
    k = rnd.randrange(8)
    target = rnd.choice(['old.h5', 'new.h5'])
    if k == 0:      # not a file name of an interface file
        bad = rnd.choice(['T1.TXT', 'model.fem', 'Q1.FEM', 'T.FEM', 'T01.FEM',
                          'T1FEM', '1.FEM', 'R1X2.SIU', 'T1.FE', 'T1.FEMX',
                          'T0.FEM', 'R1.SIX'])
        shutil.copy(name, bad)
        arg = rnd.choice([bad, './' + bad, os.path.abspath(bad)])
        if rnd.randrange(2):
            return 'name', bad, lambda: fs.open_sif(arg), (ValueError,)
        return 'name', bad, lambda: fs.sif2hdf5(arg, target), (ValueError,)
    if k == 1:      # direct access files
        bad = base + rnd.choice(['.SIN', '.sin'])
        shutil.copy(name, bad)
        if rnd.randrange(2):
            return 'SIN', bad, lambda: fs.open_sif(bad), (ValueError,)
        return 'SIN', bad, lambda: fs.sif2hdf5(bad, target), (ValueError,)
    if k == 2:      # does not exist
        gone = rnd.choice(['T98.FEM', 'R98.SIU', 'no/T1.FEM', 'G98.SIF'])
        if rnd.randrange(2):
            return 'gone', None, lambda: fs.open_sif(gone), (OSError,)
        return ('gone', None, lambda: fs.sif2hdf5(
            gone, target, append=rnd.choice([False, True])), (OSError,))
    if k == 3:      # appended to nothing
        kw = rnd.choice([{}, {'prefix': 'x_'}, {'usefileprefix': False},
                         {'hdf5name': None}, {'hdf5name': ''},
                         {'prefix': 'A', 'usefileprefix': True}])
        return ('append', None, lambda: fs.sif2hdf5(name, append=True, **kw),
                (ValueError,))
    if k == 4:
        bad = rnd.choice([None, 3, {name: 1}, name.encode()])
        return 'type', None, lambda: fs.sif2hdf5(bad, target), (TypeError,)
    if k == 5:
        return ('list', None, lambda: fs.open_sif([name]), (TypeError,))
    if k == 6:      # HDF5 files
        bad = rnd.choice(['no.h5', 'no/old.h5'])
        return 'hdf5 gone', None, lambda: fs.open_hdf5(bad), (OSError,)
    return ('not hdf5', None, lambda: fs.open_hdf5(name), (Exception,))


def run_files(case, ctx):
    import freesif as fs
    src = sources.Source(dict(case['src'], fileprefix=''), 1)
    name = src.write('.')
    name = os.path.basename(name)
    fs.sif2hdf5(name, 'old.h5')
    rnd = random.Random('files/%s' % case['seed'])
    f = fs.open_hdf5('old.h5') if case['open'] else None
    lab = set()
    try:
        if f is not None:
            calls = {k: src.calls[k] for k in sorted(src.keys)}
            before = {k: [answers.answer(f[k], c) for c in cs]
                      for k, cs in calls.items()}
        for _ in range(case['n']):
            what, extra, call, classes = wrong_file(name, rnd)
            have = listing()
            expect('%s: %s' % (what, extra or ''), call, classes)
            now = listing()
            if have != now:
                raise Violation('%s: the directory was %s and is %s' % (
                    what, sorted(have), sorted(now)) if set(have) != set(now)
                    else '%s changed %s' % (what, [
                        k for k in have if have[k] != now[k]]))
            if extra:
                os.remove(extra)
            lab.add(what)
            if f is not None:
                key = rnd.choice([k for k in (
                    'T999', '', 'None', 'X', src.top + '/T1', '/' + src.top,
                    src.top[:-1], src.top.swapcase(), src.top + ' ')
                    if k not in src.keys])
                expect('dataset %r' % key, lambda: f[key], (KeyError,))
        if f is not None:
            for k, cs in calls.items():
                check_same(f[k], cs, before[k])
            lab.add('file open')
        # and the legal request is served as ever
        fs.sif2hdf5(name, 'again.h5')
        g = fs.open_hdf5('again.h5')
        try:
            if set(g.keys()) != src.keys:
                raise Violation('keys afterwards: %s, expected %s' % (
                    sorted(g.keys()), sorted(src.keys)))
        finally:
            g.close()
    finally:
        if f is not None:
            f.close()
    if case['n'] >= 3:
        lab.add('nt')
    return lab


@st.composite
def file_cases(draw, tier):
    return {'src': draw(sources.sources()), 'seed': draw(gen.seeds),
            'open': draw(st.booleans()), 'n': draw(st.integers(1, 7))}


FACETS = [Facet('structural data', struct_cases, run_struct, 60, 6000),
          Facet('hydrodynamic data', hydro_cases, run_hydro, 60, 6000),
          Facet('hierarchies', tree_cases, run_hier, 40, 4000),
          Facet('files', file_cases, run_files, 25, 2500)]
