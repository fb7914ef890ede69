"""What a data object answers to every call that makes sense for a source,
in a form that can be compared (used where two answers must be the same)."""
import random

import numpy as np

MATRICES = (11, 12, 21, 22, 31, 32)


def plain(x):
    """A comparable copy of an answer."""
    if isinstance(x, np.ndarray):
        if x.dtype.kind == 'O':
            return ['objects', x.shape, [plain(v) for v in x.ravel()]]
        return ['array', x.dtype.str if not x.dtype.names
                else str(x.dtype.descr), x.shape, x.tobytes()]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [plain(v) for v in x]
    if isinstance(x, dict):
        return ['dict'] + sorted(((plain(k), plain(v)) for k, v in x.items()),
                                 key=repr)
    if isinstance(x, np.generic):
        return plain(np.asarray(x))
    if isinstance(x, (bytes, str, int, float, complex)) or x is None:
        return x
    return type(x).__name__


def answer(d, call):
    name, args, kw = call
    try:
        return ['ok', plain(getattr(d, name)(*args, **kw))]
    except Exception as e:
        return ['error', type(e).__name__]


def show(call):
    name, args, kw = call
    return '%s(%s)' % (name, ', '.join(
        [repr(a) for a in args] + ['%s=%r' % i for i in sorted(kw.items())]))


def struct_calls(m, seed, n):
    """Calls for the data of a models.Model."""
    rnd = random.Random('calls/%s' % seed)
    out = [('get_setnames', (), {}), ('get_nodes', (), {}),
           ('get_elements', (), {}), ('get_nodenumbers', (), {}),
           ('get_elementnumbers', (), {})]
    for _ in range(n):
        k = rnd.randrange(9)
        sets = None
        if m.setorder and rnd.randrange(2):
            sets = rnd.choice([rnd.choice(m.setorder), [rnd.choice(
                m.setorder)], list(m.setorder)])
        kind = rnd.choice([None, None, 'beam', 'shell'])
        disc = rnd.choice([False, True])
        sel = dict(sets=sets, kind=kind)
        run = rnd.choice([c['run'] for c in m.cases] or [1])
        cases = [c['ext'] for c in m.cases if c['run'] == run]
        which = rnd.choice([None, cases[:1], cases]) if cases else None
        res = dict(sets=sets, run=run, rescases=which)
        if k == 0:
            out.append(('get_nodes', (), dict(sel, disconnected=disc)))
        elif k == 1:
            out.append(('get_elements', (), dict(sel, disconnected=disc)))
        elif k == 2:
            out.append(('get_nodenumbers', (), dict(sel, disconnected=disc)))
        elif k == 3:
            out.append(('get_elementnumbers', (), sel))
        elif k == 4:
            out.append(('get_noderesults', (rnd.choice(
                ['displacement', 'velocity', 'acceleration']),),
                dict(res, kind=kind, disconnected=disc)))
        elif k == 5 and m.selected(sets, 'beam'):
            out.append(('get_elementresults', ('beamforce',), res))
        elif k == 6 and m.selected(sets, 'shell'):
            out.append(('get_elementresults', (rnd.choice(
                ['generalstress', 'decomposedstress']),), res))
        elif k == 7 and m.selected(sets, 'beam'):
            out.append(('get_section_properties', (sets,), {}))
        elif k == 8 and m.selected(sets, 'shell'):
            out.append(('get_shell_thicknesses', (sets,), {}))
    if m.loadnames:
        out.append(('get_resultcase_names', (), {}))
        out.append(('get_resultcase_names', (sorted(m.loadnames)[:2],), {}))
    return out


def hydro_calls(h):
    """Every data method of the results of a hydro.Hydro."""
    out = [(n, (), {}) for n in (
        'get_angular_freqs', 'get_periods', 'get_directions',
        'get_timesteps', 'get_sections', 'get_points',
        'get_fluidkinematics_raos')]
    out += [('get_directions', ('radians',), {}),
            ('get_fluidkinematics_raos', ('pressure',), {}),
            ('get_fluidkinematics_raos', ('velocity',), {})]
    for b in h.bodies:
        out += [(n, (b,), {}) for n in (
            'get_bodyproperties', 'get_motion_raos',
            'get_excitationforce_raos', 'get_sectionforce_raos',
            'get_meandrift', 'get_horiz_meandrift',
            'get_pressure_panel_ids', 'get_panel_pressures')]
        for b2 in h.bodies:
            out += [('get_matrix', (t, b, b2), {}) for t in MATRICES]
            out += [(n, (b, b2), {}) for n in (
                'get_bodymass', 'get_addedmass', 'get_potentialdamping',
                'get_viscousdamping', 'get_hydrostatic_restoring',
                'get_mooring_restoring')]
    return out


def hier_calls(tree):
    """Calls for the top-level data of a hierarchy."""
    top = tree['rows'][0][3]
    out = [('get_setnames', (), {})]
    for r in tree['rows'][1:8]:
        for level in ['top'] + list(range(2, top + 1)):
            out.append(('get_transformation', (r[1], r[2], level), {}))
    return out
