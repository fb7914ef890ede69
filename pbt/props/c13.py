"""Hydrodynamic axes, drift, sections, points and panel pressures."""
import numpy as np

import hydro
from core import Facet, Violation

RULE = ('random hydrodynamic files in the frequency or the time domain, 1-3 '
        'bodies, 1-5 directions and frequencies in any order, sections, '
        'points, panels with any numbers in 1-4 symmetry parts: axes in file '
        'order, sections, points, both kinds of mean drift and panel '
        'pressures of every body against the generated values, refusals of '
        'the other domain. Non-trivial: two directions or frequencies, or '
        'several time steps.')
ASSUMPTIONS = ['responses stand in the order direction, frequency, and the '
               'results of a body in the order of the responses',
               'panel pressures of a response stand in the order symmetry '
               'part, panel, both ascending',
               'time steps are ascending', 'one condition per body']
FREQUENCY = ('get_angular_freqs', 'get_periods', 'get_motion_raos',
             'get_excitationforce_raos', 'get_sectionforce_raos',
             'get_fluidkinematics_raos', 'get_meandrift',
             'get_horiz_meandrift', 'get_pressure_panel_ids',
             'get_panel_pressures')


def run(case, ctx):
    from freesif.exceptions import ResultError
    h = hydro.Hydro(case)
    d, close = hydro.open_hydro(h)
    lab = {case['domain'], '%d bodies' % len(h.bodies)}
    try:
        if h.sections:
            for _ in range(2):
                s = d.get_sections()
                sections(s, h)
                s[...] = np.zeros((), s.dtype)
            lab.add('sections')
        if h.points:
            hydro.twice('points', d.get_points, h.points)
            lab.add('points')
        if case['domain'] == 'time':
            hydro.twice('time steps', d.get_timesteps, h.times)
            for n in FREQUENCY:
                refused(d, n, ResultError)
            if len(h.times) > 1:
                lab.add('nt')
            return lab
        refused(d, 'get_timesteps', ResultError)
        hydro.twice('frequencies', d.get_angular_freqs, h.freqs)
        hydro.twice('periods', d.get_periods,
                    2 * np.pi / np.array(h.freqs), 1e-6)
        for a in (), ('degrees',):
            hydro.twice('directions', lambda: d.get_directions(*a),
                        np.array(h.dirs) * 180 / np.pi, 1e-6)
        hydro.twice('directions',
                    lambda: d.get_directions(unit='radians'), h.dirs)
        hydro.equal('directions', d.get_directions(),
                    np.array(h.dirs) * 180 / np.pi, 1e-6)
        try:
            d.get_directions('gon')
        except ValueError:
            pass
        else:
            raise Violation('an unknown unit was accepted')
        for b in h.bodies:
            hydro.asked('mean drift of body %d' % b, d.get_meandrift, b,
                        h.values['W2MDRIFT'][b].real)
            hydro.asked('horizontal mean drift of body %d' % b, d.get_horiz_meandrift, b,
                        h.values['W2HDRIFT'][b].real)
            panels(d, h, b, lab)
    finally:
        close()
    if len(h.dirs) > 1 or len(h.freqs) > 1:
        lab.add('nt')
    return lab


def sections(s, h):
    if set(s.dtype.names) != {'secusr', 'isecty', 'p1', 'p2', 'p3'}:
        raise Violation('section fields %s' % (s.dtype.names,))
    hydro.equal('secusr', s['secusr'], [x[0] for x in h.sections])
    hydro.equal('isecty', s['isecty'], [x[1] for x in h.sections])
    for i, n in enumerate(('p1', 'p2', 'p3')):
        hydro.equal(n, s[n], [x[2][3 * i:3 * i + 3] for x in h.sections])


def panels(d, h, b, lab):
    ids, p = d.get_pressure_panel_ids(b), d.get_panel_pressures(b)
    if not h.c['panels'] or b not in h.panels:
        if ids is not None or p is not None:
            raise Violation('panel pressures of body %d, which has none' % b)
        return
    lab.add('panels')
    want = [(k, s) for s in h.symm[b] for k in h.panels[b]]
    hydro.asked('panel ids of body %d' % b, d.get_pressure_panel_ids, b,
                want)
    hydro.asked('panel pressures of body %d' % b, d.get_panel_pressures, b, h.panelp[b])


def refused(d, name, error):
    try:
        getattr(d, name)()
    except error:
        return
    raise Violation('%s was not refused' % name)


def large(tier):
    return [hydro.big_case(1, 1, 40, 60, 2, 3, 2),
            hydro.big_case(2, 2, 2, 3, 60, 120, 400, via='sif'),
            hydro.big_case(3, 1, 1, 500, domain='time'),
            hydro.big_case(4, 11, 2, 3, panels=3)]


FACETS = [Facet('large files', None, run, 0, 0, fixed=large, timeout=200),
          Facet('axes, drift, panels', lambda tier: hydro.hydro_cases(
    ('frequency', 'frequency', 'frequency', 'time'), panels=4, sections=2,
    points=3, big=tier == 'thorough'), run, 130, 6000)]
