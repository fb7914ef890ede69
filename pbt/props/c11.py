"""Transfer functions are indexed by component, direction and frequency."""
import numpy as np

import hydro
from core import Facet, Violation

RULE = ('random hydrodynamic files: 1-3 bodies with any external and '
        'condition numbers, 1-5 directions and frequencies in any order, '
        'sections on any body, points, second-order responses as well, real '
        'or complex data, records in several runs and any order; motions, '
        'excitation forces, sectional forces of every body and fluid '
        'kinematics against the generated values, index by index, each asked '
        'twice. Non-trivial: at least two directions and two frequencies.')
ASSUMPTIONS = ['responses stand in the order direction, frequency, and the '
               'results of a body (section, point) in the order of the '
               'responses', 'one condition per body']


def run(case, ctx):
    h = hydro.Hydro(case)
    d, close = hydro.open_hydro(h)
    try:
        hydro.equal('directions', d.get_directions('radians'), h.dirs)
        hydro.equal('frequencies', d.get_angular_freqs(), h.freqs)
        for b in h.bodies:
            hydro.asked('motion of body %d' % b, d.get_motion_raos, b, h.values['W1MOTION'][b])
            hydro.asked('excitation force of body %d' % b, d.get_excitationforce_raos, b,
                        h.values['W1EXFORC'][b])
            if h.nsect[b]:
                hydro.asked('section forces of body %d' % b, d.get_sectionforce_raos, b,
                            h.values['W1SFORCE'][b])
        if h.points:
            hydro.twice('pressure',
                        lambda: d.get_fluidkinematics_raos('pressure'),
                        h.pressure)
            hydro.twice('velocity',
                        lambda: d.get_fluidkinematics_raos(kind='velocity'),
                        h.velocity)
            hydro.equal('elevation',
                        d.get_fluidkinematics_raos('elevation'),
                        h.pressure / h.ro / h.g, 1e-6)
            hydro.twice('elevation', d.get_fluidkinematics_raos,
                        h.pressure / h.ro / h.g, 1e-6)
            try:
                d.get_fluidkinematics_raos('speed')
            except ValueError:
                pass
            else:
                raise Violation('an unknown kind was accepted')
    finally:
        close()
    lab = {'%d bodies' % len(h.bodies), case['form']['kind']}
    for n in ('sections', 'points', 'second'):
        if case[n]:
            lab.add(n)
    lab |= {r + (' complex' if c else ' real') for r, c in h.cx.items()}
    if len(h.dirs) > 1 and len(h.freqs) > 1:
        lab.add('nt')
    return lab


def large(tier):
    return [hydro.big_case(1, 1, 36, 45, 2, 3, via='sif'),
            hydro.big_case(2, 2, 3, 4, 130, 150),
            hydro.big_case(3, 12, 2, 11, 2, 0)]


FACETS = [Facet('large files', None, run, 0, 0, fixed=large, timeout=200),
          Facet('transfer functions', lambda tier: hydro.hydro_cases(
    sections=3, points=3, big=tier == 'thorough'), run, 130, 6000)]
