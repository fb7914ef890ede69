"""Hydrodynamic matrices and body properties belong to the requested bodies."""
import numpy as np

import hydro
from core import Facet, Violation

RULE = ('random hydrodynamic files with 1-4 bodies (any external and '
        'condition numbers), all matrix types for all or some ordered pairs '
        'of bodies, frequency-dependent ones per frequency, in several '
        'record orders; get_matrix and every named getter for every pair, '
        'body properties and global data against the generated values. '
        'Non-trivial: at least two bodies or two frequencies.')
ASSUMPTIONS = ['the matrices of a type and pair stand in frequency order',
               'one condition per body']
NAMED = {11: 'get_bodymass', 12: 'get_addedmass', 21: 'get_potentialdamping',
         22: 'get_viscousdamping', 31: 'get_hydrostatic_restoring',
         32: 'get_mooring_restoring'}
PROPS = ('clenb bmass wsarea wparea vol xcg ycg zcg xcb ycb zcb xrb yrb '
         'zrb').split()


def run(case, ctx):
    h = hydro.Hydro(case)
    d, close = hydro.open_hydro(h)
    try:
        for (t, a, b), m in sorted(h.matrices.items()):
            want = m[0] if t in hydro.FREQ_INDEP else np.moveaxis(m, 0, 2)
            what = 'matrix %d of bodies %d, %d' % (t, a, b)
            hydro.twice(what, lambda: d.get_matrix(t, a, b), want)
            hydro.equal(what + ' ' + NAMED[t], getattr(d, NAMED[t])(a, b),
                        want)
            if a == b == 1:
                hydro.equal(what, getattr(d, NAMED[t])(), want)
                hydro.equal(what, d.get_matrix(t), want)
            if b == 1:
                hydro.equal(what, d.get_matrix(t, a), want)
            if a == 1:
                hydro.equal(what, d.get_matrix(t, bodyid2=b), want)
                hydro.equal(what, getattr(d, NAMED[t])(bodyid2=b), want)
            if b == 1:
                hydro.equal(what, getattr(d, NAMED[t])(a), want)
        for t in (0, 13, 33):
            try:
                d.get_matrix(t, h.bodies[0], h.bodies[0])
            except ValueError:
                pass
            else:
                raise Violation('matrix type %d was accepted' % t)
        for b, p in [(b, d.get_bodyproperties(b)) for b in h.bodies] + \
                [(b, d.get_bodyproperties(bodyid=b)) for b in h.bodies] + \
                ([(1, d.get_bodyproperties())] if 1 in h.bodies else []):
            v, t = h.props[b]
            if set(p) != set(PROPS) | {'t'}:
                raise Violation('body properties are %s' % sorted(p))
            for n, x in zip(PROPS, v):
                hydro.equal('%s of body %d' % (n, b), p[n], x)
            hydro.equal('t of body %d' % b, p['t'],
                        np.array(t).reshape(4, 4))
        hydro.equal('g', d.g, h.g)
        hydro.equal('ro', d.ro, h.ro)
        if h.hasdepth:
            hydro.equal('depth', d.depth, h.depth)
    finally:
        close()
    lab = {'%d bodies' % len(h.bodies), case['form']['kind']}
    if any(a != b for _, a, b in h.matrices):
        lab.add('coupling')
    if len(h.bodies) > 1 or len(h.freqs) > 1:
        lab.add('nt')
    return lab


def large(tier):
    return [hydro.big_case(1, 2, 2, 160, via='sif'),
            hydro.big_case(2, 12, 1, 3)]


FACETS = [Facet('large files', None, run, 0, 0, fixed=large, timeout=200),
          Facet('matrices', lambda tier: hydro.hydro_cases(
    bodies=4, big=tier == 'thorough'), run, 80, 5000)]
