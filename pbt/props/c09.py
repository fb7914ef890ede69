"""Element results reproduce the stored stresses and forces at the nodes."""
import elemres
from core import Facet

RULE = ('random models with beams and shells of first or second order (both '
        'in one model, selected apart by sets), 1-4 result cases in up to two '
        'runs, real, complex or mixed; up to 6 questions each (beam forces, '
        'general and decomposed stresses, runs, cases in any form, sets), '
        'asked twice with the first answers overwritten. Expected values '
        'come from the stored result points (first order) or from fitting '
        'the (bi)linear field through them and evaluating it at the nodes '
        '(second order). Non-trivial: more than one case or more than one '
        'element type in the answer.')
ASSUMPTIONS = ['results of a case stand together in element order',
               'every element of the kind has results',
               'first and second order shells are not asked for together '
               '(different numbers of components)',
               'transverse shear is the same in both layers of a thick shell']
TYPES = ('beamforce', 'generalstress', 'decomposedstress')


def large(tier):
    return elemres.large(TYPES)


FACETS = [Facet('large models', None, elemres.run, 0, 0, fixed=large,
                timeout=200),
          Facet('element results', lambda tier: elemres.cases(tier, TYPES),
                elemres.run, 130, 9000)]
