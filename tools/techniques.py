"""technique and level_note of every check in MANIFEST.json."""
REC = ('Random search with fixed boundary cases; trusts the independent '
       'record descriptions in pbt/records.py. ')
MOD = ('Random search over models of up to 16 (thorough 40) elements, '
       'internal numbers consecutive. ')
HYD = ('Random search; responses ordered by direction, then frequency; one '
       'condition per body. ')
TECHNIQUE = {
    'C01': ('generated record sequences against an independent decoder '
            '(Hypothesis)', REC + 'Integer fields below 2^24.'),
    'C02': ('differential testing of generated content in both physical '
            'forms (Hypothesis)', REC),
    'C03': ('metamorphic testing: inserted or excluded records '
            '(Hypothesis)', REC),
    'C19': ('write/read round trip and counting of generated sequences '
            '(Hypothesis)', 'Random search; written files end with a '
            'complete line.'),
    'C04': ('stateful histories against a process that converted nothing '
            '(Hypothesis)', 'Random histories of up to 8 steps. The state '
            'a failed conversion leaves in its own target is not looked at.'),
    'C05': ('generated superelement hierarchies against the expected set of '
            'groups (Hypothesis)', REC + 'At most 40 superelements.'),
    'C07': ('generated models and selections against the generated mesh '
            '(Hypothesis)', MOD + 'Selections that match no element are '
            'not asked for.'),
    'C08': ('generated models and node results against the generated values '
            '(Hypothesis)', MOD),
    'C09': ('generated stress and force fields against independent formulas '
            '(Hypothesis)', MOD + 'First and second order shells not in one '
            'answer.'),
    'C10': ('generated models against independent formulas, metamorphic '
            'relation between stress kinds (Hypothesis)', MOD),
    'C11': ('generated hydrodynamic files against the generated values '
            '(Hypothesis)', HYD),
    'C12': ('generated hydrodynamic files against the generated values '
            '(Hypothesis)', HYD),
    'C13': ('generated hydrodynamic files against the generated values '
            '(Hypothesis)', HYD + 'Panels ascending.'),
}
TECHNIQUE.update({
    'C06': ('generated hierarchies and transformations against matrix '
            'products along the path (Hypothesis)', REC + 'At most 12 '
            'superelements per case.'),
    'C15': ('generated writer call sequences, output decoded by an '
            'independent reader (Hypothesis)', 'Random search; one writer '
            'at a time.'),
    'C16': ('generated models and arrays, output decoded by an independent '
            'reader and compared per element (Hypothesis)', 'Random search '
            'over models of up to 16 elements.'),
})
TECHNIQUE.update({
    'C14': ('stateful histories over any number of handles against a model '
            'of which are open (Hypothesis)', 'Random histories of up to 20 '
            'operations on 2-4 sources.'),
    'C17': ('generated stress states against a symmetric eigenvalue solver, '
            'and rotated axes (Hypothesis)', 'Random search; tolerance 1e-11 '
            '(2e-5 in single precision) of the largest component.'),
    'C18': ('generated arrays and models against the definition '
            '(Hypothesis)', 'Random search.'),
    'C20': ('stateful histories of add calls, write and read, against a '
            'model and an independent reader (Hypothesis)', 'Random search; '
            'element results per element node, as supported.'),
    'C21': ('differential testing of the ways of opening, generated legal '
            'and illegal names (Hypothesis)', 'Random search; answers that '
            'are errors must be the same errors.'),
    'C22': ('generated wrong requests mixed with legal ones, answers and '
            'directory compared before and after (Hypothesis)', 'Random '
            'search; one thing wrong per request.'),
    'C23': ('generated files cut at random and structural places, against '
            'the conversion of the complete file (Hypothesis)', 'Random '
            'search over record sequences and places.'),
    'C24': ('generated models and superelement trees taken through the whole '
            'chain, exports read by independent readers and compared element '
            'by element with the generated records (Hypothesis)',
            'Random search; steps with known domains of their own (C06-C09, '
            'C15-C18, C20) are combined at random.'),
})
