"""Interface files of all kinds of data, with the datasets they must give and
the calls that make sense for each (C14, C21)."""
import os

from hypothesis import strategies as st

import answers
import gen
import hier
import hydro
import models
import records as R


class Source(object):
    """files: [(name, bytes)], the first is the one to open; keys: dataset
    names; calls: {dataset name: [calls]}."""

    def __init__(self, case, number, ncalls=6):
        self.case = case
        self.kind = k = case['kind']
        self.pre = case.get('fileprefix', '%ss%d_' % (
            case.get('lead', ''), number))
        self.lower = case.get('lower', False)
        self.groupprefix = case.get('prefix', '')
        if case.get('usefileprefix', True):
            self.groupprefix += self.pre
        getattr(self, 'make_' + k)(case[k], ncalls)
        self.name = self.files[0][0]

    def one(self, letter, no, ext, blocks, form, calls):
        ext = {'upper': ext, 'lower': ext.lower(), 'title': ext.title()}[
            self.case.get('extcase', 'lower' if self.lower else 'upper')]
        self.files = [('%s%s%d%s.%s' % (
            self.pre, hier.setcase(letter, self.lower), no,
            self.case.get('h', ''), ext), R.file_bytes(blocks, form))]
        key = '%s%s%d' % (self.groupprefix, letter, no)
        self.keys = {key}
        self.calls = {key: calls}
        self.top = key

    def make_model(self, c, ncalls):
        m = models.Model(c)
        letter = self.case['letter']
        self.one(letter, c.get('seltyp', 1), 'FEM' if letter == 'T' else
                 self.case['ext'], m.blocks(), c['form'],
                 answers.struct_calls(m, c['seed'], ncalls))

    def make_hydro(self, c, ncalls):
        h = hydro.Hydro(c)
        self.one('G', c['seltyp'], self.case['ext'], h.blocks(), c['form'],
                 answers.hydro_calls(h))

    def make_hier(self, c, ncalls):
        c = dict(c, fileprefix=self.pre, lower=self.lower,
                 prefix=self.case.get('prefix', ''),
                 usefileprefix=self.case.get('usefileprefix', True))
        fs = hier.files(c)
        self.files = [(n, R.file_bytes(b, c['form'])) for n, b, _, _ in fs]
        self.keys = {g[1:] for _, _, g, _ in fs}
        self.top = fs[0][2][1:]
        top = fs[0][3]['LEVEL'] == 'TOPLEVEL'
        self.calls = {self.top: answers.hier_calls(c['tree'])
                      if top else [('get_setnames', (), {})]}
        for k in self.keys - {self.top}:
            self.calls[k] = [('get_setnames', (), {})]

    def write(self, d):
        os.makedirs(d, exist_ok=True)
        for n, b in self.files:
            with open(os.path.join(d, n), 'wb') as f:
                f.write(b)
        return os.path.join(d, self.name)


@st.composite
def sources(draw, kinds=('model', 'model', 'hydro', 'hier'), big=False):
    k = draw(st.sampled_from(kinds))
    if k == 'model':
        c = draw(models.model_cases(max_elems=10 if big else 5,
                                    results='both', max_cases=3, loads=3,
                                    max_sets=3))
        c['noderes'] = ['displacement', 'velocity', 'acceleration']
        c['elemres'] = ['RVFORCES', 'RVSTRESS']
        return {'kind': k, k: c, 'letter': draw(st.sampled_from('TR')),
                'ext': draw(st.sampled_from(['SIF', 'SIU']))}
    if k == 'hydro':
        return {'kind': k, k: draw(hydro.hydro_cases(
            ('frequency', 'frequency', 'time'), panels=2, sections=2,
            points=2, bodies=2)),
            'ext': draw(st.sampled_from(['SIF', 'SIU']))}
    return {'kind': k, k: draw(hier.hier_cases()),
            'lead': draw(st.sampled_from(['', '', '_', '-']))}
