"""Derived stresses satisfy their definitions for every stress state."""
import random

import numpy as np
from hypothesis import strategies as st

import gen
from core import Facet, Violation

RULE = ('random stress arrays (0 to 4 leading dimensions, some of length 0, '
        'single and double precision, extra components, any memory layout or '
        'read-only, magnitudes 1e-3 to 1e9) mixing general states with zero, '
        'uniaxial, equal, opposite, pure shear, nearly degenerate and rotated '
        'ones; every state is compared with the eigenvalues of its tensor '
        '(LAPACK symmetric solver), the von Mises stress with the principal '
        'stresses, and both with those of the rotated state. Non-trivial: at '
        'least one special and one general state in an array of two or more '
        'dimensions.')
ASSUMPTIONS = ['finite stresses']
SPECIAL = ('zero', 'uniaxial', 'equal', 'opposite', 'shear', 'near',
           'diagonal', 'inplane', 'twoequal', 'mixedscale')


def state(rnd, kind, scale, nc):
    u = [rnd.uniform(-1, 1) for _ in range(5)]
    v = [0.] * 5
    if kind == 'general':
        v = u
    elif kind == 'uniaxial':
        v[rnd.randrange(2)] = u[0]
    elif kind == 'equal':
        v[0] = v[1] = u[0]
    elif kind == 'opposite':
        v[0], v[1] = u[0], -u[0]
    elif kind == 'shear':
        v[rnd.randrange(2, 5)] = u[0]
    elif kind == 'near':
        v[0], v[1] = u[0], u[0] * (1 + 1e-7 * u[1])
        v[2] = 1e-7 * u[2]
    elif kind == 'diagonal':
        v[0], v[1] = u[0], u[1]
    elif kind == 'inplane':
        v[:3] = u[:3]
    elif kind == 'twoequal':    # a double eigenvalue besides zz
        v[0] = v[1] = u[0]
        v[3] = u[1]
    elif kind == 'mixedscale':
        v = [x * 10 ** rnd.uniform(-8, 0) for x in u]
    return [x * scale for x in v[:nc]]


def layout(a, how):
    if how == 'F':
        return np.asfortranarray(a)
    if how == 'strided':
        b = np.empty(a.shape[:-1] + (2 * a.shape[-1],), a.dtype)
        b[..., ::2] = a
        b[..., 1::2] = 7
        return b[..., ::2]
    if how == 'reversed' and a.ndim > 1:
        return a[::-1].copy()[::-1]
    if how == 'readonly':
        a = a.copy()
        a.flags.writeable = False
        return a
    return a


def make(c):
    rnd = random.Random('stress/%s' % c['seed'])
    n = int(np.prod(c['shape'], dtype=int))
    nc = 5 if c['fun'] == 'thick' else 3
    kinds = [rnd.choice(SPECIAL) if rnd.random() < c['special'] else 'general'
             for _ in range(n)]
    rows = [state(rnd, k, 10. ** rnd.uniform(*c['scale']), nc) +
            [rnd.uniform(-1e9, 1e9) for _ in range(c['extra'])]
            for k in kinds]
    a = np.array(rows, c['dtype']).reshape(tuple(c['shape']) +
                                           (nc + c['extra'],))
    return layout(a, c['layout']), kinds


def tensors(a, n3):
    a = a.astype(float)
    t = np.zeros(a.shape[:-1] + (n3, n3))
    t[..., 0, 0] = a[..., 0]
    t[..., 1, 1] = a[..., 1]
    t[..., 0, 1] = t[..., 1, 0] = a[..., 2]
    if n3 == 3:
        t[..., 0, 2] = t[..., 2, 0] = a[..., 3]
        t[..., 1, 2] = t[..., 2, 1] = a[..., 4]
    return t


def call(fun, a, shape, dtype):
    before = (a.dtype, a.shape, a.tobytes())
    out = fun(a)
    again = fun(a)
    if (a.dtype, a.shape, a.tobytes()) != before:
        raise Violation('%s changed its input' % fun.__name__)
    out = np.asarray(out)
    if not np.array_equal(out, again, equal_nan=True):
        raise Violation('%s gives two answers' % fun.__name__)
    if out.shape != shape:
        raise Violation('%s of %s has shape %s' % (fun.__name__, a.shape,
                                                   out.shape))
    if not np.all(np.isfinite(out)):
        raise Violation('%s of %s is %s' % (fun.__name__, a.tolist(),
                                            out.tolist()))
    return out.astype(float)


def close(name, state_, got, want, tol):
    if np.any(np.abs(np.asarray(got) - np.asarray(want)) > tol):
        raise Violation('%s of %s is %s, expected %s' % (
            name, np.asarray(state_).tolist(), np.asarray(got).tolist(),
            np.asarray(want).tolist()))


def run(c, ctx):
    from freesif import calc
    a, kinds = make(c)
    lead = tuple(c['shape'])
    eps = 2e-5 if c['dtype'] == 'f4' else 1e-11
    thick = c['fun'] == 'thick'
    t = tensors(a, 3 if thick else 2)
    if thick:
        p = call(calc.principal_thickshell, a, lead + (2,), c['dtype'])
    else:
        p = call(calc.principal2d, a, lead + (2,), c['dtype'])
        vm = call(calc.vonmises2d, a, lead, c['dtype'])
    for ind in np.ndindex(lead):
        s, ten = a[ind], t[ind]
        tol = eps * np.abs(ten).max()
        ev = np.linalg.eigvalsh(ten)[::-1]
        if p[ind][0] < p[ind][1]:
            raise Violation('principal stresses of %s are %s' % (
                s.tolist(), p[ind].tolist()))
        if thick:
            small = np.abs(ev).min()
            ok = [np.delete(ev, i) for i in range(3)
                  if abs(ev[i]) <= small + 4 * tol]
            if not any(np.all(np.abs(p[ind] - o) <= 2 * tol) for o in ok):
                close('principal_thickshell', s, p[ind], ok[0], 2 * tol)
                raise Violation('principal_thickshell')
            continue
        close('principal2d', s, p[ind], ev, tol)
        p1, p2 = ev
        close('vonmises2d', s, vm[ind],
              np.sqrt(p1 * p1 + p2 * p2 - p1 * p2), 4 * tol)
    if c['rotate'] is not None:
        rotate(c, a, p, None if thick else vm, eps, lead)
    lab = set(kinds) | {c['fun'], c['dtype'], c['layout']}
    if 'general' in kinds and len(set(kinds)) > 1 and len(lead) > 1:
        lab.add('nt')
    return lab


def rotate(c, a, p, vm, eps, lead):
    """The same states in axes turned in the plane."""
    from freesif import calc
    x = c['rotate'] * np.pi / 180.
    q = np.eye(3)
    q[:2, :2] = [[np.cos(x), -np.sin(x)], [np.sin(x), np.cos(x)]]
    thick = c['fun'] == 'thick'
    t = tensors(a, 3) if thick else np.zeros(lead + (3, 3))
    if not thick:
        t[..., :2, :2] = tensors(a, 2)
    r = q @ t @ q.T
    b = np.stack([r[..., 0, 0], r[..., 1, 1], r[..., 0, 1], r[..., 0, 2],
                  r[..., 1, 2]], axis=-1)[..., :5 if thick else 3]
    b = b.astype(c['dtype'])
    tol = 8 * eps * np.abs(t).max(axis=(-1, -2)) if t.size else \
        np.zeros(lead)
    if thick:
        pr = np.asarray(calc.principal_thickshell(b)).astype(float)
        for ind in np.ndindex(lead):
            ev = np.sort(np.abs(np.linalg.eigvalsh(t[ind])))
            if ev[1] - ev[0] > 4 * tol[ind]:
                close('principal_thickshell in turned axes', a[ind], pr[ind],
                      p[ind], tol[ind])
        return
    pr = np.asarray(calc.principal2d(b)).astype(float)
    vr = np.asarray(calc.vonmises2d(b)).astype(float)
    for ind in np.ndindex(lead):
        close('principal2d in turned axes', a[ind], pr[ind], p[ind], tol[ind])
        close('vonmises2d in turned axes', a[ind], vr[ind], vm[ind], tol[ind])


def strategy(fun):
    def make_strategy(tier):
        return st.fixed_dictionaries({
            'fun': st.just(fun), 'seed': gen.seeds,
            'shape': st.lists(st.sampled_from([1, 2, 3, 5, 2, 3, 0]),
                              max_size=4),
            'extra': st.sampled_from([0, 0, 1, 3]),
            'dtype': st.sampled_from(['f8', 'f4']),
            'layout': st.sampled_from(['C', 'F', 'strided', 'reversed',
                                       'readonly']),
            'scale': st.sampled_from([[0, 0], [-3, 9], [6, 8]]),
            'special': st.sampled_from([0., 0.3, 0.6, 1.]),
            'rotate': st.one_of(st.none(), st.integers(-180, 180))})
    return make_strategy


def large(tier):
    base = {'seed': 1, 'extra': 0, 'dtype': 'f4', 'layout': 'C',
            'scale': [0, 6], 'special': 0.2, 'rotate': None}
    return [dict(base, fun=f, shape=s, dtype=d, seed=i)
            for f in ('plane', 'thick')
            for i, (s, d) in enumerate((([4200], 'f4'), ([3, 700, 2], 'f8'),
                                        ([1, 1, 2, 1, 3, 2], 'f8')))]


FACETS = [Facet('large arrays', None, run, 0, 0, fixed=large, timeout=200),
          Facet('in the plane', strategy('plane'), run, 1000, 40000),
          Facet('thick shells', strategy('thick'), run, 1000, 40000)]
