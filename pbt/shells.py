"""Independent formulas for stresses at the element nodes."""
import numpy as np

G = 1. / np.sqrt(3.)
# parametric coordinates: result points and nodes (going round the element)
QUAD_POINTS = [(-G, -G), (G, -G), (-G, G), (G, G)]
QUAD_NODES = [(-1, -1), (0, -1), (1, -1), (1, 0), (1, 1), (0, 1), (-1, 1),
              (-1, 0)]
TRI_POINTS = [(2 / 3., 1 / 6., 1 / 6.), (1 / 6., 2 / 3., 1 / 6.),
              (1 / 6., 1 / 6., 2 / 3.)]
TRI_NODES = [(1, 0, 0), (.5, .5, 0), (0, 1, 0), (0, .5, .5), (0, 0, 1),
             (.5, 0, .5)]
BEAM_POINTS = [(-G,), (G,)]
BEAM_NODES = [(-1,), (0,), (1,)]


def basis(t, p):
    """Values of the polynomials an element type's field is made of."""
    if t == 28:
        x, y = p
        return [1., x, y, x * y]
    if t == 26:
        return list(p)
    return [1., p[0]]


def inplane(t, values):
    """Values at the nodes of the field with the given values at the result
    points (a least squares fit of the polynomials, exact as there are as
    many points)."""
    pts = {28: QUAD_POINTS, 26: TRI_POINTS, 23: BEAM_POINTS}[t]
    nodes = {28: QUAD_NODES, 26: TRI_NODES, 23: BEAM_NODES}[t]
    a = np.array([basis(t, p) for p in pts])
    coeff = np.linalg.solve(a, np.asarray(values, 'c16').reshape(len(pts),
                                                                 -1))
    return np.array([basis(t, p) for p in nodes]).dot(coeff)


# result points of first-order elements that lie at the nodes: (lower, upper)
CORNERS = {24: [(0, 5), (1, 6), (4, 9), (3, 8)],
           25: [(0, 4), (1, 5), (3, 7)]}


def expected(t, v, restype):
    """v: (points, components) -> what is given for the element."""
    v = np.array(v, 'c16')
    if restype == 'beamforce':
        if t == 15:
            return v[[0, 2]]
        return inplane(23, v)
    if t in CORNERS:
        out = np.array([[v[lo], v[up]] for lo, up in CORNERS[t]])
        if restype == 'generalstress':
            return out                      # (nodes, surface, 3)
        lo, up = out[:, 0], out[:, 1]
        return np.concatenate([(lo + up) / 2, (up - lo) / 2], axis=1)
    h = len(v) // 2
    low, upp = v[:h], v[h:]
    mid, slope = (low + upp) / 2, (upp - low) / 2 / G
    mid, slope = mid[:, :3], slope[:, :3]   # sigma = mid + slope * zeta
    if restype == 'generalstress':
        z = np.zeros((h, 2))
        lo = np.concatenate([mid - slope, z], axis=1)
        up = np.concatenate([mid + slope, z], axis=1)
        return np.stack([inplane(t, lo), inplane(t, up)], axis=1)
    shear = 1.5 * low[:, 3:]
    return inplane(t, np.concatenate([mid, slope, shear], axis=1))
