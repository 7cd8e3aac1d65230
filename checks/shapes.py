"""Independent description of the cell types (CGNS/Gmsh low order numbering) used as oracle."""
from fractions import Fraction as Fr

# faces ordered so that their normal points out of the cell (2D: the normal is on the left of the edge)
OUT = {
    'tri3': [(1, 0), (2, 1), (0, 2)],
    'quad4': [(1, 0), (2, 1), (3, 2), (0, 3)],
    'tetra4': [(0, 2, 1), (0, 1, 3), (1, 2, 3), (2, 0, 3)],
    'pyra5': [(0, 3, 2, 1), (0, 1, 4), (1, 2, 4), (2, 3, 4), (3, 0, 4)],
    'prism6': [(0, 1, 4, 3), (1, 2, 5, 4), (2, 0, 3, 5), (0, 2, 1), (3, 4, 5)],
    'hexa8': [(0, 3, 2, 1), (0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (0, 4, 7, 3), (4, 5, 6, 7)],
}
REF = {
    'tri3': [(0, 0), (1, 0), (0, 1)],
    'quad4': [(0, 0), (1, 0), (1, 1), (0, 1)],
    'tetra4': [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)],
    'pyra5': [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (Fr(1, 2), Fr(1, 2), 1)],
    'prism6': [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1)],
    'hexa8': [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)],
}
VOL = {'tri3': Fr(1, 2), 'quad4': 1, 'tetra4': Fr(1, 6), 'pyra5': Fr(1, 3), 'prism6': Fr(1, 2), 'hexa8': 1}
FTYPE = {2: 'bar2', 3: 'tri3', 4: 'quad4'}
NN = {t: len(r) for t, r in REF.items()}


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def sub(a, b):
    return tuple(x - y for x, y in zip(a, b))


def area2(pts):
    """twice the area vector of an ordered face (edge in 2D: twice its normal on the left)"""
    if len(pts[0]) == 2:
        d = sub(pts[1], pts[0])
        return (-2 * d[1], 2 * d[0])
    if len(pts) == 3:
        return cross(sub(pts[1], pts[0]), sub(pts[2], pts[0]))
    return cross(sub(pts[2], pts[0]), sub(pts[3], pts[1]))


def flux2(pts):
    """2 * number of nodes * flux of the position through the face (exact for planar faces)"""
    n = len(pts)
    c = tuple(sum(p[k] for p in pts) for k in range(len(pts[0])))
    return dot(c, area2(pts)) * Fr(12, n)  # = 12 * 2 * (flux), common scale for 2, 3 and 4 nodes


for _t, _f in OUT.items():
    _d = len(REF[_t][0])
    _pl = [[REF[_t][i] for i in f] for f in _f]
    assert all(sum(area2(p)[k] for p in _pl) == 0 for k in range(_d)), _t
    # flux of the position = dim * volume
    assert sum(flux2(p) for p in _pl) == 24 * _d * VOL[_t], (_t, sum(flux2(p) for p in _pl))
