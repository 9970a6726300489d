"""Independent crystallography: Laue classes, proper rotation groups and lattice geometry, from the International Tables."""
import itertools, math
import numpy as np
from . import rot as R

# Laue class of every space group (EDAX numbering of the classes), from the International Tables
LAUE_RANGES = [(1, 2, 1), (3, 15, 2), (16, 74, 22), (75, 88, 4), (89, 142, 42), (143, 148, 3), (149, 167, 32), (168, 176, 6),
               (177, 194, 62), (195, 206, 23), (207, 230, 43)]
ORDER = {1: 1, 2: 2, 22: 4, 4: 4, 42: 8, 3: 3, 32: 6, 6: 6, 62: 12, 23: 12, 43: 24}


def laue(sg):
    for a, b, l in LAUE_RANGES:
        if a <= sg <= b: return l


def _rot(axis, deg): return R.qu2om(R.ax2qu([*axis, math.radians(deg)]))


GENERATORS = {1: [], 2: [((0, 1, 0), 180)], 22: [((0, 0, 1), 180), ((1, 0, 0), 180)], 4: [((0, 0, 1), 90)], 42: [((0, 0, 1), 90), ((1, 0, 0), 180)],
              3: [((0, 0, 1), 120)], 32: [((0, 0, 1), 120), ((1, 0, 0), 180)], 6: [((0, 0, 1), 60)], 62: [((0, 0, 1), 60), ((1, 0, 0), 180)],
              23: [((0, 0, 1), 180), ((1, 1, 1), 120)], 43: [((0, 0, 1), 90), ((1, 1, 1), 120)]}


def group(l):
    """rotation matrices of the proper rotation group of a Laue class, closed from generators"""
    ops = [np.eye(3)]; gens = [_rot(a, d) for a, d in GENERATORS[l]]
    i = 0
    while i < len(ops):
        for g in gens:
            m = ops[i] @ g
            if not any(np.abs(m-o).max() < 1e-6 for o in ops): ops.append(m)
        i += 1
    assert len(ops) == ORDER[l]
    return ops


GROUPS = {l: group(l) for l in ORDER}
QGROUPS = {l: [R.om2qu(m) for m in g] for l, g in GROUPS.items()}


def cell_vectors(a, b, c, al, be, ga):
    """rows a, b, c: a along x, c* along z"""
    al, be, ga = (math.radians(x) for x in (al, be, ga))
    av = np.array([a, 0, 0]); bv = np.array([b*math.cos(ga), b*math.sin(ga), 0])
    cx = c*math.cos(be); cy = c*(math.cos(al)-math.cos(be)*math.cos(ga))/math.sin(ga)
    cv = np.array([cx, cy, math.sqrt(c*c-cx*cx-cy*cy)])
    return np.array([av, bv, cv])


def recip(V): return np.linalg.inv(V).T     # rows a*, b*, c*


def cell_ok(al, be, ga):
    ca, cb, cg = (math.cos(math.radians(x)) for x in (al, be, ga))
    return 1-ca*ca-cb*cb-cg*cg+2*ca*cb*cg > 0.02


def disorientation(q1, q2, l):
    """smallest angle (rad) between sample->crystal orientations q1, q2 up to crystal symmetry of Laue class l"""
    return min(R.qangle(R.qmul(s, q1), q2) for s in QGROUPS[l])
