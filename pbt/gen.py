"""Shared Hypothesis strategies.  Every case is plain JSON (numbers, strings, lists, dicts)."""
import math
import numpy as np
from hypothesis import strategies as st

PI = math.pi
AXES = [[1, 0, 0], [0, 1, 0], [0, 0, 1], [-1, 0, 0], [0, -1, 0], [0, 0, -1], [1, 1, 0], [1, -1, 0], [0, 1, 1], [0, -1, 1],
        [1, 0, 1], [1, 0, -1], [1, 1, 1], [-1, 1, 1], [1, -1, 1], [1, 1, -1], [-1, -1, -1], [1, 0, -2], [2, 1, 0], [1, 2, 3]]
ANGLES = [0.0, 1e-9, 1e-7, 1e-5, 1e-3, 0.01, 0.3, PI/3, PI/2, 2*PI/3, 2.5, PI-0.01, PI-1e-3, PI-1e-5, PI-1e-7, PI]


def floats(a, b):
    return st.floats(a, b, allow_nan=False, allow_infinity=False, width=64)


@st.composite
def unit3(draw):
    if draw(st.integers(0, 2)) == 0:
        v = np.array(draw(st.sampled_from(AXES)), float)
    else:
        z = draw(floats(-1, 1)); t = draw(floats(0, 2*PI)); r = math.sqrt(max(0.0, 1-z*z))
        v = np.array([r*math.cos(t), r*math.sin(t), z])
    return [float(x) for x in v/np.linalg.norm(v)]


@st.composite
def axang(draw):
    """[x,y,z,w] with w in [0, pi]; about half on the singular loci."""
    a = draw(unit3())
    w = draw(st.one_of(st.sampled_from(ANGLES), floats(0, PI)))
    return a + [float(w)]


@st.composite
def quat(draw):
    """unit quaternion, q0 >= 0"""
    a = draw(axang())
    return [math.cos(a[3]/2)] + [x*math.sin(a[3]/2) for x in a[:3]]


@st.composite
def generic_quat(draw):
    """uniform-ish unit quaternion (Shoemake)"""
    u, v, w = draw(floats(0, 1)), draw(floats(0, 1)), draw(floats(0, 1))
    q = np.array([math.sqrt(1-u)*math.sin(2*PI*v), math.sqrt(1-u)*math.cos(2*PI*v), math.sqrt(u)*math.sin(2*PI*w), math.sqrt(u)*math.cos(2*PI*w)])
    q = q/np.linalg.norm(q)
    if q[0] < 0: q = -q
    return [float(x) for x in q]


seeds = st.integers(0, 2**31-1)


def layout(A, mode):
    """The same values in another memory layout."""
    A = np.array(A)
    if mode == "F": return np.asfortranarray(A)
    if mode == "strided":
        B = np.zeros((A.shape[0]*2,) + A.shape[1:], A.dtype); B[::2] = A; return B[::2]
    return np.ascontiguousarray(A)
