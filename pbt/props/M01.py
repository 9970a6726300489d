"""M01: cubic misorientation against the minimum over all pairs of symmetry operators."""
import math
import numpy as np
from hypothesis import strategies as st
from ..core import Registry, require
from ..ref import rot as R, xtal as X
from .. import gen

reg = Registry()
RULE = ("Pairs of orientations: random, and built from a misorientation on special positions (identity, boundaries of the cubic fundamental zone, coincidence lattices) hidden by random symmetry operators. "
        "Non-trivial: the pair is not already in the standard description, i.e. plain angle and smallest angle differ, or a batch of several orientations.")
ASSUMPTIONS = ["only the cubic class is offered by the code (misorientcubic_quick); quaternions are unit quaternions taking the sample to the crystal frame, as produced by indexing"]
SQ = np.array(X.QGROUPS[43])


def qmulv(A, B):
    a0, a1, a2, a3 = np.moveaxis(A, -1, 0); b0, b1, b2, b3 = np.moveaxis(B, -1, 0)
    return np.stack([a0*b0-a1*b1-a2*b2-a3*b3, a0*b1+a1*b0+a2*b3-a3*b2, a0*b2-a1*b3+a2*b0+a3*b1, a0*b3+a1*b2-a2*b1+a3*b0], -1)


def brute(q1, q2):
    """all 576 descriptions of the misorientation: angles and sorted absolute vector parts"""
    d = R.qmul(R.qnorm(q1), R.qconj(R.qnorm(q2)))
    L = qmulv(SQ, np.broadcast_to(d, SQ.shape)); A = qmulv(L[:, None, :], SQ[None, :, :]).reshape(-1, 4)
    v = np.sort(np.abs(A[:, 1:]), axis=1)[:, ::-1]
    return 2*np.arctan2(np.linalg.norm(v, axis=1), np.abs(A[:, 0])), v


SPECIAL = [[[1, 1, 1], 60.0], [[1, 0, 0], 45.0], [[1, 1, 0], 38.94244], [[1, 1, 0], 50.47880], [[1, 0, 0], 36.8699], [[1, 1, 1], 38.2132], [[1, 1, 0], 60.0], [[1, 0, 0], 22.61986],
           [[1, 1, 0.41421356], 62.7994], [[1, 1, 0], 61.0], [[1, 0.41421356, 0.41421356], 56.60], [[1, 1, 1], 0.0], [[1, 2, 3], 1e-6], [[1, 2, 3], 1e-3]]


@st.composite
def pair(draw):
    q1 = np.array(draw(st.one_of(gen.generic_quat(), gen.quat()))); k = draw(st.integers(0, 2))
    if k == 0: q2 = np.array(draw(st.one_of(gen.generic_quat(), gen.quat())))
    else:
        ax, w = draw(st.sampled_from(SPECIAL)) if k == 1 else (draw(gen.unit3()), draw(gen.floats(0, 63)))
        n = np.array(ax, float); m = R.ax2qu([*(n/np.linalg.norm(n)), math.radians(w)])
        q2 = R.qmul(SQ[draw(st.integers(0, 23))], R.qmul(R.qconj(m), R.qmul(SQ[draw(st.integers(0, 23))], q1)))
    if draw(st.booleans()): q2 = -q2
    return [[float(x) for x in q1], [float(x) for x in q2]]


@st.composite
def case(draw):
    return {"p": draw(pair()), "s1": draw(st.integers(0, 23)), "s2": draw(st.integers(0, 23)), "dt": draw(st.sampled_from(["f8", "f8", "f4"])), "neg": draw(st.booleans())}


def ang(q): q = np.asarray(q, float); return 2*np.arctan2(np.linalg.norm(q[..., 1:], axis=-1), q[..., 0])


@reg.facet("pairs", case, quick=1500, thorough=40000, budget=60, rule="one pair of orientations against the brute-force minimum over 24x24 operators, exchange of the arguments, replacement by equivalents")
def f_pairs(c, rec):
    from pyebsdindex.misorientation import misorientcubic_quick as mis
    q1, q2 = (np.array(x).astype(c["dt"]) for x in c["p"]); k1, k2 = q1.copy(), q2.copy(); tol = 2e-7 if c["dt"] == "f8" else 2e-3; vt = 1e-6 if c["dt"] == "f8" else 1e-5
    o = mis(q1, q2); require(np.array_equal(q1, k1) and np.array_equal(q2, k2), "misorientcubic_quick modified its arguments")
    require(o.shape == (4,), "shape %s", o.shape); require(np.isfinite(o).all() and abs(np.linalg.norm(o)-1) < 1e-5, "not a unit quaternion: %s", o.tolist())
    A, V = brute(q1.astype(float), q2.astype(float)); a = A.min(); w = float(ang(o))
    require(abs(w-a) <= tol, "misorientation angle %.7f deg, smallest over all equivalents %.7f deg", np.degrees(w), np.degrees(a))
    require(o[0] >= 0 and (o[1:] >= -vt).all() and o[1] >= o[2]-vt and o[2] >= o[3]-vt, "axis not in the standard triangle: %s", o.tolist())
    # near a special position another description has almost the same angle
    near = A <= a+4*tol
    require((np.abs(V[near]-np.asarray(o[1:], float)).max(1) <= (2e-6 if c["dt"] == "f8" else 2e-3)).any(), "axis part %s does not belong to a smallest rotation: %s", o[1:].tolist(), V[near][:4].tolist())
    require(abs(float(ang(mis(q2, q1)))-w) <= tol, "angle depends on the order of the arguments")
    e1 = R.qmul(SQ[c["s1"]], c["p"][0]); e2 = R.qmul(SQ[c["s2"]], c["p"][1]); e1 = -e1 if c["neg"] else e1
    w2 = float(ang(mis(e1.astype(c["dt"]), e2.astype(c["dt"])))); require(abs(w2-w) <= tol, "angle %.7f deg becomes %.7f deg for equivalent orientations", np.degrees(w), np.degrees(w2))
    z = float(ang(mis(np.array(c["p"][0]).astype(c["dt"]), e1.astype(c["dt"])))); require(z <= tol, "an orientation and its symmetric equivalent are reported %.7f deg apart", np.degrees(z))
    if a > 1e-4: require(w > 1e-5, "different orientations reported as equal")
    plain = R.qangle(c["p"][0], c["p"][1]); rec.nontrivial(abs(plain-a) > 1e-3)
    rec.label("<1 deg" if a < 0.0175 else "60 deg and more" if a > 1.047-1e-6 else "between")


@st.composite
def batch(draw):
    n = draw(st.integers(1, 7)); k = draw(st.sampled_from(["NN", "1N", "N1", "2d"]))
    P = [draw(pair()) for _ in range(n)]
    return {"P": P, "k": k, "dt": draw(st.sampled_from([["f8", "f8"], ["f4", "f4"], ["f4", "f8"], ["f8", "f4"]])), "lay": draw(st.sampled_from(["C", "F", "strided"])), "rep": draw(st.sampled_from([0]*9+[300, 1500]))}


@reg.facet("batches", batch, quick=600, thorough=15000, budget=60, rule="arrays of orientations, one against many, against the pairs evaluated alone")
def f_batch(c, rec):
    from pyebsdindex.misorientation import misorientcubic_quick as mis
    P = np.array(c["P"]); A, B = P[:, 0].astype(c["dt"][0]), P[:, 1].astype(c["dt"][1]); n = len(P)
    if c["k"] == "1N": A = A[:1]
    if c["k"] == "N1": B = B[:1]
    Al, Bl = gen.layout(A, c["lay"]), gen.layout(B, c["lay"])
    o = np.asarray(mis(Al, Bl), float).reshape(-1, 4)
    require(len(o) == n, "%s results for %s pairs", len(o), n); require(np.array_equal(Al, A) and np.array_equal(Bl, B), "arguments modified")
    tol = 5e-7 if c["dt"] == ["f8", "f8"] else 2e-3
    for i in range(n):
        a, b = A[i % len(A)], B[i % len(B)]
        s = np.asarray(mis(a, b), float); require(abs(float(ang(o[i]))-float(ang(s))) < tol, "pair %d: %.6f in the batch, %.6f alone", i, np.degrees(ang(o[i])), np.degrees(ang(s)))
        w = brute(a.astype(float), b.astype(float))[0].min(); require(abs(float(ang(o[i]))-w) < tol, "pair %d: angle %.6f, smallest over all equivalents %.6f", i, np.degrees(ang(o[i])), np.degrees(w))
    if c["rep"]:
        i = np.random.default_rng(c["rep"]+n).integers(0, n, c["rep"]); b = np.asarray(mis(A if len(A) == 1 else A[i], B if len(B) == 1 else B[i]), float).reshape(-1, 4); k = np.zeros_like(i) if len(A) == 1 and len(B) == 1 else i
        if len(b) > 1: require(len(b) == len(i) and np.abs(ang(b)-ang(o[k])).max() < tol, "%d pairs drawn from these give other angles", len(i))
    rec.nontrivial(n > 1); rec.label(c["k"])
