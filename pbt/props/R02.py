"""R02: quaternion algebra and its broadcasting."""
import math
import numpy as np
from hypothesis import strategies as st
from ..core import Registry, require
from ..ref import rot as R
from .. import gen

reg = Registry()
RULE = ("Cases are batches of quaternions/vectors, mixing singular and random ones, in one float type, one memory layout and one of the batch shapes "
        "1x1, 1xN, Nx1, NxN.  Non-trivial: at least two of the quaternions involved differ from the identity.")
ASSUMPTIONS = ["the product convention is the one under which rotating by a product means rotating successively (q1*q2 applies q2 first); tolerance 1e-12 (1e-5 in float32)"]


def vec():
    f = st.one_of(st.sampled_from([0.0, 1.0, -1.0]), gen.floats(-10, 10))
    return st.lists(f, min_size=3, max_size=3)


@st.composite
def cases(draw):
    n = draw(st.integers(1, 5))
    return {"a": draw(st.lists(gen.quat(), min_size=n, max_size=n)), "b": draw(st.lists(gen.quat(), min_size=n, max_size=n)),
            "c": draw(gen.quat()), "v": draw(st.lists(vec(), min_size=n, max_size=n)), "sgn": draw(st.lists(st.sampled_from([1, -1]), min_size=2*n, max_size=2*n)),
            "scale": draw(st.sampled_from([1.0, 0.5, 3.0])), "shape": draw(st.sampled_from(["11", "1N", "N1", "NN"])),
            "dtype": draw(st.sampled_from(["float64", "float64", "float32"])), "layout": draw(st.sampled_from(["C", "F", "strided"])), "flat": draw(st.booleans())}


def operand(A, many, case):
    dt = case["dtype"]
    if not many:
        x = np.array(A[0]).astype(dt)
        return x if case["flat"] else x[None]
    return gen.layout(np.array(A).astype(dt), case["layout"])


def vref(q, v): return R.qu2om(q) @ np.asarray(v, float)


@reg.facet("laws", cases, quick=2500, thorough=50000, budget=90, group="laws", rule=RULE)
def f_laws(case, rec):
    from pyebsdindex import rotlib
    n = len(case["a"]); t = 1e-12 if case["dtype"] == "float64" else 1e-5
    if case["shape"] == "11": n = 1
    sg = case["sgn"]
    A = np.array(case["a"][:n]) * np.array(sg[:n])[:, None]; B = np.array(case["b"][:n]) * np.array(sg[n:2*n])[:, None]
    V = np.array(case["v"][:n])*case["scale"]; vt = t*max(1.0, np.abs(V).max())*10
    am, bm = case["shape"][0] == "N", case["shape"][1] == "N"
    a, b = operand(A, am, case), operand(B, bm, case)
    a0, b0 = a.copy(), b.copy()
    ia = (lambda i: i if am else 0); ib = (lambda i: i if bm else 0)
    N = n if (am or bm) else 1
    # product, element by element against the reference
    ab = np.asarray(rotlib.quat_multiply(a, b))
    require(ab.size == 4*N, "product of shapes %s and %s has shape %s", a.shape, b.shape, ab.shape)
    ab = ab.reshape(N, 4)
    for i in range(N):
        w = R.qmul(A[ia(i)], B[ib(i)])
        require(np.abs(ab[i]-w).max() < 4*t, "product (%s) row %d is %s, should be %s", case["shape"], i, ab[i].tolist(), w.tolist())
        require(abs(np.linalg.norm(ab[i]) - 1) < 4*t, "product of unit quaternions has length %s", np.linalg.norm(ab[i]))
    # associativity with a third single quaternion, identity, inverse
    c = np.array(case["c"]).astype(case["dtype"]); one = np.array([1, 0, 0, 0]).astype(case["dtype"])
    l = np.asarray(rotlib.quat_multiply(ab.astype(case["dtype"]), c)).reshape(N, 4); r = np.asarray(rotlib.quat_multiply(a, np.asarray(rotlib.quat_multiply(b, c)))).reshape(N, 4)
    require(np.abs(l-r).max() < 8*t, "product not associative: %s vs %s", l.tolist(), r.tolist())
    for e in (rotlib.quat_multiply(one, a), rotlib.quat_multiply(a, one)):
        require(np.abs(np.asarray(e).reshape(-1, 4) - a0.reshape(-1, 4)).max() < t, "identity is not neutral")
    inv = np.asarray(rotlib.quatconj(a)); require(inv.size == a.size, "quatconj shape %s", inv.shape)
    for e in (rotlib.quat_multiply(inv, a), rotlib.quat_multiply(a, inv)):
        require(np.abs(np.asarray(e).reshape(-1, 4) - [1, 0, 0, 0]).max() < 4*t, "q times its conjugate is %s", np.asarray(e).tolist())
    # vectors
    v = operand(V, bm, case); v0 = v.copy()
    av = np.asarray(rotlib.quat_vector(a, v)); require(av.size == 3*N, "quat_vector of shapes %s, %s has shape %s", a.shape, v.shape, av.shape)
    av = av.reshape(N, 3)
    for i in range(N):
        w = vref(A[ia(i)], V[ib(i)])
        require(np.abs(av[i]-w).max() < vt, "rotated vector (%s) row %d is %s, should be %s", case["shape"], i, av[i].tolist(), w.tolist())
        require(abs(np.linalg.norm(av[i]) - np.linalg.norm(V[ib(i)])) < vt, "rotation changed a length")
    ab1 = rotlib.quat_multiply(a0.reshape(-1, 4)[0], np.array(case["c"]).astype(case["dtype"]))
    lhs = np.asarray(rotlib.quat_vector(ab1, v)).reshape(-1, 3); rhs = np.asarray(rotlib.quat_vector(a0.reshape(-1, 4)[0], np.asarray(rotlib.quat_vector(c, v)))).reshape(-1, 3)
    require(np.abs(lhs-rhs).max() < 2*vt, "rotating by a product differs from rotating successively: %s vs %s", lhs.tolist(), rhs.tolist())
    M = np.asarray(rotlib.qu2om(a0.reshape(-1, 4)[0])).reshape(3, 3)
    require(np.abs(M @ V[0] - np.asarray(rotlib.quat_vector(a0.reshape(-1, 4)[0], V[0].astype(case["dtype"])))).max() < 2*vt, "qu2om and quat_vector disagree")
    one = np.asarray(rotlib.quat_vector1(a0.reshape(-1, 4)[0].copy(), V[0].astype(case["dtype"])))
    require(one.shape == (3,) and np.abs(one - vref(A[0], V[0])).max() < 2*vt, "quat_vector1 gives %s, should be %s", one.tolist(), vref(A[0], V[0]).tolist())
    # normalisation
    s = np.array(case["a"][:n]) * np.array(sg[:n])[:, None] * case["scale"]*7
    nn = np.asarray(rotlib.quatnorm(s.astype(case["dtype"]))).reshape(-1, 4)
    for i in range(n):
        w = s[i]/np.linalg.norm(s[i])
        if s[i].astype(case["dtype"])[0] < 0: w = -w
        require(np.abs(nn[i]-w).max() < t, "quatnorm of %s is %s", s[i].tolist(), nn[i].tolist())
    require(np.array_equal(a, a0) and np.array_equal(b, b0) and np.array_equal(v, v0), "an input was modified")
    rec.label(case["shape"], case["dtype"])
    rec.nontrivial(sum(abs(q[0]) < 1-1e-9 for q in case["a"][:n] + case["b"][:n]) >= 2)


@reg.facet("batches", lambda: st.fixed_dictionaries({"seed": gen.seeds, "n": st.integers(2, 600), "shape": st.sampled_from(["1N", "N1", "NN"]),
                                                     "da": st.sampled_from(["float64", "float32"]), "db": st.sampled_from(["float64", "float32"])}),
           quick=500, thorough=10000, budget=60, group="batches", rule="large random batches, float types mixed between operands, against the vectorised reference")
def f_batches(case, rec):
    from pyebsdindex import rotlib
    rng = np.random.default_rng(case["seed"]); n = case["n"]
    na, nb = (n if c == "N" else 1 for c in case["shape"])
    Q = [rng.normal(size=(k, 4)) for k in (na, nb)]
    a, b = [q/np.linalg.norm(q, axis=1)[:, None] for q in Q]
    v = rng.normal(size=(nb, 3))
    a1, b1, v1 = a.astype(case["da"]), b.astype(case["db"]), v.astype(case["db"])
    t = 1e-12 if case["da"] == case["db"] == "float64" else 2e-6
    w = np.array([R.qmul(a[i % na], b[i % nb]) for i in range(n)])
    y = np.asarray(rotlib.quat_multiply(a1, b1)); require(y.shape == (n, 4), "shape %s", y.shape)
    require(np.abs(y-w).max() < t, "product row %d wrong", int(np.abs(y-w).max(axis=1).argmax()))
    w = np.array([vref(a[i % na], v[i % nb]) for i in range(n)])
    y = np.asarray(rotlib.quat_vector(a1, v1)); require(y.shape == (n, 3), "shape %s", y.shape)
    require(np.abs(y-w).max() < 20*t, "rotated vector row %d wrong", int(np.abs(y-w).max(axis=1).argmax()))
    rec.nontrivial()


@st.composite
def clusters(draw):
    c = draw(gen.quat()); n = draw(st.integers(1, 8)); spread = draw(st.sampled_from([0.0, 1e-3, 0.02]))
    k = draw(st.integers(0, 7))
    if k < 4: c = [float(i == k) for i in range(4)]   # at one of the four axes the other components are as small as the spread
    d = draw(st.lists(st.lists(gen.floats(-1, 1), min_size=3, max_size=3), min_size=n, max_size=n))
    return {"c": c, "d": [[x*spread for x in y] for y in d], "sgn": draw(st.lists(st.sampled_from([1, -1]), min_size=n, max_size=n)), "left": draw(gen.quat())}


@reg.facet("average", clusters, quick=1200, thorough=20000, budget=40, group="batches",
           rule="a cluster of rotations within a few degrees, signs of the quaternions arbitrary; the average lies in the cluster, ignores signs, is the mean for a symmetric pair "
                "and moves with the cluster.  Non-trivial: at least two different members")
def f_average(case, rec):
    from pyebsdindex import rotlib
    qs = np.array([R.qmul(case["c"], R.qnorm([1.0, *[0.5*x for x in d]])) for d in case["d"]])
    av = np.asarray(rotlib.quatave(qs * np.array(case["sgn"])[:, None]))
    require(av.shape == (4,) and abs(np.linalg.norm(av)-1) < 1e-9 and av[0] >= -1e-12, "average %s is not a unit quaternion", av)
    r = max(R.qangle(q, p) for q in qs for p in qs)
    for q in qs: require(R.qangle(av, q) <= r + 1e-7, "average is %.3g rad from a member of a cluster of diameter %.3g", R.qangle(av, q), r)
    m = qs.sum(axis=0); require(R.qangle(av, m/np.linalg.norm(m)) < 1e-7, "average %s, mean direction of the cluster %s", av, m/np.linalg.norm(m))
    av2 = np.asarray(rotlib.quatave(np.array([R.qmul(case["left"], q) for q in qs])))
    require(R.qangle(av2, R.qmul(case["left"], av)) < 1e-7, "average does not move with the cluster")
    rec.nontrivial(r > 1e-6)


@st.composite
def axes(draw):
    v = draw(gen.unit3()); s = draw(st.sampled_from([1.0, 0.1, 5.0])); w = draw(st.one_of(gen.floats(-6.2, 6.2), st.sampled_from([3.0, -3.0, 3.5, -3.5, math.pi, 6.0])))
    return [x*s for x in v] + [w if abs(w) > 1e-3 else 0.1]


@reg.facet("axnorm", lambda: st.lists(axes(), min_size=1, max_size=5), quick=800, thorough=20000, budget=30, group="batches",
           rule="axis-angle pairs with any axis length and angle in (-2 pi, 2 pi); normalising keeps the rotation and gives a unit axis with angle in [0, pi]")
def f_axnorm(case, rec):
    from pyebsdindex import rotlib
    X = np.array(case); X0 = X.copy()
    Y = np.asarray(rotlib.axnorm(X)).reshape(-1, 4)
    for x, y in zip(X0, Y):
        require(abs(np.linalg.norm(y[:3])-1) < 1e-9 and -1e-9 <= y[3] <= math.pi + 2e-6, "axnorm(%s) = %s out of range", x.tolist(), y.tolist())
        e = R.qangle(R.ax2qu(x), R.ax2qu(y)); require(e < 1e-9, "axnorm(%s) = %s is another rotation (by %.3g)", x.tolist(), y.tolist(), e)
    require(np.array_equal(X, X0), "input modified"); rec.nontrivial(any(abs(x[3]) > 0.01 for x in case))


@reg.facet("random_quats", lambda: st.fixed_dictionaries({"seed": gen.seeds, "n": st.sampled_from([1, 2, 7, 4000])}), quick=60, thorough=1000, budget=30, group="batches",
           rule="randomquat returns n unit quaternions spread evenly over all rotations (second moments within 6 sigma for n=4000)")
def f_random(case, rec):
    from pyebsdindex import rotlib
    np.random.seed(case["seed"] % 2**32); q = np.asarray(rotlib.randomquat(case["n"])).reshape(-1, 4)
    require(q.shape[0] == case["n"] and np.abs(np.linalg.norm(q, axis=1)-1).max() < 1e-6, "not %d unit quaternions", case["n"])
    if case["n"] == 4000:
        m = (q[:, :, None]*q[:, None, :]).mean(axis=0)
        # E[qi qj] = 1/4 on the diagonal (sd sqrt(1/16)/sqrt(n)); off-diagonal terms with i, j > 0 vanish (sd sqrt(1/24)/sqrt(n))
        require(np.abs(np.diag(m)-0.25).max() < 6*0.25/math.sqrt(4000) and np.abs(m[1:, 1:]-np.diag(np.diag(m)[1:])).max() < 6*0.21/math.sqrt(4000), "random rotations are not uniform: %s", m.tolist())
        rec.nontrivial()


@reg.facet("integers_and_lists", lambda: st.fixed_dictionaries({"q": st.lists(gen.quat(), min_size=1, max_size=4), "v": st.lists(st.lists(st.integers(-9, 9), min_size=3, max_size=3), min_size=1, max_size=4), "form": st.sampled_from(["int64", "int32", "int8", "list", "tuple"]),
                                                                "qi": st.lists(st.lists(st.integers(-3, 3), min_size=4, max_size=4).filter(any), min_size=1, max_size=3), "shape": st.sampled_from(["1N", "N1", "NN", "11"])}),
           quick=500, thorough=8000, budget=40, group="batches", rule="whole-number vectors and quaternions given as integer arrays, lists and tuples; each has to give what the same numbers in float64 give")
def f_ints(case, rec):
    from pyebsdindex import rotlib
    f = case["form"]; mk = lambda x: x if f == "list" else tuple(tuple(r) if isinstance(r, list) else r for r in x) if f == "tuple" else np.array(x, f)
    q, v = case["q"], case["v"]
    if case["shape"][0] == "1": q = q[0]
    if case["shape"][1] == "1": v = v[0]
    if case["shape"] == "NN": k = min(len(q), len(v)); q, v = q[:k], v[:k]
    Q = np.array(q); w = np.asarray(rotlib.quat_vector(Q, np.array(v, float)))
    for qq in (Q, q):
        g = np.asarray(rotlib.quat_vector(qq, mk(v))); require(g.shape == w.shape and np.abs(g-w).max() < 1e-9, "vector %s as %s rotated to %s, as float64 %s", v, f, g.tolist(), w.tolist())
    qi = case["qi"]; qf = np.array(qi, float)
    for nm in ("quatnorm", "quatconj"):
        g, w = np.asarray(getattr(rotlib, nm)(mk(qi))), np.asarray(getattr(rotlib, nm)(qf)); require(g.shape == w.shape and np.abs(g-w).max() < 1e-9, "%s of %s as %s is %s, as float64 %s", nm, qi, f, g.tolist(), w.tolist())
    g, w = np.asarray(rotlib.quat_multiply(mk(qi), Q if Q.ndim == 1 else Q[0])), np.asarray(rotlib.quat_multiply(qf, Q if Q.ndim == 1 else Q[0]))
    require(g.shape == w.shape and np.abs(g-w).max() < 1e-9, "product of %s as %s is %s, as float64 %s", qi, f, g.tolist(), w.tolist()); rec.nontrivial(any(any(x) for x in case["v"]))


@reg.facet("large", lambda: st.fixed_dictionaries({"seed": gen.seeds, "n": st.sampled_from([257, 1024, 3000, 20000]), "shape": st.sampled_from(["1N", "N1", "NN"]), "dt": st.sampled_from(["float64", "float32"])}), quick=60, thorough=1000, budget=30, group="batches",
           rule="thousands of quaternions at once: product, conjugate, vectors and matrices against the formulas. Non-trivial: always")
def f_large(c, rec):
    from pyebsdindex import rotlib
    r = np.random.default_rng(c["seed"]); n = c["n"]; q = lambda m: (lambda x: (x/np.linalg.norm(x, axis=1)[:, None]).astype(c["dt"]))(r.normal(size=(m, 4))); A, B = q(1 if c["shape"][0] == "1" else n), q(1 if c["shape"][1] == "1" else n); V = r.normal(size=(len(B), 3)).astype(c["dt"]); t = 1e-12 if c["dt"] == "float64" else 2e-5
    a, b, v = np.broadcast_to(A, (n, 4)).astype(float), np.broadcast_to(B, (n, 4)).astype(float), np.broadcast_to(V, (n, 3)).astype(float)
    w = np.concatenate([(a[:, :1]*b[:, :1]-(a[:, 1:]*b[:, 1:]).sum(1, keepdims=True)), a[:, :1]*b[:, 1:]+b[:, :1]*a[:, 1:]+np.cross(a[:, 1:], b[:, 1:])], 1)
    g = np.asarray(rotlib.quat_multiply(A, B)).reshape(-1, 4); require(g.shape == (n, 4), "product of %d and %d has shape %s", len(A), len(B), g.shape); e = np.minimum(np.abs(g-w).max(1), np.abs(g+w).max(1)); require(e.max() < 4*t, "product %d of %d is off by %.3g", e.argmax(), n, e.max())
    M = np.array([R.qu2om(x) for x in np.asarray(A[:300], float)]); k = min(300, n); M = np.broadcast_to(M, (k, 3, 3)); u = np.asarray(rotlib.quat_vector(A, V)).reshape(-1, 3); require(u.shape == (n, 3), "quat_vector of %d and %d has shape %s", len(A), len(V), u.shape)
    e = np.abs(u[:k]-np.einsum("nij,nj->ni", M, v[:k])).max(); require(e < 20*t, "rotated vector is off by %.3g", e)
    if c["shape"] == "NN":
        i = r.permutation(n); e = np.abs(np.asarray(rotlib.quat_vector(A[i], V[i]))-u[i]).max(); require(e < t, "rotated vectors depend on the order by %.3g", e)
        e = np.abs(np.asarray(rotlib.quatconj(A))*[1, -1, -1, -1]-A).max(); require(e < t, "conjugates are off by %.3g", e)
    rec.nontrivial()
