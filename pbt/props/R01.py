"""R01: conversions between rotation representations."""
import math
import numpy as np
from hypothesis import strategies as st
from ..core import Registry, require
from ..ref import rot as R
from .. import gen

reg = Registry()
RULE = ("A case is a batch of 1-6 rotations given in one representation, one float type and one memory layout; it is converted to the six "
        "others.  Non-trivial: the batch contains a rotation that is not the identity.")
ASSUMPTIONS = ["angles compared through an independent float64 implementation of every representation; tolerance 1e-8 rad (1e-4 in "
               "float32) for generic rotations, 5e-6 (1e-3) within 0.01 rad of a singular locus, 3e-4 there for the array version"]
REPS = ["eu", "om", "ax", "ro", "qu", "ho", "cu"]


def check_range(b, y, dt, msg):
    t = 1e-9 if dt == np.float64 else 2e-6
    if b == "qu":
        require(abs(np.linalg.norm(y)-1) < 1e3*t and y[0] >= -t, "%s: not a unit quaternion with q0>=0: %s", msg, y)
    elif b == "eu":
        require((y >= -t).all() and y[0] <= 2*math.pi+t and y[2] <= 2*math.pi+t and y[1] <= math.pi+t, "%s: Euler angles out of range: %s", msg, y)
    elif b == "om":
        require(np.abs(y @ y.T - np.eye(3)).max() < (1e-6 if dt == np.float64 else 1e-4) and np.linalg.det(y) > 0, "%s: not a rotation matrix: %s", msg, y)
    elif b == "ax":
        require(abs(np.linalg.norm(y[:3])-1) < 1e3*t and -t <= y[3] <= math.pi+t, "%s: bad axis-angle: %s", msg, y)
    elif b == "ro":
        require(abs(np.linalg.norm(y[:3])-1) < 1e3*t and y[3] >= -t, "%s: bad Rodrigues-Frank vector: %s", msg, y)
    elif b == "ho":
        require(np.linalg.norm(y) <= R.BALL_R + 1e2*t, "%s: outside the homochoric ball: %s", msg, y)
    elif b == "cu":
        require(np.abs(y).max() <= R.CUBE_HALF + 1e2*t, "%s: outside the cubochoric cube: %s", msg, y)


def singular(q):
    w = 2*math.acos(min(1.0, abs(q[0])))
    M = R.qu2om(q)
    return w < 0.01 or w > math.pi-0.01 or abs(M[2, 2]) > math.cos(0.01)


def cu_edge(q):
    """near the planes |xi| = |xj| and xi = 0, where the cubochoric map switches branch or takes acos(1): half the digits are lost there"""
    v = np.abs(np.asarray(q[1:4], float)); m = v.max()
    return m > 0 and min(abs(v[0]-v[1]), abs(v[1]-v[2]), abs(v[0]-v[2]), v.min()) < 1e-2*m


def source(a, q, raw):
    """the source representation of one rotation: raw Euler angles / raw axis-angle when given, else from the quaternion"""
    if raw is not None:
        if a == "eu": return R.eu2om(raw), np.array(raw)
        if a == "ax": return None, np.array(raw)
    return None, np.asarray(R.FROMQU[a](q), float)


@st.composite
def cases(draw, mod):
    a = draw(st.sampled_from(REPS))
    n = draw(st.integers(1, 6))
    rots = []
    for _ in range(n):
        if a == "eu" and draw(st.booleans()):
            ang = st.one_of(st.sampled_from([0.0, math.pi/2, math.pi, 1.5*math.pi, 2*math.pi - 1e-9]), gen.floats(0, 2*math.pi))
            P = st.one_of(st.sampled_from([0.0, math.pi/2, math.pi, 1e-4, math.pi-1e-4]), gen.floats(0, math.pi))
            e = [draw(ang), draw(P), draw(ang)]
            rots.append({"raw": e, "q": [float(x) for x in R.om2qu(R.eu2om(e))]})
        elif a == "ax" and mod == "rotlib" and draw(st.booleans()):
            v = draw(gen.axang()); s = draw(st.sampled_from([1.0, 0.25, 3.0])); w = draw(gen.floats(-6.2, 6.2))
            if abs(w) < 1e-2: w = 0.5
            raw = [x*s for x in v[:3]] + [w]
            rots.append({"raw": raw, "q": [float(x) for x in R.ax2qu(raw)]})
        else:
            rots.append({"raw": None, "q": draw(gen.quat())})
    return {"mod": mod, "a": a, "rots": rots, "dtype": draw(st.sampled_from(["float64", "float64", "float32"])) if mod == "rotlib" else "float64",
            "single": n == 1 and draw(st.booleans()), "layout": draw(st.sampled_from(["C", "F", "strided"]))}


def run(case, rec):
    from pyebsdindex import rotlib, rotations
    mod = {"rotlib": rotlib, "rotations": rotations}[case["mod"]]
    a, dt = case["a"], np.dtype(case["dtype"]).type
    X = np.array([source(a, r["q"], r["raw"])[1] for r in case["rots"]]).astype(dt)
    X = X[0] if case["single"] else gen.layout(X, case["layout"])
    X0 = X.copy()
    rows = X0[None] if case["single"] else X0
    qref = [R.TOQU[a](r.astype(float)) for r in rows]
    for b in REPS:
        if b == a: continue
        fn = getattr(mod, a + "2" + b)
        with np.errstate(all="ignore"):
            Y = np.asarray(fn(X))
        require(np.array_equal(X, X0, equal_nan=True), "%s2%s modified its input", a, b)
        sh = {"om": (3, 3), "ax": (4,), "qu": (4,), "ro": (4,)}.get(b, (3,))
        require(Y.size == len(rows)*int(np.prod(sh)), "%s2%s returned shape %s for %d rotations", a, b, Y.shape, len(rows))
        Y = Y.reshape((len(rows),) + sh)
        for i, (y, q, r) in enumerate(zip(Y, qref, case["rots"])):
            msg = "%s.%s2%s of %s (element %d of %d, %s)" % (case["mod"], a, b, rows[i].tolist(), i, len(rows), case["dtype"])
            yf = y.astype(float)
            require(not np.isnan(yf).any(), "%s: NaN in %s", msg, yf)
            if case["mod"] == "rotlib": check_range(b, yf, dt, msg)
            sing = singular(q) or ("cu" in (a, b) and cu_edge(q))
            tol = (3e-4 if case["mod"] == "rotations" else 5e-6 if dt == np.float64 else 1e-3) if sing else (1e-8 if dt == np.float64 else 1e-4)
            e = R.qangle(R.TOQU[b](yf), q)
            require(e < tol, "%s gives %s, which differs from the same rotation by %.3g rad", msg, yf.tolist(), e)
            if sing: rec.label("singular")
    rec.label(a, "single" if case["single"] else "batch")
    rec.nontrivial(any(abs(r["q"][0]) < 1-1e-12 for r in case["rots"]))


@reg.facet("rotlib", lambda: cases("rotlib"), quick=3000, thorough=60000, budget=100, group="rotlib", rule=RULE)
def f_rotlib(case, rec):
    run(case, rec)


@reg.facet("rotations_arrays", lambda: cases("rotations"), quick=800, thorough=20000, budget=60, group="rotations", rule=RULE)
def f_rotations(case, rec):
    run(case, rec)


@reg.facet("round_trip_cycles", lambda: st.fixed_dictionaries({"q": gen.quat(), "path": st.lists(st.sampled_from(REPS), min_size=2, max_size=5)}),
           quick=1500, thorough=30000, budget=60, group="rotations",
           rule="random chains qu -> r1 -> r2 -> ... -> qu through rotlib; non-trivial: rotation is not the identity")
def f_chain(case, rec):
    from pyebsdindex import rotlib
    x, cur = np.array(case["q"]), "qu"
    for r in case["path"] + ["qu"]:
        if r != cur:
            x = np.asarray(getattr(rotlib, cur + "2" + r)(x)); cur = r
    e = R.qangle(x, case["q"])
    require(e < (2e-5 if singular(case["q"]) or cu_edge(case["q"]) else 1e-7), "chain qu->%s->qu changed %s by %.3g rad", "->".join(case["path"]), case["q"], e)
    rec.nontrivial(case["q"][0] < 1-1e-12)


@reg.facet("batch_of_many", lambda: st.fixed_dictionaries({"seed": gen.seeds, "n": st.integers(2, 400), "a": st.sampled_from(REPS), "b": st.sampled_from(REPS),
                                                            "dtype": st.sampled_from(["float64", "float32"]), "ident": st.lists(st.integers(0, 399), max_size=4)}),
           quick=400, thorough=8000, budget=60, group="rotations",
           rule="large random batches with identity/half-turn rows mixed in; each row must equal the conversion of that row alone")
def f_many(case, rec):
    from pyebsdindex import rotlib
    a, b = case["a"], case["b"]
    if a == b: return
    rng = np.random.default_rng(case["seed"])
    Q = rng.normal(size=(case["n"], 4)); Q /= np.linalg.norm(Q, axis=1)[:, None]; Q[Q[:, 0] < 0] *= -1
    for k, i in enumerate(case["ident"]):
        Q[i % case["n"]] = [1, 0, 0, 0] if k % 2 == 0 else [0, 0, 1, 0]
    X = np.array([R.FROMQU[a](q) for q in Q]).astype(case["dtype"])
    fn = getattr(rotlib, a + "2" + b)
    Y = np.asarray(fn(X))
    for i in sorted(set([0, case["n"]-1] + [j % case["n"] for j in case["ident"]] + rng.integers(0, case["n"], 5).tolist())):
        y1 = np.asarray(fn(X[i]))
        ok = np.allclose(Y[i], y1, rtol=1e-5, atol=1e-6 if case["dtype"] == "float64" else 2e-4) or \
            R.qangle(R.TOQU[b](Y[i].astype(float)), R.TOQU[b](y1.astype(float))) < (1e-6 if case["dtype"] == "float64" else 1e-3)
        require(ok, "%s2%s row %d of %d gives %s in the batch but %s alone", a, b, i, case["n"], Y[i].tolist(), y1.tolist())
    rec.nontrivial()


def perms():
    import itertools
    out = []
    for p in itertools.permutations(range(3)):
        for sg in itertools.product([1, -1], repeat=3):
            M = np.zeros((3, 3), int)
            for i in range(3): M[i, p[i]] = sg[i]
            if round(np.linalg.det(M)) == 1: out.append(M.tolist())
    return out
PERM = perms()


@st.composite
def ints(draw):
    a = draw(st.sampled_from(REPS)); n = draw(st.integers(1, 4)); ax = st.sampled_from([[1, 0, 0], [0, 1, 0], [0, 0, 1], [-1, 0, 0], [0, 0, -1]])
    row = {"eu": st.tuples(st.integers(0, 6), st.integers(0, 3), st.integers(0, 6)).map(list), "om": st.sampled_from(PERM), "ax": st.tuples(ax, st.integers(1, 3)).map(lambda t: t[0]+[t[1]]),
           "ro": st.tuples(ax, st.integers(1, 9)).map(lambda t: t[0]+[t[1]]), "qu": st.sampled_from([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]]),
           "ho": st.lists(st.integers(-1, 1), min_size=3, max_size=3).filter(lambda v: 0 < sum(abs(x) for x in v) < 2), "cu": st.lists(st.integers(-1, 1), min_size=3, max_size=3)}[a]
    return {"a": a, "x": [draw(row) for _ in range(n)], "form": draw(st.sampled_from(["int64", "int32", "int8", "uint8", "list", "tuple", "floatlist"])), "single": n == 1 and draw(st.booleans())}


@reg.facet("integers_and_lists", ints, quick=700, thorough=10000, budget=40, group="rotations", rule="whole-number representations given as integer arrays, lists and tuples; each has to give what the same numbers in float64 give")
def f_ints(case, rec):
    from pyebsdindex import rotlib
    a = case["a"]; x = case["x"][0] if case["single"] else case["x"]; f = case["form"]
    if f == "uint8" and np.min(x) < 0: f = "int8"
    tup = lambda v: tuple(tup(w) for w in v) if isinstance(v, list) else v
    X = x if f == "list" else tup(x) if f == "tuple" else np.array(x, float).tolist() if f == "floatlist" else np.array(x, f)
    for b in REPS:
        if b == a: continue
        fn = getattr(rotlib, a+"2"+b); want = np.asarray(fn(np.array(x, np.float64))); got = np.asarray(fn(X))
        require(got.shape == want.shape and np.allclose(got, want, atol=1e-9, equal_nan=True), "%s2%s of %s as %s gives %s, as float64 %s", a, b, x, f, got.tolist(), want.tolist())
    rec.label(a, f); rec.nontrivial()
