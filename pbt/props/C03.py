"""C03: reflector families and the angle library of a phase."""
import itertools
import numpy as np
from hypothesis import strategies as st
from ..core import Registry, require
from ..ref import rot as R, xtal as X
from .. import gen, xgen

reg = Registry()
RULE = "Random space groups, compatible cells and pole lists (with zero poles, parallel repeats and both signs) against orbits computed from the integer symmetry matrices and angles from explicit reciprocal vectors. Non-trivial: at least two families with more than one pole each are left."
ASSUMPTIONS = ["settings as in C01", "at least three poles that are not parallel exist (otherwise no triplet exists and nothing can be indexed)",
               "the four-index notation is only defined for the hexagonal classes 6/m and 6/mmm", "angles of 1 degree or less are left out by design"]

HKL = st.lists(st.integers(-4, 4), min_size=3, max_size=3)


@st.composite
def phase(draw, nmax=5, small=False):
    sg = draw(xgen.sg); l = X.laue(sg)
    cell = draw(xgen.cell_for(l))
    fams = draw(st.lists(st.one_of(HKL, st.sampled_from([[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0], [1, 1, 1], [0, 0, 2], [1, 0, 2], [2, 1, 3], [-1, 2, 0]])), min_size=2, max_size=nmax))
    if draw(st.integers(0, 3)) == 0: fams.append([0, 0, 0])
    if draw(st.integers(0, 3)) == 0:
        k = draw(st.sampled_from([-1, 2, -2])); fams.append([k*x for x in fams[0]])
    four = l in (6, 62) and draw(st.booleans())
    fams = draw(st.permutations(fams))
    return {"sg": sg, "cell": cell, "fam": [list(f) for f in fams], "four": four}


def orbit(h, l, V):
    """all symmetry equivalents of (hkl) and their opposites, as integer triples"""
    G = X.recip(V); out = set()
    for M in X.GROUPS[l]:
        k = (M @ (G.T @ np.array(h, float))) @ V.T
        ki = np.rint(k); assert np.abs(k-ki).max() < 1e-6
        k = tuple(int(i) for i in ki); out.add(k); out.add(tuple(-i for i in k))
    return out


def usable(fams):
    """drop zero poles and poles parallel to an earlier one"""
    keep = []
    for f in fams:
        if any(f) and not any(np.all(np.cross(f, g) == 0) for g in keep): keep.append(list(f))
    return keep


def make(case):
    from pyebsdindex import tripletvote as tv
    fam = [[h, k, -h-k, l] for h, k, l in case["fam"]] if case["four"] else case["fam"]
    return tv.addphase(phasename="t", spacegroup=case["sg"], latticeparameter=case["cell"], polefamilies=fam)


def enough(case):
    l = X.laue(case["sg"]); V = X.cell_vectors(*case["cell"]); u = usable(case["fam"])
    if not u: return None
    orb = [orbit(f, l, V) for f in u]
    # three poles, so that a triplet exists
    return (l, V, u, orb) if sum(len(o) for o in orb) >= 6 else None


def half(orb, V):
    G = X.recip(V); P = []; F = []; H = []
    for i, o in enumerate(orb):
        for h in sorted(o):
            if h > tuple(-x for x in h):
                n = G.T @ np.array(h, float); P.append(n/np.linalg.norm(n)); F.append(i); H.append(h)
    return np.array(P), np.array(F), H


def ang(A, B): return np.degrees(np.arctan2(np.linalg.norm(np.cross(A, B), axis=-1), np.sum(A*B, -1)))


@reg.facet("families", phase, quick=1500, thorough=40000, budget=60, group="main", rule=RULE)
def f_fam(case, rec):
    e = enough(case)
    if e is None: return
    l, V, u, orb = e
    p = make(case); lib = p.completelib; G = X.recip(V)
    pf = np.asarray(p.polefamilies)
    want = np.array([[h, k, -h-k, m] for h, k, m in u]) if l in (6, 62) else np.array(u)
    require(pf.shape == want.shape and np.all(pf == want), "kept pole families %s, should be %s", pf.tolist(), want.tolist())
    require(p.npolefamilies == len(u), "npolefamilies %s for %d families", p.npolefamilies, len(u))
    require(p.lauecode == l, "Laue code %s", p.lauecode)
    poles = np.asarray(lib["poles"], float); fid = np.asarray(lib["familyid"])
    require(np.abs(poles-np.rint(poles)).max() < 1e-3, "poles are not integers: %s", poles.tolist())
    require(list(fid) == sorted(fid) and list(lib["famIndex"]) == [int(np.sum(fid < i)) for i in range(len(u))] and list(lib["nFamily"]) == [int(np.sum(fid == i)) for i in range(len(u))],
            "famIndex/nFamily %s %s do not describe the layout of the pole list", list(lib["famIndex"]), list(lib["nFamily"]))
    for i, o in enumerate(orb):
        got = [tuple(int(x) for x in h) for h in np.rint(poles[fid == i])]
        require(len(set(got)) == len(got), "family %s lists a pole twice: %s", u[i], sorted(got))
        require(set(got) == o, "space group %d, family %s: poles missing %s, poles that do not belong %s", case["sg"], u[i], sorted(o-set(got)), sorted(set(got)-o))
    n = np.rint(poles) @ G; n /= np.linalg.norm(n, axis=1)[:, None]
    require(np.abs(np.asarray(lib["polesCart"])-n).max() < 2e-4, "Cartesian normals are off by %g", np.abs(np.asarray(lib["polesCart"])-n).max())
    T = ang(n[:, None, :], n[None, :, :])
    require(np.asarray(lib["angTable"]).shape == T.shape and np.abs(np.asarray(lib["angTable"])-T).max() < 0.03, "angle table is off by %g degrees", np.abs(np.asarray(lib["angTable"])-T).max())
    rec.nontrivial(sum(len(o) > 2 for o in orb) >= 2); rec.label("laue %d" % l, "four-index" if case["four"] else "three-index")


@reg.facet("angles", lambda: phase(4), quick=500, thorough=10000, budget=70, group="main",
           rule="every pair and (sampled) triple of poles of the families has its angles in the library under its family labels; every library entry is realised. Non-trivial as above")
def f_ang(case, rec):
    e = enough(case)
    if e is None: return
    l, V, u, orb = e
    p = make(case); P, F, H = half(orb, V)
    A = ang(P[:, None, :], P[None, :, :]); A = np.minimum(A, 180-A)
    pa = np.asarray(p.angpairs["angles"], float).reshape(-1); pf = np.asarray(p.angpairs["familyid"]).reshape(-1, 2)
    require(len(pa) == len(pf) == len(np.asarray(p.angpairs["polepairs"]).reshape(-1, 2, 3)), "pair table columns differ in length")
    have = {}
    for a, f in zip(pa, pf): have.setdefault(tuple(int(x) for x in f), []).append(a)
    real = {}
    for i in range(len(u)):
        for j in range(i, len(u)):
            r = np.unique(np.round(A[np.ix_(F == i, F == j)].ravel(), 4)); real[(i, j)] = r
            h = np.array(have.get((i, j), [-9.0]))
            for a in r:
                require(a <= 1.02 or np.abs(h-a).min() <= 0.012, "space group %d: angle %.3f between families %s and %s is not in the library (%s)", case["sg"], a, u[i], u[j], sorted(h))
            for a in h:
                require(a == -9.0 or np.abs(r-a).min() <= 0.012, "space group %d: library angle %.3f does not occur between families %s and %s", case["sg"], a, u[i], u[j])
            require(len(set(np.round(h, 2))) == len(h), "angle listed twice for families %d %d: %s", i, j, sorted(h))
    require(set(have) <= set(real), "pair family labels %s", sorted(have))
    for a, f, (x, y) in zip(pa, pf, np.asarray(p.angpairs["polepairs"], float).reshape(-1, 2, 3)):
        tx, ty = tuple(int(i) for i in np.rint(x)), tuple(int(i) for i in np.rint(y))
        require(tx in orb[f[0]] and ty in orb[f[1]], "pole pair %s %s is not of families %s", tx, ty, f.tolist())
        G = X.recip(V); b = ang(G.T @ np.array(tx, float), G.T @ np.array(ty, float))
        require(abs(min(b, 180-b)-a) < 0.012, "pole pair %s %s encloses %.3f, stored as %.3f", tx, ty, b, a)
    # triplets
    ta = np.asarray(p.angtriplets["angles"], float).reshape(-1, 3); ti = np.asarray(p.angtriplets["familyid"]).reshape(-1, 3)
    require(len(ta) == len(ti), "triplet table columns differ in length")
    D = {}
    for a, f in zip(ta, ti):
        require(a[0] <= a[1] <= a[2], "triplet %s is not sorted", a.tolist()); D.setdefault(tuple(int(x) for x in f), []).append(a)
    for f, a in D.items():
        a = np.array(a); require(len(np.unique(np.round(a, 2), axis=0)) == len(a), "triplet stored twice for families %s", f)
        # angles: 0 between first and second, 1 between first and third, 2 between second and third pole
        for c, (x, y) in enumerate(((0, 1), (0, 2), (1, 2))):
            r = real[tuple(sorted((f[x], f[y])))]
            bad = np.abs(a[:, c][:, None]-r[None, :]).min(axis=1) > 0.012
            require(not bad.any(), "space group %d: stored triplet %s with families %s: the angle %.3f does not occur between families %s and %s", case["sg"], a[bad][:1].tolist(), f, a[bad][0][c] if bad.any() else 0, u[f[x]], u[f[y]])
        D[f] = a
    N = len(P); comb = list(itertools.combinations(range(N), 3))
    if len(comb) > 1200:
        idx = np.random.default_rng(N*7919+case["sg"]).choice(len(comb), 1200, replace=False); comb = [comb[i] for i in idx]
    n = 0; perms = list(itertools.permutations(range(3)))
    for c in comb:
        t3 = np.array([A[c[0], c[1]], A[c[0], c[2]], A[c[1], c[2]]])
        if t3.min() < 1.02: continue
        n += 1; ok = False; near = None
        for q in perms:
            i, j, k = c[q[0]], c[q[1]], c[q[2]]
            t = np.array([A[i, j], A[i, k], A[j, k]])
            if t[0] <= t[1]+0.015 and t[1] <= t[2]+0.015:
                key = (int(F[i]), int(F[j]), int(F[k]))
                if key in D and (np.abs(D[key]-t).max(axis=1) < 0.02).any(): ok = True; break
        require(ok, "space group %d: poles %s %s %s enclose %s but no such triplet with families %s is stored", case["sg"], H[c[0]], H[c[1]], H[c[2]], np.round(t3, 2).tolist(), [u[F[i]] for i in c])
    rec.nontrivial(sum(len(o) > 2 for o in orb) >= 2 and n > 0); rec.label("laue %d" % l)


@reg.facet("sign_free", lambda: st.tuples(phase(4), st.lists(st.booleans(), min_size=8, max_size=8)), quick=300, thorough=6000, budget=40, group="main",
           rule="flipping the sign of any listed pole leaves the poles, pair angles and triplets unchanged. Non-trivial: some sign flipped and two families left")
def f_sign(case, rec):
    case, flips = case
    e = enough(case)
    if e is None: return
    other = dict(case, fam=[[-x for x in f] if b else f for f, b in zip(case["fam"], flips)])
    a, b = make(case), make(other)
    S = lambda p: {(int(f),) + tuple(int(x) for x in np.rint(h)) for h, f in zip(p.completelib["poles"], p.completelib["familyid"])}
    require(S(a) == S(b), "poles differ when signs %s are flipped", flips)
    def tab(t, k):
        return sorted(tuple(np.round(np.atleast_1d(x), 2)) + tuple(int(i) for i in np.atleast_1d(f)) for x, f in zip(np.asarray(t["angles"], float).reshape(-1, k), t["familyid"]))
    for name, k in (("angpairs", 1), ("angtriplets", 3)):
        x, y = tab(getattr(a, name), k), tab(getattr(b, name), k)
        if x != y:   # rounding to 0.01 degree may differ in the last digit
            X_, Y_ = np.array(x), np.array(y)
            require(len(X_) and len(Y_) and all(np.abs(Y_-r).max(axis=1).min() < 0.025 for r in X_) and all(np.abs(X_-r).max(axis=1).min() < 0.025 for r in Y_), "%s differ when signs %s are flipped (%d and %d entries)", name, flips, len(x), len(y))
    rec.nontrivial(len(e[2]) >= 2 and any(flips))


@reg.facet("defaults", [{"lib": x} for x in ("FCC", "BCC", "HCP", "fcc", None)], budget=30, group="main", rule="the shorthand phases, exhaustively")
def f_def(case, rec):
    from pyebsdindex import tripletvote as tv
    p = tv.addphase(case["lib"]) if case["lib"] else tv.addphase()
    want = {"FCC": (225, 43, [[0, 0, 2], [1, 1, 1], [0, 2, 2], [1, 1, 3]]), "BCC": (229, 43, [[0, 1, 1], [0, 0, 2], [1, 1, 2], [0, 1, 3]]),
            "HCP": (194, 62, [[1, 0, -1, 0], [0, 0, 0, 2], [1, 0, -1, 1], [1, 0, -1, 2], [1, 1, -2, 0], [1, 0, -1, 3], [1, 1, -2, 2], [2, 0, -2, 1]])}[(case["lib"] or "FCC").upper()]
    require(p.spacegroup == want[0] and p.lauecode == want[1] and np.array_equal(p.polefamilies, want[2]), "%s: space group %s, Laue %s, families %s", case["lib"], p.spacegroup, p.lauecode, np.asarray(p.polefamilies).tolist())
    c = np.asarray(p.latticeparameter, float)
    require(np.allclose(c, [1, 1, 1.63, 90, 90, 120] if want[0] == 194 else [1, 1, 1, 90, 90, 90]), "lattice parameters %s", c)
    rec.nontrivial()
