"""I01: band normals -> orientation."""
import numpy as np
from hypothesis import strategies as st
from ..core import Registry, require
from ..ref import rot as R, xtal as X
from .. import gen, xgen
from . import C03

reg = Registry()
RULE = ("Synthetic band normals of a crystal of known orientation (random subset, order, signs, angular noise, spurious and invalid bands), several band subsets per orientation. "
        "Non-trivial: at least seven true bands and an orientation that is not the identity, or noise, spurious or invalid bands.")
ASSUMPTIONS = ["an orientation that explains at least as many bands equally well as the true one is accepted (reflector families of classes like 4/m or -3m can have more symmetry than the crystal)",
               "the voting scheme is a heuristic: of 16 band subsets per orientation at most one may fail for the high-symmetry phases and five for the low-symmetry ones (measured: below 0.1 % and 4 %)"]
C = [1, 1, 1, 90, 90, 90]
PHASES = {  # strong: families that determine the orientation with >= 7 bands
    "fcc": (225, C, [[0, 0, 2], [1, 1, 1], [0, 2, 2], [1, 1, 3]], 1), "bcc": (229, C, [[0, 1, 1], [0, 0, 2], [1, 1, 2], [0, 1, 3]], 1),
    "diamond": (227, [5.43, 5.43, 5.43, 90, 90, 90], [[1, 1, 1], [0, 2, 2], [0, 0, 4], [1, 1, 3]], 1),
    "hcp": (194, [1, 1, 1.63, 90, 90, 120], [[1, 0, 0], [0, 0, 2], [1, 0, 1], [1, 0, 2], [1, 1, 0]], 1),
    "ortho": (62, [1, 1.2, 1.63, 90, 90, 90], [[1, 0, 1], [0, 1, 1], [1, 1, 1], [2, 1, 0], [0, 2, 0], [0, 0, 2]], 1),
    "rutile": (136, [4.6, 4.6, 2.96, 90, 90, 90], [[1, 1, 0], [1, 0, 1], [2, 0, 0], [1, 1, 1], [2, 1, 1]], 2),
    "quartz": (152, [4.9, 4.9, 5.4, 90, 90, 120], [[1, 0, 0], [1, 0, 1], [0, 1, 1], [1, 1, 0], [1, 1, 2], [0, 1, 2]], 2),
    "one": (225, C, [[1, 1, 3]], 1), "one_hex": (194, [1, 1, 1.63, 90, 90, 120], [[1, 2, 3]], 8),    # a single reflector family
    "mono": (14, [1, 1.2, 1.63, 90, 100, 90], [[1, 0, 0], [0, 1, 2], [1, 1, 1], [0, 0, 1], [0, 1, 1], [1, 1, 0]], 5),
    "tric": (2, [1, 1.2, 1.63, 80, 100, 93], [[1, 0, 0], [0, 1, 0], [0, 0, 1], [0, 1, 2], [1, 1, 1], [-1, 1, 1], [1, 0, 1], [1, -1, 0], [0, 1, 1]], 5),
    "scheelite": (88, [1, 1, 2.17, 90, 90, 90], [[1, 1, 2], [1, 0, 1], [2, 0, 0], [1, 2, 0], [2, 1, 1], [1, 2, 1], [0, 0, 4]], 5),
    "apatite": (176, [1, 1, 0.73, 90, 90, 120], [[1, 1, 0], [2, 1, 0], [1, 2, 1], [0, 0, 2], [1, 0, 1]], 5),
    "pyrite": (205, C, [[0, 0, 2], [1, 1, 1], [0, 1, 2], [1, 1, 2]], 5),
    "calcite": (148, [1, 1, 2.9, 90, 90, 120], [[0, 1, 2], [1, 0, 4], [1, 1, 0], [1, 1, 3], [2, 0, 2], [0, 0, 6]], 5)}
_made = {}


def phase(name):
    if name not in _made:
        from pyebsdindex import tripletvote as tv
        sg, cell, fam, k = PHASES[name]
        four = X.laue(sg) in (6, 62)
        p = tv.addphase(phasename=name, spacegroup=sg, latticeparameter=cell, polefamilies=[[h, k_, -h-k_, l] for h, k_, l in fam] if four else fam)
        V = X.cell_vectors(*cell); P, F, H = C03.half([C03.orbit(f, X.laue(sg), V) for f in fam], V)
        _made[name] = (p, X.laue(sg), P, H)
    return _made[name]


def bands(rng, P, q, n, noise, nout):
    """n true bands, nout spurious ones, shuffled, with random signs; returns normals and the pole of each (-1 spurious)"""
    s = rng.choice(len(P), min(n, len(P)), replace=False)
    b = P[s] @ R.qu2om(q)
    b = b + rng.normal(size=b.shape)*np.radians(noise)/2**.5
    o = rng.normal(size=(nout, 3)).reshape(-1, 3)
    b = np.vstack([b, o]); b /= np.linalg.norm(b, axis=1)[:, None]; b *= rng.choice([-1, 1], size=(len(b), 1))
    perm = rng.permutation(len(b))
    return b[perm], np.concatenate([s, -np.ones(nout, int)])[perm]


def dev(q, b, P):
    """degrees from each band to the nearest pole under orientation q"""
    c = np.abs((b @ R.qu2om(q).T) @ P.T); i = c.argmax(1)
    v = np.linalg.norm(np.cross(b @ R.qu2om(q).T, P[i]), axis=1)
    return np.degrees(np.arctan2(v, c[np.arange(len(b)), i])), i


@st.composite
def case(draw):
    return {"phase": draw(st.sampled_from(sorted(PHASES))), "q": draw(st.one_of(gen.quat(), gen.generic_quat())), "seed": draw(gen.seeds), "n": draw(st.integers(7, 10)),
            "noise": draw(st.sampled_from([0.0, 0.0, 0.1, 0.3])), "nout": draw(st.sampled_from([0, 0, 1, 2])), "inv": draw(st.sampled_from([0, 0, 1, 2]))}


def run(p, b, inten, dt=np.float32):
    out = p.bandindex(np.asarray(b, dt).reshape(-1, b.shape[-2], 3), band_intensity=np.asarray(inten, np.float32).reshape(-1, b.shape[-2]))
    return [np.asarray(x) for x in out]


@reg.facet("orientation", case, quick=500, thorough=10000, budget=100, group="main", rule=RULE)
def f_ori(c, rec):
    p, l, P, H = phase(c["phase"]); allow = PHASES[c["phase"]][3]
    rng = np.random.default_rng(c["seed"]); q = np.array(c["q"])
    B, I, T = [], [], []
    nout = min(c["nout"], (c["n"]-4)//2)
    for t in range(16):
        b, s = bands(rng, P, q, c["n"], c["noise"], nout)
        inv = np.zeros(len(b), bool)
        if c["inv"]:   # extra slots flagged invalid, holding normals of other poles or rubbish
            e, _ = bands(rng, P, q, c["inv"], 0.0, 0); b = np.vstack([b, e]); s = np.concatenate([s, -2*np.ones(len(e), int)])
            k = rng.permutation(len(b)); b, s = b[k], s[k]; inv = s == -2
        B.append(b); T.append(s); I.append(np.where(inv, 0.0, rng.uniform(0.3, 3.0, len(b))))
    B, I, T = np.array(B), np.array(I), np.array(T)
    quat, fit, cm, pm, nm, ij, tv_ = run(p, B, I)
    require(quat.shape == (16, 4) and fit.shape == (16,) and pm.shape == B.shape[:2] and nm.shape == (16,), "shapes %s %s %s %s", quat.shape, fit.shape, pm.shape, nm.shape)
    lib = np.asarray(p.completelib["polesCart"]); bad = []
    for t in range(16):
        v = I[t] > 0; b = B[t]; true = T[t] >= 0
        if nm[t] < 3: bad.append((t, "not indexed")); continue
        require(abs(np.linalg.norm(quat[t])-1) < 1e-5, "quaternion %s not of unit length", quat[t])
        e = np.degrees(X.disorientation(q, quat[t], l))
        dq, _ = dev(quat[t], b, P); dt, _ = dev(q, b, P)
        tol = 0.06 + 4*c["noise"]
        good = e <= tol
        if not good and np.sum(dq[v] < 2) >= np.sum(dt[v] < 2): good = True   # ambiguous geometry
        if not good: bad.append((t, "%.2f degrees off, explains %d of %d bands" % (e, np.sum(dq[v] < 2), np.sum(v & true)))); continue
        # consistency of what is reported with the reported orientation
        m = pm[t] >= 0
        require(not np.any(m & ~v), "an invalid band is reported as matched")
        require(int(nm[t]) == int(m.sum()), "nmatch %d but %d bands carry a matched pole", nm[t], m.sum())
        rotb = b @ R.qu2om(quat[t]).T
        for j in np.nonzero(v)[0]:
            if m[j]:
                a = float(C03.ang(rotb[j], lib[pm[t][j]])); 
                if e <= tol: require(min(a, 180-a) < dq[j]+0.1, "band %d is reported as pole %s, %.2f degrees away under the reported orientation (nearest pole %.2f)", j, p.completelib["poles"][pm[t][j]], a, dq[j])
                require(min(a, 180-a) < 3.5, "matched pole of band %d is %.2f degrees away", j, a)
            elif e <= tol and dq[j] < 2-0.2-2*c["noise"]:
                bad.append((t, "band %d lies %.2f degrees from a pole but is reported unmatched" % (j, dq[j]))); break
        d = dq[m]
        f = float(np.degrees(np.arccos(np.clip(np.cos(np.radians(d)).mean(), -1, 1))))
        if m.sum() <= 6: require(abs(fit[t]-f) < 0.03, "fit %.4f, the matched bands deviate by %.4f on average", fit[t], f)
        else: require(d.min()-0.03 <= fit[t] <= d.max()+0.03, "fit %.4f, the matched bands deviate by %.4f to %.4f", fit[t], d.min(), d.max())
    require(len(bad) <= allow, "%s: orientation %s: %d of 16 band sets not indexed to it (%s)", c["phase"], c["q"], len(bad), bad[:3])
    rec.nontrivial(c["noise"] > 0 or nout or c["inv"] or R.qangle(q, [1, 0, 0, 0]) > 1e-6)
    rec.label(c["phase"])


@reg.facet("invariance", case, quick=300, thorough=6000, budget=60, group="main",
           rule="the same bands alone or in a batch, in another order, with other signs or as float64 give the same orientation, fit and match count (high-symmetry phases). Non-trivial as above")
def f_inv(c, rec):
    if PHASES[c["phase"]][3] != 1: c = dict(c, phase=["fcc", "bcc", "hcp", "ortho", "diamond"][c["seed"] % 5])
    p, l, P, H = phase(c["phase"]); rng = np.random.default_rng(c["seed"])
    qs = [np.array(c["q"])] + [R.qnorm(rng.normal(size=4)) for _ in range(5)]
    n = max(c["n"], 8); B = np.array([bands(rng, P, q, n, c["noise"], 0)[0] for q in qs]); I = rng.uniform(0.5, 2, B.shape[:2])
    A = run(p, B, I)
    for t in range(len(qs)):
        S = run(p, B[t:t+1], I[t:t+1])
        require(np.abs(np.abs(A[0][t] @ S[0][0])-1) < 1e-6 and abs(A[1][t]-S[1][0]) < 1e-4 and np.array_equal(A[3][t], S[3][0]) and A[4][t] == S[4][0] and abs(A[2][t]-S[2][0]) < 1e-5,
                "pattern %d: indexed in a batch: %s, alone: %s", t, [x[t].tolist() for x in A[:5]], [x[0].tolist() for x in S[:5]])
    k = rng.permutation(len(qs)); S = run(p, B[k], I[k])
    require(np.abs(np.abs(np.sum(A[0][k]*S[0], axis=1))-1).max() < 1e-6 and np.array_equal(A[4][k], S[4]) and np.array_equal(A[3][k], S[3]), "results do not follow the order of the patterns")
    u = 2.0**rng.choice([-10, -6, 6, 10]); S = run(p, B, I*u)   # the unit of the intensities
    require(np.abs(np.abs(np.sum(A[0]*S[0], axis=1))-1).max() < 1e-6 and np.array_equal(A[4], S[4]) and np.array_equal(A[3], S[3]) and np.abs(A[1]-S[1]).max() < 1e-4, "with all intensities multiplied by %s the results differ: matches %s and %s", u, A[4].tolist(), S[4].tolist())
    S = run(p, B, I, np.float64)
    sg = rng.choice([-1, 1], size=B.shape[:2]+(1,)); k = rng.permutation(B.shape[1]); Q = run(p, (B*sg)[:, k], I[:, k])
    for name, Z in (("as float64", S), ("with other signs and order", Q)):
        for t in range(len(qs)):
            e = np.degrees(X.disorientation(A[0][t], Z[0][t], l)); d1, _ = dev(A[0][t], B[t], P); d2, _ = dev(Z[0][t], B[t], P)
            if e > 0.1+4*c["noise"]: require(np.sum(d2 < 2) >= np.sum(d1 < 2)-1, "%s: bands %s: orientation %s instead of %s (%.3f degrees)", c["phase"], name, Z[0][t].tolist(), A[0][t].tolist(), e)
    rec.nontrivial()


@reg.facet("large_batch", lambda: st.fixed_dictionaries({"phase": st.sampled_from(["fcc", "bcc", "hcp"]), "seed": gen.seeds, "n": st.integers(8, 10), "many": st.sampled_from([70000, 130000, 100001])}), quick=1, thorough=12, budget=60, group="main", shrink=0,
           rule="a batch of tens of thousands of patterns (40 sets of bands, some of them weak, repeated in random order): each set has the same result as in a batch of its own. Non-trivial: every case")
def f_large(c, rec):
    p, l, P, H = phase(c["phase"]); rng = np.random.default_rng(c["seed"]); B = np.array([bands(rng, P, R.qnorm(rng.normal(size=4)), c["n"], 0.2, 0)[0] for _ in range(40)]); I = 10**rng.uniform(-1.3, 0.3, B.shape[:2])
    A = run(p, B, I); k = rng.integers(0, 40, c["many"]); k[:40] = np.arange(40); S = run(p, B[k], I[k]); d = 1-np.abs(np.sum(A[0][k]*S[0], axis=1)); bad = (d > 1e-6) | (A[4][k] != S[4]) | np.any(A[3][k] != S[3], axis=1) | (np.abs(A[1][k]-S[1]) > 1e-3)
    require(not bad.any(), "%d of %d patterns are indexed differently in the large batch, first at position %s: orientation %s fit %s matches %s, in a small batch %s %s %s", bad.sum(), len(k), np.argmax(bad), S[0][np.argmax(bad)], S[1][np.argmax(bad)], S[4][np.argmax(bad)], A[0][k][np.argmax(bad)], A[1][k][np.argmax(bad)], A[4][k][np.argmax(bad)])
    rec.nontrivial(); rec.label(c["phase"])


@reg.facet("rubbish", lambda: st.fixed_dictionaries({"phase": st.sampled_from(sorted(PHASES)), "seed": gen.seeds, "n": st.integers(3, 9), "mode": st.sampled_from(["random", "flat", "few", "zero"])}),
           quick=300, thorough=6000, budget=40, group="main",
           rule="bands that no orientation explains, too few valid bands, no valid band or all bands alike: never an inconsistent record. Non-trivial: every case")
def f_rub(c, rec):
    p, l, P, H = phase(c["phase"]); rng = np.random.default_rng(c["seed"]); n = c["n"]
    b = rng.normal(size=(1, n, 3)); I = np.ones((1, n))
    if c["mode"] == "flat": b[:] = b[:, :1]
    if c["mode"] == "few": I[:, 2:] = 0
    if c["mode"] == "zero": I[:] = 0
    b /= np.linalg.norm(b, axis=-1)[..., None]
    quat, fit, cm, pm, nm, ij, tv_ = run(p, b, I)
    m = pm[0] >= 0
    if c["mode"] != "random": require(nm[0] < 3 and not m.any(), "%s bands were indexed with %d matches", c["mode"], nm[0])
    require(nm[0] >= 3 or not m.any(), "not indexed but %d bands carry poles", m.sum())
    if nm[0] >= 3:
        require(int(nm[0]) == int(m.sum()) and np.all(I[0][m] > 0), "nmatch %d, poles on %d bands", nm[0], m.sum())
        lib = np.asarray(p.completelib["polesCart"]); a = C03.ang(b[0][m] @ R.qu2om(quat[0]).T, lib[pm[0][m]])
        require(a.max() < 6, "matched poles are up to %.2f degrees from their band", a.max())
    rec.nontrivial(); rec.label(c["mode"])
