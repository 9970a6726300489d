"""B01: Radon transform = mean along lines; masks, backgrounds, batches, re-planning."""
import numpy as np
from hypothesis import strategies as st
from ..core import Registry, require
from .. import gen

reg = Registry()
RULE = ("Plans of generated size, resolution, rho range and mask applied to generated patterns. Non-trivial: at least a third of the bins have valid "
        "pixels and were compared with the direct evaluation.")
ASSUMPTIONS = ["a line is sampled once per column (|sin theta| >= sqrt(1/2)) or once per row, at the nearest pixel; where the nearest pixel is ambiguous within 2e-3 pixels either one is accepted",
               "bins without any valid pixel hold the missing value (radon_faster) or -1 (radon_fast)"]


def lines(dims, theta, rho):
    """for each (rho, theta): list of (flat index candidates) per sample; returns arrays a, b [nrho, ntheta, nsamp] (b: alternative) with -1 outside"""
    H, W = dims; out = []
    for t in theta:
        c, s = np.cos(np.radians(float(t))), np.sin(np.radians(float(t)))
        per_col = abs(s) >= np.sqrt(0.5)-1e-9
        # exactly 45/135 degrees may go either way in single precision
        amb45 = abs(abs(s)-np.sqrt(0.5)) < 1e-5
        out.append((c, s, per_col, amb45))
    return out


def direct(img, valid, theta, rho, normalize=True):
    """lower and upper bound of every bin and the count bounds (nrho, ntheta)"""
    H, W = img.shape; nr, nt = len(rho), len(theta)
    lo = np.zeros((nr, nt)); hi = np.zeros((nr, nt)); cl = np.zeros((nr, nt), int); ch = np.zeros((nr, nt), int); skip = np.zeros((nr, nt), bool)
    for j, (c, s, pc, amb) in enumerate(lines((H, W), theta, rho)):
        if amb: skip[:, j] = True; continue
        if pc: k = np.arange(W); p = (np.asarray(rho, float)[:, None]-(k-(W-1)/2)*c)/s+(H-1)/2; n = H
        else: k = np.arange(H); p = (np.asarray(rho, float)[:, None]-(k-(H-1)/2)*s)/c+(W-1)/2; n = W
        for which, off in ((0, -2e-3), (1, 2e-3)):
            q = np.floor(p+0.5+off).astype(int); ok = (q >= 0) & (q < n); qc = np.clip(q, 0, n-1)
            kk = np.broadcast_to(k, q.shape)
            v = img[qc, kk] if pc else img[kk, qc]; m = ok & (valid[qc, kk] if pc else valid[kk, qc])
            if which == 0: va, ma = v, m
            else: vb, mb = v, m
        skip[:, j] |= ~(ma == mb).all(1)
        lo[:, j] = np.where(ma, np.minimum(va, vb), 0).sum(1); hi[:, j] = np.where(ma, np.maximum(va, vb), 0).sum(1)
        cl[:, j] = ma.sum(1)
    if normalize: lo = lo/np.maximum(cl, 1); hi = hi/np.maximum(cl, 1)
    return lo, hi, cl, skip


@st.composite
def case(draw):
    H, W = draw(st.integers(3, 40)), draw(st.integers(3, 40))
    return {"dims": [H, W], "nt": draw(st.sampled_from([1, 2, 3, 7, 18, 36, 60, 90])), "nr": draw(st.integers(1, 40)), "rmax": draw(st.one_of(st.none(), gen.floats(1.0, 40.0))),
            "mask": draw(st.sampled_from([None, None, "disk", "random", "half", "zero"])), "index": draw(st.sampled_from([None, None, None, "shift", "holes"])), "n": draw(st.integers(1, 4)), "two_d": draw(st.booleans()),
            "dt": draw(st.sampled_from(["u1", "u2", "f4", "f8"])), "pad": [draw(st.integers(0, 4)), draw(st.integers(0, 4))], "fix": draw(st.booleans()),
            "back": draw(st.booleans()), "norm": draw(st.integers(0, 4)) > 0, "seed": draw(st.integers(0, 10**6)), "missing": draw(st.sampled_from([-1.0, -1.0, 0.0, -7.5])), "sign": draw(st.booleans()), "method": draw(st.sampled_from(["DIVIDE", "divide", "SUBTRACT", "subtract"]))}


def build(c):
    H, W = c["dims"]; rng = np.random.default_rng(c["seed"]); n = c["n"]
    if c["dt"][0] == "u": P = rng.integers(0, np.iinfo(c["dt"]).max+1, (n, H, W)).astype(c["dt"])
    else: P = (rng.uniform(-50 if c["sign"] else 1, 200, (n, H, W))).astype(c["dt"])
    mask = None
    if c["mask"] == "disk":
        y, x = np.mgrid[0:H, 0:W]; mask = (np.hypot(y-(H-1)/2, x-(W-1)/2) < 0.45*min(H, W)).astype(int)
    elif c["mask"] == "random": mask = rng.integers(0, 3, (H, W))
    elif c["mask"] == "half": mask = np.zeros((H, W), int); mask[:, :max(W//2, 1)] = 1
    elif c["mask"] == "zero": mask = np.zeros((H, W), int)
    mi = None
    if c["index"] == "shift": mi = np.roll(np.arange(H*W), 5).reshape(H, W)
    elif c["index"] == "holes": mi = np.arange(H*W).reshape(H, W); mi = np.where(rng.uniform(size=(H, W)) < 0.2, -1, mi)
    back = rng.uniform(0, 30, (H, W)) if c["back"] else None
    return P, mask, mi, back, rng


@reg.facet("mean_along_lines", case, quick=1500, thorough=30000, budget=60, rule="radon_faster and radon_fast against a direct evaluation; "+RULE)
def f_mean(c, rec):
    from pyebsdindex.radon_fast import Radon
    P, mask, mi, back, rng = build(c); H, W = c["dims"]; n = c["n"]
    r = Radon(imageDim=[H, W], nTheta=c["nt"], nRho=c["nr"], rhoMax=c["rmax"], mask=mask, maskindex=mi, missingval=c["missing"])
    rmax = c["rmax"] if c["rmax"] is not None else np.hypot(H, W)/2; d = 2*rmax/c["nr"]
    th, rh = np.asarray(r.theta, float), np.asarray(r.rho, float)
    require(th.shape == (c["nt"],) and np.abs(th-np.arange(c["nt"])*180/c["nt"]).max() < 1e-4, "theta bins %s", th)
    require(rh.shape == (c["nr"],) and np.abs(rh-(np.arange(c["nr"])*d-(rmax-d))).max() < 1e-3, "rho bins %s", rh)
    if c["two_d"]: P = P[:1]; n = 1
    arg = P[0] if c["two_d"] else P; keep = arg.copy(); kb = None if back is None else back.copy()
    fix = c["fix"] and c["nt"] >= 3 and not False
    got = r.radon_faster(arg, padding=np.array(c["pad"]), fixArtifacts=fix, background=back, normalization=c["norm"])
    require(np.array_equal(arg, keep) and arg.shape == keep.shape, "radon_faster modified its input")
    require(back is None or np.array_equal(back, kb), "radon_faster modified the background")
    p0, p1 = c["pad"]
    require(got.shape == (c["nr"]+2*p0, c["nt"]+2*p1, n), "radon_faster returned shape %s", got.shape)
    inner = np.asarray(got[p0:p0+c["nr"], p1:p1+c["nt"], :], float)
    frame = np.ones(got.shape[:2], bool); frame[p0:p0+c["nr"], p1:p1+c["nt"]] = False
    require((got[frame] == c["missing"]).all(), "radon_faster wrote into the padding")
    got2 = None
    if c["missing"] == -1.0 and c["norm"]:
        g2 = np.asarray(r.radon_fast(arg, background=back), float); require(np.array_equal(arg, keep), "radon_fast modified its input")
        require(g2.shape == (c["nr"], c["nt"], n), "radon_fast returned shape %s", g2.shape); got2 = g2
    M = np.ones((H, W), bool) if mask is None else np.asarray(mask) > 0
    idx = np.arange(H*W).reshape(H, W) if mi is None else mi
    M = M & (idx >= 0); scale = 0.0
    for q in range(n):
        img = P[q].astype(np.float64)-(0 if back is None else back)
        look = img.ravel()[np.clip(idx, 0, None)]; scale = np.abs(img).max()+1
        lo, hi, cnt, skip = direct(look, M, th, rh, c["norm"])
        tol = scale*2e-6*(max(H, W) if not c["norm"] else 4)+1e-6
        cols = np.ones(c["nt"], bool)
        if fix: cols[0] = cols[-1] = False
        for g, nm, cc, miss in ((inner[..., q], "radon_faster", cols, c["missing"]), (None if got2 is None else got2[..., q], "radon_fast", np.ones(c["nt"], bool), -1.0)):
            if g is None: continue
            chk = ~skip & cc[None, :]
            bad = chk & (cnt > 0) & ((g < lo-tol) | (g > hi+tol))
            if bad.any():
                i, j = np.argwhere(bad)[0]; require(False, "%s, pattern %s of %s, bin rho %s theta %s: %s, direct evaluation gives %s to %s over %s pixels", nm, q, n, rh[i], th[j], g[i, j], lo[i, j], hi[i, j], cnt[i, j])
            bad = chk & (cnt == 0) & (np.abs(g-miss) > 1e-6)
            if bad.any():
                i, j = np.argwhere(bad)[0]; require(False, "%s, pattern %s, bin rho %s theta %s has no valid pixel but holds %s instead of %s", nm, q, rh[i], th[j], g[i, j], miss)
            if nm == "radon_faster" and fix:
                require(np.array_equal(g[:, 0], g[:, 1]) and np.array_equal(g[:, -1], g[:, -2]), "fixArtifacts did not copy the neighbouring theta columns")
    rec.nontrivial(((cnt > 0) & ~skip).mean() > 0.33); rec.label("mask" if mask is not None else "no mask", "remap" if mi is not None else "plain")


@reg.facet("camera_size", lambda: case().flatmap(lambda c: st.fixed_dictionaries({"dims": st.sampled_from([[256, 257], [180, 200], [480, 640], [1030, 900], [1024, 1344]]), "nt": st.sampled_from([2, 7, 12]), "nr": st.integers(1, 12), "rmax": st.one_of(st.none(), gen.floats(100.0, 600.0)), "n": st.integers(1, 2)}).map(lambda o: {**c, **o})), quick=24, thorough=600, budget=40, shrink=10,
           rule="patterns of up to 1.4 million pixels (more than 32767 and 65535) against the direct evaluation. Non-trivial as above")
def f_camera(c, rec): f_mean(c, rec); rec.label("%dx%d" % tuple(c["dims"]))


@reg.facet("algebra", case, quick=1000, thorough=20000, budget=45, rule="linearity, masked-pixel blindness, batch independence and order. Non-trivial: more than one pattern")
def f_alg(c, rec):
    from pyebsdindex.radon_fast import Radon
    c = dict(c, n=max(c["n"], 2)); P, mask, mi, back, rng = build(c); H, W = c["dims"]; n = c["n"]
    r = Radon(imageDim=[H, W], nTheta=c["nt"], nRho=c["nr"], rhoMax=c["rmax"], mask=mask, maskindex=mi)
    kw = dict(padding=np.array(c["pad"]), normalization=c["norm"]); full = r.radon_faster(P, background=back, **kw)
    tol = 1e-5*(np.abs(P.astype(float)).max()+40)*(1 if c["norm"] else max(H, W))
    for q in range(n):
        one = r.radon_faster(P[q], background=back, **kw)[..., 0]; two = r.radon_faster(P[q:q+1], background=back, **kw)[..., 0]
        require(np.abs(one-full[..., q]).max() <= tol*0.1, "pattern %s of %s transforms differently alone (%.4g)", q, n, np.abs(one-full[..., q]).max())
        require(np.abs(two-one).max() <= tol*0.1, "pattern %s transforms differently as 2-D and as 3-D array", q)
    o = rng.permutation(n); require(np.abs(r.radon_faster(P[o], background=back, **kw)-full[..., o]).max() <= tol*0.1, "order of the batch changes the result")
    if c["dt"] == "f8" or c["dt"] == "u1":
        F = np.asarray(P, float); a, b = 0.7, -1.3
        emp = np.abs(r.radon_faster(np.ones((H, W)), **kw)[..., 0]+1) < 1e-6
        T = r.radon_faster(a*F[0]+b*F[1], **kw)[..., 0]; S = a*r.radon_faster(F[0], **kw)[..., 0]+b*r.radon_faster(F[1], **kw)[..., 0]
        require(np.abs(T-S)[~emp].max(initial=0) <= 5*tol, "not linear (%.4g)", np.abs(T-S)[~emp].max(initial=0))
        if back is not None:
            S = r.radon_faster(F, **kw)-r.radon_faster(back, **kw); require(np.abs(S-full)[~emp].max(initial=0) <= 5*tol, "background removal differs from subtracting it")
    if back is not None:
        slow = r.radon_fast(np.asarray(P, float)/(back+1)); kb = back.copy(); p0, p1 = c["pad"]
        g = r.radon_fast(P, background=back+1, background_method=c["method"], padding=np.array(c["pad"])); require(np.array_equal(back, kb), "radon_fast modified the background")
        require(g.shape == (c["nr"]+2*p0, c["nt"]+2*p1, n), "radon_fast with padding returned shape %s", g.shape); want = slow if c["method"].upper() == "DIVIDE" else r.radon_fast(P-(back+1.0))
        require(np.abs(g[p0:p0+c["nr"], p1:p1+c["nt"]]-want).max() <= tol, "radon_fast with the background method %s differs from doing it before (%.4g)", c["method"], np.abs(g[p0:p0+c["nr"], p1:p1+c["nt"]]-want).max())
        for q in range(n): require(np.abs(r.radon_fast(P[q], background=back+1, background_method=c["method"], padding=np.array(c["pad"]))[..., 0]-g[..., q]).max() <= tol*0.1, "radon_fast: pattern %s of %s transforms differently alone", q, n)
    if mask is not None or mi is not None:
        idx = np.arange(H*W).reshape(H, W) if mi is None else mi; M = np.ones((H, W), bool) if mask is None else np.asarray(mask) > 0
        used = np.zeros(H*W, bool); used[idx[M & (idx >= 0)]] = True
        P2 = np.where(used.reshape(H, W), P, P[:, ::-1, ::-1].max()-P//2).astype(P.dtype)
        require(np.array_equal(r.radon_faster(P2, background=back, **kw), full), "pixels outside the mask have an influence")
    rec.nontrivial(n > 1)


@st.composite
def history(draw):
    dims = draw(st.sampled_from([[30, 30], [24, 36], [40, 28]])); ops = []
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.sampled_from(["dims", "ntheta", "nrho", "mask", "rhomask", "all", "patterns", "none", "sigma", "index"]))
        ops.append({"k": k, "s": draw(st.sampled_from([1.0, 1.7])), "dims": draw(st.sampled_from([[30, 30], [24, 36], [40, 28], [30, 31], [60, 70]])), "nt": draw(st.sampled_from([36, 60, 45])), "nr": draw(st.sampled_from([20, 31, 40])),
                    "m": draw(st.sampled_from(["disk", "half", "strip"])), "f": draw(st.sampled_from([0.1, 0.2, 0.05, -0.2, 2]))})
    return {"dims": dims, "nt": draw(st.sampled_from([36, 60])), "nr": draw(st.sampled_from([20, 31])), "m": draw(st.sampled_from([None, None, "disk", "strip"])), "f": draw(st.sampled_from([0.1, 0.25])), "ts": draw(st.sampled_from([None, None, 1.0, 2.0])), "rs": draw(st.sampled_from([None, None, 1.2])), "nb": draw(st.sampled_from([1, 5, 9])), "ops": ops}


def mk(kind, dims):
    H, W = dims; y, x = np.mgrid[0:H, 0:W]
    if kind is None: return None
    if kind == "disk": return (np.hypot(y-(H-1)/2, x-(W-1)/2) < 0.45*min(H, W)).astype(int)
    if kind == "half": return (x < 0.6*W).astype(int)
    return (np.abs(y-H/3) > 3).astype(int)


@reg.facet("replanning", history, quick=300, thorough=6000, budget=60, group="replan",
           rule="histories of band_detect_setup calls on one BandDetect compared with a freshly constructed one. Non-trivial: the final set-up differs from the first")
def f_replan(c, rec):
    from pyebsdindex.band_detect import BandDetect
    cur = {"dims": list(c["dims"]), "nt": c["nt"], "nr": c["nr"], "m": c["m"], "f": c["f"], "ts": c["ts"], "rs": c["rs"]}; ix = {"k": 0}
    def index(dims): H, W = dims; return np.roll(np.arange(H*W), 3*ix["k"]).reshape(H, W)
    def fresh(s):
        kw = {} if s["m"] is None else {"patternmask": mk(s["m"], s["dims"])}
        if ix["k"]: kw["patternmaskindex"] = index(s["dims"])
        return BandDetect(patDim=s["dims"], nTheta=s["nt"], nRho=s["nr"], rhoMaskFrac=s["f"], tSigma=s["ts"], rSigma=s["rs"], nBands=c["nb"], **kw)
    bd = fresh(cur); rng = np.random.default_rng(1); hist = []
    for o in c["ops"]:
        kw = {}; k = o["k"]
        if k in ("dims", "all", "patterns"):
            cur["dims"] = list(o["dims"])
            if k == "patterns": kw["patterns"] = np.ones([2]+o["dims"])
            else: kw["patDim"] = o["dims"]
            if cur["m"] is not None: cur["m"] = o["m"]; kw["patternmask"] = mk(o["m"], cur["dims"])
        if k in ("ntheta", "all"): cur["nt"] = o["nt"]; kw["nTheta"] = o["nt"]
        if k in ("nrho", "all"): cur["nr"] = o["nr"]; kw["nRho"] = o["nr"]
        if k == "mask": cur["m"] = o["m"]; kw["patternmask"] = mk(o["m"], cur["dims"])
        if k in ("rhomask", "all"): cur["f"] = o["f"]; kw["rhoMaskFrac"] = o["f"]
        if k == "sigma": cur["ts"] = kw["tSigma"] = o["s"]; cur["rs"] = kw["rSigma"] = o["s"]*1.1
        if k == "index": ix["k"] += 1
        if ix["k"]: kw["patternmaskindex"] = index(cur["dims"])  # given with every later call, nothing is claimed about keeping it
        bd.band_detect_setup(**kw); hist.append({a: (list(np.shape(b)) if isinstance(b, np.ndarray) else b) for a, b in kw.items()})
        ref = fresh(cur); P = rng.uniform(0, 255, [2]+cur["dims"])
        require(list(bd.patDim) == cur["dims"] and bd.nTheta == cur["nt"] and bd.nRho == cur["nr"], "after %s: patDim %s nTheta %s nRho %s", hist, bd.patDim, bd.nTheta, bd.nRho)
        a, b = bd.radonPlan.radon_faster(P), ref.radonPlan.radon_faster(P)
        require(a.shape == b.shape and np.abs(a-b).max() < 1e-3, "after %s the Radon transform differs from that of a fresh plan for the same settings", hist)
        require(np.array_equal(bd.rdnmask, ref.rdnmask), "after %s the mask of usable Radon bins differs from that of a fresh plan", hist)
        require(abs(bd.rhoMax-ref.rhoMax) < 1e-4 and abs(bd.dRho-ref.dRho) < 1e-5 and abs(bd.dTheta-ref.dTheta) < 1e-5, "after %s: rhoMax %s dRho %s dTheta %s, fresh plan %s %s %s", hist, bd.rhoMax, bd.dRho, bd.dTheta, ref.rhoMax, ref.dRho, ref.dTheta)
        x, y = bd.find_bands(P), ref.find_bands(P); require(x.shape == y.shape == (2, c["nb"]), "after %s find_bands returned %s", hist, x.shape)
        require(np.array_equal(x["valid"], y["valid"]), "after %s find_bands finds %s bands, a fresh detector %s", hist, x["valid"].sum(-1), y["valid"].sum(-1)); v = x["valid"] > 0
        for f, tol in (("aveloc", 0.01), ("max", 1e-3), ("normmax", 1e-3)): require((np.abs(x[f]-y[f])[v] <= tol*(1+np.abs(y[f])[v])).all(), "after %s the bands of a pattern have %s %s, with a fresh detector %s", hist, f, x[f][v][:3].tolist(), y[f][v][:3].tolist())
    rec.nontrivial(cur != {k: c[k] for k in cur}); rec.label(*[o["k"] for o in c["ops"]])
