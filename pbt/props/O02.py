"""O02: pattern-center optimisation."""
import contextlib, io, warnings
import numpy as np
from hypothesis import strategies as st
from ..core import Registry, require
from ..ref import rot as R
from .. import gen, sim

reg = Registry()
RULE = ("Objective functions, bounds, starts and swarm settings for the swarm optimiser, with every evaluated point logged; simulated patterns for all vendors, square and non-square, starts near the true "
        "center, single and batch mode for both optimisers. Non-trivial: the start is not the optimum / the start is off the true center.")
ASSUMPTIONS = ["cost of a center, computed here from index_pats: mean over patterns of fit + detected bands - matched bands, an unindexed pattern counting 4 (bands + 1), 1000 if none is indexed",
               "a recovered center is near the true one if it is within 0.02 of the detector size for at least 85 % of the runs (55 % for each vendor) with three or more patterns, started within 0.03; every run must at least reach a cost not above that of the start",
               "in the EMSOFT convention search_limit is in fractions of the detector, as the search is done in the EDAX convention",
               "the cached default of nband_earlyexit is not a setting that has to be left as it was"]


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()): return f(*a, **k)

# ---------------------------------------------------------------- swarm


def objective(kind, centre, scale, log, extra):
    centre = np.array(centre); scale = np.array(scale)

    def f(x, gain=1.0, **kw):
        x = np.array(x, dtype=np.float64).ravel(); d = (x-centre)/scale
        if kind == "sphere": v = float((d**2).sum())
        elif kind == "abs": v = float(np.abs(d).sum())
        elif kind == "max": v = float(np.abs(d).max())
        elif kind == "steps": v = float(np.floor(np.abs(d)*8).sum())
        elif kind == "flat": v = 1.0
        elif kind == "linear": v = float(d.sum())
        elif kind == "waves": v = float((d**2).sum()+0.3*(1-np.cos(9*d)).sum())
        elif kind == "nan": v = float((d**2).sum()) if d[0] > -0.2 else float("nan")
        elif kind == "negative": v = -1e3+float((d**2).sum())
        elif kind == "array": v = np.array([float((d**2).sum())])
        log.append((x.copy(), float(np.ravel(v)[0])*gain))
        return v*gain
    return f


@st.composite
def swarm(draw):
    n = draw(st.integers(1, 5)); f = st.floats(-1, 1, allow_nan=False, width=32)
    lo = [draw(st.sampled_from([-1.0, 0.0, 0.3, -50.0, 1e-3]))+0.1*draw(f) for _ in range(n)]; w = [draw(st.sampled_from([1.0, 0.2, 10.0, 1e-2])) for _ in range(n)]
    return {"n": n, "lo": lo, "w": w, "kind": draw(st.sampled_from(["sphere", "abs", "max", "steps", "flat", "linear", "waves", "nan", "negative", "array"])),
            "centre": [draw(st.sampled_from([0.5, 0.0, 1.0, 1.3, -0.2, 0.37, 0.71])) for _ in range(n)], "start": draw(st.sampled_from(["none", "in", "edge", "out", "centre"])), "sform": draw(st.sampled_from(["array", "list", "tuple", "f32"])),
            "bform": draw(st.sampled_from(["tuple", "list", "lists", "array", "none"])), "s": [draw(st.integers(0, 100)) for _ in range(n)], "np": draw(st.sampled_from([1, 2, 5, 12, 30])), "niter": draw(st.sampled_from([1, 2, 3, 10, 40])),
            "hyper": draw(st.sampled_from(["auto", "static", "Auto"])), "c": draw(st.sampled_from([[3.5, 3.5, 0.8], [2.05, 2.05, 0.8], [0.5, 0.5, 0.4], [2, 0, 0.9], [0, 2, 0.9], [8, 8, 2.0]])),
            "exit": draw(st.sampled_from([None, 1e-4, 1e-2, 10.0])), "gain": draw(st.sampled_from([1.0, 3.0, 1e-3])), "verbose": draw(st.sampled_from([0, 0, 0, 1])), "runs": draw(st.integers(1, 3)), "seed": draw(st.integers(0, 9999))}


@reg.facet("swarm", swarm, quick=1200, thorough=60000, budget=60, group="swarm", rule=RULE)
def f_swarm(c, rec):
    from pyebsdindex.pcopt import PSOOpt
    n = c["n"]; lo = np.array(c["lo"]); w = np.array(c["w"]); hi = lo+w
    if c["bform"] == "none": lo, w, hi = -np.ones(n), 2*np.ones(n), np.ones(n)
    bounds = {"tuple": (lo.copy(), hi.copy()), "list": [lo.copy(), hi.copy()], "lists": (lo.tolist(), hi.tolist()), "array": np.array([lo, hi]), "none": None}[c["bform"]]
    centre = lo+w*np.array(c["centre"]); s = np.array(c["s"])/100.0
    start = {"none": None, "in": lo+s*w, "edge": lo+np.round(s)*w, "out": lo+(s*3-1)*w, "centre": lo+0.5*w}[c["start"]]
    if start is not None: start = {"array": start, "list": start.tolist(), "tuple": tuple(start.tolist()), "f32": start.astype(np.float32)}[c["sform"]]
    keep = None if start is None else np.array(start, dtype=np.float64).copy(); kb = None if bounds is None else np.array([np.array(bounds[0]), np.array(bounds[1])])
    o = PSOOpt(dimensions=n, n_particles=c["np"], c1=c["c"][0], c2=c["c"][1], w=c["c"][2], hyperparammethod=c["hyper"], early_exit=c["exit"])
    np.random.seed(c["seed"]); first = None; tol = 1e-9*(np.abs(lo)+np.abs(hi)+w)
    if c["sform"] == "f32": tol = tol+1e-6*(np.abs(lo)+np.abs(hi))
    for run in range(c["runs"]):
        log = []; f = objective(c["kind"], centre, w, log, None)
        cost, loc = quiet(o.optimize, f, start=start, bounds=bounds, niter=c["niter"], verbose=c["verbose"], gain=c["gain"]); what = "%d-d %s, run %d" % (n, c["kind"], run)
        X = np.array([l[0] for l in log]); V = np.array([l[1] for l in log]); cost = float(np.ravel(cost)[0]); loc = np.array(loc, dtype=np.float64)
        require(loc.shape == (n,), "%s: location of shape %s", what, loc.shape)
        require(((X >= lo-tol) & (X <= hi+tol)).all(), "%s: point %s outside the bounds %s %s was evaluated", what, X[~((X >= lo-tol) & (X <= hi+tol)).all(1)][:1].tolist(), lo.tolist(), hi.tolist())
        require(len(X) <= c["niter"]*c["np"] and len(X) >= 1, "%s: %d evaluations for %d particles and %d iterations", what, len(X), c["np"], c["niter"])
        if c["exit"] is None: require(len(X) == c["niter"]*c["np"], "%s: %d evaluations for %d particles and %d iterations without early exit", what, len(X), c["np"], c["niter"])
        ok = ~np.isnan(V)
        if ok.any():
            require(cost == V[ok].min(), "%s: reported cost %r, lowest evaluated %r", what, cost, V[ok].min())
            i = np.nonzero((X == loc).all(1) & ok)[0]
            require(len(i) > 0, "%s: reported location %s was never evaluated", what, loc.tolist()); require((V[i] == cost).any(), "%s: cost at the reported location is %r, reported %r", what, V[i[0]], cost)
        if keep is not None:
            require(np.array_equal(np.array(start, dtype=np.float64), keep), "%s: start changed from %s to %s", what, keep.tolist(), start)
            inb = ((keep >= lo-tol) & (keep <= hi+tol)).all()
            if inb: require((np.abs(X-keep) <= tol).all(1).any(), "%s: the start %s was never evaluated", what, keep.tolist())
            if inb and ok.all():
                m = []; v0 = float(np.ravel(objective(c["kind"], centre, w, m, None)(np.clip(keep, lo, hi), gain=c["gain"]))[0]); require(cost <= v0+1e-9*abs(v0)+(1e-4 if c["sform"] == "f32" and c["kind"] != "steps" else 10 if c["sform"] == "f32" else 0), "%s: cost %r above that of the start %r", what, cost, v0)
        if kb is not None: require(np.array_equal(np.array([np.array(bounds[0]), np.array(bounds[1])]), kb), "%s: bounds changed", what)
        if first is None: first = (cost, loc.copy(), loc)
    require(np.array_equal(first[1], first[2]), "result of the first run was changed by a later one")
    rec.nontrivial(c["kind"] != "flat" and c["niter"] > 1); rec.label("obj="+c["kind"], "start="+c["start"], "bounds="+c["bform"], "dims=%d" % n, "niter=%d" % c["niter"], "hyper="+c["hyper"].lower())


@st.composite
def conv(draw):
    n = draw(st.integers(1, 3))
    return {"n": n, "centre": [draw(st.integers(5, 95))/100 for _ in range(n)], "start": [draw(st.integers(0, 100))/100 for _ in range(n)], "kind": draw(st.sampled_from(["sphere", "abs", "max"])), "lo": draw(st.sampled_from([0.0, -3.0, 40.0])), "w": draw(st.sampled_from([1.0, 0.4, 12.0])),
            "hyper": draw(st.sampled_from(["auto", "auto", "static"])), "seed": draw(st.integers(0, 9999)), "exit": draw(st.sampled_from([None, 1e-4]))}


@reg.facet("convergence", conv, quick=150, thorough=4000, budget=40, group="swarm", rule=RULE)
def f_conv(c, rec):
    from pyebsdindex.pcopt import PSOOpt
    n = c["n"]; lo = np.full(n, c["lo"]); w = np.full(n, c["w"]); centre = lo+w*np.array(c["centre"]); log = []
    kw = dict(c1=3.5, c2=3.5, w=0.8) if c["hyper"] == "auto" else dict(c1=1.5, c2=1.5, w=0.6)
    np.random.seed(c["seed"]); o = PSOOpt(dimensions=n, n_particles=30, hyperparammethod=c["hyper"], early_exit=c["exit"], **kw)
    cost, loc = quiet(o.optimize, objective(c["kind"], centre, w, log, None), start=lo+w*np.array(c["start"]), bounds=(lo, lo+w), niter=50, verbose=0)
    e = np.abs(loc-centre).max()/c["w"]; rec.label("err<1e-4" if e < 1e-4 else "err<1e-3" if e < 1e-3 else "err<1e-2" if e < 1e-2 else "err larger")
    require(e < 0.03, "30 particles, 50 iterations, %s hyperparameters: %d-d %s: best location %s, optimum %s in box of size %g", c["hyper"], n, c["kind"], loc.tolist(), centre.tolist(), c["w"])
    rec.nontrivial(True)

# ---------------------------------------------------------------- pattern centers
LIBC = {}


def lib(k):
    from pyebsdindex import tripletvote
    if k not in LIBC: LIBC[k] = tripletvote.addphase(libtype=k)
    return LIBC[k]


def from_vendor(v, p, dims):
    """vendor convention -> pixels from the lower left corner"""
    ny, nx = dims; p = np.asarray(p, dtype=np.float64)
    if v == "EDAX": r = (p[..., 0]*nx, p[..., 1]*ny, p[..., 2]*min(nx, ny))
    elif v == "OXFORD": r = (p[..., 0]*nx, p[..., 1]*nx, p[..., 2]*nx)
    elif v in ("BRUKER", "KIKUCHIPY"): r = (p[..., 0]*nx, (1-p[..., 1])*ny, p[..., 2]*ny)
    else: r = (nx/2-p[..., 0], p[..., 1]+ny/2, p[..., 2]/p[..., 3])
    return np.stack(r, -1)


def pcs(draw):
    return [draw(st.integers(400, 600))/1000, draw(st.integers(500, 750))/1000, draw(st.integers(450, 750))/1000]


def offs(draw): return [draw(st.integers(-30, 30))/1000 for _ in range(3)]


@st.composite
def pcase(draw, batch=False):
    n = draw(st.integers(1, 4) if batch else st.sampled_from([1, 2, 3, 3, 4, 5]))
    c = {"vendor": draw(st.sampled_from(sim.VENDORS+["EMSOFT"])), "phase": draw(st.sampled_from(["FCC", "FCC", "BCC"])), "dims": draw(st.sampled_from([[60, 60], [60, 80], [80, 60], [100, 120], [120, 90]])), "pc": pcs(draw), "off": offs(draw), "q": [draw(gen.generic_quat()) for _ in range(n)],
         "form": draw(st.sampled_from(["none", "list", "tuple", "array", "f32", "array"])), "noise": draw(st.sampled_from([0.0, 0.05, 0.2])), "delta": draw(st.sampled_from([50.0, 20.0, 1.0])), "idelta": draw(st.sampled_from([True, True, False])), "bad": draw(st.sampled_from([None]*5+["flat", "noise"])),
         "lower": draw(st.sampled_from([False, False, False, True])), "squeeze": draw(st.booleans()), "nb": draw(st.sampled_from([9, 9, 8, 12])), "seed": draw(st.integers(0, 999))}
    if batch: c["shift"] = [[draw(st.integers(-20, 20))/1000 for _ in range(3)] for _ in range(n)]; c["alg"] = draw(st.sampled_from(["nm", "pso"])); c["limit"] = draw(st.sampled_from([0.06, 0.06, 0.02, 0.005, [0.03, 0.01, 0.05]]))
    return c


class Setup:
    def __init__(s, c):
        from pyebsdindex import ebsd_index
        s.c = c; dims = s.dims = c["dims"]; ny, nx = dims; m = min(dims); rng = np.random.default_rng(c["seed"]); v = s.v = c["vendor"]
        s.true = np.array([c["pc"][0]*nx, c["pc"][1]*ny, c["pc"][2]*m]); s.start_px = s.true+np.array(c["off"])*m
        sh = np.array(c.get("shift", [[0, 0, 0]]*len(c["q"])))*m; s.trues = s.true+sh
        P = [sim.to_u8(sim.pattern(c["phase"], q, dims, t, noise=c["noise"], rng=rng)) for q, t in zip(c["q"], s.trues)]
        if c["bad"]: P[-1] = np.full(dims, 50, np.uint8) if c["bad"] == "flat" else rng.integers(0, 255, dims).astype(np.uint8)
        s.P = np.array(P); s.n = len(P); s.good = s.n-(1 if c["bad"] else 0)
        # the start in the vendor's convention; the indexer's own center is another one unless PC0 is None
        st0 = np.array(sim.pc_for(v, s.start_px, dims, c["delta"])); s.ipc = st0 if c["form"] == "none" else np.array(sim.pc_for(v, s.true+[3, -4, 6], dims, c["delta"] if c["idelta"] else 2.5*c["delta"]))
        s.start = st0; s.PC0 = {"none": None, "list": st0.tolist(), "tuple": tuple(st0.tolist()), "array": st0.copy(), "f32": st0.astype(np.float32)}[c["form"]]
        if c["form"] == "f32": s.start = st0.astype(np.float32).astype(np.float64)
        kw = dict(phaselist=[lib(c["phase"])], patDim=dims, nTheta=180, nRho=90, tSigma=None, rSigma=None, rhoMaskFrac=0.1, nBands=c["nb"])
        s.ipc_obj = np.array(s.ipc) if c["seed"] % 2 else list(s.ipc); s.vname = v.lower() if c["lower"] else v
        s.ind = ebsd_index.EBSDIndexer(vendor=s.vname, PC=s.ipc_obj, **kw)
        s.refv = "EDAX" if v == "EMSOFT" else v; s.ref = ebsd_index.EBSDIndexer(vendor=s.refv, PC=sim.pc_for(s.refv, s.true, dims), **kw)
        s.arg = s.P[0] if (s.n == 1 and c["squeeze"]) else s.P; s.before = s.state()

    def state(s):
        i = s.ind; bp = i.bandDetectPlan
        return repr((i.vendor, [float(x) for x in np.ravel(i.PC)], i.sampleTilt, i.camElev, list(np.ravel(bp.patDim)), bp.nBands, bp.nTheta, bp.nRho, len(i.phaselist), None if s.PC0 is None else [float(x) for x in s.PC0], type(s.PC0).__name__, s.P.tobytes()[:40], float(s.P.sum(dtype=float))))

    def costs(s, px):
        """per-pattern cost of a center given in pixels, from the public indexing results"""
        pc = np.array(sim.pc_for(s.refv, px, s.dims)); o = s.ref.index_pats(s.P, PC=pc)[0][-1]; fit = o["fit"].astype(np.float64)
        return np.where(fit < 90, fit+s.c["nb"]-o["nmatch"], 4.0*(s.c["nb"]+1)), fit < 90

    def cost(s, px, idx=None):
        v, g = s.costs(px)
        if idx is not None: v, g = v[idx:idx+1], g[idx:idx+1]
        return 1000.0 if not g.any() else float(v.mean())

    def check_state(s, what): a = s.state(); require(a == s.before, "%s: indexer, start or patterns changed: %s -> %s", what, s.before[:200], a[:200])

    def check_form(s, r, what, shape):
        r = np.asarray(r); k = 4 if s.v == "EMSOFT" else 3
        require(r.shape == shape+(k,), "%s: result of shape %s", what, r.shape); require(np.isfinite(r).all(), "%s: result %s", what, r)
        if k == 4: require(np.allclose(r[..., 3], s.c["delta"], rtol=1e-6), "%s: pixel size %s, given %s", what, r[..., 3], s.c["delta"])
        return from_vendor(s.v, r, s.dims)


stat = {}


def recovered(kind, vendor, err, lim):
    for key, least, floor in ((kind, 15, 0.85), (kind+" "+vendor, 5, 0.55)):
        t = stat.setdefault(key, [0, 0]); t[0] += 1; t[1] += bool(err <= lim)
        require(t[0] < least or t[1]/t[0] >= floor, "%s: only %d of %d runs ended within %g of the true center", key, t[1], t[0], lim)


def errlabel(rec, kind, e): rec.label("%s err %s" % (kind, "<0.005" if e < 0.005 else "<0.01" if e < 0.01 else "<0.02" if e < 0.02 else "<0.04" if e < 0.04 else ">=0.04"))


@reg.facet("nelder_mead", pcase, quick=130, thorough=5000, budget=80, group="nm", rule=RULE)
def f_nm(c, rec):
    from pyebsdindex import pcopt
    s = Setup(c); r = quiet(pcopt.optimize, s.arg, s.ind, PC0=s.PC0); what = "optimize %s %s %s" % (s.vname, c["dims"], c["form"])
    px = s.check_form(r, what, ()); s.check_state(what)
    if s.good: 
        a, b = s.cost(s.start_px if c["form"] != "f32" else from_vendor(s.v, s.start, s.dims)), s.cost(px); require(b <= a+0.01, "%s: cost %.5f at the returned center %s, %.5f at the start %s", what, b, np.asarray(r).tolist(), a, s.start.tolist())
    e = np.abs(px-s.true).max()/min(s.dims)
    if s.good >= 3 and c["noise"] < 0.2: recovered("optimize", s.v, e, 0.02); errlabel(rec, "nm", e)
    # the indexer still works as before, and a second run gives the same
    r2 = quiet(pcopt.optimize, s.arg, s.ind, PC0=s.PC0); require(np.allclose(r, r2, rtol=1e-9, atol=1e-9), "%s: second run from the same start returned %s, first %s", what, r2, r)
    rec.nontrivial(any(c["off"]) and s.good > 0); rec.label("vendor="+s.v, "dims=%dx%d" % tuple(c["dims"]), "PC0="+c["form"], "bad=%s" % c["bad"], "n=%d" % s.n)


@st.composite
def psocase(draw):
    c = draw(pcase()); c.update(limit=draw(st.sampled_from([0.05, 0.04, [0.05, 0.04, 0.06], 0.001])), niter=draw(st.sampled_from([1, 2, 5, 20, 20])), np_=draw(st.sampled_from([5, 15, 20, None, 1])), par=draw(st.sampled_from([None, None, {"c1": 3.5, "c2": 3.5, "w": 0.8}, {"w": 0.7}, {"c1": 3.0}])), rc=draw(st.booleans()), verbose=draw(st.sampled_from([0, 0, 1])))
    return c


@reg.facet("swarm_centers", psocase, quick=130, thorough=4000, budget=70, group="pso", rule=RULE)
def f_pso(c, rec):
    from pyebsdindex import pcopt
    s = Setup(c); lim = np.array(c["limit"]); np.random.seed(c["seed"]); what = "optimize_pso %s %s %s" % (s.vname, c["dims"], c["form"])
    par = None if c["par"] is None else dict(c["par"])
    out = quiet(pcopt.optimize_pso, s.arg, s.ind, PC0=s.PC0, search_limit=c["limit"], niter=c["niter"], nswarmparticles=c["np_"], pswarmpar=par, return_cost=c["rc"], verbose=c["verbose"])
    r, cost = out if c["rc"] else (out, None); px = s.check_form(r, what, ()); s.check_state(what); require(par == c["par"], "%s: pswarmpar changed", what)
    if s.v == "EMSOFT": a, b = np.array(sim.pc_for("EDAX", px, s.dims)), np.array(sim.pc_for("EDAX", from_vendor(s.v, s.start, s.dims), s.dims))
    else: a, b = np.asarray(r, dtype=np.float64), s.start
    require((np.abs(a-b) <= lim+1e-6).all(), "%s: returned center is %s from the start, limit %s", what, (a-b).tolist(), c["limit"])
    have = s.cost(px); beg = s.cost(from_vendor(s.v, s.start, s.dims))
    require(have <= beg+0.01, "%s: cost %.5f at the returned center, %.5f at the start", what, have, beg)
    if cost is not None: require(abs(float(np.ravel(cost)[0])-have) < 0.01, "%s: reported cost %r, cost of the returned center %.5f", what, cost, have)
    e = np.abs(px-s.true).max()/min(s.dims)
    if s.good >= 3 and c["noise"] < 0.2 and c["niter"] == 20 and c["np_"] in (None, 15, 20) and c["limit"] != 0.001: recovered("optimize_pso", s.v, e, 0.02); errlabel(rec, "pso", e)
    rec.nontrivial(any(c["off"]) and s.good > 0 and c["niter"] > 1); rec.label("vendor="+s.v, "dims=%dx%d" % tuple(c["dims"]), "PC0="+c["form"], "niter=%d" % c["niter"], "bad=%s" % c["bad"])


@st.composite
def bcase(draw): return draw(pcase(batch=True))


@reg.facet("batch", bcase, quick=90, thorough=3000, budget=70, group="batch", rule=RULE)
def f_batch(c, rec):
    from pyebsdindex import pcopt
    s = Setup(c); np.random.seed(c["seed"]); what = "batch %s %s %s %s" % (c["alg"], s.vname, c["dims"], c["form"]); start = from_vendor(s.v, s.start, s.dims); cost = None
    if c["alg"] == "nm": r = quiet(pcopt.optimize, s.arg, s.ind, PC0=s.PC0, batch=True)
    else: r, cost = quiet(pcopt.optimize_pso, s.arg, s.ind, PC0=s.PC0, batch=True, search_limit=c.get("limit", 0.06), niter=12, nswarmparticles=12, return_cost=True, verbose=c["seed"] % 2)
    px = s.check_form(r, what, (s.n,)); s.check_state(what)
    if c["alg"] == "pso":
        a, b = (np.array([sim.pc_for("EDAX", x, s.dims) for x in px]), np.array(sim.pc_for("EDAX", start, s.dims))) if s.v == "EMSOFT" else (np.asarray(r, dtype=np.float64), s.start); over = np.abs(a-b)-np.array(c.get("limit", 0.06)); require((over <= 1e-6).all(), "%s: returned centers are %s from the start, limit %s", what, (a-b).tolist(), c.get("limit"))
    if cost is not None: require(np.shape(cost) == (s.n,), "%s: costs of shape %s", what, np.shape(cost))
    for i in range(s.n):
        a, b = s.cost(start, i), s.cost(px[i], i)
        require(b <= a+0.01, "%s: row %d: cost %.5f at the returned center, %.5f at the start", what, i, b, a)
        if cost is not None: require(abs(float(cost[i])-b) < 0.01, "%s: row %d: reported cost %r, cost of the returned center for that pattern %.5f", what, i, cost[i], b)
        if c["alg"] == "nm":
            one = quiet(pcopt.optimize, s.P[i], s.ind, PC0=s.PC0); d = s.cost(from_vendor(s.v, one, s.dims), i)
            require(abs(d-b) < 0.05 or np.allclose(one, np.asarray(r)[i], rtol=1e-4), "%s: row %d: %s (cost %.4f), pattern alone: %s (cost %.4f)", what, i, np.asarray(r)[i].tolist(), b, np.asarray(one).tolist(), d)
    rec.nontrivial(s.n > 1 and s.good > 0); rec.label("alg="+c["alg"], "vendor="+s.v, "n=%d" % s.n, "bad=%s" % c["bad"])
