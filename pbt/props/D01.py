"""D01: the distributed scheduler under scripted completion orders and faults, against serial indexing."""
import contextlib, io, os, shutil, sys, tempfile, types
import numpy as np
from hypothesis import strategies as st
from ..core import Registry, require, Violation
from ..ref import rot as R
from .. import gen, sim, fmt, fakeray

reg = Registry()
RULE = ("Runs of index_pats_distributed with the cluster replaced by one that follows a generated script: duration and fate (finishes, dies, reports an error, hangs) of every task. "
        "Non-trivial: at least two chunks, with a fault or with chunks finishing out of order.")
ASSUMPTIONS = ["the cluster is simulated on a virtual clock (the real one is used by facet real_ray of the thorough tier); arguments and results are pickled and read-only as in ray",
               "at most 5 faults per run; a chunk that fails every time must end the run with an error", "a hung worker is only noticed for band detection; hung indexing workers are not generated",
               "start inside the source, count -1 or 1 or more (running past the end is allowed)"]
N = 26
state = {}


def parallel():
    if "mod" not in state:
        import pyebsdindex                                  # sees the real ray
        real = sys.modules.get("ray"); sys.modules["ray"] = fakeray.module()
        try: import pyebsdindex._ebsd_index_parallel as m
        finally:
            if real is not None: sys.modules["ray"] = real
        if isinstance(getattr(m, "time", None), types.ModuleType): m.time = types.SimpleNamespace(sleep=lambda s: fakeray.now.tick(fakeray.now.now+s), time=lambda: fakeray.now.now, monotonic=lambda: fakeray.now.now, perf_counter=lambda: fakeray.now.now)
        state["mod"] = m
    return state["mod"]


def pats():
    if "P" not in state:
        rng = np.random.default_rng(7); P = []
        for i in range(N):
            if i % 9 == 8: P.append(rng.integers(0, 255, (60, 60)).astype(np.uint8)); continue
            P.append(sim.to_u8(sim.pattern("FCC" if i % 3 else "BCC", R.qnorm(rng.normal(size=4)), [60, 60], [30, 36, 36], noise=0.15, rng=rng)))
        state["P"] = np.array(P)
    return state["P"]


PC = [0.5, 0.6, 0.6]
def kw(c):
    r = np.random.default_rng(3); pc = PC if not c["pcs"] else (np.array(PC)+r.normal(size=(N, 3))*0.03)
    return dict(phaselist=c["phases"], vendor=c["vendor"], PC=pc, nBands=c["nb"], nRho=60, nTheta=90)


def serial(c, a, n):
    """results for patterns a..a+n, by serial indexing of exactly these"""
    from pyebsdindex import ebsd_index
    own = c["source"] in ("own", "fileindexer"); k = (tuple(c["phases"]), c["vendor"], c["nb"], own, c["pcs"], (a, n) if c["pcs"] else None)
    if k not in state:
        w = kw(c); P = pats()
        if c["pcs"]: w["PC"] = w["PC"][:n]; P = P[a:a+n]
        state[k] = ebsd_index.index_pats(P, **w)[:2] if not own else ebsd_index.EBSDIndexer(patDim=[60, 60], **w).index_pats(P)[:2]
    o, b = state[k]
    return (o, b) if c["pcs"] else (o[:, a:a+n], b[a:a+n])


def same(x, y, what):
    require(x.shape == y.shape and x.dtype == y.dtype, "%s: shape %s %s, serial indexing gives %s %s", what, x.shape, x.dtype, y.shape, y.dtype)
    for f in x.dtype.names:
        u, v = x[f], y[f]
        if u.dtype.kind in "fc":
            bad = ~np.isclose(u, v, rtol=1e-4, atol=1e-5, equal_nan=True)
        else: bad = u != v
        if bad.any():
            k = np.argwhere(bad)[0]; pos = k[1] if what == "result" else k[0]
            require(False, "%s: field %s of pattern %d (and %d more entries) is %s, serial indexing gives %s", what, f, pos, bad.sum()-1, u[tuple(k)], v[tuple(k)])


@st.composite
def run_case(draw):
    fates = st.sampled_from(["ok"]*6+["die", "error", "stuck"]); cf = st.sampled_from(["ok"]*6+["die", "error"]); dur = st.sampled_from([0.01, 0.05, 0.12, 0.3, 1.0, 3.0, 8.0])
    g, c = [[draw(dur), draw(fates)] for _ in range(draw(st.sampled_from([3, 6, 9, 14, 0])))], [[draw(dur), draw(cf)] for _ in range(draw(st.sampled_from([3, 6, 9, 14, 0])))]; nf = 0
    for t in g+c:
        nf += t[1] != "ok"
        if nf > 5: t[1] = "ok"
    npats = draw(st.sampled_from([-1, -1, -1, -1, -1, 9, 20, 40, 16, 2, 5, 1])); start = draw(st.sampled_from([0, 0, 0, 0, 1, 7, 3, N-6, -9, N-1, -1]))
    return {"phases": draw(st.sampled_from([["FCC"], ["FCC", "BCC"], ["BCC", "FCC"]])), "vendor": draw(st.sampled_from(["EDAX", "OXFORD"])), "nb": draw(st.sampled_from([9, 8])), "pcs": draw(st.integers(0, 5)) == 0,
            "source": draw(st.sampled_from(["array", "array", "file", "object", "dataset", "fileindexer", "own"])), "start": start, "n": npats, "chunk": draw(st.sampled_from([3, 1, 2, 4, 5, 7, 6, 9, 10, 13, 26, 0])), "ncpu": draw(st.sampled_from([1, 1, 2, 3, 4, 6, -1, 0])),
            "script": {"gpu": g, "cpu": c, "base": [draw(st.sampled_from([0.05, 0.2, 1.0, 15.0])), draw(st.sampled_from([0.05, 0.2, 1.0]))], "idledeath": draw(st.integers(0, 5)) == 0}, "verbose": draw(st.integers(0, 1)), "ret": draw(st.booleans()), "log": draw(st.booleans())}


@contextlib.contextmanager
def source(c):
    P = pats(); d = None
    try:
        if c["source"] in ("file", "fileindexer"): d = tempfile.mkdtemp(); p = os.path.join(d, "s.up1"); fmt.write(p, {"fmt": "UP1", "version": 3}, P, [2, N//2], [1.0, 1.0]); yield p
        elif c["source"] == "dataset":
            import h5py
            d = tempfile.mkdtemp()
            with h5py.File(os.path.join(d, "s.h5"), "w") as h: yield h.create_dataset("p", data=P)
        elif c["source"] == "object":
            from pyebsdindex.ebsd_pattern import EBSDPatterns
            e = EBSDPatterns(); e.patterns = P.copy(); e.patternH = e.patternW = 60; e.nPatterns = N; yield e
        else: yield P.copy()
    finally:
        if d: shutil.rmtree(d)


def launch(c, src, mod, **more):
    from pyebsdindex import ebsd_index
    w = kw(c); args = dict(patstart=c["start"], npats=c["n"], chunksize=c["chunk"], ncpu=c["ncpu"], verbose=c["verbose"], return_indexer_obj=c["ret"], keep_log=c["log"], **more); a = c["start"] if c["start"] >= 0 else N+c["start"]; n = min(N-a, c["n"]) if c["n"] > 0 else N-a
    if c["pcs"]: w["PC"] = w["PC"][:n]
    if c["source"] == "file": args.update(filename=src, **w)
    elif c["source"] == "fileindexer": args.update(ebsd_indexer_obj=ebsd_index.EBSDIndexer(filename=src, **w))
    elif c["source"] == "own": args.update(patsin=src, ebsd_indexer_obj=ebsd_index.EBSDIndexer(patDim=[60, 60], **w))
    else: args.update(patsin=src, **w)
    env = os.environ.get("CUDA_VISIBLE_DEVICES")
    with contextlib.redirect_stdout(io.StringIO()): out = mod.index_pats_distributed(**args)
    require(os.environ.get("CUDA_VISIBLE_DEVICES") == env, "CUDA_VISIBLE_DEVICES was left changed")
    require(len(out) == (3 if c["ret"] else 2), "%d values returned", len(out))
    return out, a, n


@reg.facet("schedules", run_case, quick=700, thorough=40000, budget=150, rule="scripted completion orders and faults against serial indexing. Non-trivial: two or more chunks, with a fault or out of order")
def f_sched(c, rec):
    mod = parallel(); cl = fakeray.now = fakeray.Cluster(c["script"]); keep = pats().copy()
    with source(c) as src:
        out, a, n = launch(c, src, mod); cs = c["chunk"] or 1000
        o, b = serial(c, a, n); same(out[0], o, "result"); same(out[1], b, "bands")
        if c["source"] in ("array", "own"): require(np.array_equal(src, keep), "the patterns were modified")
        require(cl.down, "the cluster was not shut down")
        chunks = -(-n//cs); durs = [t[0] for t in c["script"]["gpu"][:chunks]]
        rec.nontrivial(chunks > 1 and (cl.faults > 0 or durs != sorted(durs))); rec.label("chunks:%s" % min(chunks, 5), "faults:%d" % min(cl.faults, 4), c["source"])


@st.composite
def dead(draw): return {**draw(run_case()), "always": draw(st.sampled_from(["gpu", "cpu"])), "fate": draw(st.sampled_from(["error", "die"])), "source": "array", "verbose": 0}


@reg.facet("hopeless", dead, quick=40, thorough=1500, budget=30, rule="every attempt at band detection or indexing fails: the call must end with an error, not hang or return. Non-trivial: all")
def f_dead(c, rec):
    mod = parallel(); s = {"gpu": [], "cpu": [], "base": [0.1, 0.1]}; s[c["always"]] = [[0.1, c["fate"]]]*3000; cl = fakeray.now = fakeray.Cluster(s)
    with source(c) as src:
        try: launch(c, src, mod)
        except Violation: raise
        except Exception: rec.nontrivial(); os.environ.pop("CUDA_VISIBLE_DEVICES", None); return
    require(False, "results were returned although %s work never succeeded", c["always"])


def real(): return st.fixed_dictionaries({"seed": st.integers(0, 9999)})


@reg.facet("real_ray", real, quick=1, thorough=6, budget=1, group="real", shrink=1, rule="the real cluster with two workers (thorough tier only). Non-trivial: all at the thorough tier")
def f_real(c, rec):
    from ..core import TIER
    if TIER != "thorough": return
    from pyebsdindex import _ebsd_index_parallel as mod
    k = {"phases": ["FCC", "BCC"], "vendor": "EDAX", "nb": 9, "pcs": False, "source": ["array", "file"][c["seed"] % 2], "start": [0, 3][c["seed"] % 3 == 0], "n": -1, "chunk": [3, 5, 9][c["seed"] % 3], "ncpu": 2, "verbose": 0, "ret": True, "log": False}
    with source(k) as src:
        out, a, n = launch(k, src, mod); o, b = serial(k, a, n); same(out[0], o, "result"); same(out[1], b, "bands"); rec.nontrivial()
