"""P02: NLPAR of the GPU classes against the definition, on a stand-in for the device that runs the kernels of the tree."""
import contextlib, io, os, shutil, sys, tempfile
import numpy as np
from hypothesis import strategies as st
from .. import fakecl
from ..core import Registry, require
fakecl.install()
from .. import gen, fmt, fakeray
from . import N01

reg = Registry()
RULE = ("Scans of a few grains (smooth templates plus noise, saturated pixels, duplicated patterns) in files of every layout, with random window, lambda, threshold, mask, noise estimate and device memory (1 to dozens of tiles). "
        "Non-trivial: more than one scan point and at least one weight strictly between 0.02 and 0.98.")
ASSUMPTIONS = ["there is no device here: a stand-in for pyopencl compiles the .cl files of the tree with clang and runs the work items one after the other in ascending or descending order; races between work items and vendor specific compilers are not covered",
               "definition as in N01, but places of the window beyond the border of the scan count as their mirror images: p < 0 as -p, p >= n as 2n-1-p",
               "the saturation level is the largest value of the patterns of a tile, so every generated pattern holds the same largest value",
               "float32 arithmetic: outputs may differ by 1e-3 of the intensity spread (plus one count for integer files)",
               "backsub, rescale of the GPU classes and the values found by opt_lambda are not judged"]


def fold(p, n):
    p = -p if p < 0 else p
    if p >= n: p = 2*n-1-p
    return min(max(p, 0), n-1)


def average(P, grid, M, S, o):
    """as N01.average with the windows mirrored at the borders; also a flag per pattern: its window lies in the scan"""
    nr, nc = grid; A = P.reshape(len(P), -1).astype(float); X = A[:, M.ravel()]; ok = X < 0.9961*P.max() if o["sat"] else np.ones(X.shape, bool); out = np.zeros(A.shape); sr = o["sr"]; S2 = S.ravel().astype(float)**2; mixed = 0; inside = np.zeros(nr*nc, bool)
    for k in range(nr*nc):
        j, i = divmod(k, nc); q = np.array([fold(b, nr)*nc+fold(a, nc) for b in range(j-sr, j+sr+1) for a in range(i-sr, i+sr+1)]); u = ok[k]&ok[q]; n2 = u.sum(1); d = np.sum(((X[k]-X[q])**2)*u, 1); ss = S2[k]+S2[q]
        D = (d-n2*ss)/(ss*np.sqrt(2*n2)); w = np.exp(-np.maximum(D-o["dthresh"], 0)/o["lam"]**2); w[q == k] = 1+o["off"]; mixed += int(np.sum((w > 0.02) & (w < 0.98)))
        out[k] = w@A[q]/w.sum(); inside[k] = sr <= j < nr-sr and sr <= i < nc-sr
    return out.reshape(P.shape), mixed, inside


state = {}


def cls(o):
    if not state:
        import pyebsdindex                                  # sees the real ray
        real = sys.modules.get("ray"); sys.modules["ray"] = fakeray.module()
        try: from pyebsdindex.opencl import nlpar_clray, nlpar_cl
        finally:
            if real is not None: sys.modules["ray"] = real
        state.update(cl=nlpar_cl.NLPAR, clray=nlpar_clray.NLPAR)
    return state[o["cls"]]


def make(path, c, o):
    kw = {} if fmt.has_grid(c["s"]) else {"nrows": c["grid"][0], "ncols": c["grid"][1]}
    if o["via"] == "object": kw.update(lam=o["lam"], searchradius=o["sr"], dthresh=o["dthresh"], diff_offset=o["off"])
    return cls(o)(None if o["via"] == "filename" else path, **kw)


def device(c, o):
    """room for about o['tiles'] tiles, at least as many columns and rows of each as the window needs"""
    n = c["grid"][0]*c["grid"][1]; b = 8*c["hw"][0]*c["hw"][1]*n/o["tiles"]; fakecl.DEV.update(max_alloc=int(max(4*b, 1)), unified=bool(o["unified"]), fill=o["fill"]); fakecl.ORDER["back"] = o["back"]; fakecl.FAULT.clear(); fakecl.STAT["by"].clear()
    fakeray.now = fakeray.Cluster({"gpu": [[t, "ok"] for t in o["times"]], "cpu": [], "base": [0.1, 0.1]})


def ran(*names):
    """the kernels were launched, so this was no run on the CPU"""
    require(sum(fakecl.STAT["by"].values()) > 0, "no kernel was run")


def run(nl, path, o, out, **more):
    kw = dict(more) if o["via"] == "object" else dict(lam=o["lam"], searchradius=o["sr"], dthresh=o["dthresh"], diff_offset=o["off"], **more)
    if o["via"] == "filename": kw["filename"] = path
    if o["via"] == "object" and o["off"]: kw["diff_offset"] = o["off"]
    with contextlib.redirect_stdout(io.StringIO()): return nl.calcnlpar(saturation_protect=o["sat"], automask=o["automask"], fileout=out, verbose=o["chunk"] % 3, **kw)


@st.composite
def options(draw, sr=(1, 1, 2, 3, 4, 0, 7)):
    return {**draw(N01.options(sr)), "tiles": draw(st.sampled_from([0.5, 0.5, 1, 2, 3, 5, 8, 20])), "unified": draw(st.booleans()), "fill": draw(st.sampled_from([0, 255, 64])), "back": draw(st.sampled_from([0, 0, 1])), "cls": draw(st.sampled_from(["cl", "clray"])), "times": draw(st.lists(st.sampled_from([0.05, 0.3, 1.0, 4.0]), max_size=12))}


@st.composite
def case(draw): return {**draw(N01.scan()), "o": draw(options())}


@reg.facet("average", case, quick=400, thorough=12000, budget=120, rule="files against the direct evaluation. Non-trivial: more than one scan point and a weight between 0.02 and 0.98")
def f_average(c, rec):
    d = tempfile.mkdtemp()
    try:
        s, o = c["s"], c["o"]; P = N01.patterns(c); M = N01.mask_of(c, o); path = os.path.join(d, "scan"+fmt.EXT[s["fmt"]]); fmt.write(path, s, P, c["grid"], c["step"]); raw = open(path, "rb").read(); _, _, rest = fmt.parse(path, s); device(c, o)
        nl = make(path, c, o); S = N01.noise(P, c["grid"], M, o["sat"]); more = {}
        if o["mask"] == "user": nl.mask = M.astype(np.uint8)
        sg = o["sigma"] if not (o["via"] == "filename" and o["sigma"] == "calcsigma") else ""
        if sg == "array": S = S*np.random.default_rng(c["seed"]+9).uniform(0.6, 1.6, S.shape); S[S > 1e9] = 0.1*P.max(); nl.sigma = S.astype(np.float32)
        elif sg == "scalar": v = 0.05*float(P.max()); S = np.full(c["grid"], v); nl.sigma = v
        elif sg == "misfit" and o["via"] != "filename": nr, nc = c["grid"]; nl.sigma = np.full([[nc, nr], [nr, nc+1], [nr+1, nc]][c["seed"] % 3 if nr != nc else 1+c["seed"] % 2], 0.3*float(P.max()), np.float32)
        elif sg == "reset": nl.sigma = np.full(c["grid"], 3.0, np.float32); more["reset_sigma"] = True
        elif sg == "calcsigma":
            with contextlib.redirect_stdout(io.StringIO()): nl.sigma = nl.calcsigma(saturation_protect=o["sat"], automask=o["automask"])
        out = None if o["out"] == "default" else os.path.join(d, "other"+fmt.EXT[s["fmt"]])
        ret = run(nl, path, o, out, **more); exp = out or os.path.join(d, "scan_NLPAR_l%1.2fsr%d%s" % (o["lam"], o["sr"], fmt.EXT[s["fmt"]]))
        ran("calcnlpar"); require(os.path.exists(exp), "no output file %s", os.path.basename(exp)); require(os.path.realpath(str(ret)) == os.path.realpath(exp), "calcnlpar returned %s", ret)
        require(open(path, "rb").read() == raw, "the input file was changed")
        got, _, rest2 = fmt.parse(exp, s); require(rest2 == rest, "header or locations of the output differ from the input")
        want, mixed, inside = average(P, c["grid"], M, S, o); N01.compare(got, want, P, "window %d, %g tiles, scan %s" % (o["sr"], o["tiles"], c["grid"]))
        if o.get("again"):
            o2 = {**o, "lam": o["lam"]*1.6, "via": "args"}; exp = os.path.join(d, "again"+fmt.EXT[s["fmt"]]); run(nl, path, o2, exp); got, _, _ = fmt.parse(exp, s); want, _, _ = average(P, c["grid"], M, S, o2); N01.compare(got, want, P, "second run of the object, window %d, %g tiles, scan %s" % (o["sr"], o["tiles"], c["grid"])); rec.label("again")
        rec.nontrivial(mixed > 0 and len(P) > 1); rec.label("sr%d" % o["sr"], o["cls"]+("/unified" if o["unified"] else ""), "tiles:%d" % min(9, fakecl.STAT["by"].get("calcnlpar", 0)), s["fmt"], "sigma:"+(sg or "auto"), "inside" if inside.any() else "border only")
    finally: shutil.rmtree(d)


@st.composite
def large(draw): return {**draw(N01.scan(("KIKUCHIPY", "UP2"), [[7, 6], [12, 9], [1, 25], [23, 2]])), "o": {**draw(options((8, 9, 10))), "via": "args"}}


@reg.facet("wide", large, quick=30, thorough=1000, budget=40, rule="average with the widest windows allowed (8 to 10). Non-trivial: as average")
def f_wide(c, rec): f_average(c, rec)


@st.composite
def nz(draw): return {**draw(N01.scan(("KIKUCHIPY", "UP2", "TFPAT", "OH5"))), "o": {**draw(options()), "via": "args", "nn": draw(st.sampled_from([1, 1, 2, 3]))}}


@reg.facet("noise", nz, quick=250, thorough=8000, budget=40, rule="noise estimate against its definition for every number of tiles. Non-trivial: two or more tiles")
def f_noise(c, rec):
    d = tempfile.mkdtemp()
    try:
        s, o = c["s"], c["o"]; P = N01.patterns(c); M = N01.mask_of(c, o); path = os.path.join(d, "scan"+fmt.EXT[s["fmt"]]); fmt.write(path, s, P, c["grid"], c["step"]); raw = open(path, "rb").read(); device(c, o); nl = make(path, c, o)
        if o["mask"] == "user": nl.mask = M.astype(np.uint8)
        with contextlib.redirect_stdout(io.StringIO()): got = np.asarray(nl.calcsigma(nn=o["nn"], saturation_protect=o["sat"], automask=o["automask"]))
        ran("calcsigma"); want = N01.noise(P, c["grid"], M, o["sat"], o["nn"]); require(got.shape == want.shape, "calcsigma returned shape %s for a scan of %s", got.shape, c["grid"])
        e = np.abs(got-want)/np.maximum(want, 1e-6); require(e.max() < 1e-3, "calcsigma is off by a factor %.4g at %s (%d tiles, scan %s)", 1+e.max(), np.unravel_index(e.argmax(), e.shape), fakecl.STAT["by"].get("calcsigma", 0), c["grid"])
        require(open(path, "rb").read() == raw, "the input file was changed"); rec.nontrivial(fakecl.STAT["by"].get("calcsigma", 0) > 1); rec.label("nn%d" % o["nn"], o["cls"])
    finally: shutil.rmtree(d)


@st.composite
def two(draw): a = draw(N01.scan(("KIKUCHIPY", "UP2", "UP1", "OH5"))); b = draw(N01.scan((a["s"]["fmt"],))); b["s"] = a["s"]; return {"a": a, "b": b, "same": draw(st.booleans()), "o": {**draw(options()), "via": draw(st.sampled_from(["filename", "setfile"])), "mask": "", "sigma": "", "out": "name"}, "reset": draw(st.booleans())}


@reg.facet("reuse", two, quick=120, thorough=4000, budget=40, rule="one object given two files one after the other and the first one again. Non-trivial: the files differ in scan or pattern size")
def f_reuse(c, rec):
    d = tempfile.mkdtemp()
    try:
        a, b, o = dict(c["a"]), dict(c["b"]), c["o"]; a["s"] = {**a["s"], **({"version": 3} if a["s"]["fmt"][:2] == "UP" else {})}; b["s"] = a["s"]
        if c["same"]: b["grid"], b["hw"] = a["grid"], a["hw"]
        device(a, o); nl = cls(o)(); files = []
        for k, x in enumerate((a, b)):
            p = os.path.join(d, "f%d%s" % (k, fmt.EXT[x["s"]["fmt"]])); P = N01.patterns(x, k); fmt.write(p, x["s"], P, x["grid"], x["step"]); files.append((p, P, x))
        for k in (0, 1, 0):
            p, P, x = files[k]; out = os.path.join(d, "o%d%s" % (k, fmt.EXT[x["s"]["fmt"]])); device(x, o)
            if o["via"] == "setfile": nl.setfile(p)
            run(nl, p, {**o, "via": "filename" if o["via"] == "filename" else "args"}, out, reset_sigma=c["reset"])
            ran("calcnlpar"); got, _, _ = fmt.parse(out, x["s"]); M = N01.mask_of(x, o); want, _, _ = average(P, x["grid"], M, N01.noise(P, x["grid"], M, o["sat"]), o); N01.compare(got, want, P, "file %d" % k)
        rec.nontrivial(a["grid"] != b["grid"] or a["hw"] != b["hw"]); rec.label(o["cls"])
    finally: shutil.rmtree(d)


@st.composite
def trouble(draw): return {**draw(N01.scan(("KIKUCHIPY", "UP2", "UP1", "OH5"), [[7, 6], [9, 5], [12, 9], [1, 14]])), "o": {**draw(options((1, 1, 2))), "tiles": draw(st.sampled_from([5, 8, 20])), "unified": False, "via": "args", "mask": "", "sigma": "", "out": "name"}, "at": draw(st.lists(st.integers(0, 9), min_size=1, max_size=3, unique=True))}


@reg.facet("trouble", trouble, quick=80, thorough=3000, budget=40, rule="a launch now and then leaves zeros (one process) or fails (workers): these tiles are calculated again. Non-trivial: a fault happened and there are two or more tiles")
def f_trouble(c, rec):
    d = tempfile.mkdtemp()
    try:
        s, o = c["s"], c["o"]; P = N01.patterns(c); M = N01.mask_of(c, o); path = os.path.join(d, "scan"+fmt.EXT[s["fmt"]]); fmt.write(path, s, P, c["grid"], c["step"]); device(c, o); nl = make(path, c, o); out = os.path.join(d, "other"+fmt.EXT[s["fmt"]])
        fakecl.FAULT.update({("calcnlpar", k): "skip" if o["cls"] == "cl" else "error" for k in c["at"] if k-1 not in c["at"]})
        if o["cls"] == "clray":                             # also while the workers estimate the noise
            fakecl.FAULT.update({("calcsigma", k): "error" for k in c["at"][:2] if k-1 not in c["at"]})
            with contextlib.redirect_stdout(io.StringIO()): got = np.asarray(nl.calcsigma(nn=1, saturation_protect=o["sat"], automask=o["automask"]))
            e = np.abs(got/np.maximum(N01.noise(P, c["grid"], M, o["sat"]), 1e-6)-1).max(); require(e < 1e-3, "faults at launches %s: calcsigma is off by a factor %.4g", c["at"], 1+e); [fakecl.FAULT.pop(k) for k in list(fakecl.FAULT) if k[0] == "calcsigma"]
        run(nl, path, o, out); n = fakecl.STAT["by"].get("calcnlpar", 0)
        got, _, _ = fmt.parse(out, s); want, _, _ = average(P, c["grid"], M, N01.noise(P, c["grid"], M, o["sat"]), o); N01.compare(got, want, P, "faults at launches %s of %d" % (c["at"], n))
        rec.nontrivial(n > 1 and min(c["at"]) < n); rec.label(o["cls"])
    finally: fakecl.FAULT.clear(); shutil.rmtree(d)


def missed(P, grid, S, tw, lam):
    """mean distance of the weight of a pattern in its own 3x3 average (mirrored at the borders) from the target"""
    nr, nc = grid; X = P.reshape(len(P), -1).astype(float); S2 = S.ravel().astype(float)**2; m = X.shape[1]; out = 0.0
    for k in range(nr*nc):
        j, i = divmod(k, nc); q = np.array([fold(b, nr)*nc+fold(a, nc) for b in range(j-1, j+2) for a in range(i-1, i+2)]); ss = S2[k]+S2[q]; D = (np.sum((X[k]-X[q])**2, 1)-m*ss)/(ss*np.sqrt(2*m)); D[q == k] = 0
        out = out+np.abs(tw-1/np.exp(-np.maximum(D, 0)[:, None]/np.atleast_1d(lam)**2).sum(0))
    return out/(nr*nc)


@reg.facet("lambda_target", lambda: st.fixed_dictionaries({"seed": gen.seeds, "grid": st.sampled_from([[7, 6], [9, 5], [12, 9], [5, 8]]), "tw": st.sampled_from([[0.5, 0.34, 0.25], [0.6, 0.4, 0.3], [0.45]]), "cls": st.sampled_from(["cl", "clray"])}), quick=12, thorough=300, budget=30, shrink=1,
           rule="opt_lambda on one uniform noisy grain: the values are those for which the patterns weigh, on the average, closest to the targets in their own averages. Non-trivial: all")
def f_target(c, rec):
    d = tempfile.mkdtemp(); r = np.random.default_rng(c["seed"]); n = c["grid"][0]*c["grid"][1]
    try:
        s = {"fmt": "KIKUCHIPY", "dt": "f4", "group": "Scan 1", "missing": [], "raw": False, "second": False, "ver": "0.3.dev0", "x0": 0.0, "y0": 0.0}; o = {"lam": 0.7, "sr": 1, "dthresh": 0.0, "off": 0.0, "mask": "", "sigma": "", "via": "args", "automask": False, "chunk": 0, "cls": c["cls"], "tiles": 0.5, "unified": False, "fill": 0, "back": 0, "times": []}
        P = (20+r.normal(size=(1, 8, 8))*3+r.normal(size=(n, 8, 8))*r.uniform(0.5, 1.5, (n, 1, 1))).astype("f4"); path = os.path.join(d, "scan.h5"); fmt.write(path, s, P, c["grid"], [1.0, 1.0]); q = {"s": s, "grid": c["grid"], "hw": [8, 8], "seed": 0}; device(q, o); nl = make(path, q, o)
        with contextlib.redirect_stdout(io.StringIO()): L = np.asarray(nl.opt_lambda(saturation_protect=False, automask=False, target_weights=c["tw"]), float)
        require(L.shape == (len(c["tw"]),), "opt_lambda returned %s for the targets %s", L, c["tw"]); S = N01.noise(P, c["grid"], np.ones((8, 8), bool), False); G = np.geomspace(0.2, 10, 120)
        for tw, l in zip(c["tw"], L):
            x = missed(P, c["grid"], S, tw, l)[0], missed(P, c["grid"], S, tw, G).min(); require(x[0] <= 1.05*x[1]+0.003, "for the target %s opt_lambda found %.4g, which misses it by %.4f, %.4f is possible", tw, l, *x)
        require(abs(float(nl.lam)-np.median(L)) < 1e-5, "lam was set to %s, the median of %s is wanted", nl.lam, L); rec.nontrivial()
    finally: shutil.rmtree(d)
