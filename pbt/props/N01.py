"""N01: NLPAR against a direct evaluation of its definition, through pattern files."""
import contextlib, io, os, shutil, tempfile
import numpy as np
from hypothesis import strategies as st
from ..core import Registry, require
from .. import gen, fmt
from .F01 import spec, step_of

reg = Registry()
RULE = ("Scans of a few grains (smooth templates plus noise, saturated pixels, duplicated patterns) in files of every layout, with random window, lambda, threshold, mask, noise estimate and chunk size. "
        "Non-trivial: more than one scan point and at least one weight strictly between 0.02 and 0.98.")
ASSUMPTIONS = ["definition: squared difference over the mask pixels unsaturated in both patterns, minus its expectation from the noise, over (s0^2+s1^2)*sqrt(2n); weight exp(-max(d-dthresh,0)/lambda^2), 1 (+diff_offset) for the pattern itself; windows of 2r+1 are moved inward at the borders of the scan; noise = smallest rms difference/sqrt(2) to one of the 8 neighbours, exact duplicates skipped",
               "the saturation level is the largest value of the rows read together, so every generated pattern holds the same largest value",
               "float32 arithmetic: outputs may differ by 1e-3 of the intensity spread (plus one count for integer files)",
               "backsub=True: the background is judged only as a difference of two runs without saturation protection; the GPU implementations are judged by P02; opt_lambda is judged on uniform grains, where its target is reached by one lambda"]


@st.composite
def scan(draw, kinds=("KIKUCHIPY", "KIKUCHIPY", "UP1", "UP2", "EBSP", "TFPAT", "OH5", "EDAXH5", "BRUKER", "OXFORD"), grids=None):
    c = draw(spec(kinds)); s = c["s"]
    if s["fmt"] == "KIKUCHIPY": s["dt"] = draw(st.sampled_from(["f4", "f4", "u1"]))
    s["missing"] = []; c["grid"] = draw(st.sampled_from(grids or [[1, 1], [1, 5], [5, 1], [2, 2], [3, 4], [7, 6], [9, 5], [4, 9], [2, 8], [8, 2], [11, 3], [19, 17], [3, 40]])); n = c["grid"][0]*c["grid"][1]
    if s["fmt"] == "EBSP": s["order"] = draw(st.permutations(range(n)))
    c["hw"] = draw(st.sampled_from([[6, 6], [5, 8], [9, 6], [12, 12], [7, 10]]))
    c.update(grains=draw(st.integers(1, 3)), noise=draw(st.sampled_from([0.02, 0.05, 0.1])), contrast=draw(st.sampled_from([0.02, 0.1, 0.3])), sat=draw(st.sampled_from([0, 0, 2])), dup=draw(st.sampled_from([0, 0, 0.15])))
    return c


@st.composite
def options(draw, sr=(1, 1, 2, 3, 4, 0, 7)):
    return {"lam": draw(st.sampled_from([0.3, 0.7, 1.0, 1.7])), "sr": draw(st.sampled_from(sr)), "dthresh": draw(st.sampled_from([0.0, 0.0, 0.5, 2.0])), "off": draw(st.sampled_from([0.0, 0.0, 0.0, 2.5])),
            "sat": draw(st.booleans()), "automask": draw(st.sampled_from([True, True, False])), "mask": draw(st.sampled_from(["", "", "", "user"])), "sigma": draw(st.sampled_from(["", "", "", "array", "scalar", "reset", "calcsigma", "misfit"])), "again": draw(st.sampled_from([False, False, True])),
            "chunk": draw(st.sampled_from([0, 1, 2, 3, 4, 5, 100])), "out": draw(st.sampled_from(["name", "name", "default"])), "via": draw(st.sampled_from(["args", "object", "filename"]))}


def patterns(c, seed=0):
    """One fixed pixel of every pattern holds the largest value; of the others a few are saturated or just below that (99.2 %), all others stay below 90 % of it."""
    s = c["s"]; h, w = c["hw"]; n = c["grid"][0]*c["grid"][1]; r = np.random.default_rng([c["seed"], seed]); dt = np.dtype(fmt.dtype(s)); mx = 2**s["bits"]-1 if s["fmt"] == "TFPAT" else np.iinfo(dt).max if dt.kind == "u" else 40.0
    T = 0.45+c["contrast"]*r.normal(size=(c["grains"], h, w)); row, col = np.divmod(np.arange(n), c["grid"][1]); g = ((col*0.7+row*0.4+r.random()).astype(int)//2) % c["grains"]
    P = T[g]+c["noise"]*r.normal(size=(n, h, w))*r.uniform(0.5, 1.5, (n, 1, 1)); P = np.clip(P, 0.02, 0.9)*mx
    for i in range(1, n):
        if r.random() < c["dup"]: P[i] = P[i-1]
    for i in range(n):
        for _ in range(c["sat"]): P[i, r.integers(h), r.integers(w)] = mx if r.random() < 0.6 else 0.992*mx
    P[:, 0, 0] = mx
    return (np.round(P) if dt.kind == "u" else P).astype(dt)


def mask_of(c, o):
    h, w = c["hw"]
    if o["mask"] == "user": return np.random.default_rng(c["seed"]+5).random((h, w)) < 0.7
    if not o["automask"]: return np.ones((h, w), bool)
    y, x = np.mgrid[:h, :w]; dy = np.abs(y-h//2); dx = np.abs(x-w//2); return np.hypot(np.minimum(dy, h-dy), np.minimum(dx, w-dx)) < 0.98*0.5*min(h, w)


def noise(P, grid, M, sat, nn=1):
    nr, nc = grid; X = P.reshape(len(P), -1).astype(float)[:, M.ravel()]; ok = X < 0.9961*P.max() if sat else np.ones(X.shape, bool); out = np.full(grid, 1e12)
    for k in range(nr*nc):
        j, i = divmod(k, nc); best = 1e24
        for b in range(max(0, j-nn), min(nr, j+nn+1)):
            for a in range(max(0, i-nn), min(nc, i+nn+1)):
                q = b*nc+a; u = ok[k] & ok[q]; d = np.sum((X[k, u]-X[q, u])**2)
                if q != k and d >= 1e-3: best = min(best, d/(2*u.sum()))
        out[j, i] = np.sqrt(best)
    return out


def average(P, grid, M, S, o):
    nr, nc = grid; A = P.reshape(len(P), -1).astype(float); X = A[:, M.ravel()]; ok = X < 0.999*P.max() if o["sat"] else np.ones(X.shape, bool); out = np.zeros(A.shape); sr = o["sr"]; S2 = S.ravel().astype(float)**2; mixed = 0
    win = lambda p, n: range(max(0, min(p-sr, n-2*sr-1)), min(n, max(p+sr+1, 2*sr+1)))
    for k in range(nr*nc):
        j, i = divmod(k, nc); q = np.array([b*nc+a for b in win(j, nr) for a in win(i, nc)]); u = ok[k]&ok[q]; n2 = u.sum(1); d = np.sum(((X[k]-X[q])**2)*u, 1); ss = S2[k]+S2[q]
        D = (d-n2*ss)/(ss*np.sqrt(2*n2)); w = np.exp(-np.maximum(D-o["dthresh"], 0)/o["lam"]**2); w[q == k] = 1+o["off"]; mixed += int(np.sum((w > 0.02) & (w < 0.98)))
        out[k] = w@A[q]/w.sum()
    return out.reshape(P.shape), mixed


def make(path, c, o):
    from pyebsdindex.nlpar_cpu import NLPAR
    kw = {} if fmt.has_grid(c["s"]) else {"nrows": c["grid"][0], "ncols": c["grid"][1]}
    if o["via"] == "object": kw.update(lam=o["lam"], searchradius=o["sr"], dthresh=o["dthresh"], diff_offset=o["off"])
    return NLPAR(None if o["via"] == "filename" else path, **kw)


def run(nl, path, o, out, **more):
    kw = dict(more) if o["via"] == "object" else dict(lam=o["lam"], searchradius=o["sr"], dthresh=o["dthresh"], diff_offset=o["off"], **more)
    if o["via"] == "filename": kw["filename"] = path
    if o["via"] == "object" and o["off"]: kw["diff_offset"] = o["off"]
    with contextlib.redirect_stdout(io.StringIO()): return nl.calcnlpar(chunksize=o["chunk"], saturation_protect=o["sat"], automask=o["automask"], fileout=out, verbose=o["chunk"] % 3, **kw)


def compare(got, want, P, what, spread=None):
    require(got.shape == want.shape and got.dtype == P.dtype, "%s: the output holds %s %s patterns, the input %s %s", what, got.shape, got.dtype, P.shape, P.dtype)
    sp = float(P.max())*0.5 if spread is None else spread; tol = 1e-3*sp+(1.0 if P.dtype.kind == "u" else 0); e = np.abs(got.astype(float)-want); k = int(np.argmax(e.reshape(len(e), -1).max(1)))
    require(e.max() <= tol, "%s: pattern %d of the output is off by %.4g (allowed %.4g) from the weighted average", what, k, e.max(), tol)
    if P.dtype.kind == "f": lo, hi = P.min(0)-tol*0.01, P.max(0)+tol*0.01; require(np.all(got >= lo) and np.all(got <= hi), "%s: output outside of the range of the input patterns", what)


@st.composite
def case(draw): return {**draw(scan()), "o": draw(options())}


@reg.facet("average", case, quick=420, thorough=12000, budget=110, rule="files against the direct evaluation. Non-trivial: more than one scan point and a weight between 0.02 and 0.98")
def f_average(c, rec):
    d = tempfile.mkdtemp()
    try:
        s, o = c["s"], c["o"]; P = patterns(c); M = mask_of(c, o); path = os.path.join(d, "scan"+fmt.EXT[s["fmt"]]); fmt.write(path, s, P, c["grid"], c["step"]); raw = open(path, "rb").read(); _, _, rest = fmt.parse(path, s)
        nl = make(path, c, o); S = noise(P, c["grid"], M, o["sat"]); more = {}
        if o["mask"] == "user": nl.mask = M.astype(np.uint8)
        sg = o["sigma"] if not (o["via"] == "filename" and o["sigma"] == "calcsigma") else ""
        if sg == "array": S = S*np.random.default_rng(c["seed"]+9).uniform(0.6, 1.6, S.shape); S[S > 1e9] = 0.1*P.max(); nl.sigma = S.astype(np.float32)
        elif sg == "scalar": v = 0.05*float(P.max()); S = np.full(c["grid"], v); nl.sigma = v
        elif sg == "misfit" and o["via"] != "filename": nr, nc = c["grid"]; nl.sigma = np.full([[nc, nr], [nr, nc+1], [nr+1, nc]][c["seed"] % 3 if nr != nc else 1+c["seed"] % 2], 0.3*float(P.max()), np.float32)  # a noise map of another scan
        elif sg == "reset": nl.sigma = np.full(c["grid"], 3.0, np.float32); more["reset_sigma"] = True
        elif sg == "calcsigma":
            with contextlib.redirect_stdout(io.StringIO()): nl.sigma = nl.calcsigma(chunksize=o["chunk"], saturation_protect=o["sat"], automask=o["automask"])
        out = None if o["out"] == "default" else os.path.join(d, "other"+fmt.EXT[s["fmt"]])
        ret = run(nl, path, o, out, **more); exp = out or os.path.join(d, "scan_NLPAR_l%1.2fsr%d%s" % (o["lam"], o["sr"], fmt.EXT[s["fmt"]]))
        require(os.path.exists(exp), "no output file %s", os.path.basename(exp)); require(os.path.realpath(str(ret)) == os.path.realpath(exp), "calcnlpar returned %s", ret)
        require(open(path, "rb").read() == raw, "the input file was changed")
        got, _, rest2 = fmt.parse(exp, s); require(rest2 == rest, "header or locations of the output differ from the input")
        require(os.path.getsize(exp) == len(raw) or s["fmt"] in fmt.H5, "the output file has %d bytes, the input %d", os.path.getsize(exp), len(raw))
        want, mixed = average(P, c["grid"], M, S, o); compare(got, want, P, "window %d, chunk %d, scan %s" % (o["sr"], o["chunk"], c["grid"]))
        if o.get("again"):      # the noise estimate is kept by the object
            o2 = {**o, "lam": o["lam"]*1.6, "via": "args"}; exp = os.path.join(d, "again"+fmt.EXT[s["fmt"]]); run(nl, path, o2, exp); got, _, _ = fmt.parse(exp, s); want, _ = average(P, c["grid"], M, S, o2); compare(got, want, P, "second run of the object, window %d, chunk %d, scan %s" % (o["sr"], o["chunk"], c["grid"])); rec.label("again")
        rec.nontrivial(mixed > 0 and len(P) > 1); rec.label("sr%d" % o["sr"], s["fmt"], "sigma:"+(sg or "auto"), "small" if min(c["grid"]) < 2*o["sr"]+1 else "large")
    finally: shutil.rmtree(d)


@st.composite
def nz(draw): return {**draw(scan(("KIKUCHIPY", "UP2", "TFPAT"))), "o": {**draw(options()), "via": "args", "nn": draw(st.sampled_from([1, 1, 2]))}}


@reg.facet("noise", nz, quick=250, thorough=8000, budget=40, rule="noise estimate against its definition for every chunk size. Non-trivial: two or more chunks")
def f_noise(c, rec):
    d = tempfile.mkdtemp()
    try:
        s, o = c["s"], c["o"]; P = patterns(c); M = mask_of(c, o); path = os.path.join(d, "scan"+fmt.EXT[s["fmt"]]); fmt.write(path, s, P, c["grid"], c["step"]); raw = open(path, "rb").read(); nl = make(path, c, o)
        if o["mask"] == "user": nl.mask = M.astype(np.uint8)
        with contextlib.redirect_stdout(io.StringIO()): got = np.asarray(nl.calcsigma(chunksize=o["chunk"], nn=o["nn"], saturation_protect=o["sat"], automask=o["automask"]))
        want = noise(P, c["grid"], M, o["sat"], o["nn"]); require(got.shape == want.shape, "calcsigma returned shape %s for a scan of %s", got.shape, c["grid"])
        e = np.abs(got-want)/np.maximum(want, 1e-6); require(e.max() < 1e-3, "calcsigma is off by a factor %.4g at %s (chunk %d, scan %s)", 1+e.max(), np.unravel_index(e.argmax(), e.shape), o["chunk"], c["grid"])
        require(open(path, "rb").read() == raw, "the input file was changed"); rec.nontrivial(0 < o["chunk"] < c["grid"][0])
    finally: shutil.rmtree(d)


@st.composite
def two(draw): a = draw(scan(("KIKUCHIPY", "UP2", "UP1", "OH5"))); b = draw(scan((a["s"]["fmt"],))); b["s"] = a["s"]; return {"a": a, "b": b, "same": draw(st.booleans()), "o": {**draw(options()), "via": draw(st.sampled_from(["filename", "setfile"])), "mask": "", "sigma": "", "out": "name"}, "reset": draw(st.booleans())}


@reg.facet("reuse", two, quick=120, thorough=4000, budget=40, rule="one NLPAR object given two files one after the other and the first one again. Non-trivial: the files differ in scan or pattern size")
def f_reuse(c, rec):
    from pyebsdindex.nlpar_cpu import NLPAR
    d = tempfile.mkdtemp()
    try:
        a, b, o = dict(c["a"]), dict(c["b"]), c["o"]; a["s"] = {**a["s"], **({"version": 3} if a["s"]["fmt"][:2] == "UP" else {})}; b["s"] = a["s"]
        if c["same"]: b["grid"], b["hw"] = a["grid"], a["hw"]
        nl = NLPAR(); files = []
        for k, x in enumerate((a, b)):
            p = os.path.join(d, "f%d%s" % (k, fmt.EXT[x["s"]["fmt"]])); P = patterns(x, k); fmt.write(p, x["s"], P, x["grid"], x["step"]); files.append((p, P, x))
        for k in (0, 1, 0):
            p, P, x = files[k]; out = os.path.join(d, "o%d%s" % (k, fmt.EXT[x["s"]["fmt"]]))
            if o["via"] == "setfile": nl.setfile(p)
            run(nl, p, {**o, "via": "filename" if o["via"] == "filename" else "args"}, out, reset_sigma=c["reset"])
            got, _, _ = fmt.parse(out, x["s"]); M = mask_of(x, o); want, mixed = average(P, x["grid"], M, noise(P, x["grid"], M, o["sat"]), o); compare(got, want, P, "file %d" % k)
        rec.nontrivial(a["grid"] != b["grid"] or a["hw"] != b["hw"])
    finally: shutil.rmtree(d)


@st.composite
def resc(draw): return {**draw(scan(("UP1", "UP2", "EBSP", "KIKUCHIPY", "BRUKER"))), "o": {**draw(options()), "sigma": "", "out": "name", "mask": ""}}


@reg.facet("rescale", resc, quick=80, thorough=3000, budget=30, rule="rescale=True spreads each averaged pattern over the range of the integer type, and leaves float files as they are; writing onto the input is refused. Non-trivial: integer files")
def f_rescale(c, rec):
    d = tempfile.mkdtemp()
    try:
        s, o = c["s"], c["o"]; P = patterns(c); M = mask_of(c, o); path = os.path.join(d, "scan"+fmt.EXT[s["fmt"]]); fmt.write(path, s, P, c["grid"], c["step"]); raw = open(path, "rb").read(); nl = make(path, c, o); out = os.path.join(d, "out"+fmt.EXT[s["fmt"]])
        if s["fmt"] not in fmt.H5:
            try: run(nl, path, o, path); require(False, "writing onto the input file was accepted")
            except ValueError: pass
            require(open(path, "rb").read() == raw, "the refused call changed the input file")
        run(nl, path, o, out, rescale=True); got, _, _ = fmt.parse(out, s); want, _ = average(P, c["grid"], M, noise(P, c["grid"], M, o["sat"]), o)
        if P.dtype.kind == "u":
            mx = np.iinfo(P.dtype).max; lo = want.min((1, 2), keepdims=True); want = (want-lo)*mx/(want.max((1, 2), keepdims=True)-lo)
        compare(got, want, P, "rescaled", float(P.max())*2); rec.nontrivial(P.dtype.kind == "u")
    finally: shutil.rmtree(d)


@st.composite
def lamb(draw): return {**draw(scan(("KIKUCHIPY", "UP2"), [[3, 4], [7, 6], [9, 5]])), "o": {**draw(options()), "via": "args", "mask": draw(st.sampled_from(["", "user"])), "sigma": "", "out": "name", "dthresh": 0.0}, "auto": draw(st.booleans())}


@reg.facet("lambda", lamb, quick=12, thorough=120, budget=60, group="lambda", shrink=1, rule="opt_lambda: range and order of the values, and the average calculated with them. Non-trivial: all")
def f_lambda(c, rec):
    d = tempfile.mkdtemp()
    try:
        s, o = c["s"], c["o"]; s = c["s"] = {**s, **({"version": 3} if s["fmt"][:2] == "UP" else {})}; P = patterns(c); o = {**o, "sat": True, "automask": True}; M = mask_of(c, o); path = os.path.join(d, "scan"+fmt.EXT[s["fmt"]]); fmt.write(path, s, P, c["grid"], c["step"]); nl = make(path, c, o); nl.mask = M.astype(np.uint8) if o["mask"] == "user" else None; S = noise(P, c["grid"], M, True); out = os.path.join(d, "out"+fmt.EXT[s["fmt"]])
        with contextlib.redirect_stdout(io.StringIO()):
            if c["auto"]: ret = nl.auto_nlpar(filename=None if o["mask"] == "user" else path, fileout=out, searchradius=o["sr"], lindex=2, chunksize=o["chunk"]); lam = float(nl.lam)
            else:
                L = np.asarray(nl.opt_lambda(chunksize=o["chunk"])); require(L.shape == (3,) and np.all(L > 0) and np.all(L <= 10.001), "opt_lambda returned %s", L); require(L[0] <= L[1]+1e-2 and L[1] <= L[2]+1e-2, "a smaller target weight needs a larger lambda, got %s", L)
                require(abs(float(nl.lam)-np.median(L)) < 1e-6, "lam was set to %s, the median of %s is wanted", nl.lam, L); require(np.allclose(nl.sigma, S, rtol=1e-3), "the noise estimated by opt_lambda is off"); lam = float(nl.lam)
                nl.calcnlpar(chunksize=o["chunk"], searchradius=o["sr"], fileout=out)
        got, _, _ = fmt.parse(out, s); want, mixed = average(P, c["grid"], M, S, {**o, "lam": lam, "off": 0.0})
        if lam > 0.1: compare(got, want, P, "after opt_lambda (lambda %.4g)" % lam); rec.nontrivial(mixed > 0)  # weights of a smaller lambda depend on the roundoff of the differences
    finally: shutil.rmtree(d)


def missed(P, grid, S, tw, lam, edge):
    """mean distance of the weight of a pattern in its own 3x3 average from the target; edge: the places beyond the border of the scan count like the pattern itself"""
    nr, nc = grid; X = P.reshape(len(P), -1).astype(float); S2 = S.ravel().astype(float)**2; m = X.shape[1]; out = 0.0
    for k in range(nr*nc):
        j, i = divmod(k, nc); q = np.array([b*nc+a for b in range(max(0, j-1), min(nr, j+2)) for a in range(max(0, i-1), min(nc, i+2)) if b*nc+a != k]); ss = S2[k]+S2[q]
        D = (np.sum((X[k]-X[q])**2, 1)-m*ss)/(ss*np.sqrt(2*m)); out = out+np.abs(tw-1/(1+np.exp(-np.maximum(D, 0)[:, None]/np.atleast_1d(lam)**2).sum(0)+(8-len(q) if edge else 0)))
    return out/(nr*nc)


@reg.facet("lambda_target", lambda: st.fixed_dictionaries({"seed": gen.seeds, "grid": st.sampled_from([[7, 6], [9, 5], [12, 9], [5, 8]]), "tw": st.sampled_from([[0.5, 0.34, 0.25], [0.6, 0.4, 0.3], [0.45]])}), quick=4, thorough=80, budget=40, group="lambda", shrink=1,
           rule="opt_lambda on one uniform noisy grain: the values are those for which the patterns weigh, on the average, closest to the targets in their own averages. Non-trivial: all")
def f_target(c, rec):
    d = tempfile.mkdtemp(); r = np.random.default_rng(c["seed"]); n = c["grid"][0]*c["grid"][1]
    try:
        s = {"fmt": "KIKUCHIPY", "dt": "f4", "group": "Scan 1", "missing": [], "raw": False, "second": False, "ver": "0.3.dev0", "x0": 0.0, "y0": 0.0}; o = {"lam": 0.7, "sr": 1, "dthresh": 0.0, "off": 0.0, "mask": "", "sigma": "", "via": "args", "automask": False, "chunk": 0}
        P = (20+r.normal(size=(1, 8, 8))*3+r.normal(size=(n, 8, 8))*r.uniform(0.5, 1.5, (n, 1, 1))).astype("f4"); path = os.path.join(d, "scan.h5"); fmt.write(path, s, P, c["grid"], [1.0, 1.0]); nl = make(path, {"s": s, "grid": c["grid"], "hw": [8, 8], "seed": 0}, o)
        with contextlib.redirect_stdout(io.StringIO()): L = np.asarray(nl.opt_lambda(chunksize=0, saturation_protect=False, automask=False, target_weights=c["tw"]), float)
        require(L.shape == (len(c["tw"]),), "opt_lambda returned %s for the targets %s", L, c["tw"]); S = noise(P, c["grid"], np.ones((8, 8), bool), False); G = np.geomspace(0.2, 10, 120)
        for tw, l in zip(c["tw"], L):
            x = [(missed(P, c["grid"], S, tw, l, e)[0], missed(P, c["grid"], S, tw, G, e).min()) for e in (True, False)]
            require(any(a <= 1.05*b+0.003 for a, b in x), "for the target %s opt_lambda found %.4g, which misses it by %.4f, %.4f is possible", tw, l, *x[1])
        rec.nontrivial()
    finally: shutil.rmtree(d)


@st.composite
def bs(draw):
    c = draw(scan(("KIKUCHIPY",), [[1, 4], [3, 4], [6, 5], [2, 8]])); c["s"]["dt"] = "f4"; c["hw"] = draw(st.sampled_from([[24, 24], [24, 30], [32, 26]]))
    return {**c, "o": {**draw(options((1, 1, 2))), "sat": False, "automask": True, "mask": "", "sigma": "", "out": "name"}, "amp": draw(gen.floats(15, 60)), "cx": draw(gen.floats(-0.12, 0.12)), "cy": draw(gen.floats(-0.12, 0.12)), "sx": draw(gen.floats(0.28, 0.45)), "sy": draw(gen.floats(0.28, 0.45)), "gx": draw(gen.floats(-15, 15)), "gy": draw(gen.floats(-15, 15))}


def backsubbed(c):
    """Result of a run without minus a run with background subtraction: (surface taken per pattern, true surface, mask of the pixels judged)."""
    d = tempfile.mkdtemp()
    try:
        s, o = c["s"], c["o"]; h, w = c["hw"]; n = c["grid"][0]*c["grid"][1]; y, x = np.mgrid[:h, :w].astype(float); r = np.random.default_rng(c["seed"])
        G = c["amp"]*np.exp(-0.5*((x-w*(0.5+c["cx"]))/(c["sx"]*w))**2-0.5*((y-h*(0.5+c["cy"]))/(c["sy"]*h))**2)+c["gx"]*(x/w-0.5)+c["gy"]*(y/h-0.5); N = r.normal(size=(n, h, w))*c["noise"]*20
        P = (100+G+N-N.mean(0)+c.get("corner", 0)*~mask_of(c, o)*r.random((h, w))).astype("f4"); path = os.path.join(d, "scan"+fmt.EXT[s["fmt"]]); fmt.write(path, s, P, c["grid"], c["step"]); outs = []
        for b in (False, True):
            nl = make(path, c, o); out = os.path.join(d, "o%d%s" % (b, fmt.EXT[s["fmt"]])); run(nl, path, o, out, backsub=b); outs.append(fmt.parse(out, s)[0].astype(float))
        return (outs[0]-outs[1]).reshape(*c["grid"], h, w), G-G.mean(), np.hypot(x-w/2, y-h/2) < 0.45*min(h, w)
    finally: shutil.rmtree(d)


@reg.facet("backsub", bs, quick=60, thorough=2000, budget=30, group="lambda", rule="backsub=True takes one smooth surface (mean zero) from all patterns read together, near the mean of these patterns. Non-trivial: two or more chunks")
def f_backsub(c, rec):
    D, G, cm = backsubbed(c); o = c["o"]; step = o["chunk"] if 0 < o["chunk"] < c["grid"][0] else c["grid"][0]; tol = 2e-3*c["amp"]+2e-3
    require(np.abs(D.mean((-2, -1))).max() < tol, "the subtracted background has the mean %.3g", np.abs(D.mean((-2, -1))).max())
    for j in range(0, c["grid"][0], step): e = np.abs(D[j:j+step]-D[j, 0]).max(); require(e < 10*tol, "patterns of the rows %d to %d get backgrounds that differ by %.3g", j, j+step-1, e)
    if step == c["grid"][0]: e = np.ptp((D[0, 0]-G)[cm]); require(e < c["amp"], "the background is off by %.3g from the mean of the patterns", e)
    rec.nontrivial(step < c["grid"][0])


@reg.facet("backsub_recovery", lambda: st.fixed_dictionaries({"seed": gen.seeds}), quick=4, thorough=80, budget=30, group="lambda", rule="of eight random scans six or more get the surface their patterns share (in the mask) taken off, to 5 % (a least squares fit may now and then end beside it). Non-trivial: always")
def f_recovery(c, rec):
    r = np.random.default_rng(c["seed"]); good = 0
    for _ in range(8):
        p = {"s": {"dt": "f4", "fmt": "KIKUCHIPY", "group": "Scan 1", "missing": [], "raw": False, "second": False, "ver": "0.3.dev0", "x0": 0.0, "y0": 0.0}, "grid": [[1, 4], [3, 4], [6, 5]][r.integers(3)], "step": [1.0, 1.0], "hw": [[24, 24], [24, 30], [32, 26]][r.integers(3)], "seed": int(r.integers(2**32)), "noise": 0.05, "corner": float(r.choice([0, 60, -60])),
             "o": {"automask": True, "chunk": 0, "dthresh": 0.0, "lam": 0.7, "mask": "", "off": 0.0, "out": "name", "sat": False, "sigma": "", "sr": 1, "via": "args"}, "amp": r.uniform(15, 60)}
        p.update({k: r.uniform(-0.12, 0.12) for k in ("cx", "cy")}, **{k: r.uniform(0.28, 0.45) for k in ("sx", "sy")}, **{k: r.uniform(-15, 15) for k in ("gx", "gy")})
        D, G, cm = backsubbed(p); good += np.ptp((D[0, 0]-G)[cm]) < 0.05*p["amp"]
    require(good >= 6, "only %d of 8 backgrounds are the surface the patterns share", good); rec.nontrivial()


@reg.facet("own_name", lambda: st.tuples(scan(grids=[[3, 4], [2, 2]]), options()).flatmap(lambda t: st.fixed_dictionaries({"c": st.just(t[0]), "o": st.just(t[1]), "how": st.sampled_from(["same", "symlink", "hardlink", "dots", "dirlink", "exists"])})),
           quick=80, thorough=2000, budget=20, group="own", rule="the output named as the input, directly or through links: an error, and the input is left untouched; an unrelated older file of the output's name is replaced. Non-trivial: every case")
def f_own(c, rec):
    d = tempfile.mkdtemp(); k, o, how = c["c"], dict(c["o"], via="args"), c["how"]
    try:
        s = k["s"]; x = fmt.EXT[s["fmt"]]; P = patterns(k); os.mkdir(os.path.join(d, "a")); path = os.path.join(d, "a", "scan"+x); fmt.write(path, s, P, k["grid"], k["step"]); raw = open(path, "rb").read(); out = path
        if how == "symlink": out = os.path.join(d, "link"+x); os.symlink(path, out)
        elif how == "hardlink": out = os.path.join(d, "link"+x); os.link(path, out)
        elif how == "dots": out = os.path.join(d, "a", "..", "a", ".", "scan"+x)
        elif how == "dirlink": os.symlink(os.path.join(d, "a"), os.path.join(d, "b")); out = os.path.join(d, "b", "scan"+x)
        elif how == "exists": out = os.path.join(d, "older"+x); open(out, "wb").write(os.urandom(3*len(raw)))
        nl = make(path, k, o)
        try: run(nl, path, o, out); err = None
        except Exception as e: err = e
        require(open(path, "rb").read() == raw, "the input file was changed by an output that is the same file (%s)", how)
        if how == "exists":
            if err is not None: raise err
            got, _, _ = fmt.parse(out, s); compare(got, average(P, k["grid"], mask_of(k, dict(o, mask="")), noise(P, k["grid"], mask_of(k, dict(o, mask="")), o["sat"]), o)[0], P, "output over an older file")
        else: require(err is not None, "no error for an output that is the input file (%s)", how)
        rec.nontrivial(); rec.label(how, s["fmt"])
    finally: shutil.rmtree(d)


@reg.facet("many", lambda: st.fixed_dictionaries({"seed": gen.seeds, "grid": st.sampled_from([[258, 256], [130, 512], [66, 1030], [1030, 65], [300, 257], [2, 33000]]), "sr": st.sampled_from([1, 1, 2]), "chunk": st.sampled_from([0, 0, 0, 64, 400]), "lam": st.sampled_from([0.7, 1.2]), "fmt": st.sampled_from(["KIKUCHIPY", "UP2"])}), quick=5, thorough=150, budget=60, group="lambda", shrink=1,
           rule="scans of more than 65536 tiny patterns against the direct evaluation. Non-trivial: more than 65536 patterns read together")
def f_many(c, rec):
    d = tempfile.mkdtemp()
    try:
        r = np.random.default_rng(c["seed"]); nr, nc = c["grid"]; n = nr*nc; y, x = np.divmod(np.arange(n), nc); s = {"fmt": c["fmt"], "dt": "f4", "ver": "0.8.1", "version": 3}
        P = np.array([0.3, 0.5, 0.8, 0.35])[(x//3+2*(y//5)) % 4][:, None, None]*r.uniform(0.6, 1, (1, 4, 4))+r.uniform(0.03, 0.12, (n, 1, 1))*r.normal(size=(n, 4, 4)); P = (P.clip(0.01, 5)*10000).astype(fmt.dtype(s)); S = r.uniform(200, 900, (nr, nc)).astype(np.float32)
        path = os.path.join(d, "scan"+fmt.EXT[s["fmt"]]); out = path[:-len(fmt.EXT[s["fmt"]])]+"_out"+fmt.EXT[s["fmt"]]; fmt.write(path, s, P, c["grid"], [1.0, 1.0]); sr = c["sr"]
        o = {"lam": c["lam"], "sr": sr, "dthresh": 0.0, "off": 0.0, "sat": False, "automask": False, "chunk": c["chunk"], "via": "args"}; nl = make(path, {**c, "s": s}, o); nl.sigma = S; run(nl, path, o, out); got = fmt.parse(out, s)[0]
        win = lambda p, m: np.clip(p-sr, 0, max(m-2*sr-1, 0))[:, None]+np.arange(min(2*sr+1, m))
        A = P.reshape(n, -1).astype(float); Q = (win(y, nr)[:, :, None]*nc+win(x, nc)[:, None, :]).reshape(n, -1); S2 = S.ravel().astype(float)**2; num = np.zeros(A.shape); den = np.zeros(n); k = np.arange(n)
        for q in Q.T: ss = S2+S2[q]; D = (((A-A[q])**2).sum(1)-16*ss)/(ss*np.sqrt(32)); wt = np.exp(-np.maximum(D, 0)/c["lam"]**2); wt[q == k] = 1; num += wt[:, None]*A[q]; den += wt
        compare(got, (num/den[:, None]).reshape(P.shape), P, "scan %s, window %d, chunk %d" % (c["grid"], sr, c["chunk"])); rec.nontrivial(c["chunk"]*nc > 65536 or c["chunk"] == 0); rec.label(c["fmt"])
    finally: shutil.rmtree(d)
