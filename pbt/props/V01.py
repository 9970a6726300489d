"""V01: orientation colour maps, scalar maps and the scale bar."""
import types, warnings
import numpy as np
from hypothesis import strategies as st
from ..core import Registry, require
from ..ref import rot as R, xtal as X
from .. import gen
from . import O01

reg = Registry()
RULE = ("Crystal directions (random, on mirror planes, at triangle corners) and all symmetry operators; maps of generated results with one to three phases, unindexed points, any shape and sample vector; scalar maps of every field; "
        "scale bars on images of any size and step. Non-trivial: a direction off the symmetry elements / a map of at least two rows and columns with differing values.")
ASSUMPTIONS = ["colour keys exist for the Laue groups m-3m and 6/mmm, other phases are white",
               "the keys are polar about the triangle's center, where the hue turns around a faint colour: closeness of colours is required off the center (saturation above 0.35), near it only that both are faint",
               "the corners [001], [011], [111] and [0001], [2-1-10], [10-10] are predominantly red, green and blue",
               "pixels of a map that lie beyond the last scan point are black"]
GROUP = {43: X.GROUPS[43], 62: X.GROUPS[62]}


def key(l):
    from pyebsdindex.EBSDImage import IPFcolor
    return {43: IPFcolor.ipf_color_cubic, 62: IPFcolor.ipf_color_hex}[l], {43: IPFcolor.qu2ipf_cubic, 62: IPFcolor.qu2ipf_hex}[l]


def symangle(a, b, l):
    d = np.array([M @ a for M in GROUP[l]]); return float(np.arccos(np.clip(np.abs(d @ b).max(), 0, 1)))


@st.composite
def direction(draw):
    k = draw(st.sampled_from(["r", "r", "r", "plane", "int", "axis", "equator"]))
    if k == "r": return draw(gen.unit3())
    if k == "int":
        v = draw(st.lists(st.integers(-4, 4), min_size=3, max_size=3).filter(any)); return [float(x) for x in v]
    if k == "axis": return draw(st.sampled_from([[0.0, 0, 1], [0.0, 0, -1], [1.0, 0, 0], [0.0, -1, 0], [1.0, 1, 0], [1.0, -1, 1], [3**.5/2, 0.5, 0], [-0.5, 3**.5/2, 0]]))
    a = draw(st.integers(-12, 12))*np.pi/12+draw(st.sampled_from([0, 0, 1e-9, -1e-9, 1e-4])); z = 0.0 if k == "equator" else draw(gen.floats(-2, 2))
    return [float(np.cos(a)), float(np.sin(a)), z]


@st.composite
def keycase(draw):
    return {"laue": draw(st.sampled_from([43, 62])), "d": [draw(direction()) for _ in range(draw(st.integers(1, 5)))], "n": [draw(gen.unit3()) for _ in range(2)], "eps": draw(st.sampled_from([1e-3, 1e-4, 1e-6])), "scale": draw(st.sampled_from([1.0, 2.0, 0.1, 37.5])), "dt": draw(st.sampled_from(["float64", "float64", "float32"]))}


@reg.facet("colour_key", keycase, quick=2500, thorough=100000, budget=60, group="key", rule=RULE)
def f_key(c, rec):
    l = c["laue"]; f, _ = key(l); D = np.array(c["d"]); D = D/np.linalg.norm(D, axis=1)[:, None]; what = "m-3m" if l == 43 else "6/mmm"; tol = 1e-6 if c["dt"] == "float64" else 3e-3
    arg = (D*c["scale"]).astype(c["dt"]); keep = arg.copy(); col = np.asarray(f(arg)); require(np.array_equal(arg, keep), "%s: input changed", what)
    require(col.shape == (len(D), 3) and np.isfinite(col).all() and col.min() >= -1e-6 and col.max() <= 1+1e-6, "%s: colours of %s: %s", what, D.tolist(), col)

    def near(a, b, d, t, why):
        if np.abs(a-b).max() <= t: return
        if min(a.min(), b.min()) > 0.65: return      # at the center of the triangle
        require(False, "%s: %s: %s and %s for direction %s", what, why, a, b, d)
    big = max(tol, 1e-5)
    for i, d in enumerate(D):
        one = np.asarray(f(D[i])).reshape(-1, 3); require(len(one) == 1, "%s: colours of one direction have shape %s", what, one.shape); near(one[0], col[i], d, tol, "alone, and among others at %g times the length" % c["scale"])
        eq = np.array([s*(M @ d) for M in GROUP[l] for s in (1, -1)]); ce = np.asarray(f(eq))
        for e, x in zip(eq, ce): near(x, one[0], d, 1e-5, "equivalent direction %s" % e.tolist())
        # nearby directions
        for n in c["n"]:
            e = d+c["eps"]*np.array(n); e /= np.linalg.norm(e); x = np.asarray(f(e[None]))[0]; near(x, one[0], d, 30*c["eps"]+1e-5, "direction %s at %g rad" % (e.tolist(), c["eps"]))
    # different directions have different colours
    for i in range(len(D)):
        for j in range(i):
            a = symangle(D[i], D[j], l)
            if a > 0.1: require(np.abs(col[i]-col[j]).max() > 0.02, "%s: directions %s and %s, %.2f rad apart, have colours %s and %s", what, D[i].tolist(), D[j].tolist(), a, col[i], col[j])
    for d, b in zip({43: [[0, 0, 1], [0, 1, 1], [1, 1, 1]], 62: [[0, 0, 1], [1, 0, 0], [3**.5/2, 0.5, 0]]}[l], range(3)):
        x = np.asarray(f(np.array([d], float)))[0]; require(x[b] > 0.99 and np.delete(x, b).max() < 0.85, "%s: corner %s has colour %s", what, d, x)
    rec.nontrivial(any(min(symangle(d, np.array(p), l) for p in ([0, 0, 1.0], [1.0, 0, 0])) > 0.01 for d in D)); rec.label(what, c["dt"], "n=%d" % len(D))


@reg.facet("legend", lambda: st.fixed_dictionaries({"laue": st.sampled_from([43, 62]), "size": st.integers(40, 700)}), quick=30, thorough=400, budget=40, group="legend",
           rule="the picture of the colour key shows, at every point of the stereographic triangle, the colour of that direction, and nothing elsewhere. Non-trivial: always")
def f_legend(c, rec):
    import os, shutil, tempfile, matplotlib; matplotlib.use("Agg")
    from matplotlib.axes import Axes
    from pyebsdindex.EBSDImage import IPFcolor
    seen = []; orig = Axes.imshow; cwd = os.getcwd(); d = tempfile.mkdtemp()
    def imshow(self, X, *a, **k): seen.append((np.array(X), k)); return orig(self, X, *a, **k)
    try:
        os.chdir(d); Axes.imshow = imshow; {43: IPFcolor.ipf_ledgend_cubic, 62: IPFcolor.ipf_ledgend_hex}[c["laue"]](size=c["size"])
    finally: Axes.imshow = orig; os.chdir(cwd); files = os.listdir(d); shutil.rmtree(d)
    require(len(files) == 1 and len(seen) == 1, "files %s, %d images", files, len(seen)); A, k = seen[0]; require(A.ndim == 3 and A.shape[2] == 4 and A.shape[1] == c["size"] and k.get("origin") == "lower", "legend of shape %s (origin %s) for size %d", A.shape, k.get("origin"), c["size"])
    s = (2*(2**.5-1) if c["laue"] == 43 else 2.0)/c["size"]; y, x = np.mgrid[:A.shape[0], :A.shape[1]]*s; rr = x**2+y**2; v = np.stack([4*x, 4*y, 4-rr], -1)/(4+rr)[..., None]      # stereographic, radius 2
    if c["laue"] == 43: m = np.minimum.reduce([v[..., 0]-v[..., 1], v[..., 2]-v[..., 0]])
    else: m = np.minimum.reduce([v[..., 0]*0.5-v[..., 1]*3**.5/2, v[..., 2]])
    inside, outside = m > 0.02, m < -0.02; require((A[inside, 3] == 1).all(), "part of the triangle is missing"); require((A[outside, 3] == 0).all(), "colour outside of the triangle")
    w = np.argwhere(inside); w = w[np.random.default_rng(c["size"]).permutation(len(w))[:300]]; e = np.abs(A[w[:, 0], w[:, 1], :3]-np.asarray(key(c["laue"])[0](v[w[:, 0], w[:, 1]]))).max(); require(e < 1e-4, "a colour of the legend is off by %.3g from that of its direction", e)
    rec.nontrivial(); rec.label("%d" % c["laue"])


@st.composite
def oricase(draw):
    return {"laue": draw(st.sampled_from([43, 62])), "q": [draw(gen.quat()) for _ in range(draw(st.integers(1, 4)))], "v": draw(st.one_of(st.sampled_from([[0, 0, 1], [1, 0, 0], [0, 1, 0], [0, 1, 1], [-1, 2, 0]]), direction())), "vform": draw(st.sampled_from(["array", "list", "int", "float32"])), "w": draw(gen.floats(-3, 3)), "neg": draw(st.booleans()), "default": draw(st.booleans()), "dt": draw(st.sampled_from(["float64", "float32"]))}


@reg.facet("orientation_colours", oricase, quick=1500, thorough=40000, budget=60, group="key", rule=RULE)
def f_ori(c, rec):
    l = c["laue"]; f, g = key(l); Q = np.array(c["q"]); v = np.array(c["v"], float)
    if c["default"]: v = np.array([0, 0, 1.0])
    if c["vform"] == "int" and (v == np.rint(v)).all(): va = v.astype(int)
    else: va = {"list": v.tolist(), "float32": v.astype(np.float32)}.get(c["vform"], v)
    u = v/np.linalg.norm(v); kw = {} if c["default"] else {"vector": va}; what = "m-3m" if l == 43 else "6/mmm"
    col = np.asarray(g(Q.astype(c["dt"]), **kw)); require(col.reshape(-1, 3).shape == (len(Q), 3) and col.min() >= 0 and col.max() <= 1, "%s: colours of %d orientations: %s", what, len(Q), col); col = col.reshape(-1, 3)
    for i, q in enumerate(Q):
        d = R.qu2om(q) @ u; x = np.asarray(f(d[None]))[0]; faint = min(x.min(), col[i].min()) > 0.65
        require(faint or np.abs(x-col[i]).max() < 1e-4, "%s: orientation %s, vector %s: colour %s, the crystal direction %s has %s", what, q.tolist(), v.tolist(), col[i], d.tolist(), x)
        # the same crystal direction from another orientation (rotated about the sample vector first), and equivalents
        other = [R.qmul(q, R.ax2qu([*u, c["w"]]))]+[R.qmul(R.om2qu(M), q) for M in GROUP[l]]
        if c["neg"]: other = [-np.asarray(o) for o in other]
        co = np.asarray(g(np.array(other), **kw)).reshape(-1, 3)
        for o, y in zip(other, co): require(faint or np.abs(y-col[i]).max() < 1e-4, "%s: orientations %s and %s, vector %s, have colours %s and %s", what, q.tolist(), np.asarray(o).tolist(), v.tolist(), col[i], y)
    rec.nontrivial(any(abs(q[0]) < 0.999 for q in Q)); rec.label(what, "vector=%s" % ("default" if c["default"] else c["vform"]), "n=%d" % len(Q))

# ---------------------------------------------------------------- maps
DT = np.dtype([("quat", np.float64, 4), ("iq", np.float32), ("pq", np.float32), ("cm", np.float32), ("phase", np.int32), ("fit", np.float32), ("nmatch", np.int32), ("matchattempts", np.int32, 4), ("totvotes", np.int32)])
IND = {}


def indexer(phases, ncols, nrows, step):
    from pyebsdindex import ebsd_index
    k = tuple(phases)
    if k not in IND: IND[k] = ebsd_index.EBSDIndexer(phaselist=[O01.lib(p) for p in phases], patDim=[60, 60])
    i = IND[k]; i.fID = types.SimpleNamespace(nCols=ncols, nRows=nrows, xStep=step, yStep=step, nPatterns=ncols*nrows); return i


@st.composite
def mapcase(draw):
    ph = draw(st.lists(st.sampled_from(sorted(O01.PH)), min_size=1, max_size=3)); r, cc = draw(st.sampled_from([[3, 4], [1, 1], [1, 5], [5, 1], [6, 7], [2, 2], [12, 30]])); n = r*cc-draw(st.sampled_from([0, 0, 1, 2])); n = max(n, 1)
    return {"phases": ph, "rc": [r, cc], "n": n, "size": draw(st.sampled_from(["file", "file", "x", "xy", "xwide", "yless", "ymore"])), "un": draw(st.sampled_from([0, 0.2, 1.0])), "seed": draw(gen.seeds), "v": draw(st.sampled_from([[0, 0, 1.0], [1.0, 0, 0], [1, 1, 0], [0, 1, 0]])),
            "bar": draw(st.sampled_from([False, False, True])), "step": draw(st.sampled_from([1.0, 0.05, 30.0])), "gray": draw(st.sampled_from([None, None, "iq", "fit", "nmatch", "pq", "cm"])), "gamma": draw(st.sampled_from([1.0, 1.0, 0.5, 2.0])),
            "field": draw(st.sampled_from(["iq", "pq", "cm", "phase", "fit", "nmatch", "totvotes", "quat", "matchattempts", "fitinv"])), "fi": draw(st.integers(0, 3)), "cmap": draw(st.sampled_from(["viridis", "gray", "magma"])), "raw": draw(st.booleans()), "nice": draw(st.booleans())}


def data(c):
    rng = np.random.default_rng(c["seed"]); n, k = c["n"], len(c["phases"]); o = np.zeros((k+1, n), DT); o["phase"] = -1; o["fit"] = 180
    for j in range(k):
        o[j]["quat"] = [R.qnorm(q) for q in rng.normal(size=(n, 4))]; o[j]["phase"] = j; o[j]["fit"] = rng.uniform(0.1, 2.5, n); o[j]["nmatch"] = rng.integers(3, 9, n); o[j]["cm"] = rng.random(n); o[j]["matchattempts"] = rng.integers(0, 99, (n, 4)); o[j]["totvotes"] = rng.integers(0, 1000, n)
    win = rng.integers(0, k, n); o[-1] = o[win, np.arange(n)]; o["iq"] = rng.uniform(0, 50, n); o["pq"] = rng.uniform(1000, 4e4, n); un = rng.random(n) < c["un"]
    for j in range(k+1):
        z = o[j].copy(); z["quat"] = 0; z["phase"] = -1; z["fit"] = 180; z["nmatch"] = 0; z["cm"] = 0; o[j] = np.where(un, z, o[j])
    return o, un, win


def sizes(c):
    r, cc = c["rc"]; n = c["n"]; up = lambda a, b: -(-a//b)
    return {"file": ({}, up(n, cc), cc), "x": ({"xsize": cc}, up(n, cc), cc), "xy": ({"xsize": cc, "ysize": r}, r, cc), "xwide": ({"xsize": cc+2}, up(n, cc+2), cc+2), "yless": ({"xsize": cc, "ysize": max(1, r-1)}, max(1, r-1), cc), "ymore": ({"xsize": float(cc), "ysize": r+2}, r+2, cc)}[c["size"]]


def laid(vals, rows, cols):
    """scan point i at (i // cols, i % cols), black beyond"""
    out = np.zeros((rows, cols)+vals.shape[1:], float)
    for i in range(min(len(vals), rows*cols)): out[i//cols, i % cols] = vals[i]
    return out


@reg.facet("orientation_maps", mapcase, quick=700, thorough=20000, budget=60, group="maps", rule=RULE)
def f_maps(c, rec):
    from pyebsdindex.EBSDImage import IPFcolor
    o, un, win = data(c); keep = o.copy(); kw, rows, cols = sizes(c); ind = indexer(c["phases"], c["rc"][1], c["rc"][0], c["step"]); v = np.array(c["v"], float); lau = [X.laue(O01.PH[p][0]) for p in c["phases"]]
    im = np.asarray(IPFcolor.makeipf(o, ind, vector=np.array(c["v"]), addmicronbar=c["bar"], **kw)); what = "map %s of %d points, %s" % ((rows, cols), c["n"], c["size"]); require(o.tobytes() == keep.tobytes(), "%s: data changed", what)
    want = np.ones((c["n"], 3))
    for i in range(c["n"]):
        l = lau[win[i]]
        if un[i]: want[i] = 0
        elif l in GROUP: want[i] = np.asarray(key(l)[1](o[-1]["quat"][i:i+1], vector=v)).reshape(3)
    want = laid(want, rows, cols)
    if c["bar"]: require(im.shape[0] > rows and im.shape[1:] == (cols, 3), "%s: with scale bar of shape %s", what, im.shape); im = im[:rows]
    require(im.shape == (rows, cols, 3), "%s: image of shape %s", what, im.shape)
    bad = np.abs(im-want).max(-1) > 2e-4; require(not bad.any(), "%s: pixel %s is %s, should be %s (scale bar %s)", what, np.argwhere(bad)[:1].tolist(), im[bad][:1], want[bad][:1], c["bar"])
    if c["gray"]:
        g = np.asarray(IPFcolor.makeipf(o, ind, vector=np.array(c["v"]), graychannel=c["gray"], gamma=c["gamma"], **kw)); require(g.shape == im.shape and np.isfinite(g).all() and (g >= -1e-6).all() and (g <= im+1e-5).all(), "%s: gray channel %s brightens or breaks the map", what, c["gray"])
        npt = min(c["n"], rows*cols); f = o[-1][c["gray"]][:npt].astype(float); s = -1 if c["gray"] == "fit" else 1; lum = g.reshape(-1, 3)[:npt].max(1); top = im.reshape(-1, 3)[:npt].max(1); ok = top > 0; br = lum[ok]/top[ok]; f = f[ok]*s; k = np.argsort(f, kind="stable")
        if len(k) > 1: require((np.diff(br[k]) >= -0.01).all(), "%s: brightness does not follow %s: %s for %s", what, c["gray"], br[k][:6], (f[k]*s)[:6])
        ratio = g.reshape(-1, 3)[:npt][ok]/np.maximum(br[:, None], 1e-12); require((np.abs(ratio-im.reshape(-1, 3)[:npt][ok])[br > 1e-3] < 1e-3).all(), "%s: the gray channel changes the hue", what)
        if c["gray"] != "nmatch" and len(k) > 5 and c["un"] == 0 and np.ptp(f) > 0: require(np.ptp(br) > 0.05, "%s: gray channel %s has no effect", what, c["gray"])
    rec.nontrivial(rows > 1 and cols > 1 and not un.all()); rec.label("size="+c["size"], "phases=%d" % len(c["phases"]), "bar=%s" % c["bar"], "gray=%s" % c["gray"], "un=%g" % c["un"])


@reg.facet("scalar_maps", mapcase, quick=900, thorough=30000, budget=60, group="maps", rule=RULE)
def f_scalar(c, rec):
    import matplotlib.pyplot as plt
    from pyebsdindex.EBSDImage import scalarimage
    o, un, win = data(c); keep = o.copy(); kw, rows, cols = sizes(c); ind = indexer(c["phases"], c["rc"][1], c["rc"][0], c["step"]); fld = c["field"]; what = "%s map %s of %d points, %s" % (fld, (rows, cols), c["n"], c["size"])
    if fld in ("fit", "fitinv") and un.all(): fld = "iq"
    fa = o[-1]["fit" if fld == "fitinv" else fld].astype(np.float64); fa = fa[:, c["fi"]] if fa.ndim > 1 else fa; npt = min(c["n"], rows*cols)
    # raw values
    raw = np.asarray(scalarimage.scalarimage(o, ind, datafield=fld, norescalegray=True, datafieldindex=c["fi"], **kw)); require(o.tobytes() == keep.tobytes(), "%s: data changed", what)
    want = laid(-fa if fld == "fitinv" else fa, rows, cols); require(raw.shape == want.shape and np.allclose(raw, want, rtol=1e-5, atol=1e-6), "%s: raw image %s, values %s", what, raw.tolist(), want.tolist())
    # colours
    im = np.asarray(scalarimage.scalarimage(o, ind, datafield=fld, cmap=c["cmap"], rescalenice=c["nice"], datafieldindex=c["fi"], gamma=c["gamma"], addmicronbar=c["bar"], **kw)); require(o.tobytes() == keep.tobytes(), "%s: data changed", what)
    if c["bar"]: require(im.shape[0] > rows and im.shape[1:] == (cols, 3), "%s: with scale bar of shape %s", what, im.shape); b = np.asarray(scalarimage.scalarimage(o, ind, datafield=fld, cmap=c["cmap"], rescalenice=c["nice"], datafieldindex=c["fi"], gamma=c["gamma"], **kw)); require(np.abs(im[:rows]-b).max() < 1e-5, "%s: the scale bar changes the image", what); im = im[:rows]
    require(im.shape == (rows, cols, 3) and np.isfinite(im).all() and im.min() >= 0 and im.max() <= 1, "%s: image of shape %s, range %s", what, im.shape, (im.min(), im.max()))
    flat = im.reshape(-1, 3); require((flat[npt:] == 0).all(), "%s: pixels beyond the last point are %s", what, flat[npt:].tolist())
    lut = plt.colormaps[c["cmap"]](np.linspace(0, 1, 256))[:, :3]**c["gamma"]; idx = np.array([np.abs(lut-x).max(1).argmin() for x in flat[:npt]]); e = np.abs(lut[idx]-flat[:npt]).max(); require(e < 1e-3, "%s: colour not in the %s map (%.3g off)", what, c["cmap"], e)
    s = -fa if fld == "fitinv" else fa; k = np.argsort(s[:npt], kind="stable"); require((np.diff(idx[k]) >= 0).all(), "%s: colours do not follow the values: positions %s for %s", what, idx[k].tolist(), s[k].tolist())
    if not c["nice"] and fld not in ("fit", "fitinv", "phase") and np.ptp(fa) > 1e-3*np.abs(fa).max():      # the whole range is used, linearly
        t = (fa[:npt]-fa.min())/np.ptp(fa); require(np.abs(idx-np.floor(t*256).clip(0, 255)).max() <= 1, "%s: colour positions %s, values span %s", what, idx.tolist(), t.tolist())
    rec.nontrivial(rows > 1 and cols > 1 and np.ptp(fa) > 0); rec.label("field="+fld, "size="+c["size"], "cmap="+c["cmap"], "bar=%s" % c["bar"])

# ---------------------------------------------------------------- scale bar


@st.composite
def bar(draw):
    return {"rc": [draw(st.integers(1, 30)), draw(st.sampled_from([1, 2, 3, 7, 20, 60, 150, 333, 640, 1000]))], "ch": draw(st.sampled_from([0, 0, 3, 4])), "kind": draw(st.sampled_from(["random", "random", "u8", "const", "zero", "neg"])), "rescale": draw(st.sampled_from([False, False, True, "default"])),
            "step": draw(st.one_of(st.sampled_from([1.0, 0.01, 1/0.333/20, 1000.0]), gen.floats(-2, 3).map(lambda x: 10**x))), "zoom": draw(st.sampled_from([None, None, None, 2, 3])), "minor": draw(st.booleans()), "seed": draw(gen.seeds)}


@reg.facet("scale_bar", bar, quick=700, thorough=20000, budget=60, group="maps", rule=RULE)
def f_bar(c, rec):
    from pyebsdindex.EBSDImage import micronbar
    r, w = c["rc"]; rng = np.random.default_rng(c["seed"]); sh = (r, w)+((c["ch"],) if c["ch"] else ()); im = rng.random(sh)
    if c["kind"] == "u8": im = rng.integers(0, 255, sh).astype(np.uint8)
    if c["kind"] == "const": im = np.full(sh, 0.4)
    if c["kind"] == "zero": im = np.zeros(sh)
    if c["kind"] == "neg": im = -im*7
    if c["kind"] in ("random", "u8", "neg") and im.size > 1: im.flat[0] = im.min()-(0 if c["kind"] == "u8" else 0.5)
    keep = im.copy(); kw = {} if c["rescale"] == "default" else {"rescale": c["rescale"]}; z = c["zoom"] or 1
    if c["zoom"]: kw["zoom_xsize"] = w*z
    out = np.asarray(micronbar.addmicronbar(im, c["step"], addminor=c["minor"], **kw)); what = "%s image, step %g, %s" % (sh, c["step"], kw); require(np.array_equal(im, keep), "%s: image changed", what)
    big = np.kron(im.astype(float), np.ones((z, z)+((1,) if c["ch"] else ()))); R_, W = big.shape[:2]
    require(out.ndim == big.ndim and out.shape[1:] == big.shape[1:] and out.shape[0] > R_, "%s: output of shape %s", what, out.shape); require(np.isfinite(out).all(), "%s: output is not finite", what)
    if c["rescale"] in (True, "default"):
        big = big-big.min(); big = big/big.max() if big.max() > 0 else big; require(np.abs(out[:R_]-big).max() < 2e-3 and out[:R_].min() >= 0 and out[:R_].max() <= 1, "%s: image part is not the image rescaled to 0..1", what)
    else: require(np.abs(out[:R_]-big).max() <= 1e-5*max(1, np.abs(big).max()), "%s: image part differs from the image", what)
    b = out[R_:]; lo, hi = out[:R_].min(), out[:R_].max(); require(b.min() >= lo-1e-5*max(1, abs(lo)) and b.max() <= hi+1e-5*max(1, abs(hi)), "%s: bar values outside the image's range", what)
    if c["ch"]: require(all(np.array_equal(b[..., 0], b[..., k]) for k in range(c["ch"])), "%s: the bar is coloured", what); b = b[..., 0]
    if hi-lo > 1e-3*max(abs(hi), 1e-3) and W >= 20:
        t = (b-lo)/(hi-lo); h = len(b); mid = t[int(h*0.25):int(h*0.25)+max(1, int(h*0.5))]; dark = mid.max(0) < 0.3; first = int(np.argmax(dark)); n = int(np.argmin(dark[first:])) if not dark[first:].all() else len(dark)-first
        require((t[0] > 0.9).all() and t.max() > 0.99, "%s: background of the bar is not the maximum value", what); um = n*c["step"]/z; s10 = [m*10.0**e for e in range(-3, 6) for m in (1, 2, 2.5, 5)]
        d = min(abs(um-s)/(c["step"]/z) for s in s10 if s != 0); require(dark.any() and d <= 1.01, "%s: bar of %d pixels = %g microns is not a round length", what, n, um)
        require(n <= W*0.34+1, "%s: bar of %d pixels for %d columns", what, n, W)
        if W >= 60: require(n >= W*0.333/2.5-2, "%s: bar of only %d pixels for %d columns", what, n, W)
    rec.nontrivial(r > 1 and w > 1 and c["kind"] not in ("const", "zero")); rec.label("channels=%d" % c["ch"], "kind="+c["kind"], "zoom=%s" % c["zoom"], "rescale=%s" % c["rescale"], "width=%d" % w)
