"""B02: band detection on patterns of drawn bands; independence of batch, chunk, order, scaling."""
import contextlib, io, os, shutil, tempfile
import numpy as np
from hypothesis import strategies as st
from ..core import Registry, require
from .. import gen, fmt

reg = Registry()
RULE = ("Patterns of one to six drawn straight bands (Gaussian profile) with well separated directions, plus patterns of noise and of nothing in batches. "
        "Non-trivial: at least two bands or at least two patterns.")
ASSUMPTIONS = ["well separated: directions at least 22 degrees apart, and bands inside the part of the rho range that detection considers",
               "a band whose direction is within the theta smoothing of 0/180 degrees may be reported twice (once from each end of the Radon image)",
               "positions of a single band within one theta bin plus 0.3 degrees (0.9 where a rho bin is a full pixel) and 0.75 pixels; measured on 3000 single bands: 0.75 bins (1.2 where a rho bin is a full pixel) and 0.52 pixels at worst",
               "positions of crossing bands within four theta bins plus a degree and 1.25 pixels (they pull on each other where they cross); measured on 18000 patterns: 3.4 bins and 0.54 pixels at worst",
               "accuracy of single bands: measured over 180 sets of 120 bands, the best 108 are within 0.075 theta bins and 0.029 rho bins (rms), the averages within 0.022 and 0.011",
               "the surface is recovered to 4 % of its height from exact data of 16 bits; from coarse or noisy patterns the fit ends in a local minimum for one in a thousand, so there it only has to be off by less than the height",
               "brightness: the level is at most 8 times the amplitude of the strongest band (see the finding edge_brightness)"]


def detector():
    from pyebsdindex.band_detect import BandDetect
    return BandDetect


def draw_bands(dims, bands, sig, base=20.0):
    H, W = dims; y, x = np.mgrid[0:H, 0:W]; x = x-(W-1)/2; y = y-(H-1)/2
    im = np.full((H, W), base)
    for th, rho, amp in bands:
        t = np.radians(th); im = im+amp*np.exp(-0.5*((x*np.cos(t)+y*np.sin(t)-rho)/sig)**2)
    return im


@st.composite
def bands(draw, dims, nmax=6):
    n = draw(st.sampled_from(list(range(1, nmax+1)))); t0 = draw(gen.floats(0, 180)); gaps = [22+draw(gen.floats(0, 8)) for _ in range(n)]
    R = min(dims)/2; t = t0; out = []; amp = 100.0
    for i in range(n):
        out.append([t % 180.0, draw(gen.floats(-0.7, 0.7))*R, amp]); t += gaps[i]; amp *= draw(gen.floats(0.8, 0.93))
    return draw(st.permutations(out))


@st.composite
def case(draw):
    dims = draw(st.sampled_from([[60, 60], [60, 80], [90, 64], [120, 120], [48, 48]]))
    return {"dims": dims, "bands": draw(bands(dims)), "nt": draw(st.sampled_from([180, 180, 120, 90])), "nr": draw(st.sampled_from([90, 90, 60, 120])), "sig": draw(gen.floats(1.0, 1.6)),
            "nb": draw(st.integers(9, 12)), "u8": draw(st.booleans()), "gain": draw(st.one_of(gen.floats(0.02, 20), st.sampled_from([1e-4, 1/65535, 1/255, 257.0, 1e5]))), "off": draw(gen.floats(-100, 300))}


def dist(loc, band, dt, rho0, drho):
    """difference in degrees and pixels of a detected band to a drawn one, the same line may be described from both ends"""
    th = loc[1]*dt; rho = rho0+loc[0]*drho; best = (1e9, 1e9)
    for s in (-1, 0, 1):
        a = (th-(band[0]+180*s), rho-(band[1] if s == 0 else -band[1]))
        if abs(a[0])+abs(a[1]) < abs(best[0])+abs(best[1]): best = a
    return best


@reg.facet("drawn_bands", case, quick=250, thorough=5000, budget=60, rule="drawn bands are found at the right place and are the strongest. Non-trivial: two or more bands")
def f_drawn(c, rec):
    BandDetect = detector()
    dims, bs = c["dims"], c["bands"]; n = len(bs)
    bd = BandDetect(patDim=dims, nTheta=c["nt"], nRho=c["nr"], nBands=c["nb"])
    P = draw_bands(dims, bs, c["sig"]*max(1, min(dims)/60)); P = np.clip(np.rint(P*255/max(P.max(), 255)), 0, 255).astype(np.uint8) if c["u8"] else P
    keep = P.copy(); o = bd.find_bands(P); require(np.array_equal(P, keep), "find_bands modified the pattern")
    require(o.shape == (1, c["nb"]), "find_bands returned shape %s", o.shape); o = o[0]
    ok = o["valid"] > 0; k = int(ok.sum())
    require(ok[:k].all() and k >= n, "only %s valid bands for %s drawn ones (flags %s)", k, n, o["valid"].tolist())
    m = o["max"][:k]; require((np.diff(m) <= 1e-6*m[0]).all(), "bands not ordered by strength: %s", m.tolist())
    rmax = float(min(dims))/2; drho = 2*rmax/c["nr"]; rho0 = -(rmax-drho); dt = 180/c["nt"]
    tolt, tolr = (1.0*dt+(0.3 if drho < 0.9 else 0.9), 0.75) if n == 1 else (4*dt+1.0, 1.25)
    loc = np.asarray(o["aveloc"], float)
    require((np.abs(loc[:k]-o["maxloc"][:k]) <= 0.876).all(), "refined peak position more than a bin from the peak")
    # Radon region usable for detection
    frac = int(c["nr"]*0.1); require((o["maxloc"][:k, 0] >= frac).all() and (o["maxloc"][:k, 0] < c["nr"]-frac).all() and (o["maxloc"][:k, 1] >= 0).all() and (o["maxloc"][:k, 1] < c["nt"]).all(), "band outside the usable Radon range: %s", o["maxloc"][:k].tolist())
    D = [[dist(loc[i], b, dt, rho0, drho) for b in bs] for i in range(k)]
    near = np.array([[abs(a) <= tolt and abs(r) <= tolr for a, r in row] for row in D])
    for i in range(n): require(near[i].any(), "detected band %s of %s drawn ones at theta %.2f rho %.2f is none of the drawn bands %s", i, n, loc[i][1]*dt, rho0+loc[i][0]*drho, bs)
    for j in range(n): require(near[:2*n, j].any(), "drawn band %s was not detected among the strongest; nearest: %s", bs[j], min((row[j] for row in D), key=lambda v: abs(v[0])+abs(v[1])))
    rec.nontrivial(n > 1); rec.label("%d bands" % n)
    # brightness and contrast: kept within the range in which the band stands out of the step from the level to the filler (see the facet edge_brightness)
    lev = 20.0*abs(c["gain"])+c["off"]+1; off = c["off"] if abs(lev) <= 800*c["gain"] else np.sign(lev)*800*c["gain"]-20.0*c["gain"]-1  # the filler is -1
    g = bd.find_bands(P.astype(np.float64)*c["gain"]+off)[0]; gk = int((g["valid"] > 0).sum()); gl = np.asarray(g["aveloc"][:gk], float)
    same_place(gl, loc[:k], bs, c["nt"], dt, rho0, drho, tolt, tolr, "scaling the intensities by %.3g and adding %.4g" % (c["gain"], off))


def same_place(gl, loc, bs, nt, dt, rho0, drho, tolt, tolr, what):
    """the drawn bands are still the strongest and at the same place; equally strong descriptions of one line (both ends of the
    theta range, the two bins next to a symmetry line of the pattern) may swap"""
    n = len(bs)
    for i in range(n):
        require(i < len(gl), "%s: only %s bands left of %s", what, len(gl), n)
        require(any(abs(a) <= tolt and abs(r) <= tolr for a, r in (dist(gl[i], b, dt, rho0, drho) for b in bs)), "%s: strong band %s at bins %s is none of the drawn ones", what, i, gl[i].tolist())
        nrr = (len_rho(rho0, drho)); alt = np.array([[nrr-2-gl[i][0], gl[i][1]+nt], [nrr-2-gl[i][0], gl[i][1]-nt], gl[i]])
        d = np.abs(loc[None, :, :]-alt[:, None, :]); require(((d[..., 0] < 0.05) & (d[..., 1] < 0.5)).any(), "%s: band at bins %s was not there before: %s", what, gl[i].tolist(), loc[:n].tolist())
    for b in bs:
        require(any(abs(a) <= tolt and abs(r) <= tolr for a, r in (dist(x, b, dt, rho0, drho) for x in gl[:2*n])), "%s: drawn band %s is not found any more", what, b)


def len_rho(rho0, drho): return int(round((-rho0+drho)*2/drho))


def fine(): return st.fixed_dictionaries({"geo": st.sampled_from([[60, 60, 180, 90], [120, 120, 180, 90], [60, 80, 180, 90], [90, 64, 120, 60], [60, 60, 90, 60], [48, 48, 180, 120]]), "seed": gen.seeds})


@reg.facet("subbin", fine, quick=6, thorough=120, budget=40, group="fine", shrink=1,
           rule="positions of 120 random single bands are, on the average, right to a small part of a bin of the Radon image and not biased. Non-trivial: every case")
def f_fine(c, rec):
    BandDetect = detector()
    h, w, nt, nr = c["geo"]; bd = BandDetect(patDim=[h, w], nTheta=nt, nRho=nr, nBands=9); r = np.random.default_rng(c["seed"]); R = min(h, w)/2; drho = 2*R/nr; E = []
    for _ in range(120):
        b = [r.uniform(10, 170), r.uniform(-0.7, 0.7)*R, 100.0]; o = bd.find_bands(draw_bands([h, w], [b], r.uniform(1, 1.6)*max(1, R/30)))[0]
        t, d = dist(np.asarray(o["aveloc"][0], float), b, 180/nt, drho-R, drho); E.append([t*nt/180, d/drho])
    E = np.array(E); m = np.abs(E.mean(0)); q = np.sqrt(np.mean(np.sort(E**2, 0)[:108], 0)); rec.nontrivial()
    require(q[0] < 0.095 and q[1] < 0.037, "the positions of single bands are off by %.3f theta bins and %.3f rho bins (rms of the best 108 of 120 bands)", *q)
    require(m[0] < 0.04 and m[1] < 0.024, "the positions of single bands are off by %.3f theta bins and %.3f rho bins on the average of 120 bands", *m)


EDGE = [{"bands": [[0.0, 16.453125, 100.0]], "dims": [48, 48], "nt": 180, "nr": 60, "gain": 0.02, "off": 85.0}]


@reg.facet("edge_brightness", EDGE, quick=1, thorough=1, budget=20, group="edge",
           rule="one listed input: a band parallel to the pattern edge, a few rho bins from it, of 2 percent contrast. Non-trivial: every case")
def f_edge(c, rec):
    BandDetect = detector()
    bd = BandDetect(patDim=c["dims"], nTheta=c["nt"], nRho=c["nr"], nBands=9); P = draw_bands(c["dims"], c["bands"], 1.0)
    a, b = bd.find_bands(P)[0]["aveloc"][0], bd.find_bands(P*c["gain"]+c["off"])[0]["aveloc"][0]; rec.nontrivial()
    require(np.abs(a-b).max() < 0.5, "scaling the intensities by %s and adding %s moves the strongest band from %s to %s", c["gain"], c["off"], a.tolist(), b.tolist())


@st.composite
def batch(draw):
    dims = draw(st.sampled_from([[60, 60], [40, 52], [52, 40]])); n = draw(st.integers(2, 9))
    pats = [{"k": draw(st.sampled_from(["bands", "bands", "noise", "flat"])), "b": draw(bands(dims, 4)), "s": draw(st.integers(0, 9999))} for _ in range(n)]
    return {"dims": dims, "pats": pats, "nt": draw(st.sampled_from([180, 90, 60])), "nr": draw(st.sampled_from([90, 45])), "nb": draw(st.sampled_from([1, 3, 9, 12, 40])),
            "chunk": draw(st.sampled_from([1, 2, 3, 5, 100])), "dt": draw(st.sampled_from(["u1", "u2", "f4", "f8"])), "back": draw(st.booleans()), "mask": draw(st.booleans()), "perm": draw(st.integers(0, 9999))}


def same(a, b, what):
    require(np.array_equal(a["valid"], b["valid"]), "%s: number of valid bands differs (%s, %s)", what, a["valid"].sum(-1), b["valid"].sum(-1))
    for f in ("maxloc", "aveloc", "max", "avemax", "width", "normmax"):
        x, y = np.asarray(a[f], float), np.asarray(b[f], float); v = a["valid"] > 0
        e = np.abs(x-y)[v]; lim = (1e-4 if f in ("aveloc", "maxloc") else 1e-4*np.abs(x)[v]+1e-6)
        require((e <= lim).all(), "%s: field %s differs: %s and %s", what, f, x[v][:3].tolist(), y[v][:3].tolist())


@reg.facet("independence", batch, quick=250, thorough=5000, budget=60, group="indep",
           rule="batches against the same patterns alone, permuted, chunked; a longer list of bands starts with the shorter one. Non-trivial: batches of several patterns of different kind")
def f_ind(c, rec):
    BandDetect = detector()
    dims = c["dims"]; P = []
    for p in c["pats"]:
        r = np.random.default_rng(p["s"])
        P.append(draw_bands(dims, p["b"], 1.3) if p["k"] == "bands" else r.uniform(0, 255, dims) if p["k"] == "noise" else np.full(dims, float(p["s"] % 256)))
    P = np.array(P); P = np.clip(np.rint(P), 0, 255).astype(c["dt"]) if c["dt"][0] == "u" else P.astype(c["dt"]); n = len(P)
    kw = {}
    if c["mask"]:
        y, x = np.mgrid[0:dims[0], 0:dims[1]]; kw["patternmask"] = (np.hypot(y-(dims[0]-1)/2, x-(dims[1]-1)/2) < 0.49*min(dims)).astype(int)
    bd = BandDetect(patDim=dims, nTheta=c["nt"], nRho=c["nr"], nBands=c["nb"], **kw)
    if c["back"]:
        y, x = np.mgrid[0:dims[0], 0:dims[1]]; bd.backgroundsub = 10*np.exp(-((x-dims[1]/2)**2+(y-dims[0]/2)**2)/500.0)
    keep = P.copy(); full = bd.find_bands(P); require(np.array_equal(P, keep), "find_bands modified the patterns"); require(full.shape == (n, c["nb"]), "shape %s", full.shape)
    same(full, bd.find_bands(P, chunksize=c["chunk"]), "chunks of %s" % c["chunk"])
    for i in range(n):
        same(full[i:i+1], bd.find_bands(P[i]), "pattern %d alone (2-D)" % i)
    same(full[:1], bd.find_bands(P[:1]), "pattern 0 alone (3-D)")
    o = np.random.default_rng(c["perm"]).permutation(n); same(full[o], bd.find_bands(P[o]), "permuted batch")
    v = full["valid"]; require(((v == 0) | (v == 1)).all() and (np.diff(v, axis=1) <= 0).all(), "valid flags %s", v.tolist())
    require((full["aveloc"][v > 0] > -1).all() and (full["aveloc"][v > 0] < [c["nr"], c["nt"]]).all(), "valid band outside of Radon space")
    big = BandDetect(patDim=dims, nTheta=c["nt"], nRho=c["nr"], nBands=60, **kw); big.backgroundsub = bd.backgroundsub; b = big.find_bands(P); k = min(c["nb"], 60)
    require(np.array_equal(b["valid"][:, :k], v[:, :k]), "asking for more bands changes which of the first %s are valid", k)
    for i in range(n):
        if c["pats"][i]["k"] != "flat":
            x, y = b["aveloc"][i, :k][v[i, :k] > 0], full["aveloc"][i, :k][v[i, :k] > 0]; require(np.abs(x-y).max(initial=0) < 1e-4, "asking for more bands changes the first %s", k)
    rec.nontrivial(len({p["k"] for p in c["pats"]}) > 1); rec.label("masked" if c["mask"] else "no mask", "back" if c["back"] else "no back")
    if (v == 0).any(): rec.label("unused slots")


@st.composite
def flat(draw):
    return {"dims": draw(st.sampled_from([[60, 60], [60, 80], [90, 64], [48, 48]])), "nt": draw(st.sampled_from([180, 120, 90])), "nr": draw(st.sampled_from([90, 60, 120])), "nb": draw(st.sampled_from([1, 9, 12, 30])),
            "dt": draw(st.sampled_from(["u1", "u2", "f4"])), "lev": draw(st.integers(0, 255)), "n": draw(st.integers(1, 3)), "pos": draw(st.integers(0, 2)), "band": draw(st.booleans())}


@reg.facet("featureless", flat, quick=150, thorough=3000, budget=40, group="flat", rule="patterns of constant intensity have no bands, also next to patterns that do. Non-trivial: every case")
def f_flat(c, rec):
    BandDetect = detector()
    bd = BandDetect(patDim=c["dims"], nTheta=c["nt"], nRho=c["nr"], nBands=c["nb"])
    P = np.full([c["n"]]+c["dims"], c["lev"], dtype=c["dt"]); k = c["pos"] % c["n"]
    if c["band"]: P[k] = np.clip(draw_bands(c["dims"], [[37.0, 3.0, 100.0]], 1.5), 0, 255).astype(c["dt"])
    v = bd.find_bands(P)["valid"]
    for i in range(c["n"]):
        if c["band"] and i == k: require(v[i, 0] == 1, "the drawn band was not found")
        else: require((v[i] == 0).all(), "pattern of constant intensity %s (%s) has %s valid bands", c["lev"], c["dt"], v[i].sum())
    rec.nontrivial(); rec.label(c["dt"])


@st.composite
def back(draw):
    f = draw(st.sampled_from(["UP1", "UP2", "TFPAT", "OH5", "EBSP"])); s = {"fmt": f}
    if f == "UP1" or f == "UP2": s["version"] = 3
    elif f == "EBSP": s.update(version=4, xy=True, dt="u2", ydown=False, x0=0.0, y0=0.0, order=list(range(60)), missing=[])
    elif f == "TFPAT": s.update(back=False, bits=16, scan=True, ebsd=False)
    else: s.update(dt="u2", group="Scan 1", second=False, raw=False, ver="OIM Analysis 9.1.00", x0=0.0, y0=0.0)
    return {"s": s, "dims": draw(st.sampled_from([[40, 40], [40, 52], [52, 40], [61, 60]])), "grid": draw(st.sampled_from([[1, 1], [1, 4], [3, 4], [5, 4], [6, 10]])), "amp": draw(gen.floats(20, 90)), "cx": draw(gen.floats(-0.15, 0.15)), "cy": draw(gen.floats(-0.15, 0.15)),
            "sx": draw(gen.floats(0.28, 0.5)), "sy": draw(gen.floats(0.28, 0.5)), "gx": draw(gen.floats(-20, 20)), "gy": draw(gen.floats(-20, 20)), "ns": draw(st.sampled_from([None, None, 1, 2, 3, 5, 7, 16, 50, 100])), "method": draw(st.sampled_from(["randomStride", "EVENSTRIDE"])), "seed": draw(gen.seeds),
            "ind": draw(st.booleans()), "nt": draw(st.sampled_from([180, 90])), "pert": draw(st.sampled_from([0.0, 3.0]))}


def collected(c):
    """Collect the background of one set of patterns in three ways: errors relative to the surface the patterns share and among each other, in units of the height of the gaussian."""
    BandDetect = detector()
    H, W = c["dims"]; y, x = np.mgrid[:H, :W].astype(float); n = c["grid"][0]*c["grid"][1]; r = np.random.default_rng(c["seed"])
    G = 90+c["amp"]*np.exp(-0.5*((x-W*(0.5+c["cx"]))/(c["sx"]*W))**2-0.5*((y-H*(0.5+c["cy"]))/(c["sy"]*H))**2)+c["gx"]*(x/W-0.5)+c["gy"]*(y/H-0.5)
    N = r.normal(size=(n, H, W))*c["pert"]; N -= N.mean(0) if n > 1 else N; mult = 1 if c["s"]["fmt"] == "UP1" else 200; P = np.rint((G+N)*mult); d = tempfile.mkdtemp()
    try:
        s = dict(c["s"]); s.update({"order": list(range(n))} if s["fmt"] == "EBSP" else {}); path = os.path.join(d, "scan"+fmt.EXT[s["fmt"]]); P = P.astype(fmt.dtype(s)); fmt.write(path, s, P, c["grid"], [1.0, 1.0])
        from pyebsdindex import ebsd_pattern as ep
        f = ep.get_pattern_file_obj(path); bd = BandDetect(patDim=c["dims"], nTheta=c["nt"], nRho=90, nBands=9); keep = P.copy(); B = []
        for kw in ({"patsIn": P}, {"fileobj": f}, {"patsIn": P.astype(np.float32)}):
            np.random.seed(c["seed"] % 2**32)
            with contextlib.redirect_stdout(io.StringIO()): bd.collect_background(nsample=c["ns"], method=c["method"], **kw)
            B.append(np.array(bd.backgroundsub))
    finally: shutil.rmtree(d)
    require(np.array_equal(P, keep), "collect_background changed the patterns"); b = B[0]; cm = np.hypot(x-W*0.5, y-H*0.5) < H*0.49; want = (G-G.mean())*mult; k = n if c["ns"] is None else min(n, c["ns"]); unit = c["amp"]*mult
    for q in B: require(q.shape == (H, W) and np.isfinite(q).all(), "background of shape %s", q.shape); require(abs(q.mean()) < 1e-4*np.abs(q).max()+1e-9, "mean of the background is %s", q.mean())
    e = np.abs((b-b[cm].mean())-(want-want[cm].mean()))[cm].max()/unit; slack = 0 if k == n else c["pert"]/c["amp"]
    return bd, b/mult, want/mult, k == n, r, G, e-slack, [np.abs(q-b).max()/unit for q in B[1:]]


@reg.facet("background", back, quick=120, thorough=3000, budget=60, group="back",
           rule="the background collected from an array or a file is a smooth surface close to that the patterns share, and subtracting it is the same as detecting bands in patterns without it. Non-trivial: more than one pattern")
def f_back(c, rec):
    BandDetect = detector()
    bd, b, want, full, r, G, e, q = collected(c); H, W = c["dims"]; n = c["grid"][0]*c["grid"][1]
    require(e < 1, "background is off by %.3g of its height from the surface the patterns share", e); require(max(q) < 1, "backgrounds of the array, the file and the array of floats differ by %.3g of the height", max(q))  # a least squares fit may miss the gaussian
    Q = draw_bands(c["dims"], [[r.uniform(0, 180), r.uniform(-0.5, 0.5)*min(c["dims"])/2, 100.0] for _ in range(3)], 1.3); Q = np.array([Q+G, Q+2*G, G*1.0+r.normal(size=(H, W))*10]); bd.backgroundsub = want if c["ind"] else b
    u = BandDetect(patDim=c["dims"], nTheta=c["nt"], nRho=90, nBands=9); same(bd.find_bands(Q), u.find_bands(Q-bd.backgroundsub), "background subtracted by the detector or beforehand"); rec.nontrivial(n > 1); rec.label("all" if full else "sampled", c["method"])


@reg.facet("background_recovery", lambda: st.fixed_dictionaries({"seed": gen.seeds}), quick=6, thorough=150, budget=40, group="back",
           rule="of twelve random sets of noise-free 16 bit patterns nine or more give the surface they share to 4 %, and nine or more the same background from array and file to 1 % (a least squares fit may now and then end beside it). Non-trivial: always")
def f_recovery(c, rec):
    r = np.random.default_rng(c["seed"]); pick = lambda L: L[r.integers(len(L))]; R = []
    for _ in range(12):
        p = {"s": {"fmt": "UP2", "version": 3}, "dims": pick([[40, 40], [40, 52], [52, 40], [61, 60]]), "grid": pick([[1, 1], [1, 4], [3, 4], [6, 10]]), "ns": pick([None, 1, 3, 7, 50]), "method": pick(["randomStride", "EVENSTRIDE"]), "seed": int(r.integers(2**32)), "nt": 90, "pert": 0.0, "amp": r.uniform(20, 90)}
        p.update({k: r.uniform(-0.15, 0.15) for k in ("cx", "cy")}, **{k: r.uniform(0.28, 0.5) for k in ("sx", "sy")}, **{k: r.uniform(-20, 20) for k in ("gx", "gy")}); R.append(collected(p))
    a = sum(x[6] < 0.04 for x in R); b = sum(max(x[7]) < 0.01 for x in R)
    require(a >= 9, "only %d of 12 backgrounds are the surface the patterns share", a); require(b >= 9, "only %d of 12 backgrounds are the same from an array and a file", b); rec.nontrivial()
