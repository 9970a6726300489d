"""E01: indexing gives the true orientation, independent of how the pattern is supplied."""
import os, struct, tempfile
import numpy as np
from hypothesis import strategies as st
from ..core import Registry, require
from ..ref import rot as R, xtal as X
from .. import gen, sim

reg = Registry()
RULE = ("Simulated patterns (kinematic bands on a flat background) of known orientation; sequences of calls supplying the same patterns in different ways. "
        "Non-trivial: every distinct orientation / every sequence with at least two different ways.")
ASSUMPTIONS = ["the simulator and index agree to 0.3 degrees; 0.8 degrees is allowed (1.2 with noise)", "patterns with noise up to 30 % of the strongest band", "HCP with c/a near 1.63 has a well known pseudo-symmetry (30 degrees about c shares six of the bands): up to 5 % (+4) of the HCP patterns may come out that way",
               "start and count inside or running past the end of the source; count -1 means to the end"]
pseudo = {"n": 0, "bad": 0}
C30 = [R.ax2qu([0, 0, 1, np.pi/6]), R.ax2qu([0, 0, 1, -np.pi/6])]
LAUE = {"FCC": 43, "BCC": 43, "HCP": 62}


@st.composite
def ocase(draw):
    dims = draw(st.sampled_from([[60, 60], [80, 80], [60, 80], [96, 72], [120, 120]])); m = min(dims)
    n = draw(st.integers(1, 3))
    return {"dims": dims, "q": [draw(gen.generic_quat()) for _ in range(n)], "pc": [draw(gen.floats(0.4, 0.6))*dims[1], draw(gen.floats(0.45, 0.75))*dims[0], draw(gen.floats(0.5, 0.7))*m],
            "phase": draw(st.sampled_from(["FCC", "BCC", "HCP"])), "noise": draw(st.sampled_from([0.0, 0.0, 0.1, 0.3])), "seed": draw(st.integers(0, 9999)),
            "dt": draw(st.sampled_from(["u1", "u2", "f4", "f8"])), "vendor": draw(st.sampled_from(sim.VENDORS)), "nb": draw(st.sampled_from([9, 8, 10, 12])), "how": draw(st.sampled_from(["module", "method", "pcarg"])),
            "nt": draw(st.sampled_from([180, 180, 144])), "nr": draw(st.sampled_from([90, 90, 120])), "tilt": draw(st.sampled_from([70.0, 65.0])), "elev": draw(st.sampled_from([5.3, 0.0, 10.0]))}


def cast(im, dt, gain=1.0):
    if dt == "u1": return sim.to_u8(im)
    if dt == "u2": return sim.to_u16(im)
    return im.astype(dt)*gain


@reg.facet("simulated_orientation", ocase, quick=400, thorough=8000, budget=150, group="orient", rule="orientation, fit, number of bands and phase of simulated patterns. Non-trivial: every case")
def f_or(c, rec):
    from pyebsdindex import ebsd_index
    rng = np.random.default_rng(c["seed"])
    P = np.array([cast(sim.pattern(c["phase"], q, c["dims"], c["pc"], noise=c["noise"], rng=rng), c["dt"]) for q in c["q"]])
    pc = sim.pc_for(c["vendor"], c["pc"], c["dims"]); keep = P.copy()
    kw = dict(phaselist=[c["phase"]], vendor=c["vendor"], sampleTilt=c["tilt"], camElev=c["elev"], nRho=c["nr"], nTheta=c["nt"], nBands=c["nb"])
    if c["how"] == "module": o, b = ebsd_index.index_pats(P, PC=pc, **kw)
    else:
        ind = ebsd_index.EBSDIndexer(PC=pc if c["how"] == "method" else None, patDim=c["dims"], **kw)
        o, b = ind.index_pats(P, PC=None if c["how"] == "method" else pc)[:2]
    require(np.array_equal(P, keep), "the patterns were modified")
    require(o.shape == (2, len(P)) and b.shape == (len(P), c["nb"]), "results have shapes %s and %s", o.shape, b.shape)
    require(np.array_equal(o[0], o[1]), "with one phase the final layer differs from the phase's layer")
    s2d = sim.sample_to_detector(c["vendor"], c["tilt"], c["elev"]); lim = 0.8 if c["noise"] == 0 else 1.2
    for i, q in enumerate(c["q"]):
        want = R.qmul(q, s2d); d = o[-1][i]; e = np.degrees(X.disorientation(want, d["quat"], LAUE[c["phase"]]))
        require(d["phase"] == 0, "%s pattern %d of %d not indexed (nmatch %s)", c["phase"], i, len(P), d["nmatch"])
        if c["phase"] == "HCP":
            pseudo["n"] += 1
            if e >= lim and min(np.degrees(X.disorientation(R.qmul(t, want), d["quat"], 62)) for t in C30) < lim+1.0:
                pseudo["bad"] += 1; rec.label("30 degree pseudo-symmetry of HCP")
                require(pseudo["bad"] <= 4+0.05*pseudo["n"], "%d of %d HCP patterns are indexed 30 degrees about c away from their orientation", pseudo["bad"], pseudo["n"])
                continue
        require(e < lim, "%s pattern %d of %d: orientation %s, should be %s (%.2f degrees off; fit %.2f, %d bands)", c["phase"], i, len(P), d["quat"].tolist(), want.tolist(), e, d["fit"], d["nmatch"])
        require(abs(np.linalg.norm(d["quat"])-1) < 1e-6 and d["quat"][0] >= -1e-9, "quaternion %s not of unit length with positive scalar part", d["quat"].tolist())
        require(3 <= d["nmatch"] <= c["nb"] and 0 <= d["fit"] < 3 and 0 <= d["cm"] <= 1.0001, "nmatch %s fit %s cm %s", d["nmatch"], d["fit"], d["cm"])
        if c["noise"] == 0: require(d["nmatch"] >= 5 and d["fit"] < 1.0, "perfect pattern: %s bands matched, fit %.2f", d["nmatch"], d["fit"])
        v = b[i]["valid"] > 0; require(abs(d["pq"]-np.mean(b[i]["max"]*v)) <= 1e-4*abs(d["pq"])+1e-6, "pattern quality %s is not the mean peak height %s", d["pq"], np.mean(b[i]["max"]*v))
    rec.nontrivial(); rec.label(c["phase"], c["dt"])


def write_up(path, P, version, grid, step=(1.5, 2.5)):
    n, h, w = P.shape
    with open(path, "wb") as f:
        if version == 1: f.write(struct.pack("<4I", 1, w, h, 16))
        else: f.write(struct.pack("<4I", 3, w, h, 42)+struct.pack("<BIIBdd", 0, grid[1], grid[0], 0, *step))
        f.write(P.tobytes())


@st.composite
def supply(draw):
    n = draw(st.integers(4, 9)); dims = draw(st.sampled_from([[60, 60], [48, 64]]))
    steps = []
    for _ in range(draw(st.integers(2, 6))):
        steps.append({"k": draw(st.sampled_from(["array", "array", "single2d", "dtype", "h5", "h5_2d", "patobj", "upfile", "upobj", "fresh", "otherdims", "otherdims", "method", "pcarg", "perm", "reuse_nofile", "noncontig", "rewritten"])),
                      "a": draw(st.integers(0, 8)), "n": draw(st.sampled_from([-1, -1, 1, 2, 3, 20])), "chunk": draw(st.sampled_from([528, 1, 2, 3, 1000])), "dt": draw(st.sampled_from(["u1", "u2", "f4", "f8", "i4"])), "seed": draw(st.integers(0, 999)), "od": draw(st.sampled_from([1, 2, 0, 3])), "way": draw(st.sampled_from([2, 1, 0, 3]))})
    return {"n": n, "dims": dims, "q": [draw(gen.generic_quat()) for _ in range(n)], "kinds": [draw(st.sampled_from(["FCC", "FCC", "BCC", "noise", "flat"])) for _ in range(n)],
            "phases": draw(st.sampled_from([["FCC"], ["FCC", "BCC"], ["BCC", "FCC"]])), "vendor": draw(st.sampled_from(["EDAX", "OXFORD"])), "steps": steps, "version": draw(st.sampled_from([1, 3])), "perpat": draw(st.booleans()),
            "first": draw(st.sampled_from(["dims", "nodims"])), "sig": draw(st.booleans())}


def compare(o, b, ro, rb, what):
    require(o.shape == ro.shape and b.shape == rb.shape, "%s: results have shapes %s %s, should be %s %s", what, o.shape, b.shape, ro.shape, rb.shape)
    for f, tol in (("nmatch", 0), ("phase", 0), ("quat", 2e-5), ("fit", 2e-4), ("cm", 1e-3), ("pq", 1e-3), ("iq", 1e-3)):
        x, y = np.asarray(o[f], float), np.asarray(ro[f], float)
        if f == "quat": x = np.minimum(np.abs(x-y).max(-1), np.abs(x+y).max(-1)); y = 0*x
        bad = np.abs(x-y) > tol*(1+np.abs(y))
        require(not bad.any(), "%s: field %s is %s, for the patterns alone %s (entries %s)", what, f, o[f][bad][:3].tolist(), ro[f][bad][:3].tolist(), np.argwhere(bad)[:4].tolist())
    k = min(b["band_match_index"].shape[-1], rb["band_match_index"].shape[-1])  # a detector may have room for more phases
    require(np.array_equal(b["valid"], rb["valid"]), "%s: band field valid differs", what); require(np.array_equal(b["band_match_index"][..., :k], rb["band_match_index"][..., :k]), "%s: band field band_match_index differs", what)
    v = rb["valid"] > 0
    for f in ("theta", "rho"): require(np.abs(b[f]-rb[f])[v].max(initial=0) < 1e-2, "%s: band field %s differs by %s", what, f, np.abs(b[f]-rb[f])[v].max(initial=0))


@reg.facet("ways_of_supplying", supply, quick=250, thorough=5000, budget=180, group="supply", rule="sequences of calls on one indexer, each compared with indexing every pattern alone with a fresh indexer. Non-trivial: two or more different ways in the sequence")
def f_sup(c, rec):
    import h5py
    from pyebsdindex import ebsd_index, ebsd_pattern
    dims, n = c["dims"], c["n"]; pc0 = [dims[1]*0.48, dims[0]*0.6, 0.6*min(dims)]
    P = []
    for i, (q, k) in enumerate(zip(c["q"], c["kinds"])):
        r = np.random.default_rng(i); P.append(r.integers(0, 255, dims).astype(np.uint8) if k == "noise" else np.full(dims, 9, np.uint8) if k == "flat" else sim.to_u8(sim.pattern(k, q, dims, pc0)))
    P = np.array(P); kw = dict(phaselist=c["phases"], vendor=c["vendor"], nRho=60, nTheta=90, nBands=9, tSigma=1.0 if c["sig"] else None, rSigma=1.2 if c["sig"] else None, rhoMaskFrac=0.1)
    pc = sim.pc_for(c["vendor"], pc0, dims); pcs = [[v+0.002*i for v in pc] for i in range(n)] if c["perpat"] else [pc]*n
    ref = [ebsd_index.EBSDIndexer(patDim=dims, PC=pcs[i], **kw).index_pats(P[i])[:2] for i in range(n)]
    RO = np.concatenate([r[0] for r in ref], 1); RB = np.concatenate([r[1] for r in ref], 0)
    tmp = tempfile.mkdtemp(); ind = ebsd_index.EBSDIndexer(PC=pcs[0], patDim=dims if c["first"] == "dims" else None, **kw)
    upf = os.path.join(tmp, "p.up1"); write_up(upf, P, c["version"], (1, n)); open_h5 = []
    for t, s in enumerate(c["steps"]):
        k = s["k"]; a = s["a"] % n; cnt = s["n"]; z = n if cnt == -1 else min(a+cnt, n); sel = np.arange(a, z)
        PC = lambda idx: np.array([pcs[i] for i in idx]) if c["perpat"] else np.array(pc)
        ch = s["chunk"]; what = "step %d (%s, start %d, count %d, chunk %d) after %s" % (t, k, a, cnt, ch, [x["k"] for x in c["steps"][:t]])
        if k in ("array", "dtype", "noncontig", "patobj", "h5", "upfile", "upobj", "reuse_nofile"): ind.PC = PC(sel)
        call = dict(ebsd_indexer_obj=ind, chunksize=ch, patstart=a, npats=cnt)
        if k == "array": r = ebsd_index.index_pats(P, **call)
        elif k == "noncontig": r = ebsd_index.index_pats(np.asfortranarray(P), **call)
        elif k == "dtype": r = ebsd_index.index_pats(P.astype(s["dt"]), **call)
        elif k == "single2d": sel = np.array([a]); ind.PC = PC(sel); r = ebsd_index.index_pats(P[a], ebsd_indexer_obj=ind, chunksize=ch)
        elif k == "patobj":
            e = ebsd_pattern.EBSDPatterns(); e.patterns = P; e.nPatterns = n; r = ebsd_index.index_pats(e, **call)
        elif k in ("h5", "h5_2d"):
            p = os.path.join(tmp, "d%d.h5" % t)
            with h5py.File(p, "w") as f: f["a"] = P; f["b"] = P[a]
            f = h5py.File(p, "r"); open_h5.append(f)
            if k == "h5": r = ebsd_index.index_pats(f["a"], **call)
            else: sel = np.array([a]); ind.PC = PC(sel); r = ebsd_index.index_pats(f["b"], ebsd_indexer_obj=ind, chunksize=ch)
        elif k == "upfile": r = ebsd_index.index_pats(filename=upf, **call)
        elif k == "rewritten":  # another scan under the name of one indexed before
            ebsd_index.index_pats(filename=upf, ebsd_indexer_obj=ind, npats=1); sel = np.arange(n)[::-1][:n-s["seed"] % 2]; write_up(upf, P[sel], 3, (1, len(sel))); ind.PC = PC(sel)
            r = ebsd_index.index_pats(filename=upf, ebsd_indexer_obj=ind, chunksize=ch); write_up(upf, P, c["version"], (1, n))
        elif k == "upobj": r = ebsd_index.index_pats(filename=ebsd_pattern.get_pattern_file_obj(upf), **call)
        elif k == "reuse_nofile":
            fi = ebsd_index.EBSDIndexer(filename=upf, PC=PC(sel), **kw); r = ebsd_index.index_pats(**dict(call, ebsd_indexer_obj=fi))
        elif k == "fresh": r = ebsd_index.index_pats(P, PC=PC(sel), chunksize=ch, patstart=a, npats=cnt, **kw)
        elif k == "otherdims":
            od = [[50, 70], [dims[0], dims[1]+10], [dims[0]+10, dims[1]], [dims[1]+4, dims[0]+6]][s["od"]]; opc = [od[1]/2, 0.6*od[0], 0.6*min(od)]
            Q = np.array([sim.to_u8(sim.pattern("FCC", q, od, opc)) for q in c["q"][:2]]); ind.PC = np.array(sim.pc_for(c["vendor"], opc, od)); way = s["way"]; of = os.path.join(tmp, "o%d.up1" % t); write_up(of, Q, c["version"], (1, len(Q)))
            if way == 0: r = ebsd_index.index_pats(Q, ebsd_indexer_obj=ind)
            elif way == 1: r = ebsd_index.index_pats(filename=of, ebsd_indexer_obj=ind)
            else: ind.update_file(of if way == 2 else ebsd_pattern.get_pattern_file_obj(of)); r = ind.index_pats()
            what += " detector %s, %s" % (od, ["array", "filename", "update_file(path)", "update_file(object)"][way])
            ro, rb = ebsd_index.index_pats(Q, PC=ind.PC, **kw); compare(r[0], r[1], ro, rb, what); rec.label("other detector"); continue
        elif k == "method": ind.PC = PC(sel); r = ind.index_pats(P, patstart=a, npats=cnt, chunksize=ch)
        elif k == "pcarg":
            ind.PC = np.array([0.1, 0.2, 0.3]); r = ind.index_pats(P[sel], PC=PC(sel), chunksize=ch); require(np.array_equal(ind.PC, [0.1, 0.2, 0.3]), "PC argument changed the indexer's own PC")
        elif k == "perm": sel = np.random.default_rng(s["seed"]).permutation(n); ind.PC = PC(sel); r = ind.index_pats(P[sel], chunksize=ch)
        compare(r[0], r[1], RO[:, sel], RB[sel], what)
    for f in open_h5: f.close()
    for x in os.listdir(tmp): os.remove(os.path.join(tmp, x))
    os.rmdir(tmp)
    rec.nontrivial(len({s["k"] for s in c["steps"]}) > 1); rec.label(*[s["k"] for s in c["steps"]])


OTHER = [{"dims": d, "od": od, "way": w, "back": b, "init": i} for i in ("dims", "none") for d in ([60, 60], [48, 64]) for od in ([d[0], d[1]+10], [d[0]+12, d[1]], [d[1]+4, d[0]+6], d) for w in ("array", "method", "filename", "update_path", "update_obj", "h5") for b in ("array", "update_path") if i == "dims" or w[0] == b[0]]


@reg.facet("other_detector", OTHER, quick=120, thorough=120, budget=60, group="supply", rule="an indexer that worked on patterns of one size is given a source of another size (one or both dimensions different), and the first one again. Non-trivial: sizes differ")
def f_other(c, rec):
    import h5py
    from pyebsdindex import ebsd_index, ebsd_pattern
    kw = dict(phaselist=["FCC"], vendor="EDAX", nRho=60, nTheta=90, nBands=9, tSigma=None, rSigma=None, rhoMaskFrac=0.1); tmp = tempfile.mkdtemp(); src = {}; q = [[0.3, 0.7, 0.5, 0.41], [0.8, 0.1, -0.3, 0.5]]
    try:
        for t, d in (("a", c["dims"]), ("b", c["od"])):
            pc0 = [d[1]*0.49, 0.6*d[0], 0.6*min(d)]; P = np.array([sim.to_u8(sim.pattern("FCC", x, d, pc0)) for x in (q if t == "a" else q[::-1])]); write_up(os.path.join(tmp, t+".up1"), P, 3, (1, 2))
            src[t] = P, np.array(sim.pc_for("EDAX", pc0, d)), os.path.join(tmp, t+".up1")
        ind = ebsd_index.EBSDIndexer(PC=src["a"][1], patDim=c["dims"] if c["init"] == "dims" else None, **kw)
        for k, (t, way) in enumerate((("a", "method"), ("b", c["way"]), ("a", c["back"]), ("b", c["way"]))):
            P, pc, path = src[t]; ind.PC = pc
            if way == "array": r = ebsd_index.index_pats(P, ebsd_indexer_obj=ind)
            elif way == "method": r = ind.index_pats(P); require(tuple(r[2:]) == (0, 2), "index_pats of two patterns says it indexed %s", r[2:])
            elif way == "filename": r = ebsd_index.index_pats(filename=path, ebsd_indexer_obj=ind)
            elif way == "h5":
                with h5py.File(os.path.join(tmp, "h%d" % k), "w") as f: f["p"] = P; r = ebsd_index.index_pats(f["p"], ebsd_indexer_obj=ind)
            else: ind.update_file(path if way == "update_path" else ebsd_pattern.get_pattern_file_obj(path)); r = ind.index_pats(); require(tuple(r[2:]) == (0, 2), "index_pats of two patterns says it indexed %s", r[2:])
            ro, rb = ebsd_index.EBSDIndexer(PC=pc, patDim=P.shape[1:], **kw).index_pats(P)[:2]; compare(r[0], r[1], ro, rb, "source %d: patterns of %s by %s" % (k, P.shape[1:], way))
    finally:
        for x in os.listdir(tmp): os.remove(os.path.join(tmp, x))
        os.rmdir(tmp)
    rec.nontrivial(c["od"] != c["dims"]); rec.label(c["way"])


@st.composite
def opts(draw):
    n = draw(st.integers(2, 5)); dims = draw(st.sampled_from([[60, 60], [60, 80], [80, 60]]))
    return {"n": n, "dims": dims, "q": [draw(gen.generic_quat()) for _ in range(n)], "phase": draw(st.sampled_from(["FCC", "BCC"])), "vendor": draw(st.sampled_from(sim.VENDORS)), "seed": draw(st.integers(0, 9999)),
            "nt": draw(st.sampled_from([90, 120, 180])), "nr": draw(st.sampled_from([60, 90])), "nb": draw(st.sampled_from([8, 9, 11])), "ts": draw(st.sampled_from([None, 1.0, 1.5])), "rs": draw(st.sampled_from([None, 1.2, 1.6])), "frac": draw(st.sampled_from([0.1, 0.15, 0.25])),
            "mask": draw(st.sampled_from(["", "disk", "corner", "bars"])), "back": draw(st.booleans()), "source": draw(st.sampled_from(["array", "file", "h5"])), "verbose": draw(st.sampled_from([0, 0, 0, 1, 2])), "chunk": draw(st.sampled_from([528, 2])), "tilt": draw(st.sampled_from([70.0, 60.0])), "elev": draw(st.sampled_from([5.3, 0.0])),
            "via": draw(st.sampled_from(["options", "plan", "plan", "indexer"])), "dt": draw(st.sampled_from(["u1", "f4"])), "amp": draw(gen.floats(0.2, 1.5)), "more": draw(st.sampled_from([[], [], ["BCC"], ["HCP"], ["FCC", "HCP"]])), "room": draw(st.sampled_from([None, 1, 2, 10]))}


@reg.facet("options", opts, quick=90, thorough=3000, budget=200, group="options", rule="options of the module function (resolution, smoothing, mask, background, plan object, verbosity) against the same work done by hand on the objects behind it, and pixels outside the mask replaced by rubbish. Non-trivial: a mask or a background")
def f_opt(c, rec):
    import contextlib, io, h5py
    from pyebsdindex import ebsd_index, band_detect
    dims, n = c["dims"], c["n"]; h, w = dims; r = np.random.default_rng(c["seed"]); pc0 = [w*0.49, h*0.58, 0.6*min(dims)]; y, x = np.mgrid[:h, :w].astype(float); d = tempfile.mkdtemp()
    P = np.array([sim.pattern(c["phase"], q, dims, pc0) for q in c["q"]]); G = np.exp(-0.5*((x-w*0.52)/(0.35*w))**2-0.5*((y-h*0.47)/(0.4*h))**2)
    if c["back"]: P = P+c["amp"]*np.ptp(P)*G
    P = ((P-P.min())/np.ptp(P)*250+2); P = P.astype("u1" if c["dt"] == "u1" or c["source"] == "file" else "f4"); M = None
    if c["mask"] == "disk": M = (np.hypot(y-(h-1)/2, x-(w-1)/2) < 0.48*min(h, w)).astype(np.int64)
    elif c["mask"] == "corner": M = np.ones(dims, np.int64); M[:h//5, :w//5] = 0
    elif c["mask"] == "bars": M = np.ones(dims, np.uint8); M[:, :w//10] = 0; M[-(h//12):] = 0
    pc = sim.pc_for(c["vendor"], pc0, dims); bdk = dict(nTheta=c["nt"], nRho=c["nr"], nBands=c["nb"], tSigma=c["ts"], rSigma=c["rs"], rhoMaskFrac=c["frac"]); geo = dict(phaselist=[c["phase"]]+[t for t in c["more"] if t != c["phase"]], vendor=c["vendor"], PC=pc, sampleTilt=c["tilt"], camElev=c["elev"])
    def module(P):
        kw = dict(bdk) if c["via"] != "plan" else {"bandDetectPlan": band_detect.BandDetect(**bdk, **({"nPhases": c["room"]} if c["room"] else {}))}; kw.update(geo); m = {} if M is None else {"patternmask": M}
        if c["via"] == "indexer": kw = {"ebsd_indexer_obj": ebsd_index.EBSDIndexer(patDim=dims, **kw, **m)}
        else: kw.update(m)
        p = os.path.join(d, "p%d.up1" % len(os.listdir(d))); kw.update(verbose=c["verbose"], chunksize=c["chunk"], backgroundSub=c["back"])
        with contextlib.redirect_stdout(io.StringIO()):
            if c["source"] == "array": return ebsd_index.index_pats(P, **kw)
            if c["source"] == "file": write_up(p, P, 3, (1, n)); return ebsd_index.index_pats(filename=p, **kw)
            with h5py.File(p, "w") as f: f["a"] = P; return ebsd_index.index_pats(f["a"], **kw)
    try:
        import matplotlib.pyplot as plt
        keep = P.copy(); o, b = module(P); plt.close("all"); require(np.array_equal(P, keep), "the patterns were modified")
        ind = ebsd_index.EBSDIndexer(patDim=dims, **geo, **bdk, **({} if M is None else {"patternmask": M})); Q = P.astype(float)
        if c["back"]: bd = band_detect.BandDetect(patDim=dims); bd.collect_background(patsIn=P, nsample=1000); Q = Q-bd.backgroundsub
        ro, rb = ind.index_pats(Q)[:2]; same = all(np.array_equal(o[f], ro[f]) for f in ("nmatch", "phase"))
        if not c["back"]: compare(o, b, ro, rb, "options")
        else:
            for f in ("pq", "iq"): e = np.abs(o[f]-ro[f]).max()/(1e-6+np.abs(ro[f]).max()); require(e < 5e-3, "with background subtraction %s differs by %.2g from that of patterns with the background taken off beforehand", f, e)
            # up to crystal symmetry (two equivalents near the edge of the fundamental zone); two different solutions of the same quality are a tie that rounding may decide
            for p, q in zip(o[-1], ro[-1]):
                if not same or q["phase"] < 0: continue
                e = X.disorientation(p["quat"], q["quat"], LAUE[geo["phaselist"][q["phase"]]]); require(e < 0.02 or (e > 0.1 and abs(p["fit"]-q["fit"]) < 0.02*q["fit"]+1e-3), "with background subtraction the orientation is %.3g rad from that of patterns with the background taken off beforehand", e)
        if M is not None and not c["back"]:
            Z = P.copy(); Z[:, M == 0] = r.uniform(0, 255, (n, int((M == 0).sum()))).astype(P.dtype); compare(*module(Z), o, b, "rubbish outside the mask")
        s2d = sim.sample_to_detector(c["vendor"], c["tilt"], c["elev"]); good = sum(np.degrees(X.disorientation(R.qmul(q, s2d), t["quat"], 43)) < 2 for q, t in zip(c["q"], o[-1])); rec.label("right %d/%d" % (good, n) if good < n else "right")
        rec.nontrivial(M is not None or c["back"]); rec.label(c["mask"] or "no mask", "background" if c["back"] else "plain", c["via"], c["source"])
    finally:
        for f in os.listdir(d): os.remove(os.path.join(d, f))
        os.rmdir(d)


@reg.facet("large", lambda: st.fixed_dictionaries({"n": st.sampled_from([1061, 1300, 640, 530, 1056, 1584]), "chunk": st.sampled_from([0, 0, 0, 100, 511, 512, 513, 1024]), "a": st.sampled_from([0, 0, 1, 37, 300]), "m": st.sampled_from([-1, -1, -1, 530]), "source": st.sampled_from(["array", "file", "h5"]), "dt": st.sampled_from(["u1", "u2", "f4"]), "seed": gen.seeds, "perpat": st.booleans()}),
           quick=8, thorough=150, budget=200, group="options", rule="hundreds of patterns in one call (several of the usual chunks), repetitions of eight patterns in random order, give what each gives alone. Non-trivial: more patterns than one chunk")
def f_large(c, rec):
    import h5py
    from pyebsdindex import ebsd_index
    r = np.random.default_rng(c["seed"]); dims = [44, 40]; pc0 = [20.0, 25.0, 24.0]; n = c["n"]; base = [sim.pattern(["FCC", "BCC"][i % 2], gen_q(r), dims, pc0) for i in range(7)]+[r.normal(size=dims)]
    B = np.array([cast(p, c["dt"]) for p in base]); k = r.integers(0, 8, n); k[:8] = r.permutation(8); P = B[k]; kw = dict(phaselist=["FCC", "BCC"], vendor="EDAX", nRho=45, nTheta=60, nBands=9, tSigma=1.0, rSigma=1.2, rhoMaskFrac=0.1); pc = np.array(sim.pc_for("EDAX", pc0, dims))
    j = r.integers(0, 3, n) if c["perpat"] else np.zeros(n, int); pcs = pc+0.01*np.arange(3)[:, None]; ref = {}
    for a in range(8):
        for b in range(3 if c["perpat"] else 1): ref[a, b] = ebsd_index.EBSDIndexer(patDim=dims, PC=pcs[b], **kw).index_pats(B[a])[:2]
    a = c["a"]; z = n if c["m"] < 0 else min(n, a+c["m"]); sel = range(a, z); call = dict(PC=pcs[j[a:z]] if c["perpat"] else pc, patstart=a, npats=c["m"], **kw, **({"chunksize": c["chunk"]} if c["chunk"] else {})); d = tempfile.mkdtemp()
    try:
        if c["source"] == "file" and c["dt"] != "f4": p = os.path.join(d, "p.up1" if c["dt"] == "u1" else "p.up2"); write_up(p, P, 3, (1, n)); o, b = ebsd_index.index_pats(filename=p, **call)
        elif c["source"] == "h5":
            with h5py.File(os.path.join(d, "p.h5"), "w") as f: f["a"] = P; o, b = ebsd_index.index_pats(f["a"], **call)
        else: o, b = ebsd_index.index_pats(P, **call)
    finally:
        for f in os.listdir(d): os.remove(os.path.join(d, f))
        os.rmdir(d)
    compare(o, b, np.concatenate([ref[k[i], j[i]][0] for i in sel], 1), np.concatenate([ref[k[i], j[i]][1] for i in sel]), "%d patterns, chunk %s" % (len(sel), c["chunk"] or "default")); rec.nontrivial(len(sel) > (c["chunk"] or 528)); rec.label(c["source"])


def gen_q(r): q = r.normal(size=4); return (q/np.linalg.norm(q)).tolist()
