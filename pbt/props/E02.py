"""E02: choice of the best phase, no-solution marking, per-band match record."""
import numpy as np
from hypothesis import strategies as st
from ..core import Registry, require
from ..ref import rot as R, xtal as X
from .. import gen, sim

reg = Registry()
RULE = ("Batches of simulated patterns of several phases, noise and featureless patterns indexed with one to three candidate phases in any order; and the same selection logic "
        "fed with generated per-phase results. Non-trivial: at least two candidate phases.")
ASSUMPTIONS = ["'explains more bands with the better fit' is (3 degrees - fit) * matched bands; three matched bands are the least that count as a solution", "a later phase is not tried on a pattern for which an earlier one matched nband_earlyexit bands (default: all detected bands)",
               "FCC, BCC and HCP share many interplanar angles: the true phase has to win for at least 80 % of the clean patterns of a run", "the fit is the mean deviation of the (at most six) bands used for the refinement, so with more matches it is only required to lie between the smallest and largest deviation",
               "a featureless (constant) pattern is one no phase can explain; noise may match three bands by chance"]


def score(l): return (3.0-l["fit"].astype(np.float64))*l["nmatch"]


def check_layers(o, nph, what):
    """structure that holds for every result"""
    for j in range(nph):
        l = o[j]; un = l["phase"] == -1
        require(((l["phase"] == j) | un).all(), "%s: layer %d holds phase numbers %s", what, j, sorted(set(l["phase"].tolist())))
        require((l["fit"][un] == 180).all() and (l["nmatch"][un] == 0).all() and (l["cm"][un] == 0).all(), "%s: layer %d, no-solution entries have fit %s nmatch %s", what, j, l["fit"][un][:3], l["nmatch"][un][:3])
        require((l["nmatch"][~un] >= 3).all() and (l["fit"][~un] < 180).all(), "%s: layer %d, solutions with nmatch %s fit %s", what, j, l["nmatch"][~un], l["fit"][~un])
        require(np.isfinite(l["quat"]).all(), "%s: layer %d has non-finite orientations", what, j)
        require(np.abs(np.linalg.norm(l["quat"][~un], axis=-1)-1).max(initial=0) < 1e-5, "%s: layer %d, quaternions of solutions not of unit length", what, j)
    S = np.array([score(o[j]) for j in range(nph)]); best = S.max(0)
    for i in range(o.shape[1]):
        f = o[-1][i]; same = [j for j in range(nph) if o[j][i].tobytes() == f.tobytes()]
        require(len(same) > 0, "%s: final entry %d (%s) is not a copy of any phase's entry", what, i, f)
        sol = [j for j in range(nph) if o[j]["phase"][i] >= 0]
        require(any(S[j][i] >= best[i]-1e-4 for j in same), "%s: pattern %d: phase %s chosen with score %.4f, best is %.4f (scores %s)", what, i, f["phase"], S[same[0]][i], best[i], S[:, i].tolist())
        if sol and max(S[j][i] for j in sol) > 0: require(f["phase"] in sol, "%s: pattern %d has solutions for phases %s but final phase is %s", what, i, sol, f["phase"])
        if not sol: require(f["phase"] == -1 and f["fit"] == 180 and f["nmatch"] == 0, "%s: pattern %d without any solution is reported as %s", what, i, f)


@st.composite
def case(draw):
    n = draw(st.integers(1, 6)); ph = draw(st.permutations(["FCC", "BCC", "HCP"]))[:draw(st.integers(1, 3))]
    return {"phases": ph, "pats": [{"k": draw(st.sampled_from(["FCC", "BCC", "HCP", "noise", "flat", "zero"])), "q": draw(gen.generic_quat()), "noise": draw(st.sampled_from([0, 0.2]))} for _ in range(n)],
            "early": draw(st.sampled_from([None, None, 20, 6])), "vendor": draw(st.sampled_from(["EDAX", "OXFORD", "BRUKER"])), "dims": draw(st.sampled_from([[60, 60], [60, 80]])), "nb": draw(st.sampled_from([9, 9, 7, 12])), "objs": draw(st.booleans()), "seed": draw(st.integers(0, 999))}

LIB = {}
truth = {"n": 0, "ok": 0}


def lib(name):
    from pyebsdindex import tripletvote
    if name not in LIB: LIB[name] = tripletvote.addphase(libtype=name)
    return LIB[name]


@reg.facet("phases_of_patterns", case, quick=250, thorough=6000, budget=150, group="pats", rule=RULE)
def f_pats(c, rec):
    from pyebsdindex import ebsd_index
    dims = c["dims"]; pcp = [dims[1]*0.5, dims[0]*0.6, 0.6*min(dims)]; rng = np.random.default_rng(c["seed"])
    P = []
    for p in c["pats"]:
        P.append(rng.integers(0, 255, dims).astype(np.uint8) if p["k"] == "noise" else np.full(dims, 77, np.uint8) if p["k"] == "flat" else np.zeros(dims, np.uint8) if p["k"] == "zero"
                 else sim.to_u8(sim.pattern(p["k"], p["q"], dims, pcp, noise=p["noise"], rng=rng)))
    P = np.array(P); nph = len(c["phases"]); pc = sim.pc_for(c["vendor"], pcp, dims)
    kw = dict(vendor=c["vendor"], PC=pc, patDim=dims, nTheta=120, nRho=60, tSigma=None, rSigma=None, rhoMaskFrac=0.1, nBands=c["nb"])
    ind = ebsd_index.EBSDIndexer(phaselist=[lib(p) for p in c["phases"]] if c["objs"] else c["phases"], nband_earlyexit=c["early"], **kw)
    o, b = ind.index_pats(P)[:2]; what = "phases %s, patterns %s" % (c["phases"], [p["k"] for p in c["pats"]])
    require(o.shape == (nph+1, len(P)), "result shape %s", o.shape); check_layers(o, nph, what)
    # every layer against indexing with that phase only
    if c["early"] is not None: early = c["early"]
    elif c["objs"]: early = max(lib(p).nband_earlyexit for p in c["phases"])
    else: early = c["nb"]
    for j, p in enumerate(c["phases"]):
        so, sb = ebsd_index.EBSDIndexer(phaselist=[lib(p)], nband_earlyexit=99, **kw).index_pats(P)[:2]
        for i in range(len(P)):
            tried = all(o[k]["nmatch"][i] < early for k in range(j))
            d, s = o[j][i], so[0][i]
            if not tried: require(d["phase"] == -1 and (b[i]["band_match_index"][:, j] < 0).all(), "%s: pattern %d: phase %d was evaluated though phase %s already matched %d bands", what, i, j, c["phases"][:j], early); continue
            require((d["phase"] >= 0) == (s["phase"] >= 0) and d["nmatch"] == s["nmatch"] and abs(d["fit"]-s["fit"]) < 1e-3 and min(np.abs(d["quat"]-s["quat"]).max(), np.abs(d["quat"]+s["quat"]).max()) < 1e-4,
                    "%s: pattern %d, phase %s among others: %s; alone: %s", what, i, p, d, s)
            require(np.array_equal(b[i]["band_match_index"][:, j], sb[i]["band_match_index"][:, 0]), "%s: pattern %d phase %s: band matches %s, alone %s", what, i, p, b[i]["band_match_index"][:, j], sb[i]["band_match_index"][:, 0])
    # featureless patterns
    for i, p in enumerate(c["pats"]):
        if p["k"] in ("flat", "zero"):
            require((o["phase"][:, i] == -1).all() and (o["fit"][:, i] == 180).all(), "%s: featureless pattern %d indexed as phase %s with fit %s", what, i, o[-1]["phase"][i], o[-1]["fit"][i])
            require((b[i]["band_match_index"][:, :nph] < 0).all(), "featureless pattern with matched bands")
        elif p["k"] in c["phases"] and p["noise"] == 0 and (c["early"] is None or c["early"] > 9) and c["nb"] >= 9:
            truth["n"] += 1; truth["ok"] += int(o[-1]["phase"][i] == c["phases"].index(p["k"]))
            require(truth["ok"] >= 0.8*truth["n"]-4, "only %d of %d clean patterns are given their true phase (last: %s with %s)", truth["ok"], truth["n"], p["k"], c["phases"])
    # the per-band record of every phase agrees with the orientation
    s2d = sim.sample_to_detector(c["vendor"], 70.0, 5.3)
    th, rho = np.asarray(b["theta"], float), np.asarray(b["rho"], float)
    foot = np.stack([rho*np.cos(th)+dims[1]/2-pcp[0], rho*np.sin(th)+dims[0]/2-pcp[1], np.full(th.shape, pcp[2])], -1); N = np.cross(foot, np.stack([-np.sin(th), np.cos(th), 0*th], -1)); N /= np.linalg.norm(N, axis=-1, keepdims=True)
    keep = (o.copy(), b.copy())
    for which in [-1]+list(range(nph)):
        cart = ind.getmatchedpole(o, b, phasenumber=which, float_out=True); ints = ind.getmatchedpole(o, b, phasenumber=which)
        require(cart.shape == (len(P), c["nb"], 3) and ints.shape == cart.shape and ints.dtype.kind == "i", "getmatchedpole shapes %s %s", cart.shape, ints.shape)
        for i in range(len(P)):
            lay = o[which][i] if which >= 0 else o[-1][i]; ph = int(lay["phase"]); m = np.linalg.norm(cart[i], axis=-1) > 1e-6
            require(np.array_equal(m, (ints[i] != 0).any(-1)), "pattern %d: poles as integers and as vectors name different bands", i)
            if ph < 0: require(not m.any(), "%s: pattern %d without solution has matched poles", what, i); continue
            require(m.sum() == lay["nmatch"], "%s: pattern %d phase %s: %d bands carry a pole, nmatch is %d", what, i, c["phases"][ph], m.sum(), lay["nmatch"])
            sg, cell, _ = sim.XTAL[c["phases"][ph]]; G = X.recip(X.cell_vectors(*(list(lib(c["phases"][ph]).latticeparameter))))
            g = ints[i][m] @ G; g /= np.linalg.norm(g, axis=-1, keepdims=True)
            require(np.abs(g-cart[i][m]).max() < 1e-4, "%s: pattern %d: integer pole %s does not have the direction %s", what, i, ints[i][m][0], cart[i][m][0])
            qd = R.qmul(lay["quat"], R.qconj(s2d)); M = R.qu2om(qd); v = cart[i][m] @ M      # crystal -> detector
            ang = np.degrees(np.arccos(np.clip(np.abs((v*N[i][m]).sum(-1)), 0, 1)))
            require(ang.max() < 5.0, "%s: pattern %d, phase %s: pole %s lies %.2f degrees off the band it is matched to", what, i, c["phases"][ph], ints[i][m][ang.argmax()], ang.max())
            f = float(np.degrees(np.arccos(np.clip(np.cos(np.radians(ang)).mean(), -1, 1))))
            require(abs(lay["fit"]-f) < 0.05 if m.sum() <= 6 else ang.min()-0.05 <= lay["fit"] <= ang.max()+0.05, "%s: pattern %d, phase %s: fit %.3f, deviations of the matched bands %s", what, i, c["phases"][ph], lay["fit"], np.round(ang, 3).tolist())
    require(keep[0].tobytes() == o.tobytes() and keep[1].tobytes() == b.tobytes(), "getmatchedpole changed the results")
    rec.nontrivial(nph > 1); rec.label(*[p["k"] for p in c["pats"]])


@st.composite
def stub(draw):
    nph = draw(st.integers(1, 4)); n = draw(st.integers(1, 5))
    ent = lambda: {"nm": draw(st.sampled_from([-1, 0, 2, 3, 4, 5, 6, 7, 8, 9, 9])), "fit": draw(st.one_of(st.sampled_from([0.0, 1.0, 1.5, 2.999, 0.5]), gen.floats(0, 2.99))), "cm": draw(gen.floats(0, 1)), "q": draw(gen.generic_quat())}
    return {"e": [[ent() for _ in range(n)] for _ in range(nph)], "early": draw(st.sampled_from([None, 5, 9, 99])), "attr": draw(st.sampled_from([10, 8])), "vendor": draw(st.sampled_from(["EDAX", "OXFORD"])), "twice": draw(st.booleans())}


@reg.facet("selection", stub, quick=600, thorough=15000, budget=80, group="stub", rule="generated per-phase solutions (matched bands, fit, orientation) injected below the selection step. Non-trivial: two or more phases")
def f_stub(c, rec):
    from pyebsdindex import ebsd_index
    from pyebsdindex.tripletvote import BandIndexer
    nph, n = len(c["e"]), len(c["e"][0]); dims = [20, 20]; P = np.random.default_rng(3).uniform(0, 255, [n]+dims); keys = {}; log = []

    class Stub(BandIndexer):
        def __init__(self, j): self.j = j; self.nband_earlyexit = c["attr"]
        def bandindex(self, band_norms, *a, **k):
            x = np.asarray(band_norms); m = x.shape[0]; nb = x.shape[1] if x.ndim > 1 else 0
            e = [c["e"][self.j][keys[x[i].tobytes()]] for i in range(m)]; log.append((self.j, [keys[x[i].tobytes()] for i in range(m)]))
            pm = np.full((m, nb), -1000); 
            for i, z in enumerate(e): pm[i, :max(z["nm"], 0)] = self.j*10
            return (np.array([z["q"] for z in e]).reshape(m, 4), np.array([z["fit"] for z in e]), np.array([z["cm"] for z in e]), pm, np.array([z["nm"] for z in e], dtype=int), np.zeros((m, 4), np.int32), np.array([z["nm"] for z in e], dtype=np.int32))

    class Probe(Stub):
        def bandindex(self, band_norms, *a, **k):
            for i in range(n): keys[np.asarray(band_norms)[i].tobytes()] = i
            return Stub.bandindex(self, band_norms)
    kw = dict(patDim=dims, nTheta=30, nRho=20, nBands=9, vendor=c["vendor"])
    ebsd_index.EBSDIndexer(phaselist=[Probe(0)], **kw).index_pats(P); require(len(keys) == n, "harness: bands of the patterns are not distinct")
    ind = ebsd_index.EBSDIndexer(phaselist=[Stub(j) for j in range(nph)], nband_earlyexit=c["early"], **kw)
    for rnd in range(2 if c["twice"] else 1):
        o, b = ind.index_pats(P)[:2]; check_layers(o, nph, "injected results")
        early = c["early"] if c["early"] is not None else c["attr"]; s2d = sim.sample_to_detector(c["vendor"], 70.0, 5.3)
        for i in range(n):
            done = False
            for j in range(nph):
                e = c["e"][j][i]; d = o[j][i]
                if done or e["nm"] < 3: require(d["phase"] == -1 and d["fit"] == 180 and d["nmatch"] == 0 and (b[i]["band_match_index"][:, j] < 0).all(), "pattern %d: phase %d %s is reported as %s", i, j, "was not needed but" if done else "without solution", d)
                else:
                    w = R.qmul(e["q"], s2d); w = w/np.linalg.norm(w)
                    require(d["phase"] == j and d["nmatch"] == e["nm"] and abs(d["fit"]-e["fit"]) < 1e-5 and abs(d["cm"]-e["cm"]) < 1e-5 and d["totvotes"] == e["nm"], "pattern %d phase %d: reported %s, was %s", i, j, d, e)
                    require(min(np.abs(d["quat"]-w).max(), np.abs(d["quat"]+w).max()) < 1e-6, "pattern %d phase %d: orientation %s should be %s", i, j, d["quat"], w)
                    require((b[i]["band_match_index"][:e["nm"], j] == 10*j).all() and (b[i]["band_match_index"][e["nm"]:, j] < 0).all(), "pattern %d phase %d: band record %s", i, j, b[i]["band_match_index"][:, j])
                    done = done or e["nm"] >= early
        require(not [1 for j, pts in log if len(set(pts)) != len(pts)], "a pattern was given twice to one phase")
    rec.nontrivial(nph > 1); rec.label("early %s" % c["early"])
