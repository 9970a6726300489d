"""O01: result files read back by independent parsers."""
import copy, os, shutil, tempfile
import numpy as np, h5py
from hypothesis import strategies as st
from ..core import Registry, require
from ..ref import rot as R, xtal as X
from .. import gen, fmt
from .F01 import spec, contents, opened, step_of, one

reg = Registry()
RULE = ("Random result arrays (one to three phases, unindexed points, special orientations) with an indexer with or without a pattern file, written as .ang and .oh5 and parsed independently. "
        "Non-trivial: more than one row and more than one column, or more than one phase.")
ASSUMPTIONS = ["with one pattern center for each pattern, the header holds their mean", ".ang has 5 decimals for angles, positions, 3 for confidence and fit, 1 for quality; .oh5 single precision", "cells are taken as nanometres and written in Angstrom", "a single phase is number 0 in the points of an .ang file (as EDAX does); otherwise phases count from 1 (from 0 in .oh5 files of version 9)",
               "unindexed points have confidence -1 and phase number 0; their angles only have to be finite", "the step sizes and grid of the pattern file take precedence over the arguments, as documented nowhere but throughout the code; a grid given explicitly wins"]
PH = {"FCC": (225, [1, 1, 1, 90, 90, 90], [[0, 0, 2], [1, 1, 1], [0, 2, 2], [1, 1, 3]]), "BCC": (229, [0.2866, 0.2866, 0.2866, 90, 90, 90], [[0, 1, 1], [0, 0, 2], [1, 1, 2]]),
      "HCP": (194, [0.295, 0.295, 0.4683, 90, 90, 120], [[1, 0, -1, 0], [0, 0, 0, 2], [1, 0, -1, 1], [1, 1, -2, 0]]), "hex3": (176, [0.9, 0.9, 0.69, 90, 90, 120], [[2, 1, 1], [0, 0, 2], [1, 1, 0]]),
      "ortho": (62, [0.508, 0.674, 0.4523, 90, 90, 90], [[1, 2, 1], [2, 0, 0], [0, 3, 1], [1, 1, 1]]), "tri": (2, [0.51, 0.61, 0.72, 81.5, 97.25, 103], [[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, -1, 0], [1, 2, -3]]), "trig": (167, [0.4758, 0.4758, 1.299, 90, 90, 120], [[1, 0, 4], [1, 1, 0], [1, 1, 6]])}
LIB = {}


def lib(k):
    from pyebsdindex import tripletvote
    if k not in LIB: sg, cell, fam = PH[k]; LIB[k] = tripletvote.addphase(phasename=k, spacegroup=sg, latticeparameter=cell, polefamilies=fam)
    return LIB[k]


@st.composite
def result(draw):
    ph = draw(st.lists(st.sampled_from(sorted(PH)), min_size=1, max_size=draw(st.sampled_from([1, 2, 3, 3, 3, 12])))); grid = draw(st.sampled_from([[3, 4], [4, 3], [1, 5], [5, 1], [1, 1], [6, 7], [2, 2]]*3+[[25, 40], [300, 4], [2, 1000]])); f = None
    if draw(st.booleans()):
        f = draw(spec(("UP1", "UP2", "EBSP", "OH5", "BRUKER", "KIKUCHIPY", "OXFORD"))); f["s"]["missing"] = []; f["hw"] = [4, 4]
        if f["s"]["fmt"] == "EBSP": f["s"]["version"] = 4; f["s"]["xy"] = True
        grid = f["grid"]
    return {"phases": ph, "names": [draw(st.sampled_from(["Nickel", "Iron (Alpha)", "x", "Ti 6-4", "\u03b1-Ti", "a,b#c"])) for _ in ph], "file": f, "grid": grid, "cut": draw(st.sampled_from([0, 0, 0, 1, 2])), "gridarg": draw(st.sampled_from(["", "cols", "both"])),
            "step": [draw(st.sampled_from([1.0, 0.25, 1.35, 12.5])), draw(st.sampled_from([1.0, 0.5, 2.125]))], "stepargs": draw(st.booleans()), "pc": [draw(gen.floats(0.2, 0.8)) for _ in range(3)], "tilt": draw(st.sampled_from([70.0, 65.5, 0.0])), "elev": draw(st.sampled_from([5.3, 0.0, -10.25])),
            "un": draw(st.sampled_from([0.0, 0.2, 1.0, 0.5])), "seed": draw(gen.seeds), "special": draw(st.booleans()), "version": draw(st.sampled_from(["8.6", "8.6", "9.1"])), "scan": draw(st.sampled_from(["Scan 1", "My Sample/Area 2"])), "gt": draw(st.sampled_from(["SqrGrid", "SqrGrid", "HexGrid"])), "perpat": draw(st.integers(0, 4)) == 4, "over": draw(st.booleans())}


def data_of(c, dt):
    r = np.random.default_rng(c["seed"]); n = c["grid"][0]*c["grid"][1]; k = len(c["phases"])
    if not c["file"] and c["gridarg"]: n = max(1, n-c["cut"])
    D = np.zeros((k+1, n), dtype=dt)
    for j in range(k+1):
        q = r.normal(size=(n, 4))
        if c["special"]:
            for i in range(n):
                w = r.integers(0, 5)
                if w == 0: q[i] = [1, 0, 0, 0]
                if w == 1: q[i, 1:3] = 0
                if w == 2: q[i, 0] = q[i, 3] = 0
        q /= np.linalg.norm(q, axis=1)[:, None]; q[q[:, 0] < 0] *= -1; D[j]["quat"] = q
        D[j]["iq"] = r.uniform(0, 9e3, n); D[j]["pq"] = 10.0**r.uniform(-2, 6, n); D[j]["cm"] = r.uniform(0, 1, n); D[j]["fit"] = r.uniform(0, 3, n); D[j]["phase"] = r.integers(0, k, n); D[j]["nmatch"] = 7
        u = r.random(n) < c["un"]; D["phase"][j, u] = -1; D["quat"][j, u] = 0; D["fit"][j, u] = 180; D["cm"][j, u] = r.choice([0.0, 0.35])
    return D


def near(a, b, tol): return np.shape(a) == np.shape(b) and bool(np.all(np.abs(np.asarray(a, float)-np.asarray(b, float)) <= tol))


def angles(eu, D, tol, what):
    eu = np.asarray(eu, float); require(np.isfinite(eu).all(), "%s: angles that are not finite", what)
    for i in np.nonzero(D["phase"] >= 0)[0]:
        e = R.qangle(R.om2qu(R.eu2om(eu[i])), D["quat"][i]); require(e < tol, "%s: the angles %s of point %d are another orientation than its quaternion %s (%.2g rad)", what, eu[i].tolist(), i, D["quat"][i].tolist(), e)
    require((eu > -1e-6).all() and (eu < 2*np.pi+1e-4).all(), "%s: angles outside 0 to 2 pi", what)


def parse_ang(path):
    raw = open(path, "rb").read().decode("utf-8").replace("\r\n", "\n"); H = {"phases": {}}; rows = []; cur = None; ended = False
    for l in raw.split("\n"):
        if l.startswith("#"):
            require(not ended, "a header line after the first point: %r", l); t = l[1:].strip(); k, _, v = t.partition(" ") if "\t" not in t.split(" ")[0] else t.partition("\t"); k = k.rstrip(":"); v = v.strip()
            if k == "Phase": cur = {"fam": []}; require(int(v) not in H["phases"], "phase %s is described twice", v); H["phases"][int(v)] = cur
            elif k == "hklFamilies": cur["fam"].append([int(x) for x in v.split()[:3]]); require(len(v.split()) == 6, "malformed family line %r", l)
            elif k in ("MaterialName", "Symmetry", "LatticeConstants", "NumberFamilies"): require(k not in cur, "%s given twice for a phase", k); cur[k] = v
            elif k: H.setdefault(k, v)
        elif l.strip(): ended = True; rows.append([float(x) for x in l.split()])
    return H, rows


def check_phase(name, ph, what, got_name, sym, cell, nfam, fam, want_name, tol):
    sg, c0, f0 = PH[ph]; f3 = [[f[0], f[1], f[-1]] for f in f0]
    require(got_name == want_name, "%s: phase name %r, should be %r", what, got_name, want_name); require(sym == X.laue(sg), "%s: symmetry %s for space group %d", what, sym, sg)
    require(near(cell, [c0[0]*10, c0[1]*10, c0[2]*10]+c0[3:], tol), "%s: lattice constants %s, the cell is %s", what, cell, c0); require(nfam == len(f3), "%s: %s families announced, there are %d", what, nfam, len(f3)); require([list(map(int, x)) for x in fam] == f3, "%s: families %s, should be %s", what, fam, f3)


@reg.facet("files", result, quick=700, thorough=30000, budget=70, rule="one result array as .ang and as .oh5. Non-trivial: more than one row and column, or more than one phase")
def f_files(c, rec):
    from pyebsdindex import ebsdfile, ebsd_index
    d = tempfile.mkdtemp()
    try:
        libs = []
        for k, nm in zip(c["phases"], c["names"]): l = copy.copy(lib(k)); l.phasename = nm; libs.append(l)
        ind = ebsd_index.EBSDIndexer(phaselist=libs, PC=c["pc"], sampleTilt=c["tilt"], camElev=c["elev"]); grid = c["grid"]; step = c["step"] if c["stepargs"] else [1.0, 1.0]
        if c["file"]:
            f = c["file"]; p = os.path.join(d, "in"+fmt.EXT[f["s"]["fmt"]]); fmt.write(p, f["s"], contents(f), f["grid"], f["step"]); ind.fID = opened(p, f); s = (one(ind.fID.xStep), one(ind.fID.yStep)); step = s if s[0] > 1e-6 else step
        D = data_of(c, ind.dataTemplate); n = D.shape[1]; keep = D.copy(); kw = dict(gridtype=c["gt"])
        if c["perpat"]: ind.PC = np.array(c["pc"])+np.random.default_rng(1).normal(size=(n, 3))*0.01; c = dict(c, pc=ind.PC.mean(axis=0).tolist())
        if c["stepargs"]: kw.update(xstep=c["step"][0], ystep=c["step"][1])
        if c["gridarg"]: kw["ncols"] = grid[1]
        if c["gridarg"] == "both": kw["nrows"] = grid[0]
        nc, nr = grid[1], grid[0]
        if not c["file"] and not c["gridarg"]: nc, nr = 1, n
        elif c["gridarg"] == "cols": nr = -(-n//nc)
        E = D[-1].copy(); un = E["phase"] < 0; i = np.arange(n); xy = np.stack([(i % nc)*step[0], (i//nc)*step[1]], 1)
        # .ang
        p = os.path.join(d, "out.ang")
        if c["over"]: open(p, "w").write("  1.0 2.0 3.0\n"*3000)  # a file of that name may be there already
        ebsdfile.writeang(p, ind, D, **kw); require(D.tobytes() == keep.tobytes(), "writeang changed the results in memory"); H, rows = parse_ang(p)
        require(len(rows) == n, ".ang: %d records for %d points", len(rows), n); require(all(len(r) == 10 for r in rows), ".ang: records with %s columns", {len(r) for r in rows}); A = np.array(rows)
        angles(A[:, :3], E, 6e-5, ".ang"); require(near(A[:, 3:5], xy, 2e-5+1e-6*np.abs(xy).max()), ".ang: positions do not follow the grid of %d columns with steps %s", nc, list(step)); require(near(A[:, 5], E["pq"], 0.051+1e-6*E["pq"].max()), ".ang: quality is not that of the points")
        add = 0 if len(libs) == 1 else 1; want = np.where(un, 0, E["phase"]+add); require(np.array_equal(A[:, 7], want), ".ang: phase numbers %s, should be %s", A[:, 7].tolist(), want.tolist())
        require(near(A[:, 6], np.where(un, -1, E["cm"]), 6e-4), ".ang: confidence is not that of the points (-1 when unindexed)"); require(near(A[~un, 9], E["fit"][~un], 6e-4), ".ang: fit is not that of the points")
        for k, v in (("x-star", c["pc"][0]), ("y-star", c["pc"][1]), ("z-star", c["pc"][2]), ("SampleTiltAngle", c["tilt"]), ("CameraElevationAngle", c["elev"]), ("NCOLS_ODD", nc), ("NCOLS_EVEN", nc), ("NROWS", nr), ("XSTEP", step[0]), ("YSTEP", step[1])):
            require(k in H, ".ang: no %s in the header", k); require(abs(float(H[k])-v) < 1e-6*max(1, abs(v)), ".ang: header has %s %s, should be %s", k, H[k], v)
        require(H.get("GRID") == c["gt"], ".ang: grid type %s", H.get("GRID")); require(sorted(H["phases"]) == list(range(1, len(libs)+1)), ".ang: phases %s described", sorted(H["phases"]))
        for j, k in enumerate(c["phases"]):
            B = H["phases"][j+1]; check_phase(k, k, ".ang phase %d" % (j+1), B["MaterialName"], int(B["Symmetry"]), [float(x) for x in B["LatticeConstants"].split()], int(B["NumberFamilies"]), B["fam"], c["names"][j], 6e-4)
        # .oh5
        p = os.path.join(d, "out.oh5")
        if c["over"]: ebsdfile.writeoh5(p, ind, np.concatenate([D, D], axis=1), datasetname=c["scan"], version="8.6" if c["version"] == "9.1" else "9.1", **kw)
        ebsdfile.writeoh5(p, ind, D, datasetname=c["scan"], version=c["version"], **kw); require(D.tobytes() == keep.tobytes(), "writeoh5 changed the results in memory")
        with h5py.File(p, "r") as h:
            G = h[c["scan"]+"/EBSD"]; V = {k: G["Data"][k][()] for k in G["Data"]}; txt = lambda a: bytes(np.asarray(a).reshape(-1)[0]).decode("utf-8").rstrip("\0"); hd = lambda k: np.asarray(G["Header"][k][()]).reshape(-1)[0]
            for k, v in V.items(): require(v.shape == (n,), ".oh5: %s holds %s values for %d points", k, v.shape, n)
            angles(np.stack([V["Phi1"], V["Phi"], V["Phi2"]], 1), E, 2e-5, ".oh5"); require(near(np.stack([V["X Position"], V["Y Position"]], 1), xy, 1e-5*(1+np.abs(xy).max())), ".oh5: positions do not follow the grid of %d columns with steps %s", nc, list(step))
            for k, fld in (("IQ", "iq"), ("Pattern Quality", "pq"), ("Fit", "fit")): require(near(V[k], E[fld], 1e-6*np.abs(E[fld]).max()+1e-6), ".oh5: %s is not that of the points", k)
            add = 1 if c["version"] == "8.6" else 0; want = np.where(un, 0, E["phase"]+add); require(np.array_equal(V["Phase"], want), ".oh5: phase numbers %s, should be %s", V["Phase"].tolist(), want.tolist()); require(near(V["CI"], np.where(un, -1, E["cm"]), 1e-6), ".oh5: confidence is not that of the points (-1 when unindexed)")
            for k, v in (("Pattern Center Calibration/x-star", c["pc"][0]), ("Pattern Center Calibration/y-star", c["pc"][1]), ("Pattern Center Calibration/z-star", c["pc"][2]), ("Sample Tilt", c["tilt"]), ("Camera Elevation Angle", c["elev"]), ("nColumns", nc), ("nRows", nr), ("Step X", step[0]), ("Step Y", step[1])): require(abs(float(hd(k))-v) < 1e-6*max(1, abs(v)), ".oh5: header has %s %s, should be %s", k, hd(k), v)
            for k in G["Header/Pattern Center Calibration"]:
                if "AdjCoeff" in k: require(hd("Pattern Center Calibration/"+k) == 0, ".oh5: the pattern center moves with the position (%s = %s)", k, hd("Pattern Center Calibration/"+k))
            require(txt(G["Header/Grid Type"][()]) == c["gt"], ".oh5: grid type"); P = G["Header/Phase"]; require(sorted(P) == sorted(str(j+add) for j in range(len(libs))), ".oh5: phases %s described", sorted(P))
            for j, k in enumerate(c["phases"]):
                B = P[str(j+add)]; g = lambda n: np.asarray(B[n][()]).reshape(-1)[0]; F = B["hkl Families"][()]; require(int(g("SpaceGroupNumber")) == PH[k][0], ".oh5: space group %s for phase %s", g("SpaceGroupNumber"), k)
                check_phase(k, k, ".oh5 phase %d" % (j+add), txt(B["MaterialName"][()]), int(g("LGsymID")), [float(g("Lattice Constant "+x)) for x in ("a", "b", "c", "alpha", "beta", "gamma")], int(g("NumberFamilies")), [[x["H"], x["K"], x["L"]] for x in F], c["names"][j], 1e-4)
            require(txt(h["Manufacturer"][()]) == "EDAX" and "OIM Analysis" in txt(h["Version"][()]), ".oh5: manufacturer or version missing")
        rec.nontrivial(min(grid) > 1 or len(libs) > 1); rec.label("phases:%d" % len(libs), "file" if c["file"] else "no file", "all unindexed" if un.all() else "some unindexed" if un.any() else "indexed")
    finally: shutil.rmtree(d)
