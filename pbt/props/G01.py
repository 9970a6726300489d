"""G01: pattern-centre conventions, line -> plane normal, sample frame."""
import numpy as np
from hypothesis import strategies as st
from ..core import Registry, require
from ..ref import rot as R, xtal as X
from .. import gen, sim

reg = Registry()
RULE = ("Physical set-ups (detector shape, source position, line in the detector) expressed in all five vendor conventions. "
        "Non-trivial: a detector that is not square or a source that is off centre.")
ASSUMPTIONS = ["conventions: EDAX (x, y from lower left in width/height, z in the smaller side), OXFORD (all in widths, from lower left), BRUKER/KIKUCHIPY (from upper left, width/height/height), EMSOFT (pixels from the centre, distance in the unit of the pixel size)",
               "pixel (0, 0) is the upper left one and the Radon plan refers to pixel centres", "EDAX, KIKUCHIPY and EMSOFT report in a sample frame with x down and y right on the detector, OXFORD and BRUKER with x right and y up"]


@st.composite
def setup(draw):
    k = draw(st.integers(0, 3))
    dims = draw(st.sampled_from([[60, 60], [40, 60], [60, 40], [48, 64], [101, 63], [480, 640], [10, 25]])) if k else [draw(st.integers(8, 200)), draw(st.integers(8, 200))]
    n = draw(st.integers(1, 4))
    pcs = [[draw(gen.floats(0.2, 0.8))*dims[1], draw(gen.floats(0.1, 0.95))*dims[0], draw(gen.floats(0.3, 1.2))*min(dims)] for _ in range(n)]
    nb = draw(st.integers(1, 5)); nth = draw(st.sampled_from([180, 90, 144])); nr = draw(st.sampled_from([90, 60, 45]))
    loc = [[[draw(gen.floats(0, nr-1)), draw(gen.floats(0, nth-1))] for _ in range(nb)] for _ in range(n)]
    return {"dims": dims, "pc": pcs, "loc": loc, "nt": nth, "nr": nr, "delta": draw(st.sampled_from([1.0, 50.0, 59.2, 12.5])), "shared": draw(st.booleans()),
            "case": draw(st.booleans()), "delta_var": draw(st.booleans()), "pct": draw(st.sampled_from(["f8", "f4", "f4", "F", "list"]))}


@reg.facet("radon_to_normal", setup, quick=1500, thorough=40000, budget=60, group="main", rule=RULE)
def f_r2p(c, rec):
    from pyebsdindex.band_detect import BandDetect
    dims, n, nb = c["dims"], len(c["pc"]), len(c["loc"][0])
    plan = BandDetect(patDim=dims, nTheta=c["nt"], nRho=c["nr"], nBands=max(nb, 1))
    rp = plan.radonPlan; rmax = float(rp.rhoMax)
    require(abs(rmax-min(dims)/2) < 1.0 and rp.nRho == c["nr"] and rp.nTheta == c["nt"], "plan of size %s has rhoMax %s, nRho %s, nTheta %s", dims, rmax, rp.nRho, rp.nTheta)
    pcs = np.array(c["pc"]); loc = np.array(c["loc"])
    if c["shared"]: pcs[:] = pcs[0]
    drho = 2*rmax/c["nr"]; th = np.radians(loc[..., 1]*180/c["nt"]); rho = loc[..., 0]*drho-(rmax-drho)
    # two points of the line x cos(th) + y sin(th) = rho (y down, origin in the centre of the pattern), then lower-left origin with y up
    foot = np.stack([rho*np.cos(th), rho*np.sin(th)], -1); dirv = np.stack([-np.sin(th), np.cos(th)], -1)
    def up(v): return np.stack([v[..., 0]+dims[1]/2, dims[0]/2-v[..., 1]], -1)
    P1, P2 = up(foot-37*dirv), up(foot+41*dirv)
    S = pcs[:, None, :]
    A = np.concatenate([P1-S[..., :2], np.broadcast_to(S[..., 2:], P1.shape[:-1]+(1,))], -1); B = np.concatenate([P2-S[..., :2], np.broadcast_to(S[..., 2:], P2.shape[:-1]+(1,))], -1)
    N = np.cross(A, B); N /= np.linalg.norm(N, axis=-1, keepdims=True)
    delta = [c["delta"]*(1+(i if c["delta_var"] else 0)) for i in range(n)]
    for ven in sim.VENDORS:
        pc = np.array([sim.pc_for(ven, p, dims, d) for p, d in zip(pcs, delta)])
        arg = pc[0] if (c["shared"] and not (ven == "EMSOFT" and c["delta_var"])) else pc
        arg = arg.tolist() if c["pct"] == "list" else np.asfortranarray(arg) if c["pct"] == "F" else arg.astype(c["pct"])
        keep = np.array(arg, float).copy()
        bd = np.zeros((n, nb), dtype=plan.dataType); bd["aveloc"] = loc
        got = np.asarray(rp.radon2pole(bd, PC=arg, vendor=ven.lower() if c["case"] else ven))
        require(np.array_equal(keep, np.array(arg, float)), "%s: the pattern centre (%s) was modified", ven, c["pct"])
        require(got.shape == (n, nb, 3), "normals have shape %s", got.shape)
        require(np.abs(np.linalg.norm(got, axis=-1)-1).max() < 1e-5, "%s: normals not of unit length", ven)
        e = np.linalg.norm(np.cross(got, N), axis=-1).max()
        require(e < 2e-4, "%s, detector %s, PC %s: band normal %s, should be %s (%.4f rad off)", ven, dims, np.asarray(arg).tolist(), got[0][0].tolist(), N[0][0].tolist(), e)
        # reported line parameters: same line with y up
        lt, lr = np.asarray(bd["theta"], float), np.asarray(bd["rho"], float)
        e1 = np.abs(lr-(np.cos(lt)*(P1[..., 0]-dims[1]/2)+np.sin(lt)*(P1[..., 1]-dims[0]/2))).max(); e2 = np.abs(lr-(np.cos(lt)*(P2[..., 0]-dims[1]/2)+np.sin(lt)*(P2[..., 1]-dims[0]/2))).max()
        require(max(e1, e2) < 2e-3*rmax/20+2e-3, "%s: reported theta/rho describe a different line (%.4f pixels off)", ven, max(e1, e2))
    rec.nontrivial(dims[0] != dims[1] or np.abs(pcs[:, :2]-np.array([dims[1]/2, dims[0]/2])).max() > 1); rec.label("shared" if c["shared"] else "per pattern")


@st.composite
def full(draw):
    dims = draw(st.sampled_from([[60, 60], [60, 80], [80, 60], [64, 90]])); m = min(dims)
    pc = lambda: [draw(gen.floats(0.35, 0.65))*dims[1], draw(gen.floats(0.4, 0.8))*dims[0], draw(gen.floats(0.5, 0.75))*m]
    k = draw(st.integers(1, 2))
    return {"dims": dims, "pc": [pc() for _ in range(k)], "q": [draw(gen.generic_quat()) for _ in range(2)], "tilt": draw(st.one_of(st.sampled_from([70.0, 0.0, 90.0]), gen.floats(0, 80))),
            "elev": draw(st.one_of(st.sampled_from([0.0, 5.3, -10.0]), gen.floats(-20, 40))), "delta": draw(st.sampled_from([50.0, 70.3])), "phase": draw(st.sampled_from(["FCC", "BCC"]))}


@reg.facet("orientation_all_vendors", full, quick=60, thorough=1500, budget=90, group="full",
           rule="simulated patterns of known orientation indexed with every vendor's convention, tilt and elevation. Non-trivial: every case")
def f_full(c, rec):
    from pyebsdindex import ebsd_index
    dims = c["dims"]; pcs = [c["pc"][i % len(c["pc"])] for i in range(2)]; l = 43
    P = np.array([sim.to_u8(sim.pattern(c["phase"], q, dims, pc)) for q, pc in zip(c["q"], pcs)])
    for ven in sim.VENDORS:
        pc = np.array([sim.pc_for(ven, p, dims, c["delta"]) for p in pcs])
        if len(c["pc"]) == 1: pc = pc[0]
        ind = ebsd_index.EBSDIndexer(phaselist=[c["phase"]], vendor=ven, PC=pc, sampleTilt=c["tilt"], camElev=c["elev"], patDim=dims)
        o = ind.index_pats(P)[0]
        s2d = sim.sample_to_detector(ven, c["tilt"], c["elev"])
        for i in range(2):
            want = R.qmul(c["q"][i], s2d); e = np.degrees(X.disorientation(want, o[-1]["quat"][i], l))
            require(e < 0.7, "%s, tilt %.1f, elevation %.1f, detector %s: orientation %s, should be %s (%.2f degrees off)", ven, c["tilt"], c["elev"], dims, o[-1]["quat"][i].tolist(), want.tolist(), e)
    rec.nontrivial(); rec.label(c["phase"])


@reg.facet("unknown_vendor", [{"v": "FOO"}], budget=20, group="main", rule="a vendor that does not exist is refused")
def f_unk(c, rec):
    from pyebsdindex import ebsd_index
    ind = ebsd_index.EBSDIndexer(phaselist=["FCC"], vendor=c["v"], PC=[.5, .5, .5], patDim=(20, 20), nTheta=30, nRho=20)
    try: ind.index_pats(np.random.default_rng(3).uniform(0, 255, (1, 20, 20)))
    except ValueError: rec.nontrivial(); return
    require(False, "vendor FOO was accepted")
