"""P01: band detection and indexing on a GPU, on a stand-in for the device that runs the kernels of the tree."""
import contextlib, io, zlib
import h5py
import numpy as np
from hypothesis import strategies as st
from .. import fakecl
from ..core import Registry, require
fakecl.install()
from .. import gen
from . import B02, E01

reg = Registry()
RULE = ("Batches of 1 to 72 patterns of drawn bands, noise and nothing in seven data types, with masks, backgrounds and chunks, and simulated patterns of FCC, BCC and HCP phases. "
        "Non-trivial: the kernels of the tree did run (or a fault stopped them where one was injected) and the rule of the CPU facet holds.")
ASSUMPTIONS = ["there is no device here: a stand-in for pyopencl compiles the .cl files of the tree with clang and runs the work items one after the other in ascending or descending order, in memory with arbitrary content; races between work items and vendor specific compilers are not covered",
               "tolerances as in B02 and E01; detection on the device smooths in a slightly different way, so single positions may differ by 1.6 bins and the average by 0.25 bins from those of the CPU (measured on 17000 bands: 0.8 and 0.05 bins)",
               "the values of the strengths (max, avemax, width, normmax) are only compared between runs on the device"]


def gpu():
    from pyebsdindex.opencl.band_detect_cl import BandDetect
    return BandDetect


@contextlib.contextmanager
def device(c):
    h = zlib.crc32(repr(sorted(c.items())).encode()); fakecl.DEV.update(fill=(0, 0x3f, 0x7f, 0xc0, 0xff)[h % 5], max_alloc=2**30, limit=2**30, unified=False); fakecl.ORDER["back"] = h//5 % 2
    fakecl.STAT["by"].clear(); fakecl.FAULT.clear(); old = B02.detector; B02.detector = gpu
    try: yield
    finally: B02.detector = old; fakecl.FAULT.clear(); fakecl.DEV.update(fill=0, limit=2**30); fakecl.ORDER["back"] = 0


class Rec:
    """hands labels on; a case counts only if the kernels did run"""
    def __init__(self, rec): self.rec = rec
    def nontrivial(self, ok=True): self.rec.nontrivial(bool(ok) and sum(fakecl.STAT["by"].values()) > 0)
    def label(self, *a): self.rec.label(*a)


for name, strat, f, q, g, b, rule in (("drawn_bands", B02.case, B02.f_drawn, 200, "a", 50, "B02 drawn_bands on the device: drawn bands are found at the right place and are the strongest"),
                                      ("independence", B02.batch, B02.f_ind, 150, "b", 100, "B02 independence on the device: batches against the same patterns alone, permuted, chunked, with more bands"),
                                      ("featureless", B02.flat, B02.f_flat, 150, "c", 40, "B02 featureless on the device: patterns of constant intensity have no bands"),
                                      ("simulated_orientation", E01.ocase, E01.f_or, 200, "d", 60, "E01 orientation on the device: simulated patterns are indexed with the orientation they were made of"),
                                      ("ways_of_supplying", E01.supply, E01.f_sup, 100, "e", 90, "E01 ways of supplying on the device: arrays, files, objects, data types and orders give the same results")):
    def body(c, rec, f=f):
        with device(c): f(c, Rec(rec))
    reg.facet(name, strat, quick=q, thorough=20*q, budget=b, group=g, rule=rule+". Non-trivial: the kernels did run and the rule there")(body)


@reg.facet("subbin", B02.fine, quick=6, thorough=120, budget=60, group="i", shrink=1, rule="B02 subbin on the device: positions of 120 random single bands are, on the average, right to a small part of a bin. Non-trivial: the kernels did run")
def f_fine(c, rec):
    with device(c): B02.f_fine(c, Rec(rec))


@reg.facet("theta_ends", B02.fine, quick=6, thorough=120, budget=60, group="j", shrink=1,
           rule="single bands within three bins of 0 or 180 degrees: the device finds them, on the average of 80, where the CPU does to 0.015 rho bins and 0.045 theta bins (0.05 and 0.11 where a rho bin is less than half a pixel; measured: 0.009, 0.03, 0.03, 0.06). Non-trivial: the kernels did run")
def f_ends(c, rec):
    with device(c):
        from pyebsdindex.band_detect import BandDetect
        h, w, nt, nr = c["geo"]; D = [k(patDim=[h, w], nTheta=nt, nRho=nr, nBands=9) for k in (BandDetect, gpu())]; r = np.random.default_rng(c["seed"]); R = min(h, w)/2
        P = np.array([B02.draw_bands([h, w], [[r.uniform(-3, 3)*180/nt, r.uniform(-0.7, 0.7)*R, 100.0]], r.uniform(1, 1.6)*max(1, R/30)) for _ in range(80)]); A, B = (np.asarray(d.find_bands(P)["aveloc"], float) for d in D); E = []
        for a, b in zip(A[:, 0], B):
            alt = np.array([a, [nr-2-a[0], a[1]+nt], [nr-2-a[0], a[1]-nt]]); d = (alt[:, None]-b[None, :2]).reshape(-1, 2); E.append(np.abs(d[np.abs(d).max(1).argmin()]))
        m = np.sort(np.array(E), 0)[:76].mean(0); Rec(rec).nontrivial()
        fine = 2*R/nr > 0.5; require(m[0] < (0.015 if fine else 0.05) and m[1] < (0.045 if fine else 0.11), "bands near the ends of theta are, on the average, %.3f rho bins and %.3f theta bins from where the CPU finds them", *m)


DT = ["u1", "u2", "f4", "f8", "i4", "u4", ">u2", "i2", ">f4"]


@st.composite
def pair(draw):
    dims = draw(st.sampled_from([[60, 60], [40, 52], [90, 64], [61, 60]])); n = draw(st.sampled_from([1, 2, 5, 15, 16, 17, 20, 33]))
    return {"dims": dims, "n": n, "k": draw(st.integers(2, 5)), "seed": draw(gen.seeds), "nt": draw(st.sampled_from([180, 90, 120])), "nr": draw(st.sampled_from([90, 60])), "nb": draw(st.sampled_from([9, 12])), "chunk": draw(st.sampled_from([-1, 7, 16, 528])), "dt": draw(st.sampled_from(DT)),
            "back": draw(st.booleans()), "mask": draw(st.booleans()), "noise": draw(st.sampled_from([0, 5, 15])), "amp": draw(st.sampled_from([1.0, 1.0, 1.0, 100.0]))}


def stack(c):
    """patterns of the case, with a detector of each kind and the background in use"""
    r = np.random.default_rng(c["seed"]); dims = c["dims"]; R = min(dims)/2; P = []; y, x = np.mgrid[0:dims[0], 0:dims[1]]; kw = {}
    hill = 60*np.exp(-((x-dims[1]/2)**2+(y-dims[0]/2)**2)/(0.1*dims[0]*dims[1]))*c["amp"]
    for i in range(c["n"]):
        t = r.uniform(0, 180)+np.arange(c["k"])*(30+r.uniform(0, 5)); b = [[v % 180, r.uniform(-0.6, 0.6)*R, 100*0.85**j] for j, v in enumerate(t)]
        P.append(B02.draw_bands(dims, b, 1.3*max(1, R/30))*r.uniform(0.3, 0.7)+r.normal(size=dims)*c["noise"]*0.3)
    P = np.array(P)*(c["amp"] if c["dt"] != "u1" else 1); hill = hill if c["dt"] != "u1" else hill/c["amp"]; P = P+(hill if c["back"] else 0)
    P = P.astype(c["dt"]) if "f" in c["dt"] else np.clip(np.rint(P), 0, 255 if c["dt"] == "u1" else 32767).astype(c["dt"])
    if c["mask"]: kw["patternmask"] = (np.hypot(y-(dims[0]-1)/2, x-(dims[1]-1)/2) < 0.49*min(dims)).astype(int)
    from pyebsdindex.band_detect import BandDetect
    D = [k(patDim=dims, nTheta=c["nt"], nRho=c["nr"], nBands=c["nb"], **kw) for k in (BandDetect, gpu())]
    if c["back"]:
        for d in D: d.backgroundsub = hill
    return P, D


def near(a, b, nt, nr):
    """smallest distance in bins of a position to a list of them, a line may be described from both ends of theta"""
    alt = np.array([a, [nr-2-a[0], a[1]+nt], [nr-2-a[0], a[1]-nt]]); return np.abs(alt[:, None]-b[None]).max(-1).min()


@reg.facet("as_cpu", pair, quick=150, thorough=4000, budget=90, group="f", rule="the strongest bands are at the places the CPU class finds them. Non-trivial: the kernels did run")
def f_cpu(c, rec):
    with device(c):
        P, (cpu, dev) = stack(c); keep = P.copy(); want = cpu.find_bands(P.astype(float)); got = dev.find_bands(P, chunksize=c["chunk"]); require(np.array_equal(P, keep), "find_bands modified the patterns"); require(got.shape == want.shape, "shape %s", got.shape); k = min(c["k"], 5); E = []
        with h5py.File("stack", "w", driver="core", backing_store=False) as h:
            for w, Q in (("in Fortran order", np.asfortranarray(P)), ("as a dataset of an HDF5 file", h.create_dataset("p", data=P)), ("as a view with columns read backwards", P[:, :, ::-1].copy()[:, :, ::-1])): B02.same(got, dev.find_bands(Q, chunksize=c["chunk"]), "the same patterns "+w)
        for i in range(c["n"]):
            for a, b, s in ((got[i], want[i], "the device finds band %s at bins %s, the CPU none near there"), (want[i], got[i], "the CPU finds band %s at bins %s, the device none near there")):
                v = b["valid"] > 0; require((a["valid"][:k] > 0).all() and v[:k].all(), "pattern %s of %s: %s and %s valid bands for %s drawn ones", i, c["dt"], a["valid"].sum(), v.sum(), c["k"])
                for j in range(k-1 if c["noise"] else k):
                    e = near(a["aveloc"][j].astype(float), b["aveloc"][v].astype(float), c["nt"], c["nr"]); E.append(e); require(e < 1.6, "pattern %d of %d: "+s+" (nearest %.2f bins away)", i, c["n"], j, a["aveloc"][j].tolist(), e)
        if len(E) >= 20: require(np.mean(E) < 0.25, "the bands of the device are, on the average, %.2f bins from those of the CPU", np.mean(E))
        Rec(rec).nontrivial(); rec.label(c["dt"], "n > 16" if c["n"] > 16 else "n <= 16", "back" if c["back"] else "no back")


@st.composite
def blocks(draw): return {**draw(pair()), "n": draw(st.integers(17, 72)), "chunk": draw(st.sampled_from([-1, 528, 528, 24, 48, 33])), "back": draw(st.sampled_from([True, True, False])), "dims": draw(st.sampled_from([[40, 40], [36, 44], [41, 40]])), "nt": 90, "nr": draw(st.sampled_from([60, 45])), "dt": draw(st.sampled_from(["u1", "u2", "u1", "f4", "i2"]))}


@reg.facet("blocks", blocks, quick=80, thorough=3000, budget=60, group="k", rule="batches of 17 to 72 patterns: the same patterns in reverse order and one by one have the same bands. Non-trivial: the kernels did run")
def f_blocks(c, rec):
    with device(c):
        P, (_, dev) = stack(c); n = len(P); full = dev.find_bands(P, chunksize=c["chunk"]); B02.same(full[::-1], dev.find_bands(P[::-1].copy(), chunksize=c["chunk"]), "reversed batch of %d %s patterns%s" % (n, c["dt"], " with a background" if c["back"] else ""))
        for i in {n-1, 16, int(np.random.default_rng(c["seed"]).integers(n))}: B02.same(full[i:i+1], dev.find_bands(P[i]), "pattern %d of %d alone" % (i, n))
        Rec(rec).nontrivial(); rec.label("n > 32" if n > 32 else "n <= 32", "back" if c["back"] else "no back")


KERNELS = ["radonSum", "radonPadRho2", "convolution3d2d", "imageMinAve", "imageSubMinNormWClip", "morphDilateKernelBF", "im1EQim2", "maxmask", "maxlabel"]


@st.composite
def faulty(draw): return {**draw(pair()), "kernel": draw(st.sampled_from(KERNELS+["memory"])), "at": draw(st.integers(0, 2)), "cpu": draw(st.sampled_from([False, False, False, True]))}


@reg.facet("fallback", faulty, quick=60, thorough=2000, budget=60, group="g", rule="a launch that fails, a device without the memory, or a detector told to use the CPU: the results are those of the CPU class. Non-trivial: the fault happened")
def f_fall(c, rec):
    with device(c):
        P, (cpu, dev) = stack(c); want = cpu.find_bands(P); dev.useCPU = c["cpu"]
        if c["kernel"] == "memory": fakecl.DEV["limit"] = 1000*(1+50*c["at"])
        else: fakecl.FAULT[(c["kernel"], c["at"])] = "error"
        with contextlib.redirect_stdout(io.StringIO()): got = dev.find_bands(P, chunksize=c["chunk"])
        n = fakecl.STAT["by"].get(c["kernel"], 0); hit = c["kernel"] == "memory" or n > c["at"]
        if c["cpu"]: require(not fakecl.STAT["by"], "told to use the CPU, the device ran %s", dict(fakecl.STAT["by"]))
        if hit or c["cpu"]:
            for f in want.dtype.names: require(np.array_equal(got[f], want[f]), "%s: field %s is not that of the CPU: %s and %s", "told to use the CPU" if c["cpu"] else "after a failure of %s" % c["kernel"], f, got[f][:1].tolist(), want[f][:1].tolist())
        rec.nontrivial(hit or c["cpu"]); rec.label("useCPU" if c["cpu"] else c["kernel"])
        # the device works again: so does the detector
        if not c["cpu"] and hit:
            fakecl.FAULT.clear(); fakecl.DEV["limit"] = 2**30; fakecl.STAT["by"].clear(); dev.find_bands(P); require(sum(fakecl.STAT["by"].values()) > 0, "after one failure the device is not used any more")


@st.composite
def radon(draw): return {**draw(pair()), "pad": draw(st.sampled_from([[0, 0], [4, 7], [0, 3], [11, 13]])), "how": draw(st.sampled_from(["SUBTRACT", "divide"])), "fix": draw(st.booleans())}


@reg.facet("radon", radon, quick=60, thorough=2000, budget=40, group="h", rule="the Radon transform of the device class has the values of the CPU class, bins without pixels are marked the same. Non-trivial: more than one pattern")
def f_radon(c, rec):
    with device(c):
        from pyebsdindex.opencl import radon_fast_cl
        from pyebsdindex import radon_fast
        P, (cpu, dev) = stack(c); P = P.astype(np.float32); pad = np.array(c["pad"]); R = [k(imageDim=c["dims"], nTheta=c["nt"], nRho=c["nr"], mask=cpu.patternmask if c["mask"] else None) for k in (radon_fast.Radon, radon_fast_cl.Radon)]
        b = cpu.backgroundsub+0.5 if c["back"] else None; Q = P if b is None else P/np.maximum(b, 1) if c["how"] == "divide" else P-b; want = R[0].radon_faster(Q.astype(np.float32), padding=pad, fixArtifacts=c["fix"])
        got, _ = R[1].radon_fasterCL(P.copy(), padding=pad, fixArtifacts=c["fix"], background=b, background_method=c["how"], returnBuff=False)
        require(got.shape == want.shape, "shapes %s and %s", got.shape, want.shape); e = np.abs(got-want); lim = 1e-4*np.abs(P).max(); require((e <= lim).all(), "values differ by %.3g: %s and %s at %s", e.max(), got[np.unravel_index(e.argmax(), e.shape)], want[np.unravel_index(e.argmax(), e.shape)], np.unravel_index(e.argmax(), e.shape))
        Rec(rec).nontrivial(c["n"] > 1); rec.label("missing bins" if (want == R[0].missingval).any() else "all bins")
