"""C02: lattice geometry."""
import io, contextlib, math
import numpy as np
from hypothesis import strategies as st
from ..core import Registry, require
from ..ref import xtal as X
from .. import gen, xgen

reg = Registry()
RULE = "Random cells (general triclinic and all special shapes, lengths 0.2-30) against explicit Cartesian cell vectors. Non-trivial: at least one angle differs from 90 degrees."
ASSUMPTIONS = ["matrix elements below 1e-6 are set to zero by design, so comparisons allow 2e-6 absolute error per element"]


@st.composite
def cell(draw):
    s = draw(st.sampled_from([1.0, 1.0, 10.0]))
    k = draw(st.integers(0, 3))
    c = draw(xgen.cell_for(draw(st.sampled_from([2, 3, 4, 22, 43])))) if k == 0 else draw(xgen.cell_for(1))
    return [x*s for x in c[:3]] + c[3:]


def close(A, B, what, case, scale=1.0, rel=1e-9):
    A, B = np.asarray(A, float), np.asarray(B, float)
    require(A.shape == B.shape and np.abs(A-B).max() <= 2e-6*scale + rel*np.abs(B).max(), "cell %s: %s is %s, should be %s", case["cell"], what, A.tolist(), B.tolist())


@reg.facet("matrices", lambda: st.fixed_dictionaries({"cell": cell(), "h": st.lists(st.lists(st.integers(-6, 6), min_size=3, max_size=3), min_size=1, max_size=4)}),
           quick=4000, thorough=100000, budget=60, group="main", rule=RULE)
def f_mat(case, rec):
    from pyebsdindex.crystallometry import Crystal
    x = Crystal("t", *case["cell"]); V = X.cell_vectors(*case["cell"]); G = X.recip(V)
    close(x.directStructureMatrix, V.T, "direct structure matrix", case)
    close(x.reciprocalStructureMatrix, G.T, "reciprocal structure matrix", case)
    close(x.metricTensor, V @ V.T, "metric tensor", case)
    close(x.reciprocalMetricTensor, G @ G.T, "reciprocal metric tensor", case)
    close(x.invDirectStructureMatrix, np.linalg.inv(V.T), "inverse direct structure matrix", case)
    close(x.invReciprocalStructureMatrix, np.linalg.inv(G.T), "inverse reciprocal structure matrix", case)
    close([x.volume], [abs(np.linalg.det(V))], "volume", case); close([x.mtDet], [np.linalg.det(V)**2], "metric determinant", case)
    # lattice vectors through the matrices: Cartesian normals, lengths, the zone law
    for h in np.array(case["h"], float):
        n = np.asarray(x.reciprocalStructureMatrix) @ h; close(n, G.T @ h, "Cartesian normal of %s" % h, case, 20)
        d = np.asarray(x.directStructureMatrix) @ h; close(d, V.T @ h, "Cartesian direction of %s" % h, case, 20)
        close([h @ np.asarray(x.reciprocalMetricTensor) @ h], [n @ n], "squared length of reciprocal vector %s" % h, case, 400)
        for u in np.array(case["h"], float):
            close([n @ (np.asarray(x.directStructureMatrix) @ u)], [h @ u], "zone product", case, 400*max(case["cell"][:3])*10)
    rec.nontrivial(any(a != 90.0 for a in case["cell"][3:]))


@reg.facet("plane_list", lambda: st.fixed_dictionaries({"cell": cell(), "mx": st.integers(1, 3), "f": st.sampled_from([0.0, 0.3, 0.6])}), quick=60, thorough=1000, budget=40, group="main",
           rule="the generated plane list holds each unmixed (face-centred) plane up to the given index with spacing above the limit, with its spacing. Non-trivial: the limit removes some")
def f_planes(case, rec):
    from pyebsdindex.crystallometry import Crystal
    x = Crystal("t", *case["cell"]); G = X.recip(X.cell_vectors(*case["cell"])); mx = case["mx"]; dmin = case["f"]*max(case["cell"][:3])/2
    with contextlib.redirect_stdout(io.StringIO()):
        x.generate_list_of_planes(maxhkl=mx, dmin=dmin)
    got = {tuple(int(i) for i in p.hkl): float(np.ravel(p.d)[0]) for p in x.planeList if np.any(p.hkl)}
    nwant = 0; near = 0
    r = range(-mx, mx+1)
    for h in r:
        for k in r:
            for l in r:
                if (h, k, l) == (0, 0, 0) or len({h % 2, k % 2, l % 2}) > 1: continue
                d = 1/np.linalg.norm(np.array([h, k, l]) @ G)
                if abs(d-dmin) < 1e-4*max(d, 1): near += 1; got.pop((h, k, l), None); continue
                if d > dmin:
                    require((h, k, l) in got, "plane %s with d=%.4f missing (limit %.4f)", (h, k, l), d, dmin)
                    # metric elements below 1e-6 are zeroed, so d carries a relative error up to 1e-6 d^2
                    require(abs(got.pop((h, k, l)) - d) < 1e-7*d + 1e-4*d**3, "plane %s: wrong spacing", (h, k, l)); nwant += 1
    require(not got, "planes that should not be listed: %s", sorted(got)[:5])
    rec.nontrivial(nwant < 20 and nwant > 0)


@reg.facet("uvtw", lambda: st.lists(st.integers(-6, 6), min_size=3, max_size=3).filter(lambda x: any(x)), quick=600, thorough=5000, budget=20, group="main",
           rule="a 4-index direction and its 3-index form are the same direction of the hexagonal cell, reduced to lowest terms. Non-trivial: not along c")
def f_uvtw(case, rec):
    from pyebsdindex.crystallometry import uvtw2uvw
    U, Vv, W = case; T = -(U+Vv)
    y = np.asarray(uvtw2uvw([U, Vv, T, W]), float)
    V = X.cell_vectors(1, 1, 1.6, 90, 90, 120)
    d4 = U*V[0] + Vv*V[1] + T*(-(V[0]+V[1])) + W*V[2]; d3 = y @ V
    require(np.linalg.norm(np.cross(d3/np.linalg.norm(d3), d4/np.linalg.norm(d4))) < 1e-9 and d3 @ d4 > 0, "[%s] became %s", [U, Vv, T, W], y.tolist())
    require(np.abs(y-np.rint(y)).max() < 1e-9 and math.gcd(*[int(abs(round(i))) for i in y]) == 1, "[%s] became %s: not lowest terms", [U, Vv, T, W], y.tolist())
    rec.nontrivial(U != 0 or Vv != 0)
