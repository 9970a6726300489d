"""C01: space group -> Laue class -> rotation operators."""
import numpy as np
from hypothesis import strategies as st
from ..core import Registry, require
from ..ref import rot as R, xtal as X
from .. import gen, xgen

reg = Registry()
RULE = "All 230 space groups are enumerated; orientations and cells are generated.  Non-trivial: a class with more than the identity operator."
ASSUMPTIONS = ["settings: unique axis b for monoclinic, hexagonal axes for trigonal, two-fold axes of class -3m along a"]


def same(M, N): return np.abs(M-N).max() < 1e-5


@reg.facet("all_space_groups", [{"sg": i} for i in range(1, 231)], budget=120, group="enum", rule="every space group 1-230, exhaustively")
def f_all(case, rec):
    from pyebsdindex import crystal_sym as cs
    from pyebsdindex.tripletvote import BandIndexer
    sg = case["sg"]; l = X.laue(sg)
    require(cs.spacegroup2lauenumber(sg) == l, "space group %d: Laue class %s, should be %d", sg, cs.spacegroup2lauenumber(sg), l)
    ind = BandIndexer(); ind.setspacegroup(sg)
    require(ind.lauecode == l, "band indexer: space group %d has Laue class %s, should be %d", sg, ind.lauecode, l)
    for name, ops in (("laueid2symops", cs.laueid2symops(l)), ("spacegroupnum2symops", cs.spacegroupnum2symops(sg)), ("BandIndexer.qsymops", ind.qsymops)):
        ops = np.asarray(ops)
        require(ops.shape == (X.ORDER[l], 4), "%s: space group %d has operators of shape %s, the group has order %d", name, sg, ops.shape, X.ORDER[l])
        require(np.abs(np.linalg.norm(ops, axis=1)-1).max() < 1e-6, "%s: operator not of unit length", name)
        M = [R.qu2om(q) for q in ops]
        for i, m in enumerate(M):
            require(sum(same(m, n) for n in M) == 1, "%s: space group %d: operator %d is a duplicate", name, sg, i)
            require(sum(same(m, n) for n in X.GROUPS[l]) == 1, "%s: space group %d: operator %d (%s) is not a symmetry of Laue class %d", name, sg, i, ops[i].tolist(), l)
        require(any(same(m, np.eye(3)) for m in M), "no identity")
        for a in M:
            require(any(same(a.T, n) for n in M), "%s: space group %d: inverse missing", name, sg)
            for b in M:
                require(any(same(a @ b, n) for n in M), "%s: space group %d: not closed", name, sg)
    rec.nontrivial(l != 1)


@st.composite
def lat(draw):
    sg = draw(xgen.sg); return {"sg": sg, "cell": draw(xgen.cell_for(X.laue(sg))), "q": draw(gen.quat()), "h": draw(st.lists(st.integers(-4, 4), min_size=3, max_size=3))}


@reg.facet("lattice_invariance", lat, quick=1500, thorough=30000, budget=60, group="gen",
           rule="a space group with a compatible cell: every operator maps the direct and the reciprocal lattice onto itself; equivalent orientations see the same set of lattice planes. "
                "Non-trivial: class with more than the identity")
def f_lat(case, rec):
    from pyebsdindex import crystal_sym as cs
    sg = case["sg"]; l = X.laue(sg); ops = np.asarray(cs.spacegroupnum2symops(sg), float)
    V = X.cell_vectors(*case["cell"]); G = X.recip(V)
    for q in ops:
        M = R.qu2om(q)
        for name, B in (("direct", V), ("reciprocal", G)):
            N = (M @ B.T).T @ np.linalg.inv(B)
            require(np.abs(N-np.rint(N)).max() < 1e-4, "space group %d, cell %s: operator %s does not map the %s lattice onto itself: %s", sg, case["cell"], q.tolist(), name, N.tolist())
    rec.nontrivial(l != 1); rec.label(l)


FN = {43: ("cubicsym_q", False), 23: ("cubicsym_q", True), 62: ("hexsym_q", False), 6: ("hexsym_q", True), 32: ("trigonal_q", False), 3: ("trigonal_q", True),
      42: ("tetragonal_q", False), 4: ("tetragonal_q", True), 22: ("orthorhombic_q", False), 2: ("monoclinic_q", False), 1: ("triclinic_q", False)}


@reg.facet("equivalent_orientations", lambda: st.fixed_dictionaries({"l": st.sampled_from(sorted(FN)), "q": gen.quat()}), quick=1500, thorough=30000, budget=40, group="gen",
           rule="orientations equivalent to a generated one, from the function of each crystal system; each is a symmetry operator applied to it, none missing. Non-trivial: more than one operator")
def f_eq(case, rec):
    from pyebsdindex import crystal_sym as cs
    l = case["l"]; name, low = FN[l]; q = np.array(case["q"]); q0 = q.copy()
    Y = np.asarray(getattr(cs, name)(quatin=q, low=low)).reshape(-1, 4)
    require(np.array_equal(q, q0), "%s modified its input", name)
    require(len(Y) == X.ORDER[l], "%s returns %d equivalent orientations, should be %d", name, len(Y), X.ORDER[l])
    want = [R.qmul(s, q) for s in X.QGROUPS[l]]
    for y in Y: require(sum(R.qangle(y, w) < 1e-5 for w in want) == 1, "%s(%s): %s is not an equivalent orientation", name, case["q"], y.tolist())
    for w in want: require(sum(R.qangle(y, w) < 1e-5 for y in Y) == 1, "%s(%s): equivalent orientation %s missing or repeated", name, case["q"], w.tolist())
    o = np.asarray(getattr(cs, name)(low=low)); require(len(o) == len(Y), "operator count differs")
    rec.nontrivial(l != 1); rec.label(l)


@reg.facet("hex_indices", lambda: st.lists(st.lists(st.integers(-9, 9), min_size=3, max_size=3), min_size=1, max_size=8), quick=800, thorough=10000, budget=20, group="gen",
           rule="three- and four-index poles convert to each other without change, i = -(h+k). Non-trivial: h+k != 0")
def f_hex(case, rec):
    from pyebsdindex import crystal_sym as cs
    p3 = np.array(case); p4 = np.asarray(cs.hex3poles2hex4poles(p3)); require(p4.shape == (len(p3), 4), "shape %s", p4.shape)
    require(np.array_equal(p4, np.c_[p3[:, 0], p3[:, 1], -(p3[:, 0]+p3[:, 1]), p3[:, 2]]), "4-index form of %s is %s", p3.tolist(), p4.tolist())
    require(np.array_equal(np.asarray(cs.hex4poles2hex3poles(p4)), p3), "round trip changed %s", p3.tolist())
    rec.nontrivial(any(h[0]+h[1] for h in case))
