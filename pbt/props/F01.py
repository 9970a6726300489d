"""F01: pattern files read back what was written, whole, ranged and in rectangles."""
import os, shutil, tempfile
import numpy as np
from hypothesis import strategies as st
from ..core import Registry, require
from .. import gen, fmt

reg = Registry()
RULE = ("Files of every layout with random pattern size, grid, steps, order of storage and contents over the whole value range, written by independent writers or created through the package, "
        "then read in several ways. Non-trivial: more than one row and more than one column.")
ASSUMPTIONS = ["layouts: UP1/UP2 version 1 and 3, EBSP version 1-4 uncompressed, TFPAT version 1, and the HDF5 layouts of EDAX, Bruker, Oxford and kikuchipy in the versions the readers accept; EBSP versions 0 and 5 are not generated; hexagonal grids only as the flag in the header (every row of the same length)",
               "the independent writers follow the layouts the readers document; no vendor file is available here",
               "steps of an .ebsp scan are only known when it has at least two columns and two rows, as only the locations are stored"]


KINDS = ("UP1", "UP2", "EBSP", "EBSP", "TFPAT", "OH5", "EDAXH5", "BRUKER", "KIKUCHIPY", "OXFORD")


@st.composite
def spec(draw, kinds=KINDS):
    f = draw(st.sampled_from(kinds)); s = {"fmt": f}
    grid = draw(st.sampled_from([[3, 4], [4, 3], [2, 5], [5, 2], [1, 4], [4, 1], [1, 1], [7, 6], [2, 2]]))
    if draw(st.integers(0, 11)) == 11: grid = draw(st.sampled_from([[23, 31], [1, 300], [260, 1], [16, 17], [129, 2], [3, 257]]))
    hw = draw(st.sampled_from([[4, 6], [6, 4], [5, 5], [1, 3], [3, 1], [1, 1], [13, 9]]+([[61, 47], [130, 3], [1, 300], [257, 256]] if grid[0]*grid[1] < 50 else []))); n = grid[0]*grid[1]
    if f in ("UP1", "UP2"): s["version"] = draw(st.sampled_from([3, 3, 1])); s["pad"] = draw(st.sampled_from([0, 0, 0, 6, 240]))
    elif f == "EBSP":
        s["version"] = draw(st.sampled_from([1, 2, 3, 4])); s["xy"] = s["version"] == 1 or draw(st.sampled_from([True, True, False])); s["dt"] = draw(st.sampled_from(["u1", "u2", "u1", "u2", "u4"]))
        s["ydown"] = draw(st.booleans()); s["x0"] = draw(st.sampled_from([0.0, 12.25, -3.5])); s["y0"] = draw(st.sampled_from([0.0, -40.75, 8.5]))
        s["order"] = draw(st.permutations(range(n))) if n < 50 else np.random.default_rng(draw(gen.seeds)).permutation(n).tolist(); s["missing"] = []
        if n > 6 and grid[0] > 2 and grid[1] > 1 and draw(st.booleans()): s["missing"] = sorted({draw(st.integers(2*grid[1], n-1)) for _ in range(2)}-{n-1})
    elif f == "ANYH5": s["dt"] = draw(st.sampled_from(["u1", "u2", "u4"])); s["dpath"] = draw(st.sampled_from(["patterns", "a/b/c", "Scan 1/EBSD/Data/Pattern"]))
    elif f == "TFPAT": s.update(back=draw(st.booleans()), bits=draw(st.sampled_from([8, 12, 16])), scan=draw(st.sampled_from([True, True, False])), ebsd=draw(st.booleans()))
    else:
        s["dt"] = draw(st.sampled_from(["u1", "u2", "u1", "u2", "u4"])); s["group"] = draw(st.sampled_from(["Scan 1", "My Scan"])); s["second"] = draw(st.one_of(st.none(), st.fixed_dictionaries({"grid": st.sampled_from([grid, grid[::-1], [2, 3], [3, 1]]), "hw": st.sampled_from([hw, hw[::-1], [4, 5]]), "step": st.sampled_from([[1.0, 1.0], [0.25, 1.75]]), "seed": gen.seeds}))); s["raw"] = draw(st.booleans()); s["ver"] = draw(st.sampled_from({"KIKUCHIPY": ["0.3.dev0", "0.3.0", "0.8.1", "0.10.0", "0.11.1"], "OXFORD": ["5.0", "6.0"], "BRUKER": ["Esprit 2.X"]}.get(f, ["OIM Analysis 8.6.00", "OIM Analysis 9.1.00"]))); s["x0"] = 3.25; s["y0"] = 100.5
    if f in ("UP1", "UP2", "OH5", "EDAXH5", "KIKUCHIPY") and s.get("version") != 1 and draw(st.integers(0, 3)) == 3: s["hex"] = True
    step = [draw(st.sampled_from([1.0, 0.5, 2.25, 0.125, 150.0])), draw(st.sampled_from([1.0, 0.75, 3.5]))]
    return {"s": s, "grid": grid, "hw": hw, "step": step, "seed": draw(gen.seeds)}


def contents(c, seed=0):
    s = c["s"]; n = c["grid"][0]*c["grid"][1]; r = np.random.default_rng([c["seed"], seed]); mx = 2**s["bits"]-1 if s["fmt"] == "TFPAT" else np.iinfo(fmt.dtype(s)).max
    P = r.integers(0, mx, (n, *c["hw"]), endpoint=True); P[r.random(P.shape) < 0.1] = mx; P[r.random(P.shape) < 0.1] = 0
    if s["fmt"] == "EBSP": P[s["missing"]] = 0
    return P.astype(fmt.dtype(s))


def opened(path, c, hint=True):
    from pyebsdindex import ebsd_pattern as ep
    f = ep.get_pattern_file_obj([path, c["s"]["dpath"]] if c["s"]["fmt"] == "ANYH5" else path)
    require(not isinstance(f, int) and f is not None, "the file could not be opened")
    if hint and not fmt.has_grid(c["s"]):
        require(int(f.nPatterns) == c["grid"][0]*c["grid"][1], "nPatterns is %s", f.nPatterns); f.set_scan_rc(tuple(c["grid"]))
    return f


def one(x): return float("nan") if x is None else float(np.asarray(x).reshape(-1)[0])


def check_header(f, c):
    s, (nr, nc), (h, w) = c["s"], c["grid"], c["hw"]
    require((one(f.patternW), one(f.patternH)) == (w, h), "pattern width and height read as %s, %s; should be %s, %s", f.patternW, f.patternH, w, h)
    require(one(f.nPatterns) == nr*nc, "nPatterns %s, should be %s", f.nPatterns, nr*nc)
    require(one(f.nCols) == nc and one(f.nRows) == nr, "grid read as %s rows %s columns, should be %s, %s", f.nRows, f.nCols, nr, nc)
    require(np.dtype(f.filedatatype) == np.dtype(fmt.dtype(s)), "data type %s", f.filedatatype)
    require(bool(one(f.hexflag or 0)) == bool(s.get("hex")), "hexagonal grid read as %s", f.hexflag)
    if not (s["fmt"] in ("UP1", "UP2") and s["version"] == 1) and not s["fmt"] in ("TFPAT", "ANYH5") and not (s["fmt"] == "EBSP" and (not s["xy"] or nc < 2 or nr < 2)):
        require(abs(one(f.xStep)-c["step"][0]) < 1e-5*c["step"][0] and abs(one(f.yStep)-c["step"][1]) < 1e-5*c["step"][1], "steps read as %s %s, should be %s", f.xStep, f.yStep, c["step"])


def step_of(c):
    """the step sizes the locations are computed with"""
    if c["s"]["fmt"] == "TFPAT": return [c["step"][0]]*2 if c["s"]["ebsd"] else [1.0, 1.0]
    if c["s"]["fmt"] == "ANYH5" or c["s"]["fmt"] in ("UP1", "UP2") and c["s"]["version"] == 1: return [0.0, 0.0]
    return c["step"]


def same(P, xy, E, L, what, flt=False):
    require(P.shape == E.shape, "%s: %s patterns of the shape %s, should be %s", what, len(P), P.shape, E.shape); require(P.dtype == (np.float32 if flt else E.dtype), "%s: data type %s", what, P.dtype)
    if flt: E = E.astype(np.float32)
    bad = np.nonzero((P != E).reshape(len(E), -1).any(1))[0]; require(len(bad) == 0, "%s: patterns %s are wrong", what, bad[:6].tolist())
    require(xy.shape == L.shape, "%s: locations %s", what, xy.shape); e = np.abs(xy-L).max(initial=0); require(e <= 1e-4*(1+np.abs(L).max(initial=0)), "%s: locations %s should be %s", what, xy[:4].tolist(), L[:4].tolist())


@st.composite
def reads(draw, grid):
    n = grid[0]*grid[1]; out = []
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.sampled_from(["range", "rest", "slab", "slab", "object", "rangeobject", "row", "path"]))
        a = draw(st.integers(0, n-1)); m = draw(st.sampled_from([1, 2, 3, n, n+5])); c0 = draw(st.integers(0, grid[1]-1)); r0 = draw(st.integers(0, grid[0]-1))
        out.append({"k": k, "a": a, "m": m, "c0": c0, "r0": r0, "nc": draw(st.sampled_from([1, 2, 3, -1, 50])), "nr": draw(st.sampled_from([1, 2, 3, -1, 50])), "flt": draw(st.booleans())})
    return out


@st.composite
def case(draw):
    c = draw(spec(KINDS+("ANYH5",))); c["reads"] = draw(reads(c["grid"])); c["reuse"] = draw(st.booleans()); return c


def do_reads(path, c, E, L, rd, f=None):
    nr, nc = c["grid"]; n = nr*nc; idx = np.arange(n).reshape(nr, nc)
    for q in rd:
        if f is None or not c.get("reuse"): f = opened(path, c)
        kw = dict(convertToFloat=q["flt"], returnArrayOnly="object" not in q["k"])
        if q["k"] == "path" and fmt.has_grid(c["s"]): kw["path"] = path; f = type(f)()
        if q["k"] in ("slab", "object", "row"):
            if q["k"] == "row": q = dict(q, c0=0, nc=-1, nr=1)
            cols = range(q["c0"], nc if q["nc"] < 0 else min(nc, q["c0"]+q["nc"])); rows = range(q["r0"], nr if q["nr"] < 0 else min(nr, q["r0"]+q["nr"]))
            ii = idx[np.ix_(rows, cols)].ravel(); arg = [[q["c0"], q["r0"]], [q["nc"], q["nr"]]]
        else:
            m = -1 if q["k"] == "rest" else q["m"]; ii = np.arange(q["a"], n if m < 0 else min(n, q["a"]+m)); arg = [q["a"], m]
        o = f.read_data(patStartCount=arg, **kw)
        if "object" in q["k"]:
            want = [arg[0], [len(cols), len(rows)]] if q["k"] == "object" else [arg[0], len(ii)]
            require(np.array_equal(o.patStart, want[0]) and np.array_equal(np.asarray(o.nPatterns, float), want[1]), "pattern object starts at %s and has %s patterns, should be %s", o.patStart, o.nPatterns, want)
            require(one(o.nFileCols) == nc and one(o.nFileRows) == nr and bool(one(o.hexflag or 0)) == bool(c["s"].get("hex")) and one(o.xStep) == one(f.xStep) and one(o.yStep) == one(f.yStep) and str(o.file) == path, "pattern object describes its file as %s", {k: str(getattr(o, k)) for k in ("nFileCols", "nFileRows", "hexflag", "xStep", "yStep", "file")})
            require((one(o.patternW), one(o.patternH)) == (c["hw"][1], c["hw"][0]) and int(np.prod(np.asarray(o.nPatterns, float))) == len(ii), "pattern object has size %s %s and %s patterns", o.patternW, o.patternH, o.nPatterns)
            o = (o.patterns, o.xyLocations)
        same(o[0], o[1], E[ii], L[ii], "read_data(%s)" % arg, q["flt"])


@reg.facet("read", case, quick=1500, thorough=40000, budget=60, rule="files written by independent writers, read whole, ranged and in rectangles. Non-trivial: several rows and columns")
def f_read(c, rec):
    d = tempfile.mkdtemp()
    try:
        path = os.path.join(d, "scan"+fmt.EXT[c["s"]["fmt"]]); P = contents(c); fmt.write(path, c["s"], P, c["grid"], c["step"]); before = open(path, "rb").read()
        f = opened(path, c); check_header(f, c); L = fmt.locs(c["s"], c["grid"], step_of(c))
        a, xy = f.read_data(returnArrayOnly=True); same(a, xy, P, L, "all patterns")
        do_reads(path, c, P, L, c["reads"], f)
        if c["s"]["fmt"] in fmt.H5:
            from pyebsdindex import ebsd_pattern as ep
            g = ep.get_pattern_file_obj([path, fmt.h5path(c["s"])]); a, xy = g.read_data(returnArrayOnly=True); same(a, xy, P, L, "explicit data path")
            if c["s"].get("second"):
                q = c["s"]["second"]; c2 = dict(c, grid=q["grid"], hw=q["hw"], step=q["step"]); P2 = fmt.second(c["s"]); L2 = fmt.locs(c["s"], c2["grid"], c2["step"])
                if c["reuse"]:
                    g = opened(path, c); require(len(g.h5datagroups) == 2, "scans found in the file: %s", g.h5datagroups); g.set_data_path(pathindex=g.h5datagroups.index("Scan 2")); g.read_header()
                else: g = ep.get_pattern_file_obj([path, fmt.h5path(c["s"], "Scan 2")])
                check_header(g, c2); a, xy = g.read_data(returnArrayOnly=True); same(a, xy, P2, L2, "second scan of the file")
                nr2, nc2 = q["grid"]; a, xy = g.read_data(patStartCount=[[nc2-1, nr2-1], [-1, -1]], returnArrayOnly=True); same(a, xy, P2[-1:], L2[-1:], "last pattern of the second scan"); rec.label("second")
        if c["s"]["fmt"] in ("UP1", "UP2"):
            from pyebsdindex import ebsd_pattern as ep
            o = os.path.join(d, "scan.raw"); shutil.copyfile(path, o); g = ep.UPFile(o); g.read_header(bitdepth=8 if c["s"]["fmt"] == "UP1" else 16); a, xy = g.read_data(returnArrayOnly=True); require(a.dtype == P.dtype and np.array_equal(a, P), "UP file of another extension with the bit depth given is read as other patterns")
        if c["s"]["fmt"] == "TFPAT" and c["s"]["back"]: require(np.array_equal(f.get_backgroundpattern(), fmt.back(c["s"], *c["hw"])), "stored background pattern read wrongly")
        if c["s"]["fmt"] == "TFPAT" and not c["s"]["scan"]: require(f.xypx is not None and np.array_equal(f.xypx, np.stack(np.divmod(np.arange(len(P)), c["grid"][1])[::-1], 1)), "pixel positions read as %s", f.xypx)
        require(open(path, "rb").read() == before, "reading changed the file")
        rec.nontrivial(min(c["grid"]) > 1); rec.label(c["s"]["fmt"]); rec.label(*[q["k"] for q in c["reads"]])
    finally: shutil.rmtree(d)


@st.composite
def create(draw):
    c = draw(spec(("UP1", "UP2", "EBSP", "TFPAT"))); s = c["s"]; s.pop("hex", None)
    if s["fmt"] == "EBSP": s.update(missing=[], x0=0.0, y0=0.0, ydown=False); s["xy"] = draw(st.booleans()) or s["version"] == 1
    if s["fmt"] == "TFPAT": s.update(back=False, bits=16, scan=True, ebsd=False)
    c["reads"] = draw(reads(c["grid"])); c["way"] = draw(st.sampled_from(["attrs", "attrs", "fromobj"])) if s["fmt"] in ("UP1", "UP2") else "attrs"; c["parts"] = draw(st.booleans()); return c


@reg.facet("create", create, quick=1200, thorough=30000, budget=40, group="create", rule="files created through the package, read back by it and by an independent parser. Non-trivial: several rows and columns")
def f_create(c, rec):
    from pyebsdindex import ebsd_pattern as ep
    d = tempfile.mkdtemp()
    try:
        s = c["s"]; nr, nc = c["grid"]; n = nr*nc; h, w = c["hw"]; path = os.path.join(d, "new"+fmt.EXT[s["fmt"]]); P = contents(c)
        f = {"UP1": ep.UPFile, "UP2": ep.UPFile, "EBSP": ep.EBSPFile, "TFPAT": ep.TFPatFile}[s["fmt"]](path)
        if c["way"] == "fromobj":
            if s["version"] == 3 and c["seed"] % 2: f.version = 3
            f.file_from_pattern_obj(P); f.xStep, f.yStep = c["step"]; f.set_scan_rc((nr, nc)); s["version"] = 3
        else:
            f.version = 1 if s["fmt"] == "TFPAT" else s["version"]; f.patternW, f.patternH = w, h; f.filedatatype = fmt.dtype(s); f.xStep, f.yStep = c["step"]; f.set_scan_rc((nr, nc))
            if s["fmt"] == "EBSP": f.hasxypos = s["xy"]
            if s["fmt"] == "TFPAT": f.hasbackground = False; f.bitdepth = 16
        if c["parts"] and n > 1:
            k = 1+c["seed"] % (n-1); f.write_data(newpatterns=P[k:], patStartCount=[k, -1]); f.write_data(newpatterns=P[:k], patStartCount=[0, k])
        else: f.write_data(newpatterns=P)
        Q, xy, rest = fmt.parse(path, s)
        require(Q.shape == P.shape and np.array_equal(Q, P), "an independent parser finds other patterns in the file (shape %s)", Q.shape)
        if s["fmt"] == "EBSP":  # centred locations
            s["x0"], s["y0"] = -0.5*nc*c["step"][0], -0.5*nr*c["step"][1]
            if s["xy"]: require(np.allclose(xy, fmt.ebsp_xy(s, c["grid"], c["step"])), "locations in the file %s", xy[:3].tolist())
        if s["fmt"] == "TFPAT": require(np.array_equal(xy, np.stack(np.divmod(np.arange(n), nc)[::-1], 1)), "pixel positions in the file %s", xy[:4].tolist())
        if s["fmt"] in ("UP1", "UP2") and s["version"] != 1: require(rest[2:] == [0, nc, nr, 0, c["step"][0], c["step"][1]], "header %s", rest[2:])
        g = opened(path, c); check_header(g, c); L = fmt.locs(s, c["grid"], step_of(c)); a, xy = g.read_data(returnArrayOnly=True); same(a, xy, P, L, "all patterns")
        do_reads(path, c, P, L, c["reads"], g)
        rec.nontrivial(min(c["grid"]) > 1); rec.label(s["fmt"], c["way"])
    finally: shutil.rmtree(d)


@st.composite
def far(draw):
    f = draw(st.sampled_from(["UP1", "UP2", "TFPAT", "EBSP"])); s = {"fmt": f}; s["version"] = draw(st.sampled_from([1, 2, 4])) if f == "EBSP" else 3
    if f == "TFPAT": s.update(back=False, bits=16, scan=True, ebsd=False)
    if f == "EBSP": s.update(xy=True, dt=draw(st.sampled_from(["u1", "u2"])), ydown=False, x0=0.0, y0=0.0, missing=[])
    big = np.dtype(fmt.dtype(s)).itemsize == 1; grid = draw(st.sampled_from([[30, 40], [40, 30], [25, 48], [1, 1200]] if f != "EBSP" else [[30, 40], [40, 30], [25, 48]]))
    n = grid[0]*grid[1]; at = sorted(draw(st.sets(st.one_of(st.integers(0, n-1), st.integers(n-70, n-1)), min_size=3, max_size=5)))
    return {"s": s, "hw": [1900, 2000] if big else [1000, 1900], "grid": grid, "step": [0.5, 0.75], "at": at, "seed": draw(gen.seeds), "way": draw(st.sampled_from(["range", "slab", "pair"]))}


def far_pattern(c, k, salt=0): r = np.random.default_rng([c["seed"], k, salt]); return r.integers(0, np.iinfo(fmt.dtype(c["s"])).max, c["hw"], endpoint=True).astype(fmt.dtype(c["s"]))


@reg.facet("far", far, quick=40, thorough=500, budget=25, shrink=10, rule="files of more than 4 GiB (mostly holes), patterns read at positions before and beyond 4 GiB. Non-trivial: a position beyond")
def f_far(c, rec):
    d = tempfile.mkdtemp()
    try:
        path = os.path.join(d, "scan"+fmt.EXT[c["s"]["fmt"]]); P = {k: far_pattern(c, k) for k in c["at"]}; fmt.write_sparse(path, c["s"], c["hw"], c["grid"], c["step"], P)
        f = opened(path, c); check_header(f, c); L = fmt.locs(c["s"], c["grid"], step_of(c)); n = len(L); nc = c["grid"][1]
        for k in c["at"]:
            m = 2 if c["way"] == "pair" and k < n-1 else 1
            a, xy = f.read_data(patStartCount=[[k % nc, k//nc], [1, 1]] if c["way"] == "slab" else [k, m], returnArrayOnly=True)
            E = np.array([P[q] if q in P else np.zeros(c["hw"], fmt.dtype(c["s"])) for q in range(k, k+m)]); same(a, xy, E, L[k:k+m], "pattern %d" % k)
        rec.nontrivial(fmt.layout(c["s"], c["hw"], c["grid"])[0][c["at"][-1]] >= 2**32); rec.label(c["s"]["fmt"])
    finally: shutil.rmtree(d)


@st.composite
def two(draw):
    k = draw(st.sampled_from([("UP1", "UP2"), ("UP1", "UP2"), ("EBSP",), ("TFPAT",), ("OH5", "EDAXH5"), ("BRUKER",), ("KIKUCHIPY",), ("OXFORD",), ("ANYH5",)])); a, b = draw(spec(k)), draw(spec(k)); b["reads"] = draw(reads(b["grid"])); b["reuse"] = True
    for q in ("group", "raw", "ebsd", "dpath"):  # the object keeps the data path it was told, and the steps where a file has none
        if q in a["s"]: b["s"][q] = a["s"][q]
    return {"a": a, "b": b, "how": draw(st.sampled_from(["path", "header", "set"])), "warm": draw(st.booleans()), "rc": draw(st.booleans()), "cols": draw(st.sampled_from([None, None, 1, 2, 3]))}


@reg.facet("switch", two, quick=600, thorough=15000, budget=40, group="create", rule="a file object that has read one file is pointed at a second one of the same kind. Non-trivial: the files differ in grid or pattern size")
def f_switch(c, rec):
    d = tempfile.mkdtemp()
    try:
        A, B = c["a"], c["b"]; pa, pb = [os.path.join(d, n+fmt.EXT[x["s"]["fmt"]]) for n, x in (("first", A), ("second", B))]
        for p, x in ((pa, A), (pb, B)): fmt.write(p, x["s"], contents(x), x["grid"], x["step"])
        f = opened(pa, A, c.get("rc", True))
        if c.get("cols") and not fmt.has_grid(A["s"]) and B["s"]["fmt"] != "EBSP": m = min(c["cols"], int(f.nPatterns)); f.set_scan_rc((int(f.nPatterns)//m, m))       # only whole rows
        if c["warm"]: f.read_data(returnArrayOnly=True)
        if c["how"] == "path": f.read_data(path=pb, returnArrayOnly=True, patStartCount=[0, 1])
        elif c["how"] == "header": f.read_header(path=pb)
        else: f.set_filepath(pb); f.read_header()
        if not fmt.has_grid(B["s"]): require(int(f.nPatterns) == B["grid"][0]*B["grid"][1], "nPatterns is %s", f.nPatterns); a, _ = f.read_data(returnArrayOnly=True); require(np.array_equal(a, contents(B)), "the second file, whose grid is not known, is read as other patterns"); a, _ = f.read_data(returnArrayOnly=True, patStartCount=[len(a)-1, 1]); require(np.array_equal(a, contents(B)[-1:]), "last pattern of the second file"); f.set_scan_rc(tuple(B["grid"])); f.xStep, f.yStep = step_of(B); f.hexflag = 0
        P = contents(B); L = fmt.locs(B["s"], B["grid"], step_of(B)); check_header(f, B); a, xy = f.read_data(returnArrayOnly=True); same(a, xy, P, L, "second file"); do_reads(pb, B, P, L, B["reads"], f)
        rec.nontrivial(A["grid"] != B["grid"] or A["hw"] != B["hw"]); rec.label(B["s"]["fmt"], c["how"])
    finally: shutil.rmtree(d)
