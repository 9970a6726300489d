"""F02: writing parts of a pattern file; conversion to the integer type of the file."""
import os, shutil, tempfile
import numpy as np
from hypothesis import strategies as st
from ..core import Registry, require
from .. import gen, fmt
from .F01 import KINDS, spec, contents, opened, same, step_of, one, far, far_pattern

reg = Registry()
RULE = ("Histories of writes (ranges, rectangles, single patterns, pattern objects, past the end), header rewrites, copies and reopens on files of every layout, against an array as the model; "
        "conversions of floating point patterns. Non-trivial: at least two writes, or values outside the range of the type.")
ASSUMPTIONS = ["requests that run past the end of the file are cut off there; starts outside the file, zero counts and fewer patterns than announced are not generated",
               "converted values may be rounded or truncated (difference below 1)"]


@st.composite
def history(draw):
    c = draw(spec(KINDS+("ANYH5",))); n = c["grid"][0]*c["grid"][1]; ops = []
    for _ in range(draw(st.integers(1, 7))):
        k = draw(st.sampled_from(["range", "range", "slab", "slab", "slab", "single", "object", "copy", "empty", "reopen", "header", "read", "group", "second"]))
        ops.append({"k": k, "a": draw(st.integers(0, n-1)), "m": draw(st.sampled_from([1, 2, 3, n, n+3])), "all": draw(st.booleans()), "c0": draw(st.integers(0, c["grid"][1]-1)), "r0": draw(st.integers(0, c["grid"][0]-1)),
                    "nc": draw(st.sampled_from([1, 2, 3, -1])), "nr": draw(st.sampled_from([1, 2, 3, -1])), "dt": draw(st.sampled_from(["same", "same", "f4", "f8", "i4", "i8"])), "seed": draw(st.integers(1, 9999)), "go": draw(st.booleans()), "head": draw(st.integers(0, 5)) == 0})
    c["ops"] = ops; return c


@reg.facet("history", history, quick=1000, thorough=30000, budget=60, rule="histories of writes, copies and reopens against an array. Non-trivial: two or more writes")
def f_history(c, rec):
    d = tempfile.mkdtemp()
    try:
        s = c["s"]; nr, nc = c["grid"]; n = nr*nc; idx = np.arange(n).reshape(nr, nc); L = fmt.locs(s, c["grid"], step_of(c)); miss = s.get("missing", []) if s["fmt"] == "EBSP" else []
        path = os.path.join(d, "scan"+fmt.EXT[s["fmt"]]); E = contents(c); fmt.write(path, s, E, c["grid"], c["step"]); _, xy0, rest0 = fmt.parse(path, s)
        f = opened(path, c); others = []; E = E.copy(); nw = 0; E2 = fmt.second(s) if s.get("second") else None
        for i, o in enumerate(c["ops"]):
            k = o["k"]; what = "operation %d (%s)" % (i, k)
            if fmt.dtype(s) == np.uint32: o = dict(o, dt={"f4": "f8", "i4": "i8"}.get(o["dt"], o["dt"]))  # types that hold all the values
            if k in ("range", "slab", "single", "object", "header"):
                new = contents(c, o["seed"]); head = (o["head"] or k == "header") and s["fmt"] not in fmt.H5
                if k in ("slab", "object"):
                    cols = range(o["c0"], nc if o["nc"] < 0 else min(nc, o["c0"]+o["nc"])); rows = range(o["r0"], nr if o["nr"] < 0 else min(nr, o["r0"]+o["nr"])); ii = idx[np.ix_(rows, cols)].ravel(); arg = [[o["c0"], o["r0"]], [o["nc"], o["nr"]]]
                elif k in ("range", "header"):
                    m = o["m"] if not o["all"] else min(o["m"], n-o["a"]); ii = np.arange(o["a"], min(n, o["a"]+m)); arg = [o["a"], -1 if o["all"] else m]
                    ext = m-len(ii)
                else: ii = np.array([o["a"]]); arg = [o["a"], 1]
                if k == "object" and o["all"]: ii = np.arange(o["a"], min(n, o["a"]+len(ii))); arg = [o["a"], -1]; ext = len(cols)*len(rows)-len(ii)
                data = new[ii]
                if (k in ("range", "header") or k == "object" and o["all"]) and ext > 0: data = np.concatenate([data, new[:1].repeat(ext, 0)])
                if k == "object":
                    from pyebsdindex.ebsd_pattern import EBSDPatterns
                    po = EBSDPatterns(); po.patterns = data.copy(); po.patternW, po.patternH = c["hw"][1], c["hw"][0]; po.nPatterns = np.array([len(cols), len(rows)]); src = po
                elif k == "single": src = data[0] if o["dt"] == "same" else data[0].astype(o["dt"])
                else: src = data.copy() if o["dt"] == "same" else data.astype(o["dt"])
                keep = np.array(src.patterns if k == "object" else src)
                f.write_data(newpatterns=src, patStartCount=arg, writeHead=head)
                require(np.array_equal(keep, src.patterns if k == "object" else src), "%s: write_data changed the patterns handed to it", what)
                E[ii] = new[ii]; E[miss] = 0; nw += 1
            elif k == "copy":
                new = os.path.join(d, "copy%d%s" % (i, fmt.EXT[s["fmt"]])); f.copy_file(new); require(os.path.exists(new), "%s: copy_file made no file", what); require(open(new, "rb").read() == open(path, "rb").read(), "%s: copy_file made a different file", what)
                if s["fmt"] == "TFPAT" and s["ebsd"]: require(open(new[:-4]+".ebsd", "rb").read() == open(path[:-4]+".ebsd", "rb").read(), "%s: the companion .ebsd file was not copied", what)
                if o["go"]: others.append((path, E.copy(), L, rest0)); path = new; f = opened(path, c)
                else: others.append((new, E.copy(), L, rest0))
            elif k == "empty" and s["fmt"] in ("UP1", "UP2", "TFPAT"):
                new = os.path.join(d, "empty%d%s" % (i, fmt.EXT[s["fmt"]])); f.copy_file(new, empty_data=True); P, xy, rest = fmt.parse(new, s)
                require(rest == rest0, "%s: header of the empty copy differs: %s and %s", what, rest, rest0); require((P == 0).all(), "%s: empty copy contains data", what)
                others.append((new, np.zeros_like(E), None, rest0))
            elif k == "group" and s.get("group"):
                new = os.path.join(d, "group%d%s" % (i, fmt.EXT[s["fmt"]])); f.copy_file([new, s["group"]]); P, _, rest = fmt.parse(new, s); require(np.array_equal(P, E), "%s: copy of the scan group has other patterns", what)
                require(all(rest0[a] == b for a, b in rest.items()), "%s: copy of the scan group has other metadata", what); others.append((new, E.copy(), L, rest0))
            elif k == "second" and s.get("second"):  # write to the other scan of the file
                from pyebsdindex import ebsd_pattern as ep
                q = s["second"]; n2 = q["grid"][0]*q["grid"][1]; a0 = o["a"] % n2; g = ep.get_pattern_file_obj([path, fmt.h5path(s, "Scan 2")]); new2 = np.full((1, *q["hw"]), o["seed"] % 251, fmt.dtype(s)); g.write_data(newpatterns=new2, patStartCount=[a0, 1])
                E2 = E2.copy(); E2[a0] = new2[0]; rest0 = dict(rest0); rest0[fmt.h5path(s, "Scan 2")] = repr(E2.tolist())+repr([]); nw += 1
            elif k == "reopen": f = opened(path, c)
            elif k == "read": a, xy = f.read_data(returnArrayOnly=True); same(a, xy, E, L, what)
            for p, e, l, r in others+[(path, E, L, rest0)]:
                P, xy, rest = fmt.parse(p, s); bad = np.nonzero((P != e).reshape(n, -1).any(1))[0] if P.shape == e.shape else [-1]
                require(P.shape == e.shape and P.dtype == e.dtype and len(bad) == 0, "%s: in the %s patterns %s differ from what was last written there", what, "file written to" if p == path else "other file", [int(b) for b in bad][:8])
                if "group" not in os.path.basename(p): require(rest == r, "%s: the header or other data of the file changed: %s, was %s", what, *((rest, r) if not isinstance(r, dict) else (({k: v[:200] for k, v in rest.items() if r.get(k) != v}), ({k: v[:200] for k, v in r.items() if rest.get(k) != v}))))
                if s["fmt"] == "EBSP" or (s["fmt"] == "TFPAT" and l is not None): require(np.allclose(xy, xy0, atol=1e-9), "%s: locations stored in the file changed: %s, were %s", what, xy[:4].tolist(), xy0[:4].tolist())
        g = opened(path, c); a, xy = g.read_data(returnArrayOnly=True); same(a, xy, E, L, "at the end, reopened")
        rec.nontrivial(nw > 1); rec.label(s["fmt"]); rec.label(*[o["k"] for o in c["ops"]])
    finally: shutil.rmtree(d)


@st.composite
def conv(draw):
    dt = draw(st.sampled_from(["f4", "f8", "f8", "u1", "u2", "i2", "i4", "u4"])); lo = draw(st.sampled_from([0, 0, -50, -4000, 10, 200])); span = draw(st.sampled_from([1, 100, 255, 256, 300, 65535, 70000, 250000, 250000, 4294960000, 9000000000]))
    if dt == "u1": lo, span = max(lo, 0), min(span, 255-max(lo, 0))
    if dt == "u2": lo, span = max(lo, 0), min(span, 65535-max(lo, 0))
    if dt == "i2": span = min(span, 32767-lo)
    if dt == "i4": span = min(span, 2000000000)
    if dt == "u4": lo, span = max(lo, 0), min(span, 4294960000)
    return {"dt": dt, "lo": lo, "span": span, "n": draw(st.integers(1, 6)), "hw": draw(st.sampled_from([[3, 4], [1, 1], [5, 2]])), "out": draw(st.sampled_from(["u1", "u2", "u1", "u2", "u4"])), "method": draw(st.sampled_from(["clip", "fullscale", "scale"])),
            "sv": draw(st.sampled_from([0.98, 1.0, 0.5])), "ms": draw(st.sampled_from([None, None, 0.3, 0.8, 1.0, 1.7])), "seed": draw(gen.seeds), "flat": draw(st.integers(0, 7)) == 0}


def patterns(c):
    r = np.random.default_rng(c["seed"]); P = r.uniform(0, 1, (c["n"], *c["hw"])); P[r.random(P.shape) < 0.15] = 1; P[r.random(P.shape) < 0.15] = 0
    if c["flat"]: P[:] = P[0, 0, 0]
    P = c["lo"]+P*c["span"]; return (P if c["dt"][0] == "f" else np.rint(P)).astype(c["dt"])


def limit(c, P):
    m = float(P.max()) if c["method"] == "clip" else float(P.max())-min(float(P.min()), 0.0) if c["method"] == "scale" else float(P.max())-float(P.min())
    return None if c["ms"] is None or m <= 0 else c["ms"]*m


def expected(P, c, ms):
    """the conversion as documented: real numbers before rounding, and a tolerance"""
    p = P.astype(float); mx = float(np.iinfo(c["out"]).max)
    if c["method"] == "clip": return np.clip(p, 0, min(ms, mx) if ms is not None else mx), 1.0
    t = p-(p.min() if c["method"] == "fullscale" else min(p.min(), 0.0)); m = t.max() if ms is None else ms
    if m <= 0: return np.clip(t, 0, mx), mx+1
    k = c["sv"]*mx/m; return np.clip(t*k, 0, mx), 1.0+8*6e-8*np.abs(p).max()*k


@reg.facet("convert", conv, quick=2500, thorough=60000, budget=40, group="convert", rule="pat_flt2int against the definition. Non-trivial: values outside the range of the file's type")
def f_convert(c, rec):
    from pyebsdindex.ebsd_pattern import pat_flt2int
    P = patterns(c); ms = limit(c, P); E, tol = expected(P, c, ms); keep = P.copy()
    o = pat_flt2int(P, typeout=np.dtype(c["out"]).type, method=c["method"], scalevalue=c["sv"], maxScale=ms)
    require(o.shape == P.shape and o.dtype == np.dtype(c["out"]), "shape %s, type %s", o.shape, o.dtype); require(np.array_equal(P, keep), "input modified")
    e = np.abs(o.astype(float)-E); w = np.unravel_index(e.argmax(), e.shape); require(e.max() < tol, "value %s with method %s, maxScale %s becomes %s, should be %.3f", P[w], c["method"], ms, o[w], E[w])
    q = pat_flt2int(P[0], typeout=np.dtype(c["out"]).type, method="clip"); require(q.shape == (1, *c["hw"]), "single pattern becomes %s", q.shape)
    rec.nontrivial(float(P.max()) > np.iinfo(c["out"]).max or float(P.min()) < 0); rec.label(c["method"], c["dt"])


@st.composite
def fwrite(draw):
    c = draw(spec(("UP1", "UP2", "UP2", "EBSP", "OH5", "TFPAT"))); c["v"] = draw(conv()); c["slab"] = draw(st.booleans()); c["c0"] = draw(st.integers(0, c["grid"][1]-1)); c["r0"] = draw(st.integers(0, c["grid"][0]-1)); c["gap"] = draw(st.booleans())
    if c["s"]["fmt"] == "EBSP": c["s"]["missing"] = []
    if c["s"]["fmt"] == "TFPAT": c["s"]["bits"] = 16
    return c


@reg.facet("float_write", fwrite, quick=700, thorough=15000, budget=40, group="convert", rule="floating point patterns written as range or rectangle with each conversion; a call converts all its patterns with one scale. Non-trivial: several patterns")
def f_fwrite(c, rec):
    d = tempfile.mkdtemp()
    try:
        s, v = c["s"], dict(c["v"]); nr, nc = c["grid"]; n = nr*nc; idx = np.arange(n).reshape(nr, nc); path = os.path.join(d, "scan"+fmt.EXT[s["fmt"]]); E = contents(c); fmt.write(path, s, E, c["grid"], c["step"])
        ii = idx[c["r0"]:, c["c0"]:].ravel() if c["slab"] else np.arange(c["c0"], n); v.update(n=len(ii), hw=c["hw"], out=np.dtype(fmt.dtype(s)).str[1:])
        P = patterns(v); ms = limit(v, P); X, tol = expected(P, v, ms); arg = [[c["c0"], c["r0"]], [-1, -1]] if c["slab"] else [c["c0"], -1]; keep = P.copy()
        f = opened(path, c); f.write_data(newpatterns=P, patStartCount=arg, flt2int=v["method"], scalevalue=v["sv"], maxScale=ms); require(np.array_equal(P, keep), "input modified")
        Q, _, _ = fmt.parse(path, s); rest = np.setdiff1d(np.arange(n), ii); require(np.array_equal(Q[rest], E[rest]), "patterns outside of the request changed")
        e = np.abs(Q[ii].astype(float)-X); w = np.unravel_index(e.argmax(), e.shape); require(e.max() < tol, "write_data(%s, flt2int=%s, scalevalue=%s, maxScale=%s): value %s is stored as %s, should be %.3f", arg, v["method"], v["sv"], ms, P[w], Q[ii][w], X[w])
        rec.nontrivial(len(ii) > 1); rec.label(s["fmt"], v["method"], "slab" if c["slab"] else "range")
    finally: shutil.rmtree(d)


@reg.facet("far", far, quick=40, thorough=500, budget=25, shrink=10, group="far", rule="patterns written into files of more than 4 GiB (mostly holes). Non-trivial: a position beyond 4 GiB")
def f_far(c, rec):
    d = tempfile.mkdtemp()
    try:
        s, nc = c["s"], c["grid"][1]; path = os.path.join(d, "scan"+fmt.EXT[s["fmt"]]); P = {k: far_pattern(c, k) for k in c["at"]}; fmt.write_sparse(path, s, c["hw"], c["grid"], c["step"], P); at, size, hd = fmt.layout(s, c["hw"], c["grid"]); head = open(path, "rb").read(hd)
        f = opened(path, c)
        for i, k in enumerate(c["at"][::2]):
            P[k] = far_pattern(c, k, 1+i); f.write_data(newpatterns=P[k][None].copy(), patStartCount=[[k % nc, k//nc], [1, 1]] if c["way"] == "slab" else [k, 1])
            require(os.path.getsize(path) == size, "writing pattern %d changed the size of the file from %d to %d", k, size, os.path.getsize(path)); require(open(path, "rb").read(hd) == head, "writing pattern %d changed the header", k)
            for q in sorted(set(c["at"]) | {0, k-1, min(k+1, len(at)-1), len(at)-1} - {-1}): require(np.array_equal(fmt.peek(path, s, c["hw"], c["grid"], q), P.get(q, np.zeros(c["hw"], fmt.dtype(s)))), "after writing pattern %d pattern %d of the file is not what was last written there", k, q)
        rec.nontrivial(any(at[k] >= 2**32 for k in c["at"][::2])); rec.label(s["fmt"])
    finally: shutil.rmtree(d)

@st.composite
def created(draw):
    c = draw(spec(("UP1", "UP2", "EBSP", "TFPAT"))); n = c["grid"][0]*c["grid"][1]
    c["parts"] = draw(st.lists(st.tuples(st.integers(0, n-1), st.sampled_from([1, 2, n])), min_size=1, max_size=3)); return c


@reg.facet("created", created, quick=300, thorough=8000, budget=30, group="created", rule="writing to a path where there is no file, with a file object that knows the layout, makes a file of that layout with the patterns written and all others zero. Non-trivial: patterns written and others not")
def f_created(c, rec):
    d = tempfile.mkdtemp()
    try:
        s = c["s"]; nr, nc = c["grid"]; n = nr*nc; path = os.path.join(d, "scan"+fmt.EXT[s["fmt"]]); new = os.path.join(d, "new"+fmt.EXT[s["fmt"]]); P = contents(c); fmt.write(path, s, P, c["grid"], c["step"]); before = open(path, "rb").read()
        f = opened(path, c); g = f.copy_obj(); g.filepath = new; E = np.zeros_like(P); _, xy0, rest0 = fmt.parse(path, s); done = np.zeros(n, bool)
        for i, (a, m) in enumerate(c["parts"]):
            Q = contents(c, i+1)[a:a+m]; g.write_data(newpatterns=Q.copy(), patStartCount=[a, len(Q)]); E[a:a+m] = Q; done[a:a+m] = True
            if s["fmt"] == "EBSP": E[s["missing"]] = 0
            got, xy, rest = fmt.parse(new, s); require(got.shape == E.shape and got.dtype == E.dtype, "new file after %d writes: patterns of shape %s type %s, should be %s %s", i+1, got.shape, got.dtype, E.shape, E.dtype); bad = np.nonzero((got != E).reshape(n, -1).any(1))[0]
            require(len(bad) == 0, "new file after %d writes (written: %s): patterns %s are wrong", i+1, np.nonzero(done)[0][:8].tolist(), bad[:8].tolist())
        require(open(path, "rb").read() == before, "the file the layout was taken from changed")
        if s["fmt"] == "EBSP": require(np.allclose(xy, xy0, atol=1e-9), "locations of the patterns in the new file are %s, in the one before %s", xy[:6].tolist(), xy0[:6].tolist())
        if s["fmt"] in ("UP1", "UP2"): require(rest[1:] == rest0[1:], "size of file and header (extra patterns, columns, rows, hexagonal, steps) of the new file are %s, of the one before %s", rest[1:], rest0[1:])
        h = opened(new, c); a, _ = h.read_data(returnArrayOnly=True); require(np.array_equal(np.asarray(a), E), "the new file is read differently")
        for k in ("patternW", "patternH", "nCols", "nRows", "nPatterns", "version")+(() if s["fmt"] == "TFPAT" else ("xStep", "yStep")): require(one(getattr(h, k)) == one(getattr(f, k)) or one(getattr(f, k)) != one(getattr(f, k)), "%s of the new file is %s, of the one before %s", k, getattr(h, k), getattr(f, k))
        rec.nontrivial(not done.all()); rec.label(s["fmt"], "v%s" % s.get("version"))
    finally: shutil.rmtree(d)
