"""Independent writers and parsers of the pattern file layouts (struct and h5py only; nothing of the package is used)."""
import struct
import numpy as np
import h5py
from .core import Violation

EXT = {"UP1": ".up1", "UP2": ".up2", "EBSP": ".ebsp", "TFPAT": ".pat", "OH5": ".oh5", "EDAXH5": ".h5", "BRUKER": ".h5", "KIKUCHIPY": ".h5", "OXFORD": ".h5oina", "ANYH5": ".h5"}
H5 = ("ANYH5", "OH5", "EDAXH5", "BRUKER", "KIKUCHIPY", "OXFORD")


def dtype(s): return {"UP1": np.uint8, "UP2": np.uint16, "TFPAT": np.uint16}.get(s["fmt"], np.dtype(s.get("dt", "u1")).type)


def has_grid(s): return not ((s["fmt"] in ("UP1", "UP2") and s["version"] == 1) or (s["fmt"] == "EBSP" and not s["xy"]) or s["fmt"] == "ANYH5")


def h5path(s, group=None):
    if s["fmt"] == "ANYH5": return s["dpath"]       # no vendor: the place of the patterns is told by the user
    return (group or s.get("group", "Scan 1"))+"/EBSD/Data/"+{"OH5": "Pattern", "EDAXH5": "Pattern", "BRUKER": "RawPatterns", "KIKUCHIPY": "patterns", "OXFORD": "Raw Patterns" if s.get("raw") else "Processed Patterns"}[s["fmt"]]


def ebsp_xy(s, grid, step):
    r, c = np.divmod(np.arange(grid[0]*grid[1]), grid[1]); y = s["y0"]+(-1 if s["ydown"] else 1)*r*step[1]
    return np.stack([s["x0"]+c*step[0], y], 1)


def locs(s, grid, step):
    r, c = np.divmod(np.arange(grid[0]*grid[1]), grid[1])
    if s["fmt"] == "EBSP":
        if not s["xy"]: return np.zeros((len(r), 2))
        L = ebsp_xy(s, grid, step); L[s["missing"]] = 0; return L
    if s["fmt"] == "OXFORD": return np.stack([s["x0"]+c*step[0], s["y0"]-r*step[1]], 1)
    return np.stack([(c-grid[1]*0.5)*step[0], (r-grid[0]*0.5)*step[1]], 1)


def write(path, s, P, grid, step):
    P = np.ascontiguousarray(P, dtype=dtype(s)); n, h, w = P.shape; nr, nc = grid; f = s["fmt"]
    if f in ("UP1", "UP2"):
        with open(path, "wb") as o:
            pad = s.get("pad", 0)
            if s["version"] == 1: o.write(struct.pack("<4I", 1, w, h, 16+pad))
            else: o.write(struct.pack("<4IBIIBdd", s["version"], w, h, 42+pad, 0, nc, nr, int(s.get("hex", False)), *step))
            o.write(bytes((7*i+3) % 251 for i in range(pad)))
            o.write(P.tobytes())
    elif f == "EBSP":
        v = s["version"]; head = 8+(v >= 4); xy = ebsp_xy(s, grid, step); foot = (16 if v == 1 else 18) if s["xy"] else 1
        rec = 16+h*w*P.itemsize+foot; pos = [0]*n; at = head+8*n
        for i in s["order"]:
            if i < n and i not in s["missing"]: pos[i] = at; at += rec
        buf = bytearray(at); struct.pack_into("<q", buf, 0, -v); struct.pack_into("<%dQ" % n, buf, head, *pos)
        for i in range(n):
            if not pos[i]: continue
            b = struct.pack("<4I", 0, h, w, h*w*P.itemsize)+P[i].tobytes()
            b += struct.pack("<2d", *xy[i]) if s["xy"] and v == 1 else struct.pack("<BdBd", 1, xy[i, 0], 1, xy[i, 1]) if s["xy"] else b"\0"
            buf[pos[i]:pos[i]+len(b)] = b
        open(path, "wb").write(buf)
    elif f == "TFPAT":
        with open(path, "wb") as o:
            o.write(struct.pack("<5IhBh", 1, nc, nr, w, h, -1 if s["scan"] else 0, s["bits"], -1 if s["back"] else 0))
            if s["back"]: o.write(back(s, h, w).tobytes())
            for i in range(n): o.write(struct.pack("<2I", i % nc, i // nc)+P[i].tobytes())
        if s["ebsd"]: open(path[:-4]+".ebsd", "wb").write(b"\x07"*61+struct.pack("<d", step[0])+b"\x05"*37)
    else:
        with h5py.File(path, "w") as o:
            _h5(o, s, P, grid, step, s.get("group", "Scan 1"))
            if s.get("second"): q = s["second"]; _h5(o, s, second(s), q["grid"], q["step"], "Scan 2")


def second(s):
    """patterns of the second scan of an HDF5 file"""
    q = s["second"]; shape = (q["grid"][0]*q["grid"][1], *q["hw"]); d = np.dtype(dtype(s)); return (np.random.default_rng(q["seed"]).integers(0, np.iinfo(d if d.kind == "u" else np.uint16).max, shape, endpoint=True)).astype(d)


def back(s, h, w): return ((np.arange(h*w)*37+s["bits"]) % 4001).astype(np.uint16).reshape(h, w)


def _h5(o, s, P, grid, step, g):
    nr, nc = grid; f = s["fmt"]; S = lambda t: np.array([t.encode()])
    if f == "ANYH5": o[s["dpath"]] = P; o["more/Other"] = np.arange(len(P))*2; o["more"].attrs["note"] = "kept"; return
    o[h5path(s, g)] = P; H = o.create_group(g+"/EBSD/Header")
    if f in ("OH5", "EDAXH5"):
        if "Version" not in o: o["Version"] = S(s["ver"]); o["Manufacturer"] = S("EDAX")
        H["nColumns"] = np.array([nc], np.int32); H["nRows"] = np.array([nr], np.int32); H["Grid Type"] = S("HexGrid" if s.get("hex") else "SqrGrid"); H["Step X"] = np.array([step[0]], np.float32); H["Step Y"] = np.array([step[1]], np.float32)
    elif f == "BRUKER":
        if "Version" not in o: o["Version"] = s["ver"].encode(); o["Manufacturer"] = b"Bruker Nano"
        H["NCOLS"] = np.int32(nc); H["NROWS"] = np.int32(nr); H["XSTEP"] = float(step[0]); H["YSTEP"] = float(step[1])
    elif f == "KIKUCHIPY":
        if "version" not in o: o["version"] = S(s["ver"]); o["manufacturer"] = S("kikuchipy")
        H["n_columns"] = np.array([nc]); H["n_rows"] = np.array([nr]); H["grid_type"] = S("hexagonal" if s.get("hex") else "square"); H["step_x"] = np.array([step[0]], float); H["step_y"] = np.array([step[1]], float)
    else:
        if "Format Version" not in o: o["Format Version"] = S(s["ver"]); o["Manufacturer"] = S("Oxford Instruments")
        H["X Cells"] = np.array([nc], np.int32); H["Y Cells"] = np.array([nr], np.int32); H["X Step"] = np.array([step[0]], np.float32); H["Y Step"] = np.array([step[1]], np.float32)
        L = locs(s, grid, step); D = o[g+"/EBSD/Data"]; D["Beam Position X"] = L[:, 0].astype(np.float32); D["Beam Position Y"] = L[:, 1].astype(np.float32)
    o[g+"/EBSD/Data/Other"] = np.arange(nr*nc)*2
    H.attrs["note"] = "kept"


def parse(path, s):
    """patterns, locations or None, everything else (to be compared for equality)"""
    f = s["fmt"]
    if f in H5:
        rest = {}
        with h5py.File(path, "r") as o:
            P = o[h5path(s)][()]
            def visit(name, ob):
                if name != h5path(s): rest[name] = (repr(ob[()].tolist() if hasattr(ob[()], "tolist") else ob[()]) if isinstance(ob, h5py.Dataset) else "group")+repr(sorted(ob.attrs.items()))
                else: rest[name] = repr((ob.shape, ob.dtype))
            o.visititems(visit)
        return P, None, rest
    b = open(path, "rb").read(); d = np.dtype(dtype(s))
    if f in ("UP1", "UP2"):
        v, w, h, pos = struct.unpack_from("<4I", b); n = (len(b)-pos)//(w*h*d.itemsize); rest = [b[:pos].hex(), len(b)]
        if v != 1:
            x, nc, nr, hx, sx, sy = struct.unpack_from("<BIIBdd", b, 16); rest += [x, nc, nr, hx, sx, sy]
            if n != nc*nr: raise Violation("independent parser: "+"size of file does not fit to its %s x %s patterns" % (nr, nc))
        if len(b) != pos+n*w*h*d.itemsize: raise Violation("independent parser: "+"size of file does not fit to its header")
        return np.frombuffer(b, d, n*w*h, pos).reshape(n, h, w), None, rest
    if f == "TFPAT":
        v, nc, nr, w, h, scan, bits, bk = struct.unpack_from("<5IhBh", b); pos = 25+(w*h*2 if bk < 0 else 0)
        rec = np.dtype([("l", "<u4", 2), ("p", "<u2", (h, w))]); n = (len(b)-pos)//rec.itemsize
        if len(b) != pos+n*rec.itemsize: raise Violation("independent parser: "+"size of file does not fit to its header")
        R = np.frombuffer(b, rec, n, pos); return R["p"], R["l"].astype(float), [b[:pos].hex(), len(b)]
    v = -struct.unpack_from("<q", b)[0]; head = 8+(v >= 4)
    if not 1 <= v <= 4: raise Violation("independent parser: "+"version %s" % v)
    pos = [struct.unpack_from("<Q", b, head)[0]]; first = pos[0] or len(b); i = 1
    while head+8*i < first:
        p = struct.unpack_from("<Q", b, head+8*i)[0]; pos.append(p); i += 1
        if p: first = min(first, p)
    P, L = [], []; hw = None
    for p in pos:
        if not p: P.append(None); L.append((0., 0.)); continue
        z, h, w, nb = struct.unpack_from("<4I", b, p)
        if z or nb != h*w*d.itemsize: raise Violation("independent parser: "+"pattern header %s" % ((z, h, w, nb),))
        hw = (h, w); P.append(np.frombuffer(b, d, h*w, p+16).reshape(h, w)); at = p+16+nb
        if v == 1: L.append(struct.unpack_from("<2d", b, at) if s["xy"] else (0., 0.))
        elif b[at] == 0: L.append((0., 0.))
        else:
            q = struct.unpack_from("<BdBd", b, at); L.append((q[1], q[3]))
    P = np.array([np.zeros(hw, d) if x is None else x for x in P])
    return P, np.array(L), [v, pos, len(b), hw]


def layout(s, hw, grid):
    """byte offset of every pattern in a file that stores them in scan order, size of the file, and where the header ends"""
    n = grid[0]*grid[1]; b = hw[0]*hw[1]*np.dtype(dtype(s)).itemsize; k = np.arange(n, dtype=object)
    if s["fmt"] in ("UP1", "UP2"): return 42+b*k, 42+b*n, 42
    if s["fmt"] == "TFPAT": return 33+(b+8)*k, 25+(b+8)*n, 25
    head = 8+(s["version"] >= 4); rec = 16+b+(16 if s["version"] == 1 else 18); return head+8*n+16+rec*k, head+8*n+rec*n, head+8*n


def write_sparse(path, s, hw, grid, step, stored):
    """a file in which only the patterns of the dict stored take room on the disk"""
    (h, w), (nr, nc) = hw, grid; at, size, _ = layout(s, hw, grid); f = s["fmt"]
    with open(path, "wb") as o:
        if f in ("UP1", "UP2"): o.write(struct.pack("<4IBIIBdd", 3, w, h, 42, 0, nc, nr, 0, *step))
        elif f == "TFPAT": o.write(struct.pack("<5IhBh", 1, nc, nr, w, h, -1, 16, 0))
        else:
            v = s["version"]; xy = ebsp_xy(s, grid, step); o.write(struct.pack("<q", -v)+(b"\0" if v >= 4 else b"")+struct.pack("<%dQ" % len(at), *[int(a)-16 for a in at]))
        o.truncate(size)
        for k in range(len(at)):
            if f == "TFPAT": o.seek(int(at[k])-8); o.write(struct.pack("<2I", k % nc, k//nc))
            if f == "EBSP":
                nb = h*w*np.dtype(dtype(s)).itemsize; o.seek(int(at[k])-16); o.write(struct.pack("<4I", 0, h, w, nb)); o.seek(int(at[k])+nb)
                o.write(struct.pack("<2d", *xy[k]) if v == 1 else struct.pack("<BdBd", 1, xy[k, 0], 1, xy[k, 1]))
            if k in stored: o.seek(int(at[k])); o.write(np.ascontiguousarray(stored[k], dtype(s)).tobytes())


def peek(path, s, hw, grid, k):
    at, _, _ = layout(s, hw, grid)
    with open(path, "rb") as o: o.seek(int(at[k])); return np.fromfile(o, dtype(s), hw[0]*hw[1]).reshape(hw)
