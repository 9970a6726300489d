"""A small kinematic band-pattern simulator, written from the detector geometry (shares nothing with the code under test).

Detector frame: x right, y up, z from the source towards the detector; the source is at (px, py, -d) measured in pixels from the lower
left corner of the pattern."""
import numpy as np
from .ref import rot as R, xtal as X

C = [1, 1, 1, 90, 90, 90]
XTAL = {"FCC": (225, C, [([1, 1, 1], 1.0), ([0, 0, 2], 0.85), ([0, 2, 2], 0.6), ([1, 1, 3], 0.5)]),
        "BCC": (229, C, [([0, 1, 1], 1.0), ([0, 0, 2], 0.6), ([1, 1, 2], 0.7), ([0, 1, 3], 0.4)]),
        "HCP": (194, [1, 1, 1.63, 90, 90, 120], [([1, 0, 0], 0.6), ([0, 0, 2], 0.9), ([1, 0, 1], 1.0), ([1, 0, 2], 0.5), ([1, 1, 0], 0.7), ([1, 0, 3], 0.5)])}
_cache = {}


def normals(name):
    """unit normals (one of each +-pair), relative |g| and weights"""
    if name not in _cache:
        sg, cell, fam = XTAL[name]; V = X.cell_vectors(*cell); G = X.recip(V); out = []
        for f, w in fam:
            seen = []
            for M in X.GROUPS[X.laue(sg)]:
                g = M @ (G.T @ np.array(f, float))
                if not any(np.abs(g-s).max() < 1e-6 or np.abs(g+s).max() < 1e-6 for s in seen): seen.append(g)
            out += [(g, w) for g in seen]
        g = np.array([o[0] for o in out]); l = np.linalg.norm(g, axis=1)
        _cache[name] = (g/l[:, None], l/l.min(), np.array([o[1] for o in out]))
    return _cache[name]


def rays(dims, pc):
    """unit vectors from the source to the pixel centres; dims (rows, cols), first row at the top; pc = (px, py, d) in pixels"""
    ny, nx = dims
    x = np.arange(nx)+0.5-pc[0]; y = (ny-np.arange(ny)-0.5)-pc[1]
    d = np.stack(np.broadcast_arrays(x[None, :], y[:, None], np.float64(pc[2])), -1).astype(float)
    return d/np.linalg.norm(d, axis=-1, keepdims=True)


def pattern(name, qdet, dims, pc, width=0.025, noise=0.0, rng=None):
    """qdet takes detector to crystal vectors.  float64 pattern, background about 1"""
    n, l, w = normals(name)
    d = rays(dims, pc); s = d @ (n @ R.qu2om(qdet)).T
    im = (w*np.exp(-(s/(width*l**0.5))**2)).sum(-1)
    im = 1.0+im
    if noise: im = im+rng.normal(size=im.shape)*noise
    return im


def to_u8(im): return np.clip(np.rint((im-im.min())/(im.max()-im.min())*255), 0, 255).astype(np.uint8)
def to_u16(im): return np.clip(np.rint((im-im.min())/(im.max()-im.min())*65535), 0, 65535).astype(np.uint16)


def sample_to_detector(vendor, tilt, elev):
    """quaternion taking sample to detector vectors"""
    a = np.radians(90.0-tilt+elev); qx = R.ax2qu([1, 0, 0, a]); qx = R.qconj(qx)
    if vendor in ("EDAX", "EMSOFT", "KIKUCHIPY"): return R.qmul(qx, R.qconj(R.ax2qu([0, 0, 1, np.pi/2])))
    return qx


def pc_for(vendor, pc, dims, delta=50.0):
    """pc = (px, py, d) in pixels from the lower left corner -> vendor convention"""
    ny, nx = dims; px, py, d = (float(v) for v in pc)
    if vendor == "EDAX": return [px/nx, py/ny, d/min(nx, ny)]
    if vendor == "OXFORD": return [px/nx, py/nx, d/nx]
    if vendor in ("BRUKER", "KIKUCHIPY"): return [px/nx, 1-py/ny, d/ny]
    if vendor == "EMSOFT": return [nx/2-px, py-ny/2, d*delta, delta]
VENDORS = ["EDAX", "OXFORD", "BRUKER", "KIKUCHIPY", "EMSOFT"]
