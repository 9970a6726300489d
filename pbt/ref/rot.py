"""Independent float64 reference for rotation representations (scalar code, written from the
definitions in Rowenhorst et al. 2015 and Rosca et al. 2014; shares nothing with the code under test)."""
import math
import numpy as np

PI = math.pi

# ---- quaternions -------------------------------------------------------------------------------
def qnorm(q):
    q = np.asarray(q, float)
    return q / math.sqrt(float(np.dot(q, q)))

def qmul(a, b):
    a0, a1, a2, a3 = a; b0, b1, b2, b3 = b
    return np.array([a0*b0 - a1*b1 - a2*b2 - a3*b3,
                     a0*b1 + a1*b0 + a2*b3 - a3*b2,
                     a0*b2 - a1*b3 + a2*b0 + a3*b1,
                     a0*b3 + a1*b2 - a2*b1 + a3*b0])

def qconj(q): return np.array([q[0], -q[1], -q[2], -q[3]])

def qangle(a, b):
    """Rotation angle (radians) between the rotations of two quaternions, accurate near zero."""
    d = qmul(qconj(qnorm(a)), qnorm(b))
    return 2.0 * math.atan2(math.sqrt(d[1]**2 + d[2]**2 + d[3]**2), abs(d[0]))

def qu2om(q):
    w, x, y, z = qnorm(q)
    return np.array([[1-2*(y*y+z*z), 2*(x*y-w*z), 2*(x*z+w*y)],
                     [2*(x*y+w*z), 1-2*(x*x+z*z), 2*(y*z-w*x)],
                     [2*(x*z-w*y), 2*(y*z+w*x), 1-2*(x*x+y*y)]])

def om2qu(M):
    """Shepperd-like: largest component first, numerically stable everywhere."""
    M = np.asarray(M, float)
    K = np.array([[M[0,0]+M[1,1]+M[2,2], 0, 0, 0],
                  [M[2,1]-M[1,2], M[0,0]-M[1,1]-M[2,2], 0, 0],
                  [M[0,2]-M[2,0], M[0,1]+M[1,0], M[1,1]-M[0,0]-M[2,2], 0],
                  [M[1,0]-M[0,1], M[0,2]+M[2,0], M[1,2]+M[2,1], M[2,2]-M[0,0]-M[1,1]]]) / 3.0
    w, v = np.linalg.eigh(K, UPLO='L')
    q = v[:, -1]
    return q if q[0] >= 0 else -q

def eu2om(e):
    c1, c, c2 = (math.cos(float(x)) for x in e); s1, s, s2 = (math.sin(float(x)) for x in e)
    # Bunge: Rz(phi2) Rx(Phi) Rz(phi1), each a passive rotation
    z1 = np.array([[c1, s1, 0], [-s1, c1, 0], [0, 0, 1]])
    x = np.array([[1, 0, 0], [0, c, s], [0, -s, c]])
    z2 = np.array([[c2, s2, 0], [-s2, c2, 0], [0, 0, 1]])
    return z2 @ x @ z1

# ---- the other representations, to and from quaternions -----------------------------------------
def ax2qu(a):
    n = np.asarray(a[:3], float); n = n / np.linalg.norm(n)
    return np.concatenate([[math.cos(a[3]/2)], n * math.sin(a[3]/2)])

def qu2ax(q):
    q = qnorm(q)
    if q[0] < 0: q = -q
    v = np.linalg.norm(q[1:])
    if v < 1e-300: return np.array([0, 0, -1.0, 0.0])
    return np.concatenate([q[1:] / v, [2*math.atan2(v, q[0])]])

def ro2qu(r):
    n = np.asarray(r[:3], float); n = n / np.linalg.norm(n)
    w = PI if math.isinf(r[3]) else 2*math.atan(r[3])
    return ax2qu([*n, w])

def qu2ro(q):
    a = qu2ax(q)
    t = math.inf if a[3] >= PI - 1e-15 else math.tan(a[3]/2)
    return np.array([a[0], a[1], a[2], t])

def _f(w): 
    if w < 1e-2: return (0.75 * (w**3/6) * (1 - w*w/20 + w**4/840)) ** (1/3)
    return (0.75*(w - math.sin(w)))**(1/3)

def qu2ho(q):
    a = qu2ax(q); return a[:3] * _f(a[3])

def ho2qu(h):
    h = np.asarray(h, float); r = np.linalg.norm(h)
    if r < 1e-14: return np.array([1.0, 0, 0, 0])
    lo, hi = 0.0, PI
    if r >= _f(PI): w = PI
    else:
        for _ in range(200):
            m = 0.5*(lo+hi)
            if _f(m) < r: lo = m
            else: hi = m
        w = 0.5*(lo+hi)
    return ax2qu([*(h/r), w])

# cubochoric: equal-volume map between the cube of edge pi^(2/3) and the ball of volume pi^2
_A = PI**(2/3); _R1 = (3*PI/4)**(1/3)
_SC = PI**(1/6)/6**(1/6); _BETA = PI**(5/6)/6**(1/6)/2

def _perm(v):
    a = np.abs(v)
    if max(a[0], a[1]) <= a[2]: return [0, 1, 2]
    if max(a[1], a[2]) <= a[0]: return [1, 2, 0]
    return [2, 0, 1]

def cu2ho(c):
    c = np.asarray(c, float)
    p = _perm(c); X, Y, Z = c[p] * _SC
    if abs(Z) < 1e-300: return np.zeros(3)
    if max(abs(X), abs(Y)) < 1e-300: out = np.array([0, 0, math.sqrt(6/PI)*Z])
    else:
        big, small, sw = (X, Y, False) if abs(Y) <= abs(X) else (Y, X, True)
        t = PI/12*small/big
        q = _R1*2**0.25/_BETA * big / math.sqrt(math.sqrt(2)-math.cos(t))
        T1, T2 = (math.sqrt(2)*math.cos(t)-1)*q, math.sqrt(2)*math.sin(t)*q
        if sw: T1, T2 = T2, T1
        s = T1*T1+T2*T2
        k = math.sqrt(max(0.0, 1 - PI*s/(24*Z*Z)))
        out = np.array([T1*k, T2*k, math.sqrt(6/PI)*Z - s*math.sqrt(PI/24)/Z])
    r = np.zeros(3); r[p] = out
    return r

def ho2cu(h):
    """Inverse of cu2ho by Newton iteration on the (smooth within a pyramid) forward map, started
    from the closed-form radial guess; accurate to ~1e-12."""
    h = np.asarray(h, float); r = np.linalg.norm(h)
    if r < 1e-14: return np.zeros(3)
    p = _perm(h); x, y, z = h[p]
    # inverse M3: sphere -> disc
    k = math.sqrt(2*r/(r+abs(z))); X, Y = x*k, y*k
    Z = math.copysign(r/math.sqrt(6/PI), z)
    q2 = X*X+Y*Y
    if q2 < 1e-300: T = (0.0, 0.0)
    else:
        sw = abs(Y) > abs(X); big, small = (Y, X) if sw else (X, Y)
        # invert T1,T2 polar map: tan(angle)= sqrt2 sin t/(sqrt2 cos t - 1)
        ang = abs(math.atan2(small, big)) if big > 0 else abs(math.atan2(-small, -big))
        ang = abs(math.atan2(abs(small), abs(big)))
        lo, hi = 0.0, PI/12
        for _ in range(100):
            m = 0.5*(lo+hi)
            if math.atan2(math.sqrt(2)*math.sin(m), math.sqrt(2)*math.cos(m)-1) < ang: lo = m
            else: hi = m
        t = 0.5*(lo+hi)
        norm = math.hypot(math.sqrt(2)*math.cos(t)-1, math.sqrt(2)*math.sin(t))
        q = math.sqrt(q2)/norm
        b = q*math.sqrt(math.sqrt(2)-math.cos(t))*_BETA/(_R1*2**0.25)
        s = b*t*12/PI
        b = math.copysign(b, big); s = math.copysign(s, small)
        T = (s, b) if sw else (b, s)
    out = np.zeros(3); out[p] = np.array([T[0], T[1], Z])/_SC
    return out

def cu2qu(c): return ho2qu(cu2ho(c))
def qu2cu(q): return ho2cu(qu2ho(q))

TOQU = dict(qu=qnorm, ax=ax2qu, ro=ro2qu, ho=ho2qu, cu=cu2qu, om=om2qu, eu=lambda e: om2qu(eu2om(e)))

def qu2eu(q):
    M = qu2om(q)
    s = math.hypot(M[2, 0], M[2, 1])
    if s < 1e-12:
        P = 0.0 if M[2, 2] > 0 else PI
        e = [math.atan2(M[0, 1], M[0, 0]), P, 0.0]
    else:
        e = [math.atan2(M[2, 0], -M[2, 1]), math.atan2(s, M[2, 2]), math.atan2(M[0, 2], M[1, 2])]
    return np.array([e[0] % (2*PI), e[1], e[2] % (2*PI)])

FROMQU = dict(qu=lambda q: qnorm(q) if q[0] >= 0 else -qnorm(q), ax=qu2ax, ro=qu2ro, ho=qu2ho, cu=qu2cu, om=qu2om, eu=qu2eu)
CUBE_HALF = _A/2
BALL_R = _R1
