"""A pyopencl with one device that exists everywhere: the kernels of the program are compiled for this processor with
clang and run over the global range, one work item after the other (order chosen by `ORDER`).

Only what pyebsdindex uses is there, and it is as strict as the real one about what a call accepts: sizes of scalar
arguments, contiguous host arrays, live buffers, positive sizes.  `install()` puts it into sys.modules."""
import ctypes as C, hashlib, os, re, subprocess, sys, tempfile, types
import numpy as np
from .core import Violation

def _shim():
    """built-in functions of OpenCL C, on scalars through the C library and on vectors part by part"""
    L = ["#define F __attribute__((overloadable))"]; has = {"sqrt", "exp", "fabs", "fmax", "fmin", "pow"}   # scalars of these are in SHIM_C
    f1 = "sqrt exp fabs floor ceil round rint trunc log log2 log10 exp2 expm1 log1p cbrt sin cos tan asin acos atan sinh cosh tanh".split(); f2 = "fmax fmin pow fmod hypot atan2 fdim".split()
    L.append("F float sqrt(float); F float exp(float); F float fabs(float); F float fmax(float, float); F float fmin(float, float); F float pow(float, float); F float max(float, float); F float min(float, float); F float clamp(float, float, float); F float mad(float, float, float); F float fma(float, float, float); F int max(int, int); F int min(int, int); F long max(long, long); F long min(long, long); F ulong max(ulong, ulong); F ulong min(ulong, ulong); F uint abs(int); F ulong abs(long); F long clamp(long, long, long); F float convert_float(uchar); F float convert_float(ushort); F float convert_float(int); F float convert_float(long);")
    for f in f1:
        if f not in has: L.append("float %sf(float); F float %s(float a){ return %sf(a); }" % (f, f, f))
    for f in f2:
        if f not in has: L.append("float %sf(float, float); F float %s(float a, float b){ return %sf(a, b); }" % (f, f, f))
    L.append("float sqrtf(float); float expf(float); float logf(float); float sinf(float); float cosf(float); float powf(float, float); F float rsqrt(float a){ return 1.0f/sqrtf(a); }")
    for g in ("native_", "half_"): L.append(" ".join("F float %s%s(float a){ return %s; }" % (g, n, e) for n, e in (("sqrt", "sqrtf(a)"), ("exp", "expf(a)"), ("log", "logf(a)"), ("sin", "sinf(a)"), ("cos", "cosf(a)"), ("rsqrt", "1.0f/sqrtf(a)"), ("recip", "1.0f/a")))+" F float %sdivide(float a, float b){ return a/b; } F float %spowr(float a, float b){ return powf(a, b); }" % (g, g))
    L.append("F float mix(float a, float b, float t){ return a+(b-a)*t; } F float step(float e, float x){ return x < e ? 0.0f : 1.0f; } F float sign(float a){ return a > 0 ? 1.0f : a < 0 ? -1.0f : 0.0f; } F int isnan(float a){ return a != a; } F int isinf(float a){ return a-a != a-a && a == a; } F int isfinite(float a){ return a-a == a-a; } F int mad24(int a, int b, int c){ return a*b+c; } F int mul24(int a, int b){ return a*b; } F void mem_fence(cl_mem_fence_flags f){}")
    rel = (("isless", "<"), ("islessequal", "<="), ("isgreater", ">"), ("isgreaterequal", ">="), ("isequal", "=="), ("isnotequal", "!="))
    for f, o in rel: L.append("F int %s(float a, float b){ return a %s b; }" % (f, o))
    L.append("F float select(float a, float b, int c){ return c ? b : a; } F float select(float a, float b, uint c){ return c ? b : a; } F int select(int a, int b, int c){ return c ? b : a; } F long select(long a, long b, long c){ return c ? b : a; }")
    for t in "char uchar short ushort int uint long ulong".split():
        if t not in ("int", "long"): L.append("F u%s abs(%s a){ return a < 0 ? -a : a; }" % (t.lstrip("u"), t))
        if t not in ("int", "long", "ulong"): L.append("F %s max(%s a, %s b){ return a > b ? a : b; } F %s min(%s a, %s b){ return a < b ? a : b; }" % (t, t, t, t, t, t))
        if t != "long": L.append("F %s clamp(%s a, %s b, %s c){ return a < b ? b : a > c ? c : a; }" % (t, t, t, t))
        L.append(" ".join("F %s convert_%s(%s a){ return (%s)a; }" % (t, t, q, t) for q in "char uchar short ushort int uint long ulong float".split())); L.append("F %s convert_%s_sat(float a){ return %s; }" % (t, t, {"uchar": "a < 0 ? 0 : a > 255 ? 255 : (uchar)a", "ushort": "a < 0 ? 0 : a > 65535 ? 65535 : (ushort)a"}.get(t, "(%s)a" % t)))
    for q in "char short uint ulong float".split(): L.append("F float convert_float(%s a){ return (float)a; }" % q)
    for n in (2, 4, 8, 16):
        v = "float%d" % n; each = lambda e: "%s r; for (int i = 0; i < %d; ++i) ((float*)&r)[i] = %s; return r;" % (v, n, e); A, B, Cc = ("((float*)&%s)[i]" % x for x in "abc")
        for f in f1: L.append("F %s %s(%s a){ %s }" % (v, f, v, each("%s(%s)" % (f, A))))
        for f in f2+["max", "min"]: L.append("F %s %s(%s a, %s b){ %s }" % (v, f, v, v, each("%s(%s, %s)" % (f, A, B))))
        for f in ("max", "min", "fmax", "fmin"): L.append("F %s %s(%s a, float b){ %s }" % (v, f, v, each("%s(%s, b)" % (f, A))))
        for f in ("mad", "fma", "clamp", "mix"): L.append("F %s %s(%s a, %s b, %s c){ %s }" % (v, f, v, v, v, each("%s(%s, %s, %s)" % (f, A, B, Cc))))
        L.append("F %s clamp(%s a, float b, float c){ %s }" % (v, v, each("clamp(%s, b, c)" % A)))
        for f, o in rel: L.append("F int%d %s(%s a, %s b){ return a %s b; }" % (n, f, v, v, o))
        L.append("F %s select(%s a, %s b, int%d c){ return c < (int%d)(0) ? b : a; } F %s select(%s a, %s b, uint%d c){ return as_int%d(c) < (int%d)(0) ? b : a; }" % (v, v, v, n, n, v, v, v, n, n, n))
        for t in ("int", "long", "uint", "ushort", "uchar"): L.append("F %s%d max(%s%d a, %s%d b){ return a > b ? a : b; } F %s%d min(%s%d a, %s%d b){ return a < b ? a : b; }" % ((t, n)*6))
        for t in "char uchar short ushort int uint long ulong".split(): L.append("F %s convert_%s(%s%d a){ return __builtin_convertvector(a, %s); } F %s%d convert_%s%d(%s a){ return __builtin_convertvector(a, %s%d); }" % (v, v, t, n, v, t, n, t, n, v, t, n))
        if n <= 4: L.append("F float dot(%s a, %s b){ float r = 0; for (int i = 0; i < %d; ++i) r += %s*%s; return r; }" % (v, v, n, A, B))
        L.append("F int any(int%d a){ int r = 0; for (int i = 0; i < %d; ++i) r |= ((int*)&a)[i] < 0; return r; } F int all(int%d a){ int r = 1; for (int i = 0; i < %d; ++i) r &= ((int*)&a)[i] < 0; return r; }" % (n, n, n, n))
        for t in ("float", "uchar", "ushort", "int"):
            for sp in ("__global", "__private", "__local", "__constant"):
                L.append("F %s%d vload%d(size_t k, const %s %s *p){ %s%d r; for (int i = 0; i < %d; ++i) ((%s*)&r)[i] = p[k*%d+i]; return r; }" % (t, n, n, sp, t, t, n, n, t, n))
                if sp != "__constant": L.append("F void vstore%d(%s%d a, size_t k, %s %s *p){ for (int i = 0; i < %d; ++i) p[k*%d+i] = ((%s*)&a)[i]; }" % (n, t, n, sp, t, n, n, t))
    return "\n".join(L)+"\n"


SHIM_CL = _shim()
SHIM_C = r"""
#include <math.h>
#include <stdint.h>
typedef uint64_t u; static u gid[3], gsz[3];
u f_gid(unsigned d) __asm__("_Z13get_global_idj"); u f_gid(unsigned d){ return d < 3 ? gid[d] : 0; }
u f_gsz(unsigned d) __asm__("_Z15get_global_sizej"); u f_gsz(unsigned d){ return d < 3 ? gsz[d] : 1; }
u f_lid(unsigned d) __asm__("_Z12get_local_idj"); u f_lid(unsigned d){ return 0; }
u f_lsz(unsigned d) __asm__("_Z14get_local_sizej"); u f_lsz(unsigned d){ return 1; }
u f_grp(unsigned d) __asm__("_Z12get_group_idj"); u f_grp(unsigned d){ return d < 3 ? gid[d] : 0; }
u f_off(unsigned d) __asm__("_Z17get_global_offsetj"); u f_off(unsigned d){ return 0; }
unsigned f_dim(void) __asm__("_Z12get_work_dimv"); unsigned f_dim(void){ return 3; }
u f_absl(int64_t x) __asm__("_Z3absl"); u f_absl(int64_t x){ return x < 0 ? -x : x; }
unsigned f_absi(int x) __asm__("_Z3absi"); unsigned f_absi(int x){ return x < 0 ? -x : x; }
int64_t f_maxl(int64_t a, int64_t b) __asm__("_Z3maxll"); int64_t f_maxl(int64_t a, int64_t b){ return a > b ? a : b; }
int64_t f_minl(int64_t a, int64_t b) __asm__("_Z3minll"); int64_t f_minl(int64_t a, int64_t b){ return a < b ? a : b; }
int f_maxi(int a, int b) __asm__("_Z3maxii"); int f_maxi(int a, int b){ return a > b ? a : b; }
int f_mini(int a, int b) __asm__("_Z3minii"); int f_mini(int a, int b){ return a < b ? a : b; }
u f_maxm(u a, u b) __asm__("_Z3maxmm"); u f_maxm(u a, u b){ return a > b ? a : b; }
u f_minm(u a, u b) __asm__("_Z3minmm"); u f_minm(u a, u b){ return a < b ? a : b; }
float f_maxf(float a, float b) __asm__("_Z3maxff"); float f_maxf(float a, float b){ return a < b ? b : a; }
float f_minf(float a, float b) __asm__("_Z3minff"); float f_minf(float a, float b){ return b < a ? b : a; }
float f_fmaxf(float a, float b) __asm__("_Z4fmaxff"); float f_fmaxf(float a, float b){ return fmaxf(a, b); }
float f_fminf(float a, float b) __asm__("_Z4fminff"); float f_fminf(float a, float b){ return fminf(a, b); }
float f_fabsf(float a) __asm__("_Z4fabsf"); float f_fabsf(float a){ return fabsf(a); }
double f_fabsd(double a) __asm__("_Z4fabsd"); double f_fabsd(double a){ return fabs(a); }
float f_sqrtf(float a) __asm__("_Z4sqrtf"); float f_sqrtf(float a){ return sqrtf(a); }
double f_sqrtd(double a) __asm__("_Z4sqrtd"); double f_sqrtd(double a){ return sqrt(a); }
float f_expf(float a) __asm__("_Z3expf"); float f_expf(float a){ return expf(a); }
double f_expd(double a) __asm__("_Z3expd"); double f_expd(double a){ return exp(a); }
float f_powf(float a, float b) __asm__("_Z3powff"); float f_powf(float a, float b){ return powf(a, b); }
float f_clampf(float a, float b, float c) __asm__("_Z5clampfff"); float f_clampf(float a, float b, float c){ return a < b ? b : a > c ? c : a; }
int64_t f_clampl(int64_t a, int64_t b, int64_t c) __asm__("_Z5clamplll"); int64_t f_clampl(int64_t a, int64_t b, int64_t c){ return a < b ? b : a > c ? c : a; }
float f_mad(float a, float b, float c) __asm__("_Z3madfff"); float f_mad(float a, float b, float c){ return a*b+c; }
float f_fma(float a, float b, float c) __asm__("_Z3fmafff"); float f_fma(float a, float b, float c){ return fmaf(a, b, c); }
float f_cfh(unsigned char a) __asm__("_Z13convert_floath"); float f_cfh(unsigned char a){ return a; }
float f_cft(unsigned short a) __asm__("_Z13convert_floatt"); float f_cft(unsigned short a){ return a; }
float f_cfi(int a) __asm__("_Z13convert_floati"); float f_cfi(int a){ return a; }
float f_cfl(int64_t a) __asm__("_Z13convert_floatl"); float f_cfl(int64_t a){ return a; }
void f_bar(unsigned a) __asm__("_Z7barrierj"); void f_bar(unsigned a){}
typedef void (*K)(u,u,u,u,u,u,u,u,u,u,u,u,u,u,u,u,u,u,u,u,float,float,float,float,float,float,float,float);
/* integers and pointers fill integer registers and the stack, floats their own registers, each in order of appearance */
void run(K k, const u *n, const u *a, const float *f, int back){
  u m = n[0]*n[1]*n[2]; gsz[0] = n[0]; gsz[1] = n[1]; gsz[2] = n[2];
  for (u t = 0; t < m; ++t){ u i = back ? m-1-t : t; gid[0] = i%n[0]; gid[1] = i/n[0]%n[1]; gid[2] = i/n[0]/n[1];
    k(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8],a[9],a[10],a[11],a[12],a[13],a[14],a[15],a[16],a[17],a[18],a[19],f[0],f[1],f[2],f[3],f[4],f[5],f[6],f[7]); }
}
"""
FLAGS = ["-O2", "-fPIC", "-ffp-contract=off", "-fno-math-errno", "-fmax-type-align=4", "-Wno-everything"]
SIZES = {"uchar": 1, "char": 1, "ushort": 2, "short": 2, "int": 4, "uint": 4, "float": 4, "long": 8, "ulong": 8, "double": 8}
ORDER = {"back": 0}           # 1: work items last to first
STAT = {"launches": 0, "items": 0, "by": {}}
FAULT = {}                    # {(kernel, k): "skip" or "error"}: the k-th launch of the kernel leaves its output alone or raises
DEV = {"unified": False, "limit": 2**30, "max_alloc": 2**30, "global": 2**32, "count": 1, "fill": 0}
MARGIN = 256
_libs = {}


class Error(Exception): pass
class LogicError(Error): pass
class MemoryError_(Error): pass
class RuntimeError_(Error): pass


def build(src):
    """compile OpenCL source for this processor, return (library, {kernel: [argument class]})"""
    h = hashlib.sha256(src.encode()).hexdigest()
    if h in _libs: return _libs[h]
    d = tempfile.mkdtemp(); p = lambda x: os.path.join(d, x)
    try:
        for n, t in (("k.cl", src), ("s.cl", SHIM_CL), ("s.c", SHIM_C)):
            with open(p(n), "w") as f: f.write(t)
        for n in ("k", "s"):
            r = subprocess.run(["clang", "-x", "cl", "-cl-std=CL1.2", "-Xclang", "-finclude-default-header"]+FLAGS+["-c", p(n+".cl"), "-o", p(n+"l.o")], capture_output=True, text=True)
            if r.returncode: raise LogicError("clBuildProgram failed: BUILD_PROGRAM_FAILURE\n"+r.stderr[-2000:])
        r = subprocess.run(["clang"]+FLAGS+["-shared", p("s.c"), p("kl.o"), p("sl.o"), "-lm", "-Wl,-z,defs", "-o", p("l.so")], capture_output=True, text=True)
        if r.returncode: raise RuntimeError("the stand-in for OpenCL lacks a function:\n"+r.stderr[-2000:])
        lib = C.CDLL(p("l.so"))
    finally:
        for n in os.listdir(d): os.remove(p(n))
        os.rmdir(d)
    t = re.sub(r"//[^\n]*", "", re.sub(r"/\*.*?\*/", "", src, flags=re.S)); sig = {}
    for m in re.finditer(r"\b(?:__)?kernel\s+void\s+(\w+)\s*\(([^)]*)\)", t):
        args = []
        for a in m.group(2).split(","):
            w = a.replace("*", " * ").split()
            if "*" in w: args.append("local" if "__local" in w or "local" in w else "buffer"); continue
            w = [x for x in w[:-1] if x not in ("const", "__private")]; u = "unsigned" in w; w = [x for x in w if x not in ("unsigned", "signed")]
            base = "long" if "long" in w else (w[0] if w else "int"); args.append(("float" if base == "float" else "int", SIZES[base]))
        sig[m.group(1)] = args
    _libs[h] = lib, sig; return _libs[h]


class Event:
    command_execution_status = 0
    def wait(self): pass


class mem_flags: READ_WRITE, WRITE_ONLY, READ_ONLY, USE_HOST_PTR, ALLOC_HOST_PTR, COPY_HOST_PTR, HOST_WRITE_ONLY, HOST_READ_ONLY, HOST_NO_ACCESS = 1, 2, 4, 8, 16, 32, 128, 256, 512
class device_type: CPU, GPU, ACCELERATOR, ALL = 2, 4, 8, 0xFFFFFFFF
class device_info: MAX_WORK_GROUP_SIZE, GLOBAL_MEM_SIZE, MAX_MEM_ALLOC_SIZE, HOST_UNIFIED_MEMORY, NAME = 0x1004, 0x101F, 0x1010, 0x1035, 0x102B


class Device:
    name = "stand-in"; type = device_type.GPU; max_work_group_size = 256
    @property
    def host_unified_memory(self): return DEV["unified"]
    @property
    def max_mem_alloc_size(self): return DEV["max_alloc"]
    @property
    def global_mem_size(self): return DEV["global"]
    def get_info(self, i): return {0x1004: 256, 0x101F: DEV["global"], 0x1010: DEV["max_alloc"], 0x1035: DEV["unified"], 0x102B: self.name}[i]


_devices = [Device() for _ in range(8)]


class Platform:
    name = "stand-in"
    def get_devices(self, device_type=0xFFFFFFFF): return _devices[:DEV["count"]] if device_type & 4 else []


_platform = Platform()
def get_platforms(): return [_platform]


class Context:
    def __init__(self, devices=None, **k): self.devices = list(devices)


class CommandQueue:
    def __init__(self, context, device=None, **k): self.context = context; self.device = device or context.devices[0]
    def flush(self): pass
    def finish(self): pass


class Buffer:
    def __init__(self, context, flags, size=0, hostbuf=None):
        if not isinstance(context, Context): raise TypeError("Buffer: no context")
        if hostbuf is not None:
            v = memoryview(hostbuf)
            if not v.c_contiguous: raise BufferError("ndarray is not C-contiguous")
            b = np.frombuffer(v.cast("B") if v.nbytes else b"", np.uint8); size = size or b.size
        size = int(size)
        if size <= 0: raise LogicError("create_buffer failed: INVALID_BUFFER_SIZE")
        if size > DEV["limit"]: raise MemoryError_("create_buffer failed: INVALID_BUFFER_SIZE")
        # what a fresh buffer holds is not defined: DEV['fill'] is written over it
        self.fill = DEV["fill"]; self.size = size; self._m = np.full(size+2*MARGIN+64, DEV["fill"], np.uint8); o = (-self._m.ctypes.data) % 64+MARGIN; self._d = self._m[o:o+size]; self._live = True
        if hostbuf is not None: self._d[:] = b[:size]
    def release(self):
        if not self._live: raise LogicError("clReleaseMemFree failed: INVALID_VALUE")
        self._live = False; self._m = self._d = None
    def guard(self, name):
        o = self._d.ctypes.data-self._m.ctypes.data
        if np.any(self._m[:o] != self.fill) or np.any(self._m[o+self.size:] != self.fill): raise Violation("kernel %s writes outside of a buffer of %d bytes" % (name, self.size))
    @property
    def d(self):
        if not self._live: raise LogicError("buffer used after its release")
        return self._d


class LocalMemory:
    def __init__(self, size): self.size = size


class Kernel:
    def __init__(self, name, lib, args): self.name, self.args, self.fn, self.lib = name, args, getattr(lib, name), lib
    def __call__(self, queue, gsize, lsize, *a, wait_for=None, **k):
        if not isinstance(queue, CommandQueue): raise TypeError("%s: no command queue" % self.name)
        if len(a) != len(self.args): raise LogicError("%s: %d arguments, kernel has %d" % (self.name, len(a), len(self.args)))
        n = [int(x) for x in gsize]
        if not 1 <= len(n) <= 3 or min(n) < 1: raise LogicError("clEnqueueNDRangeKernel failed: INVALID_GLOBAL_WORK_SIZE %s" % n)
        if lsize is not None and (len(lsize) != len(n) or any(g % int(l) for g, l in zip(n, lsize)) or np.prod(lsize) > 256): raise LogicError("clEnqueueNDRangeKernel failed: INVALID_WORK_GROUP_SIZE")
        n += [1]*(3-len(n)); I, F = [], []
        for i, (x, t) in enumerate(zip(a, self.args)):
            if t == "buffer":
                if not isinstance(x, Buffer): raise LogicError("%s: argument %d is no buffer" % (self.name, i+1))
                I.append(x.d.ctypes.data); continue
            if t == "local": raise LogicError("local memory is not provided")
            try: b = memoryview(x).cast("B").tobytes() if isinstance(x, np.ndarray) else x.tobytes() if isinstance(x, np.generic) else bytes(memoryview(x))  # the bytes are handed over as they are
            except TypeError: raise TypeError("%s: invalid argument %d, sized numpy type wanted" % (self.name, i+1))
            if len(b) != t[1]: raise LogicError("when processing arg#%d of %s: clSetKernelArg failed: INVALID_ARG_SIZE" % (i+1, self.name))
            if t[0] == "float": F.append(np.frombuffer(b, np.float32)[0])
            else: I.append(int.from_bytes(b, "little", signed=True) & (2**64-1))
        A = (C.c_uint64*20)(*I); G = (C.c_float*8)(*[float(f) for f in F]); N = (C.c_uint64*3)(*n)
        k = STAT["by"].get(self.name, 0); f = FAULT.get((self.name, k))
        if f == "error": STAT["by"][self.name] = k+1; raise RuntimeError_("clEnqueueNDRangeKernel failed: OUT_OF_RESOURCES")
        if f != "skip": self.lib.run(self.fn, N, A, G, C.c_int(ORDER["back"]))
        for x in a:
            if isinstance(x, Buffer): x.guard(self.name)
        STAT["launches"] += 1; STAT["items"] += n[0]*n[1]*n[2]; STAT["by"][self.name] = STAT["by"].get(self.name, 0)+1
        return Event()


class Program:
    def __init__(self, context, src): self._src = src; self._k = {}
    def build(self, options=(), **k): self._lib, self._sig = build(self._src); return self
    def __getattr__(self, n):
        if n.startswith("_") or n not in self._sig: raise AttributeError(n)
        if n not in self._k: self._k[n] = Kernel(n, self._lib, self._sig[n])
        return self._k[n]


def _view(a):
    v = memoryview(a)
    if not v.c_contiguous: raise BufferError("ndarray is not contiguous")
    return np.frombuffer(v.cast("B"), np.uint8)


def enqueue_copy(queue, dest, src, is_blocking=True, **k):
    if not isinstance(queue, CommandQueue): raise TypeError("no command queue")
    if isinstance(dest, Buffer): s = src.d if isinstance(src, Buffer) else _view(src); t = dest.d; what = "write"
    else:
        if memoryview(dest).readonly: raise BufferError("buffer source array is read-only")
        t = _view(dest); s = src.d; what = "read"
    m = min(s.size, t.size) if isinstance(src, Buffer) and isinstance(dest, Buffer) else (t.size if what == "read" else s.size)
    if m > s.size or m > t.size: raise LogicError("clEnqueue%sBuffer failed: INVALID_VALUE" % what.title())
    t[:m] = s[:m]; return Event()


def enqueue_fill_buffer(queue, mem, pattern, offset, size, wait_for=None):
    p = np.frombuffer(np.asarray(pattern).tobytes(), np.uint8); size, offset = int(size), int(offset)
    if size % p.size or offset % p.size or offset+size > mem.d.size: raise LogicError("clEnqueueFillBuffer failed: INVALID_VALUE")
    mem.d[offset:offset+size] = np.tile(p, size//p.size); return Event()


def enqueue_barrier(queue, wait_for=None): return Event()
def enqueue_marker(queue, wait_for=None): return Event()
def create_some_context(*a, **k): return Context(_devices[:1])


def install():
    m = types.ModuleType("pyopencl")
    for n in ("Error", "LogicError", "Event", "mem_flags", "device_type", "device_info", "Device", "Platform", "get_platforms", "Context", "CommandQueue", "Buffer", "LocalMemory", "Kernel", "Program", "enqueue_copy", "enqueue_fill_buffer", "enqueue_barrier", "enqueue_marker", "create_some_context"): setattr(m, n, globals()[n])
    m.MemoryError = MemoryError_; m.VERSION = (2024, 1, 0); m.__file__ = __file__; sys.modules["pyopencl"] = m; return m
