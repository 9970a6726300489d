"""A stand-in for ray: actors run in this process on a virtual clock, following a script of durations and faults.

Arguments and results cross the 'process' border by pickling with read-only buffers, as they do in ray."""
import pickle, types
from .core import Violation


class RayError(Exception): pass
class RayActorError(RayError): pass
class GetTimeoutError(RayError): pass


def ship(x):
    bufs = []; data = pickle.dumps(x, protocol=5, buffer_callback=bufs.append); raw = [b.raw().tobytes() for b in bufs]
    return lambda: pickle.loads(data, buffers=raw)


class Broken:
    """handed to a worker instead of the indexer: whatever it does fails, as when memory or a device runs out"""
    def __getattr__(self, n): raise MemoryError("injected")


class Ref:
    def __init__(self, value=None, done=0.0, run=None, actor=None, err=None): self.value, self.done, self.run, self.actor, self.err, self.res = value, done, run, actor, err, None


class Cluster:
    """script: {"gpu": [[duration, fate], ...], "cpu": [...], "base": [gpu seconds, cpu seconds]}; fate: ok, die, error or stuck"""
    def __init__(self, script, limit=3e4): self.script = script; self.now = 0.0; self.count = {"gpu": 0, "cpu": 0}; self.faults = 0; self.limit = limit; self.calls = 0; self.jobs = []; self.peak = 0; self.order = []; self.down = False; self.actors = 0; self.maxactors = 0

    def tick(self, until):
        self.calls += 1; self.now = max(self.now, until)
        if self.now > self.limit or self.calls > 300000: raise Violation("the distributed run does not come to an end (%d waits, %.0f simulated seconds)" % (self.calls, self.now))

    def submit(self, actor, fn, args, kw):
        kind = "gpu" if "GPU" in actor.cls.__name__.upper() else "cpu"; idle = bool(args) and args[0] is None; dur, fate = 0.004, "ok"
        if not idle:
            k = self.count[kind]; self.count[kind] += 1; L = self.script[kind]; dur, fate = L[k] if k < len(L) else (self.script["base"][0 if kind == "gpu" else 1], "ok")
        elif self.script.get("idledeath") and kind == "cpu" and not actor.used and actor.no == 1: fate = "die"
        actor.used = True; start = max(self.now, actor.free)
        if not actor.alive: return Ref(done=self.now, err=RayActorError("actor is dead"))
        r = Ref(done=start+dur if fate != "stuck" else float("inf"), actor=actor); actor.free = r.done
        if fate != "ok": self.faults += 1
        if fate == "die": r.err = RayActorError("the actor died"); actor.alive = False; self.actors -= 1
        else:
            a, k = ship([x.value() if isinstance(x, Ref) else x for x in args]), ship({n: x for n, x in kw.items() if not isinstance(x, Ref)}); refs = {n: x for n, x in kw.items() if isinstance(x, Ref)}
            def run():
                kk = k(); kk.update({n: (Broken() if fate == "error" else x.value()) for n, x in refs.items()})
                try: return ship(fn(*a(), **kk)), None
                except Violation: raise
                except Exception as e: return None, e
            r.run = run
        actor.tasks.append(r); self.order.append((kind, idle)); return r

    def ready(self, r): return r.done <= self.now

    # --- the part of the ray API in use
    def init(self, *a, **k): self.down = False; return {}
    def shutdown(self, *a, **k): self.down = True
    def is_initialized(self): return not self.down
    def put(self, x): return Ref(value=ship(x))

    def wait(self, refs, *, num_returns=1, timeout=None, fetch_local=True):
        refs = list(refs)
        if len(set(map(id, refs))) != len(refs): raise ValueError("wait() expected a list of unique object refs")
        if not refs: self.tick(self.now+1e-4); return [], []
        if num_returns > len(refs) or num_returns <= 0: raise ValueError("num_returns")
        t = sorted(r.done for r in refs)[num_returns-1]; end = self.now+timeout if timeout is not None else t
        if timeout is None and t == float("inf"): raise Violation("waiting without end for a stuck worker")
        self.tick(max(self.now, min(t, end))); done = [r for r in refs if self.ready(r)][:num_returns]
        return done, [r for r in refs if not any(r is d for d in done)]

    def get(self, ref, *, timeout=None):
        if isinstance(ref, list): return [self.get(r, timeout=timeout) for r in ref]
        if ref.value is not None: return ref.value()
        if not self.ready(ref):
            if timeout is not None and ref.done > self.now+timeout: self.tick(self.now+timeout); raise GetTimeoutError()
            if ref.done == float("inf"): raise Violation("waiting without end for a stuck worker")
            self.tick(ref.done)
        if ref.err is not None: raise ref.err
        if ref.res is None: ref.res = ref.run()
        if ref.res[1] is not None: raise ref.res[1]
        return ref.res[0]()

    def kill(self, actor, no_restart=True):
        if actor.alive: self.actors -= 1
        actor.alive = False
        for r in actor.tasks:
            if not self.ready(r): r.done = self.now; r.err = RayActorError("killed"); r.run = None


now = None     # the cluster of the case under way


class Method:
    def __init__(self, actor, name): self.actor, self.name = actor, name
    def options(self, **k): return self
    def remote(self, *a, **k): return now.submit(self.actor, getattr(self.actor.obj, self.name), a, k)


class Handle:
    def __init__(self, cls, a, k): self.cls = cls; self.obj = cls(*ship(list(a))(), **ship(dict(k))()); self.alive = True; self.free = now.now; self.tasks = []; self.used = False; now.actors += 1; now.maxactors = max(now.maxactors, now.actors); self.no = now.maxactors
    def __getattr__(self, n):
        if n.startswith("_"): raise AttributeError(n)
        return Method(self, n)


class ActorClass:
    def __init__(self, cls): self.cls = cls
    def options(self, **k): return self
    def remote(self, *a, **k): return Handle(self.cls, a, k)


def remote(*a, **k): return ActorClass(a[0]) if a and isinstance(a[0], type) else ActorClass


def module():
    m = types.ModuleType("ray"); m.remote = remote; m.exceptions = types.SimpleNamespace(RayError=RayError, RayActorError=RayActorError, RayTaskError=RayError, GetTimeoutError=GetTimeoutError, WorkerCrashedError=RayActorError); m.__version__ = "2.0.0"
    for n in ("init", "shutdown", "put", "wait", "get", "kill", "is_initialized"): setattr(m, n, (lambda n: lambda *a, **k: getattr(now, n)(*a, **k))(n))
    return m
