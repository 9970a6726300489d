"""Facets (generated checks) and the machinery that runs one of them under Hypothesis."""
import hashlib, json, os, struct, sys, time, traceback, zlib

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class Violation(Exception):
    """The property does not hold on this case."""


class HarnessError(Exception):
    """The check itself failed; never a verdict about the code under test."""


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Rec:
    """Per-case recorder handed to the facet body."""
    def __init__(self):
        self.nontriv = False
        self.labels = []

    def nontrivial(self, flag=True):
        if flag:
            self.nontriv = True

    def label(self, *names):
        self.labels.extend(str(n) for n in names)


class Facet:
    def __init__(self, name, strategy, fn, quick, thorough, budget, group, rule, shrink):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough = quick, thorough
        self.budget, self.group, self.rule, self.shrink = budget, group, rule, shrink


class Registry:
    def __init__(self):
        self.facets = []

    def facet(self, name, strategy=None, quick=100, thorough=None, budget=60, group="main", rule="", shrink=25):
        """strategy: zero-argument callable returning a Hypothesis strategy of JSON-able cases, or a
        list of cases (enumerated exhaustively).  budget: seconds per run at the quick tier."""
        def deco(fn):
            self.facets.append(Facet(name, strategy, fn, quick, thorough or quick * 20, budget, group, rule, shrink))
            return fn
        return deco


def jsonable(o):
    import numpy as np
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, (set, frozenset)):
        return sorted(o)
    if isinstance(o, bytes):
        return o.hex()
    raise TypeError(type(o))


def dumps(case):
    return json.dumps(case, default=jsonable, sort_keys=True)


def from_code_under_test(tb):
    """Does the traceback pass through the package under test?"""
    for fr in traceback.extract_tb(tb):
        fn = os.path.realpath(fr.filename) if not fr.filename.startswith("<") else fr.filename
        if fn.startswith(REPO + os.sep):
            return True
    return False


UNREADABLE = (LookupError, ValueError, TypeError, ArithmeticError, EOFError, AssertionError, FileNotFoundError, struct.error)


def unreadable(e):
    """Is this error of the check itself what happens when the code's answer lacks something the check reads (a header
    field, an output file, an array of the right shape)?  A renamed interface or a lack of resources is not."""
    if isinstance(e, AttributeError):
        return e.obj is None or type(e.obj).__module__.split(".")[0] in ("builtins", "numpy", "h5py")  and not isinstance(e.obj, type(os))
    return isinstance(e, UNREADABLE)


class RunResult:
    def __init__(self):
        self.evaluations = 0
        self.skipped = 0
        self.distinct = set()
        self.labels = {}
        self.samples = []
        self.violation = None   # (message, case)
        self.error = None
        self.wall = 0.0


def run_facet(f, journal=None):
    """Run one facet; returns a RunResult."""
    res = RunResult()
    t0 = time.time()
    n = f.quick if TIER == "quick" else f.thorough
    budget = f.budget if TIER == "quick" else f.budget * 12
    state = {"failed_at": None, "failures": {}}

    def body(case):
        key = dumps(case)
        case = json.loads(key)          # what a replay file would hold is what runs
        if key in state["failures"]:
            raise state["failures"][key]
        now = time.time()
        if state["failed_at"] is None:
            if now - t0 > budget:
                res.skipped += 1
                return
        elif now - state["failed_at"] > f.shrink:
            return
        if journal:
            with open(journal, "w") as fh:
                fh.write(json.dumps({"facet": f.name, "case": case}))
        rec = Rec()
        res.evaluations += 1
        try:
            f.fn(case, rec)
        except Violation as e:
            if state["failed_at"] is None:
                state["failed_at"] = time.time()
            state["failures"][key] = e
            res.violation = (str(e), case)
            raise
        except Exception as e:
            if isinstance(e, HarnessError) or type(e).__module__.startswith("hypothesis"):
                raise
            if from_code_under_test(e.__traceback__):
                tb = traceback.extract_tb(e.__traceback__)
                where = [fr for fr in tb if os.path.realpath(fr.filename).startswith(REPO + os.sep)][-1]
                v = Violation("the code under test raised %s: %s (at %s:%d) on a valid input" % (
                    type(e).__name__, str(e)[:400], os.path.relpath(where.filename, REPO), where.lineno))
                if state["failed_at"] is None:
                    state["failed_at"] = time.time()
                state["failures"][key] = v
                res.violation = (str(v), case)
                raise v from e
            if unreadable(e):
                fr = traceback.extract_tb(e.__traceback__)[-1]
                v = Violation("what the code returned or wrote cannot be read: %s: %s (at %s:%d)" % (type(e).__name__, str(e)[:400], os.path.basename(fr.filename), fr.lineno))
                if state["failed_at"] is None:
                    state["failed_at"] = time.time()
                state["failures"][key] = v
                res.violation = (str(v), case)
                raise v from e
            raise
        for l in rec.labels:
            res.labels[l] = res.labels.get(l, 0) + 1
        if rec.nontriv:
            h = hashlib.sha1(key.encode()).hexdigest()[:16]
            if h not in res.distinct:
                res.distinct.add(h)
                if len(res.samples) < 3 and len(key) < 2500:
                    res.samples.append(case)

    try:
        strat = f.strategy() if callable(f.strategy) else f.strategy
        if isinstance(strat, (list, tuple)):
            for case in strat:
                body(case)
        else:
            import hypothesis
            from hypothesis import HealthCheck, Phase, settings
            test = hypothesis.given(strat)(body)
            test = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                            phases=[Phase.generate, Phase.shrink], print_blob=False,
                            report_multiple_bugs=False,
                            suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                                   HealthCheck.large_base_example])(test)
            test = hypothesis.seed(SEED * 1000003 + zlib.crc32(f.name.encode()))(test)
            test()
    except Violation as e:
        # keep the smallest failing case that was seen
        best = min(state["failures"], key=len)
        res.violation = (str(state["failures"][best]), json.loads(best))
    except BaseException as e:
        if state["failures"]:
            best = min(state["failures"], key=len)
            res.violation = (str(state["failures"][best]), json.loads(best))
        else:
            res.error = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-6000:]
    res.wall = time.time() - t0
    return res
