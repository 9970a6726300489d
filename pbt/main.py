"""Entry point of every check:  python -m pbt.main <PROPERTY> [--replay FILE] [--facet NAME]

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 3: the check failed."""
import importlib, json, os, signal, subprocess, sys, time
from . import core

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAXPROC = 6
HANG = 300 if core.TIER == "quick" else 1800      # seconds on one case (seconds are normal, compilation takes up to a minute)
DEADLINE = 840 if core.TIER == "quick" else 6 * 3600


def known(pid):
    """Entries 'finding: property=<id> key=<facet-or-key> <what fails>' of the known-findings file."""
    out = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(None, 2)[2].strip()
                key, _, what = rest.partition(" ")
                out[key.split("=", 1)[1]] = what
    return out


def replay(pid, path):
    spec = json.load(open(path))
    mod = importlib.import_module("pbt.props." + pid)
    f = [x for x in mod.reg.facets if x.name == spec["facet"]][0]
    f.strategy = [spec["case"]]
    r = core.run_facet(f)
    if r.violation:
        print("VIOLATION property=%s replay=%s" % (pid, path)); print("  " + r.violation[0]); return 1
    if r.error:
        print(r.error); return 3
    print("held on the replayed case"); return 0


def main():
    a = sys.argv[1:]
    pid = a[0]
    only = a[a.index("--facet") + 1] if "--facet" in a else None
    if "--replay" in a:
        return replay(pid, a[a.index("--replay") + 1])
    t0 = time.time()
    work = os.environ["VERIF_WORK"]
    mod = importlib.import_module("pbt.props." + pid)
    outdir = os.path.join(work, "out"); os.makedirs(outdir, exist_ok=True)
    groups = []
    for f in mod.reg.facets:
        if (not only or f.name == only) and f.group not in groups:
            groups.append(f.group)
    names = {g: [f.name for f in mod.reg.facets if f.group == g and (not only or f.name == only)] for g in groups}
    pending, running, ended = list(groups), {}, {}
    while pending or running:
        while pending and len(running) < MAXPROC:
            g = pending.pop(0)
            log = open(os.path.join(outdir, g + ".log"), "w")
            cmd = [sys.executable, "-X", "faulthandler", "-m", "pbt.child", pid, g, outdir] + ([only] if only else [])
            running[g] = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
        for g, p in list(running.items()):
            if p.poll() is not None:
                ended[g] = p.returncode; del running[g]
                try: os.killpg(p.pid, signal.SIGKILL)
                except OSError: pass
        for g, p in list(running.items()):
            j = os.path.join(outdir, g + ".journal")
            if os.path.exists(j) and time.time() - max(os.path.getmtime(j), t0) > HANG:
                try: os.killpg(p.pid, signal.SIGKILL)
                except OSError: pass
                ended[g] = "hang"; del running[g]
        if time.time() - t0 > DEADLINE:
            for g, p in running.items():
                try: os.killpg(p.pid, signal.SIGKILL)
                except OSError: pass
                ended[g] = "deadline"
            for g in pending: ended[g] = "deadline"
            break
        time.sleep(0.1)

    viol, errors, ev, distinct, labels, samples, facets = [], [], 0, 0, {}, [], {}
    for g in groups:
        for n in names[g]:
            p = os.path.join(outdir, n + ".json")
            if os.path.exists(p):
                r = json.load(open(p))
                ev += r["evaluations"]; distinct += len(r["distinct"])
                facets[n] = dict(evaluations=r["evaluations"], distinct_nontrivial=len(r["distinct"]), skipped_over_budget=r["skipped"],
                                 rule=r["rule"], labels=r["labels"], wall_s=round(r["wall"], 1))
                samples += [{"facet": n, "case": c} for c in r["samples"][:2]]
                if r["violation"]: viol.append((n, r["violation"][0], r["violation"][1]))
                elif r["error"]: errors.append("%s: %s" % (n, r["error"]))
        missing = [n for n in names[g] if not os.path.exists(os.path.join(outdir, n + ".json"))]
        if missing:
            rc = ended.get(g)
            tail = open(os.path.join(outdir, g + ".log")).read()[-3000:] if os.path.exists(os.path.join(outdir, g + ".log")) else ""
            j = os.path.join(outdir, g + ".journal")
            if isinstance(rc, int) and -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL) and os.path.exists(j):
                spec = json.load(open(j))
                viol.append((spec["facet"], "the process died with signal %d while running this case (memory corruption)" % -rc, spec["case"]))
            elif rc == "hang":
                spec = json.load(open(j)); viol.append((spec["facet"], "the code did not return within %d s on this case" % HANG, spec["case"]))
            else:
                errors.append("group %s ended with %s before finishing %s\n%s" % (g, rc, missing, tail))

    for e in errors:
        print("CHECK-ERROR " + e)
    kn = known(pid)
    nviol = 0
    for n, msg, case in viol:
        if n in kn:
            print("KNOWN-FINDING: property=%s %s" % (pid, kn[n])); continue
        nviol += 1
        rd = os.path.join(HERE, "replays"); os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%s.json" % (pid, n))
        with open(path, "w") as fh:
            json.dump({"property": pid, "facet": n, "message": msg, "case": case, "seed": core.SEED}, fh)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  facet %s: %s" % (n, msg)); print("  case: %s" % core.dumps(case)[:1500])
    wall = time.time() - t0
    if not only:
        evd = os.path.join(HERE, "evidence"); os.makedirs(evd, exist_ok=True)
        doc = {"property": pid, "tier": "thorough" if core.TIER == "thorough" else "quick", "seed": core.SEED, "level": "exploration",
               "coverage": {"evaluations": ev, "distinct_nontrivial": distinct, "rule": getattr(mod, "RULE", ""), "samples": samples, "facets": facets},
               "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(wall, 1), "violations": nviol}
        with open(os.path.join(evd, pid + ".json"), "w") as fh:
            json.dump(doc, fh, indent=1, default=core.jsonable)
    for n, d in facets.items():
        print("  %-28s %6d cases, %6d distinct non-trivial, %5.1fs%s %s" % (n, d["evaluations"], d["distinct_nontrivial"], d["wall_s"],
              " (%d skipped over budget)" % d["skipped_over_budget"] if d["skipped_over_budget"] else "", d["labels"] or ""))
    print("%s: %d cases, %d distinct non-trivial, %.0f s" % (pid, ev, distinct, wall))
    if nviol: return 1
    if errors: return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
