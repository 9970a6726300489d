"""Runs one group of facets of one property in its own process, writing one result file per facet."""
import importlib, json, os, sys
from . import core


def main():
    pid, group, outdir = sys.argv[1:4]
    only = sys.argv[4] if len(sys.argv) > 4 else None
    mod = importlib.import_module("pbt.props." + pid)
    import pyebsdindex
    if not os.path.realpath(pyebsdindex.__file__).startswith(core.REPO + os.sep):
        raise SystemExit("wrong package imported: " + pyebsdindex.__file__)
    for f in mod.reg.facets:
        if f.group != group or (only and f.name != only):
            continue
        r = core.run_facet(f, journal=os.path.join(outdir, group + ".journal"))
        out = dict(facet=f.name, rule=f.rule, evaluations=r.evaluations, skipped=r.skipped,
                   distinct=sorted(r.distinct), labels=r.labels, samples=r.samples,
                   violation=r.violation, error=r.error, wall=r.wall)
        tmp = os.path.join(outdir, f.name + ".tmp")
        with open(tmp, "w") as fh:
            fh.write(json.dumps(out, default=core.jsonable))
        os.rename(tmp, os.path.join(outdir, f.name + ".json"))
    for h in getattr(mod, "cleanup", []):
        h()


if __name__ == "__main__":
    main()
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(0)
