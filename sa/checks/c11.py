"""C11: without a GPU the work is done on the CPU."""
from .. import spec, result
from .base import ApiCheck, Finding, construct_of


class C11(ApiCheck):
    ID = "C11"
    TITLE = "asking for the GPU on a machine without one falls back to the CPU"
    EXPLANATION = (
        "Abstract interpretation of every public function with a GPU option, "
        "for every GPU choice it documents, on a machine where "
        "cuda.is_available() is false: no path may reach a device array, a "
        "device call or a kernel launch, and the result and the written data "
        "must be the same expression of the inputs as with gpu=False.")
    RULES = {"device": "no device operation is reached when there is no GPU",
             "same": "the fallback computes what gpu=False computes",
             "fails": "the fallback does not end in an error that gpu=False "
                      "does not end in"}
    limit = {"quick": 5, "thorough": 40}

    def functions(self, project):
        return [f for f in project.public_functions()
                if "gpu" in f.params + f.kwonly]

    def combos(self, fi, tier):
        off = [x for x in spec.variants(fi, "gpu") if x[0] == "False"]
        return list(spec.combos(fi, self.limit[tier],
                                extra={"gpu": off} if off else None))

    def do(self, project, job):
        short, k, o = job
        fi = project.by_short(short)
        combo = self.combos(fi, self.tier)[k]
        on = [x for x in spec.variants(fi, "gpu") if x[0] != "False"]
        opts = {"cuda": False, "kernels": False}
        ref = spec.run(project, fi, combo, opts, self.budget)
        base = result.outcome(ref)
        fs = []
        n = ev = 0
        reached = {f.short for f in ref.I.analysed}
        for g in on:
            c = dict(combo)
            c["gpu"] = g
            r = spec.run(project, fi, c, opts, self.budget)
            n += 1
            ev += len(r.events)
            reached |= {f.short for f in r.I.analysed}
            bad = [e for e in r.events if e.kind in ("gpu_use", "launch")]
            for e in bad:
                fs.append(Finding(
                    "device", "%s via %s" % (construct_of(e), short),
                    e.where(), "%s(gpu=%s) reaches this although there is "
                    "no GPU" % (short, g[0]),
                    {"call": r.label(), "path": e.chain()}))
            if bad or r.status == "budget" or ref.status == "budget":
                continue
            got = result.outcome(r)
            if got[0] != base[0]:
                if r.status == "dead":
                    fs.append(Finding(
                        "fails", "%s [gpu=%s]" % (short, g[0]),
                        "%s:%d (in %s)" % (fi.module.rel, fi.node.lineno,
                                           fi.qualname),
                        "without a GPU the call fails with gpu=%s but not "
                        "with gpu=False" % g[0], {"call": r.label()}))
            elif got != base:
                what = "result" if got[1] != base[1] else "written data"
                fs.append(Finding(
                    "same", "%s [gpu=%s]" % (short, g[0]),
                        "%s:%d (in %s)" % (fi.module.rel, fi.node.lineno,
                                           fi.qualname),
                    "without a GPU, gpu=%s gives another %s than gpu=False"
                    % (g[0], what), {"call": r.label()}))
        return fs, {"GPU choices compared": n, "events examined": ev,
                    "public functions": {short},
                    "functions reached": reached}


CHECK = C11()
