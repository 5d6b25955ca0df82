"""C21: every parameter of every public function has an effect."""
import ast
from .. import flow
from ..driver import Finding

SPEED = {"ncore", "prefer", "block", "chunk_size", "chunk", "n_jobs", "gpu",
         "grid", "num_chunk"}
SHOW = {"display", "show_progress", "verbose"}
# parameters that only decide whether the call is refused
REFUSE = {"overwrite"}
RANGE = {("generate_spiral_positions", "height"),
         ("generate_spiral_positions", "width")}


def where(fi, node=None):
    node = node or fi.node
    return "%s:%d" % (fi.module.path, node.lineno)


class C21:
    ID = "C21"
    TITLE = "every documented parameter has an effect"
    EXPLANATION = (
        "Interprocedural influence analysis over the syntax tree of the "
        "whole package (fixpoint of function summaries, flow-sensitive, with "
        "data and control influence kept apart): for every parameter of "
        "every public function, what it may influence - result, files "
        "written, contents of arguments, messages, refusals, or only the way "
        "the work is scheduled.")
    RULES = {
        "ignored": "every parameter influences something beyond a test "
                   "whether it was left out",
        "weak": "a parameter that is not about speed, messages or refusal "
                "influences the result, the files or the arguments"}
    ASSUMPTIONS = [
        "library calls use the arguments they are given",
        "parameters named %s may influence scheduling only, %s messages "
        "only, %s refusal only" % (", ".join(sorted(SPEED)),
                                   ", ".join(sorted(SHOW)),
                                   ", ".join(sorted(REFUSE)))]

    def jobs(self, project, tier):
        self.F = flow.Flow(project).run()
        return [f.short for f in project.public_functions()]

    def do(self, project, job):
        f = project.by_short(job)
        s = self.F.sum[f]
        fs = []
        st = {"public functions": {f.short}, "parameters": 0,
              "functions summarised": len(self.F.sum),
              "influences found": 0}
        st["functions summarised"] = {g.short for g in self.F.sum}
        for q in f.params + f.kwonly:
            if q in ("self", "cls"):
                continue
            st["parameters"] += 1
            kinds = {k for k in flow.KINDS
                     if q in s.eff[k] or q + "?" in s.eff[k]}
            st["influences found"] += len(kinds)
            con = "%s [%s]" % (f.short, q)
            if not kinds:
                seen = any(q + "!" in s.eff[k] for k in flow.KINDS)
                fs.append(Finding(
                    "ignored", con, where(f),
                    "parameter '%s' %s" % (
                        q, "is only tested for None: its value is never used"
                        if seen else "influences neither the result, files, "
                        "messages nor errors")))
                continue
            real = kinds & {"ret", "file", "mutate"}
            if real:
                continue
            if q in SPEED and "perf" in kinds or \
                    q in SHOW and "print" in kinds or \
                    (q in REFUSE or (f.name, q) in RANGE) and \
                    "raise" in kinds:
                continue
            if kinds == {"print"} and q not in SHOW or \
                    not kinds & {"print"}:
                fs.append(Finding(
                    "weak", con, where(f),
                    "parameter '%s' influences only: %s" % (
                        q, ", ".join(sorted(kinds)))))
        return fs, st


CHECK = C21()
