"""Base of the checks that run the abstract interpreter on the public API."""
from .. import spec
from ..driver import Finding, src, construct_of     # noqa: F401


class ApiCheck:
    """One job per public function and choice of option variants."""
    ID = ""
    TITLE = ""
    EXPLANATION = ""
    RULES = {}
    ASSUMPTIONS = [
        "numpy, scipy, h5py, PIL, numba, joblib, pywt, astra and tomopy "
        "behave as modelled in sa/npmodel.py, sa/builtmodel.py, "
        "sa/iomodel.py",
        "arguments have the documented kinds (sa/spec.py)"]
    limit = {"quick": 8, "thorough": 48}
    opts = [{}]
    budget = 400000

    def functions(self, project):
        return project.public_functions()

    def extra(self, fi):
        return None

    def combos(self, fi, tier):
        return list(spec.combos(fi, self.limit[tier], extra=self.extra(fi)))

    def jobs(self, project, tier):
        self.tier = tier
        out = []
        for fi in self.functions(project):
            n = len(self.combos(fi, tier))
            for k in range(n):
                for o in range(len(self.opts)):
                    out.append((fi.short, k, o))
        heavy = ("find_center_based_slice_metric", "retrieve_phase",
                 "find_shift_between", "find_center_visual", "bpf_recon",
                 "fbp_recon", "find_center_v", "vertical_recon")
        out.sort(key=lambda j: not any(h in j[0] for h in heavy))
        return out

    def do(self, project, job):
        short, k, o = job
        fi = project.by_short(short)
        combo = self.combos(fi, self.tier)[k]
        r = spec.run(project, fi, combo, self.opts[o], self.budget)
        fs, stats = self.examine(r, project)
        stats = dict(stats)
        stats["calls analysed"] = 1
        stats["public functions"] = {short}
        stats["functions reached"] = {f.short for f in r.I.analysed}
        if r.status not in ("ok", "dead"):
            stats["calls cut short (%s)" % r.status] = 1
        return fs, stats

    def examine(self, r, project):
        raise NotImplementedError
