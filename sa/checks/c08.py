"""C08: compiled kernels never index outside their arrays."""
import ast
from .. import kern, lin
from ..sym import ONE, ZERO
from ..values import ArrRec, Num
from .base import ApiCheck, Finding


class C08(ApiCheck):
    ID = "C08"
    TITLE = "compiled kernels never index outside their arrays"
    EXPLANATION = (
        "Abstract interpretation of every public function that reaches "
        "compiled code, as on a machine with a GPU.  For each load and store "
        "inside a numba or CUDA function the index of every axis, as an "
        "expression of sizes, loop counters, thread numbers and data, must "
        "be shown to be at least 0 and below the length of the axis from "
        "the guards on the path; where it cannot, values that satisfy all "
        "the guards and fall outside are looked for.")
    RULES = {"index": "0 <= index < length for every axis of every load and "
                      "store in compiled code",
             "window": "a part a[i:j] taken in compiled code lies inside the "
                       "array: nothing wraps or is cut short"}
    limit = {"quick": 4, "thorough": 24}
    opts = [{"cuda": True}]

    def functions(self, project):
        rs = kern.reach(project)
        return [f for f in project.public_functions() if f in rs]

    def combos(self, fi, tier):
        return kern.combos(fi, self.limit[tier], tier)

    def examine(self, r, project):
        fs = []
        seen = {}
        free = {rec.vn for rec in r.init.heap.values()
                if isinstance(rec, ArrRec)}
        st = {"accesses": 0, "axes shown": 0, "axes undecided": 0,
              "undecided at": set()}
        for e in r.events:
            if e.kind in ("kload", "kstore"):
                parts = [(p, p, "index") for p in e.info["idx"]]
            elif e.kind == "kview":
                parts = [window(x) for x in e.info["parts"]]
            else:
                continue
            rec = e.info["rec"]
            st["accesses"] += 1
            if rec.shape is None:
                continue
            for d, (w, n) in enumerate(zip(parts, rec.shape)):
                if w is None or w[0] is None or w[1] is None or n is None:
                    continue
                q, p, what = w
                data = free if what == "index" else ()
                k = (id(e.node), d, q, p, n, e.facts)
                if k in seen:
                    continue
                seen[k] = 1
                facts = list(e.facts)
                bad = None
                lo = lin.ge(q, ZERO, facts)
                hi = lin.lt(p, n, facts)
                if lo and hi:
                    st["axes shown"] += 1
                    continue
                if not lo:
                    w = lin.witness(q, facts, data)
                    if w is not None:
                        bad = ("below 0", w)
                if bad is None and not hi:
                    w = lin.witness(n - ONE - p, facts, data)
                    if w is not None:
                        bad = ("at or above the length %s" % n, w)
                if bad is None:
                    st["axes undecided"] += 1
                    st["undecided at"].add("%s:%d" % (e.func.short, e.line))
                    continue
                fs.append(Finding(
                    what, "%s: %s axis %d" % (
                        e.func.short, ast.unparse(e.node)[:50], d),
                    e.where(), "%s %s of axis %d can be %s" % (
                        NAMES[what], q if bad[0] == "below 0" else p, d,
                        bad[0]),
                    {"call": r.label(), "values": bad[1],
                     "path": e.chain()}))
        return fs, st


NAMES = {"index": "index", "window": "position"}


def window(x):
    """First and last position a subscript of one axis asks for."""
    if x[0] == "i":
        return x[1], x[1], "index"
    if x[0] != "s" or len(x) < 5:
        return None
    lo, hi, step = (v.sym if isinstance(v, Num) else None
                    for v in (x[4].lo, x[4].hi, x[4].step))
    if lo is None or hi is None or step not in (None, ONE):
        return None
    for p in (lo, hi):
        v = p.value()
        if v is not None and v < 0:
            return None         # counted from the end
    return lo, hi - ONE, "window"


CHECK = C08()
