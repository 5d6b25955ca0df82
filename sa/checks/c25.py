"""C25: reorderings, paddings and transformations are undone."""
import ast
from .. import order, spec
from .. import sym as S
from ..values import Ref, Tup, ArrRec, alts_of
from .base import ApiCheck, Finding, construct_of
from .c02 import SAME, SAME_ALL

# functions whose purpose is the step itself
PURPOSE = {
    "utility.sort_forward": {"sort", "turn"},
    "utility.sort_backward": {"sort", "turn"},
    "utility.mapping": {"pol"},
    "utility.transform_slice_forward": {"pol"},
    "utility.transform_slice_backward": {"pol"},
    "simulation.convert_to_Xray_image": {"exp"},
}
WHAT = {"sort": "is still sorted", "turn": "is still transposed or flipped",
        "log": "is still logarithmic", "pol": "is still in polar coordinates",
        "exp": "is exponentiated without a logarithm before",
        "spec": "is still a spectrum"}


class C25(ApiCheck):
    ID = "C25"
    TITLE = "temporary reorderings are undone"
    EXPLANATION = (
        "Term analysis: the abstract interpreter gives every array a "
        "structured value number; from it, the reversible steps the array "
        "has gone through (sorting with an index, padding, fftshift, "
        "Fourier transform, logarithm, transposition, flips, polar mapping) "
        "and that are not undone are computed. Checked: results of "
        "functions that return an image like their input, index and axis of "
        "the unsorting, position at which padding is cut off, the order of "
        "a spectrum given to the inverse transform or combined with "
        "another, direction of coordinate mappings.")
    limit = {"quick": 40, "thorough": 300}
    opts = [{"order": True, "kernels": False}]
    RULES = {
        "result": "an image-to-image function returns data that are not "
                  "sorted, turned, logarithmic, polar",
        "sort": "data are unsorted with the index and axis they were sorted "
                "with",
        "pad": "what is cut to the size before padding starts where the "
               "data start",
        "shift": "the inverse Fourier transform gets a spectrum in the order "
                 "the forward transform gave it, and spectra combined "
                 "have the same order"}

    def combos(self, fi, tier):
        n = self.limit[tier]
        if tier == "quick" and fi.short.split(".")[0] in (
                "vertrec", "phase") or "slice_metric" in fi.short:
            n = min(n, 9 if tier == "quick" else 40)
        return list(spec.combos(fi, n, extra=self.extra(fi)))

    def examine(self, r, project):
        fs = []
        st = {"inverse transforms": 0, "cuts of padded data": 0,
              "unsortings": 0, "mappings": 0, "results with steps undone": 0}
        if r.status != "ok" and not r.events:
            return fs, st
        roots = set()
        for v in (r.bound or {}).values():
            for a in arrays(v):
                rec = r.init.heap.get(a.id)
                if isinstance(rec, ArrRec):
                    roots.add(rec.vn)
        mk = order.Marks(r.I, roots)

        def add(rule, e, msg):
            fs.append(Finding(rule, construct_of(e), e.where(), msg,
                              {"call": r.label(), "path": e.chain()}))
        for e in r.events:
            if e.kind == "fft" and e.fn.startswith("ifft"):
                sp = mk(e.vn).get("spec")
                if sp is None or e.axes is None:
                    continue
                st["inverse transforms"] += 1
                bad = [ax for ax, k in sp if ax in e.axes and k]
                if bad:
                    add("shift", e, "%s gets a spectrum that is shifted "
                        "along axis %s" % (e.fn, bad))
                row = dict(mk(e.vn).get("row", ()))
                if any(ax not in e.axes for ax in row):
                    add("shift", e, "%s gets data that are shifted along "
                        "axis %s, which was not transformed" % (
                            e.fn, sorted(row)))
                miss = [ax for ax in e.axes if ax not in dict(sp)]
                if miss:
                    add("shift", e, "%s goes over axes that were not "
                        "transformed" % e.fn)
            elif e.kind == "obin":
                self.combine(mk, e, add)
            elif e.kind == "ocut":
                t = mk.rev.get(e.vn)
                if not isinstance(t, tuple) or t[0] != "part":
                    continue
                for ax, p in mk.cut(t[1], t[2]):
                    st["cuts of padded data"] += 1
                    if not p.t:
                        continue
                    w = S.find_difference(p, S.ZERO, e.facts) \
                        if not p.has_opaque() else None
                    if w is not None:
                        add("pad", e, "padded data are cut to their old "
                            "length along axis %d starting %s away from "
                            "the data" % (ax, p))
            elif e.kind == "unsort":
                a, b = mk(e.mat).get("sort"), mk(e.index).get("idx")
                if a is None or b is None:
                    continue
                st["unsortings"] += 1
                if a[0] != b[0]:
                    add("sort", e, "data are unsorted with the index of "
                        "another sorting")
                elif e.axis != a[1]:
                    add("sort", e, "data are unsorted along another axis "
                        "than they were sorted along")
            elif e.kind == "mapped":
                x, y = mk(e.x).get("coord"), mk(e.y).get("coord")
                if x is None or y is None:
                    continue
                st["mappings"] += 1
                if x[0] == y[0] and (x[1], y[1]) == (1, 0):
                    add("result", e, "the two coordinates are exchanged")
        s = r.fi.short
        un = [e for e in r.events if e.kind == "unsort"]
        for e in r.events:
            if e.kind == "sorted" and not un and r.status == "ok" and \
                    s in SAME and s not in PURPOSE and \
                    not index_used(e.func, e.node):
                add("sort", e, "data are sorted and never unsorted")
        if r.status == "ok" and (s in SAME or s in SAME_ALL):
            ok = True
            for v in arrays(r.value):
                rec = r.state.heap.get(v.id) if r.state is not None else None
                if not isinstance(rec, ArrRec):
                    continue
                m = mk(rec.vn)
                for k, w in WHAT.items():
                    if k in m and k not in PURPOSE.get(s, ()):
                        ok = False
                        fs.append(Finding(
                            "result", (r.fi.module.path if hasattr(
                                r.fi, "module") and hasattr(
                                r.fi.module, "path") else s, s, k),
                            s, "the result of %s %s" % (s, w),
                            {"call": r.label()}))
            st["results with steps undone"] += ok
        return fs, st

    def combine(self, mk, e, add):
        A, B = mk(e.a), mk(e.b)
        x, y = A.get("spec"), B.get("spec")
        if x is not None and y is not None:
            dx, dy = dict(x), dict(y)
            if set(dx) == set(dy) and dx != dy:
                add("shift", e, "two spectra in different order are combined")
            return
        if x is None and y is None:
            return
        sp = dict(x if x is not None else y)
        c = (B if x is not None else A).get("cen")
        if c is None:
            return
        for ax, k in c:
            if ax in sp and sp[ax] == 0 and k == 1:
                add("shift", e, "a spectrum is combined with data that went "
                    "through fftshift instead of ifftshift")
            elif ax in sp and sp[ax] == 1 and k == -1:
                add("shift", e, "a shifted spectrum is combined with data "
                    "that are not")


def index_used(f, call):
    """Is the index of a sorting read anywhere else than by sort_backward?"""
    names, seen = set(), set()
    if f is None:
        return True
    for x in ast.walk(f.node):
        if isinstance(x, ast.Assign) and x.value is call:
            for t in x.targets:
                if isinstance(t, (ast.Tuple, ast.List)):
                    names |= {y.id for y in ast.walk(t.elts[-1])
                              if isinstance(y, ast.Name)}
                else:
                    return True
        if isinstance(x, ast.Call) and getattr(
                x.func, "attr", getattr(x.func, "id", "")) == "sort_backward":
            seen |= {id(y) for a in x.args for y in ast.walk(a)}
    if not names:
        return True
    return any(isinstance(x, ast.Name) and x.id in names and isinstance(
        x.ctx, ast.Load) and id(x) not in seen for x in ast.walk(f.node))


def arrays(v):
    for a in alts_of(v):
        if isinstance(a, Ref) and a.what == "arr":
            yield a
        elif isinstance(a, Tup):
            for x in a.elts:
                yield from arrays(x)


CHECK = C25()
