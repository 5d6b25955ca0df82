"""C12: the number of workers does not change the result."""
import ast
from .. import spec
from ..sym import find_difference
from ..values import ArrRec, Ref, Tup
from .base import ApiCheck, Finding

SPEED = {"ncore", "prefer", "block", "n_jobs", "gpu"}


def key(e):
    return (tuple(sorted((q, v) for q, v in e.vns.items()
                         if q not in SPEED)),
            tuple((str(l.sym), str(l.n)) for l in e.loops))


def forms(a, sa, b, sb, path="", depth=0):
    """Differences of shape and element type of two results."""
    if depth > 3 or a is None or b is None:
        return
    if isinstance(a, Tup) and isinstance(b, Tup):
        if len(a.elts) != len(b.elts):
            yield path, ("length", len(a.elts), len(b.elts))
            return
        for i, (x, y) in enumerate(zip(a.elts, b.elts)):
            yield from forms(x, sa, y, sb, "%s[%d]" % (path, i), depth + 1)
        return
    if not (isinstance(a, Ref) and isinstance(b, Ref)):
        return
    x, y = sa.heap.get(a.id), sb.heap.get(b.id)
    if not (isinstance(x, ArrRec) and isinstance(y, ArrRec)):
        return
    if x.shape is not None and y.shape is not None:
        if len(x.shape) != len(y.shape):
            yield path, ("rank", len(x.shape), len(y.shape))
        else:
            for p, q in zip(x.shape, y.shape):
                if p is not None and q is not None and p != q and \
                        find_difference(
                            p, q, sa.facts + sb.facts):
                    yield path, ("shape", show(x.shape), show(y.shape))
                    break
    if x.dtype and y.dtype and x.dtype[0] != y.dtype[0]:
        yield path, ("element type", x.dtype, y.dtype)


def show(shape):
    return "(%s)" % ", ".join(str(p) for p in shape)


class C12(ApiCheck):
    ID = "C12"
    TITLE = "the number of CPU cores does not change the result"
    EXPLANATION = (
        "Abstract interpretation of every public function with an ncore "
        "option, once serially (ncore=1) and once with several workers: the "
        "operations handed to the workers (callee, value of every argument "
        "as an expression of the inputs and of the running item, number of "
        "items) must be exactly those of the serial path; a worker's "
        "operation may not write into an array shared with other workers, "
        "and results are taken in the order of the items.")
    RULES = {"task": "serial and parallel path apply the same operation to "
                     "the same items with the same arguments",
             "result": "the result has the same shape and kind of elements",
             "form": "what is handed on afterwards has the same shape and "
                     "kind of elements, too",
             "order": "results of workers are not taken in the order in "
                      "which they finish"}
    limit = {"quick": 4, "thorough": 40}

    def functions(self, project):
        return [f for f in project.public_functions()
                if "ncore" in f.params + f.kwonly]

    def combos(self, fi, tier):
        one = [x for x in spec.variants(fi, "ncore") if x[0] == "1"]
        ex = {"ncore": one}
        if "gpu" in fi.params:
            ex["gpu"] = [x for x in spec.variants(fi, "gpu")
                         if x[0] == "False"]
        return list(spec.combos(fi, self.limit[tier], extra=ex))

    def do(self, project, job):
        short, k, o = job
        fi = project.by_short(short)
        combo = self.combos(fi, self.tier)[k]
        many = [x for x in spec.variants(fi, "ncore")
                if x[0] not in ("1", "None")]
        opts = {"cuda": False, "kernels": False}
        ser = spec.run(project, fi, combo, opts, self.budget)
        c = dict(combo)
        if not many:
            return [], {"public functions": {short}}
        c["ncore"] = many[0]
        par = spec.run(project, fi, c, opts, self.budget)
        fs = []
        st = {"public functions": {short}, "pairs of runs": 1,
              "worker operations compared": 0,
              "operations without a serial counterpart (C03)": 0,
              "functions reached": {f.short for f in par.I.analysed}}
        if "budget" in (ser.status, par.status):
            return fs, st
        tasks = {}
        for e in par.events:
            if e.kind == "call" and e.loops and e.loops[-1].what == "gen" \
                    and self.in_parallel(e):
                tasks.setdefault((e.func, e.fi), []).append(e)
            elif e.kind in ("parallel", "as_completed"):
                for kw in getattr(e.node, "keywords", ()):
                    if kw.arg == "return_as" and \
                            "unordered" in ast.unparse(kw.value):
                        fs.append(Finding(
                            "order", "%s: %s" % (e.func.short, ast.unparse(
                                e.node)[:80]), e.where(),
                            "results are taken in the order the workers "
                            "finish"))
        entry = self.entries(ser), self.entries(par)
        for (F, G), es in sorted(tasks.items(),
                                 key=lambda x: (x[0][0].short,
                                                x[0][1].short)):
            if F is not fi and entry[0].get(F) != entry[1].get(F):
                continue
            serial = [e for e in ser.events
                      if e.kind == "call" and e.fi is G and e.func is F]
            con = "%s: %s" % (F.short, G.short)
            nodes = {id(e.node) for e in es}
            serial = [e for e in serial if id(e.node) not in nodes]
            depth = len(es[0].loops)
            serial = [e for e in serial if len(e.loops) >= depth]
            if not serial:
                st["operations without a serial counterpart (C03)"] += 1
                continue
            st["worker operations compared"] += 1
            b = {key(e) for e in serial}
            for n in sorted({e.node.lineno for e in es}):
                # a loop body is analysed more than once: one agreement
                # per place in the code is what is asked for
                es1 = [e for e in es if e.node.lineno == n]
                if {key(e) for e in es1} & b:
                    continue
                d = self.difference(es1, serial)
                fs.append(Finding(
                    "task", con + " [%s]" % d[0], es1[0].where(),
                    "with several workers %s %s (%s)" % (G.short, d[1],
                                                         short),
                    {"call": par.label(), "serial": serial[0].where(),
                     "parallel": es1[0].where()}))
        first = {}
        for e in ser.events:
            if e.kind == "call":
                first.setdefault((e.func, id(e.node), e.fi, len(e.loops)), e)
        seen = set()
        for e in par.events:
            if e.kind != "call" or e.fi.name.startswith("<"):
                continue
            c = (e.func, id(e.node), e.fi, len(e.loops))
            o = first.get(c)
            if o is None or c in seen:
                continue
            seen.add(c)
            st["calls compared"] = st.get("calls compared", 0) + 1
            for q, v in e.bound.items():
                for path, what in forms(o.bound.get(q), o.state, v, e.state):
                    fs.append(Finding(
                        "form", "%s: %s [%s%s %s]" % (
                            e.func.short, e.fi.short, q, path, what[0]),
                        e.where(),
                        "%s is given '%s' with %s %s with ncore=1 and %s "
                        "with several workers (%s)" % ((
                            e.fi.short, q) + what + (short,)),
                        {"call": par.label()}))
        if ser.status == par.status == "ok":
            st["results compared"] = 1
            for path, what in forms(ser.value, ser.state, par.value,
                                    par.state):
                fs.append(Finding(
                    "result", "%s%s [%s]" % (short, path, what[0]),
                    "%s:%d (in %s)" % (fi.module.rel, fi.node.lineno,
                                       fi.qualname),
                    "the result has %s %s with ncore=1 and %s with several "
                    "workers" % what, {"call": par.label()}))
        return fs, st

    @staticmethod
    def in_parallel(e):
        """Is the call written inside delayed(...)(...)?"""
        f = e.node.func if isinstance(e.node, ast.Call) else None
        return isinstance(f, ast.Call) and isinstance(
            f.func, (ast.Name, ast.Attribute)) and (
                getattr(f.func, "id", "") == "delayed" or
                getattr(f.func, "attr", "") == "delayed")

    @staticmethod
    def entries(r):
        out = {}
        for e in r.events:
            if e.kind == "call":
                out.setdefault(e.fi, set()).add(key(e))
        return out

    @staticmethod
    def difference(es, serial):
        e = es[0]
        s = min(serial, key=lambda x: sum(
            x.vns.get(q) != v for q, v in e.vns.items() if q not in SPEED))
        bad = [q for q in e.vns if q not in SPEED and
               e.vns[q] != s.vns.get(q)]
        if bad:
            return (",".join(bad), "gets another value for %s than serially"
                    % ", ".join("'%s'" % q for q in bad))
        return ("items", "is applied to %s items instead of %s" % (
            e.loops[-1].n if e.loops else "?",
            s.loops[-1].n if s.loops else "one"))


CHECK = C12()
