"""C13: results depend on the arguments and the named files only."""
import ast
from .. import flow
from ..driver import Finding
from .c21 import where

SIMULATORS = {"add_noise", "add_stripe_artifact",
              "add_background_fluctuation"}
POINTS = "list_ij"
WORDS = {"@clock": "the time", "@random": "a random source",
         "@uninit": "uninitialised memory", "@env": "the environment",
         "@sched": "the order in which workers finish",
         "@setorder": "the order of an unordered set"}
STORE = ("lru_cache", "cache", "memoize", "Memory", "cached", "cache_on_self")


def calls_name(fe):
    return fe.attr if isinstance(fe, ast.Attribute) else \
        getattr(fe, "id", "")


class C13:
    ID = "C13"
    TITLE = "results are reproducible"
    EXPLANATION = (
        "Interprocedural influence analysis: unpredictable sources (clock, "
        "random numbers, environment, uninitialised arrays, completion "
        "order, iteration over sets) are tracked through every function of "
        "the package to results, files and arguments; stores that outlive a "
        "call (module variables, global settings, mutable defaults, "
        "attributes of functions, memoisation) are listed.")
    RULES = {
        "source": "no unpredictable source reaches the result, a file or an "
                  "argument of a public function, except in the noise "
                  "simulators and the choice of points when no points are "
                  "given",
        "state": "no function keeps or changes state outside its arguments "
                 "and files",
        "uninit": "np.empty and device arrays are written completely before "
                  "they are read"}
    ASSUMPTIONS = [
        "library functions outside the listed sources are deterministic",
        "a numba file cache (cache=True) is not observable"]

    def jobs(self, project, tier):
        self.F = flow.Flow(project).run()
        self.guard = {}
        return [(f.module.name, f.qualname, f.node.lineno)
                for f in project.all_functions]

    def unguarded(self, f, depth=0):
        """Random choices made although points were given."""
        if f in self.guard:
            return self.guard[f]
        self.guard[f] = []
        out = []
        for tok, node, w in self.F.events.get(f, ()):
            if tok != "@random-in":
                continue
            ctx, g = w
            if any(t.rstrip("?!") == POINTS for t in ctx):
                continue
            if g is None:
                out.append((f, node))
            else:
                out += self.unguarded(g, depth + 1)
        self.guard[f] = out
        return out

    def do(self, project, job):
        f = next(x for x in project.modules[job[0]].all_functions
                 if x.qualname == job[1] and x.node.lineno == job[2])
        s = self.F.sum[f]
        fs = []
        st = {"functions": {f.short}, "statements": sum(
            isinstance(n, ast.stmt) for n in ast.walk(f.node))}
        if f.is_public:
            st["public functions"] = {f.short}
            got = {t for k in ("ret", "file", "mutate") for t in s.eff[k]
                   if t in WORDS} | {t for t in s.ret if t in WORDS}
            if "@random" in got:
                st["documented random sources"] = 1
                if f.name in SIMULATORS:
                    got.discard("@random")
                elif POINTS in f.params or self.passes(project, f):
                    got.discard("@random")
                    for g, n in self.unguarded(f):
                        fs.append(Finding(
                            "source", "%s [random] via %s" % (
                                f.short, g.short), where(g, n),
                            "random numbers are drawn although the points "
                            "may have been given"))
            for t in sorted(got):
                fs.append(Finding(
                    "source", "%s [%s]" % (f.short, t[1:]), where(f),
                    "%s reaches the %s of this function" % (
                        WORDS[t], "/".join(
                            {"ret": "result", "file": "files",
                             "mutate": "arguments"}[k]
                            for k in ("ret", "file", "mutate")
                            if t in s.eff[k]) or "result")))
        seen = set()
        for tok, node, w in self.F.events.get(f, ()):
            key = (tok, node.lineno, str(w) if tok != "@random-in" else "")
            if key in seen:
                continue
            seen.add(key)
            if tok == "@global":
                fs.append(Finding(
                    "state", "%s [%s]" % (f.short, w), where(f, node),
                    "'%s' outlives the call and is changed here" % w))
            elif tok == "@uninit":
                fs.append(Finding(
                    "uninit", "%s [%s]" % (f.short, ast.unparse(node)[:60]),
                    where(f, node), "adds to an array whose contents were "
                    "never set"))
        for p in f.params + f.kwonly:
            d = f.defaults.get(p)
            if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp)) or \
                    isinstance(d, ast.Call) and not (
                        isinstance(d.func, ast.Name) and
                        d.func.id in ("tuple", "frozenset", "float", "int")):
                st["mutable defaults"] = st.get("mutable defaults", 0) + 1
                if p in s.mut or self.grows(f, p):
                    fs.append(Finding(
                        "state", "%s [default of %s]" % (f.short, p),
                        where(f), "the default of '%s' is shared by all "
                        "calls and is changed" % p))
        for d in f.node.decorator_list:
            n = d.func if isinstance(d, ast.Call) else d
            n = n.attr if isinstance(n, ast.Attribute) else \
                n.id if isinstance(n, ast.Name) else ""
            if n in STORE:
                fs.append(Finding(
                    "state", "%s [@%s]" % (f.short, n), where(f, d),
                    "results are kept from one call to the next"))
        fs += self.partial(f, st)
        return fs, st

    def passes(self, project, f):
        from .. import calls
        return any(POINTS in cs.callee.params or
                   POINTS in cs.callee.kwonly or self.passes_h(project, cs)
                   for cs in calls.sites(project, f))

    def passes_h(self, project, cs, seen=frozenset()):
        from .. import calls
        if cs.callee in seen:
            return False
        return any(POINTS in c.callee.params or
                   self.passes_h(project, c, seen | {cs.callee})
                   for c in calls.sites(project, cs.callee))

    def grows(self, f, p):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                    and isinstance(n.func.value, ast.Name) and \
                    n.func.value.id == p and n.func.attr in (
                        "append", "extend", "insert", "update", "add",
                        "setdefault", "pop", "clear", "remove"):
                return True
            if isinstance(n, (ast.Assign, ast.AugAssign)):
                for t in (n.targets if isinstance(n, ast.Assign)
                          else [n.target]):
                    if isinstance(t, ast.Subscript) and flow.base_name(t) \
                            == p:
                        return True
        return False

    # ------------------------------------------------- unfilled arrays
    def partial(self, f, st):
        """Arrays from np.empty that are evidently not filled."""
        fs = []
        for n in ast.walk(f.node):
            if not (isinstance(n, ast.Assign) and isinstance(
                    n.value, ast.Call) and len(n.targets) == 1 and
                    isinstance(n.targets[0], ast.Name)):
                continue
            fn = n.value.func
            name = fn.attr if isinstance(fn, ast.Attribute) else \
                fn.id if isinstance(fn, ast.Name) else ""
            if name not in ("empty", "empty_like"):
                continue
            if isinstance(fn, ast.Attribute) and flow.ext_name(
                    self.F.project, f.module, fn) not in (
                    "numpy.empty", "numpy.empty_like"):
                continue
            st["uninitialised arrays"] = st.get("uninitialised arrays",
                                                0) + 1
            v = n.targets[0].id
            why = self.unfilled(f, v)
            if why:
                fs.append(Finding(
                    "uninit", "%s [%s]" % (f.short, v), where(f, n),
                    "'%s' starts uninitialised and %s" % (v, why)))
        return fs

    def unfilled(self, f, v):
        """Evidence that part of v is never written (None: no evidence)."""
        stores = []
        self.node = f.node

        def visit(body, cond, loops):
            for s in body:
                if isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Subscript) and \
                                flow.base_name(t) == v:
                            stores.append((t, cond, loops, False))
                elif isinstance(s, ast.AugAssign):
                    if isinstance(s.target, ast.Subscript) and \
                            flow.base_name(s.target) == v:
                        stores.append((s.target, cond, loops, True))
                elif isinstance(s, ast.If):
                    visit(s.body, cond + [(s, 0)], loops)
                    visit(s.orelse, cond + [(s, 1)], loops)
                elif isinstance(s, (ast.For, ast.While)):
                    visit(s.body, cond, loops + [s])
                elif isinstance(s, (ast.With, ast.Try)):
                    visit(s.body, cond, loops)
        visit(f.node.body, [], [])
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                if any(k.arg in ("out", "output") and
                       flow.base_name(k.value) == v for k in n.keywords) or \
                        isinstance(n.func, ast.Attribute) and \
                        n.func.attr in ("fill", "read_direct") and \
                        flow.base_name(n.func.value) == v or \
                        any(isinstance(a, ast.Name) and a.id == v
                            for a in n.args) and \
                        self.writes(f, n, v):
                    return None
        if not stores:
            return "is never written"
        # an unconditional full store
        for t, cond, loops, aug in stores:
            if aug:
                continue
            if not cond and not self.partly(t.slice) and \
                    not self.corner(t.slice, loops) and \
                    not self.fixed(t.slice, loops) and \
                    not self.inner_loop(t.slice, loops):
                return None
        evid = []
        plain = {ast.unparse(t.slice) for t, _, _, aug in stores if not aug}
        for t, cond, loops, aug in stores:
            if aug:
                if ast.unparse(t.slice) not in plain:
                    return "is added to at [%s]" % ast.unparse(t.slice)
                evid.append("")
            elif cond:
                arms = {(id(c), a) for c, a in cond}
                other = any(
                    {(id(c), a) for c, a in c2} & {(i, 1 - a)
                                                   for i, a in arms}
                    for _, c2, _, _ in stores)
                if not other:
                    evid.append("is written under a condition only")
            elif self.inner_loop(t.slice, loops):
                evid.append("is written from an offset on only, at [%s]"
                            % ast.unparse(t.slice))
            elif self.partly(t.slice) or self.fixed(t.slice, loops) or \
                     self.corner(t.slice, loops):
                evid.append("is written only at [%s]" % ast.unparse(t.slice))
        if len(evid) == len(stores):
            return next((x for x in evid if x), None)
        return None

    def writes(self, f, n, v):
        """May this call write into the array it is given?"""
        fe = n.func
        if isinstance(fe, ast.Attribute) and flow.ext_name(
                self.F.project, f.module, fe):
            return calls_name(fe) in ("copyto", "put", "place", "putmask",
                                      "to_device")
        if isinstance(fe, ast.Name):
            tg = flow.calls.targets_of(self.F.project, self.F.names[f], fe)
            if tg:
                return any(self.F.sum[g].mut for g in tg)
            return fe.id not in ("len", "float", "int", "list", "tuple",
                                 "print", "str", "max", "min", "sum",
                                 "type", "isinstance", "range", "abs")
        return True

    def fixed(self, s, loops):
        """A slice from above zero whose bounds are the same in every
        round."""
        if isinstance(s, ast.Tuple):
            return any(self.fixed(x, loops) for x in s.elts)
        if not (isinstance(s, ast.Slice) and s.lower is not None and not (
                isinstance(s.lower, ast.Constant) and s.lower.value == 0)):
            return False
        if isinstance(s.lower, ast.UnaryOp):
            return False
        inside = {m.id for l in loops for m in ast.walk(l)
                  if isinstance(m, ast.Name) and
                  isinstance(m.ctx, ast.Store)}
        return not any(isinstance(m, ast.Name) and m.id in inside
                       for b in (s.lower, s.upper) if b is not None
                       for m in ast.walk(b))

    def inner_loop(self, s, loops):
        """Is an index a loop variable that starts above zero?"""
        ids = {x.id for x in (s.elts if isinstance(s, ast.Tuple) else [s])
               if isinstance(x, ast.Name)}
        for l in loops:
            if not (isinstance(l, ast.For) and isinstance(
                    l.target, ast.Name) and l.target.id in ids and
                    isinstance(l.iter, ast.Call) and
                    len(l.iter.args) >= 2):
                continue
            n = l.iter.func
            n = n.attr if isinstance(n, ast.Attribute) else \
                getattr(n, "id", "")
            a = l.iter.args[0]
            if n in ("range", "prange", "arange") and not isinstance(
                    a, (ast.Constant, ast.Call)) and len(l.iter.args) == 2:
                return True
        return False

    def partly(self, s):
        """Does the index leave out elements at an end?"""
        if isinstance(s, ast.Tuple):
            return any(self.partly(x) for x in s.elts)
        if isinstance(s, ast.Slice):
            lo = s.lower is not None and not (
                isinstance(s.lower, ast.Constant) and s.lower.value == 0)
            hi = s.upper is not None and (
                isinstance(s.upper, ast.UnaryOp) or
                isinstance(s.upper, ast.BinOp) and
                isinstance(s.upper.op, ast.Sub))
            return bool(lo and hi) or (
                lo and s.upper is None) or (bool(hi) and s.lower is None)
        return self.masked(s)

    def masked(self, s):
        """Is the index a condition (elements where it holds)?"""
        def cond(e):
            return isinstance(e, (ast.Compare, ast.BoolOp)) or \
                isinstance(e, ast.BinOp) and cond(e.left) or \
                isinstance(e, ast.UnaryOp) and isinstance(
                    e.op, ast.Invert) or isinstance(e, ast.Call) and \
                flow.calls.is_name(e.func, "where", "nonzero",
                                   "logical_and", "logical_or",
                                   "logical_not")
        if cond(s):
            return True
        if isinstance(s, ast.Name):
            vs = [n.value for n in ast.walk(self.node)
                  if isinstance(n, ast.Assign) and any(
                      isinstance(t, ast.Name) and t.id == s.id
                      for t in n.targets)]
            return bool(vs) and all(cond(v) for v in vs)
        return False

    def corner(self, s, loops):
        """Slice bounds of one axis that vary with the index of another."""
        if not isinstance(s, ast.Tuple):
            return False
        ids = {x.id for x in s.elts if isinstance(x, ast.Name)}
        loopv = {n.id for l in loops if isinstance(l, ast.For)
                 for n in ast.walk(l.target) if isinstance(n, ast.Name)}
        ids &= loopv
        if not ids:
            return False
        dep = set(ids)
        for _ in range(3):
            for l in loops:
                for n in ast.walk(l):
                    if isinstance(n, ast.Assign) and any(
                            isinstance(m, ast.Name) and m.id in dep
                            for m in ast.walk(n.value)):
                        dep |= {m.id for t in n.targets
                                for m in ast.walk(t)
                                if isinstance(m, ast.Name) and
                                isinstance(m.ctx, ast.Store)}
        return any(isinstance(x, ast.Slice) and any(
            isinstance(m, ast.Name) and m.id in dep
            for b in (x.lower, x.upper) if b is not None
            for m in ast.walk(b)) for x in s.elts)


CHECK = C13()
