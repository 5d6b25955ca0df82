"""Interprocedural influence analysis.

For every function of the package a summary is computed from the syntax tree:
which parameters (and which outside sources: clock, random numbers, number of
processors, uninitialised memory) may influence its result, the files it
writes, what it prints, its parameters' contents, and its errors.  The
analysis is flow-sensitive (plain assignments replace, stores into parts add),
follows branches' conditions, and runs to a fixpoint over the call graph.
"""
import ast
from . import calls

EMPTY = frozenset()
CLOCK = {"time", "perf_counter", "default_timer", "monotonic", "process_time",
         "time_ns", "now", "utcnow", "today", "perf_counter_ns",
         "monotonic_ns"}
GLOBAL_STATE = {"numpy.seterr", "numpy.seterrcall", "numpy.setbufsize",
                "os.chdir", "os.putenv", "os.umask", "sys.setrecursionlimit", "locale.setlocale",
                "numba.set_num_threads", "matplotlib.use", "random.seed",
                "numpy.set_printoptions", "os.environ.update",
                "os.environ.setdefault", "os.environ.pop"}
PRINTERS = {"print", "warn", "info", "debug", "warning", "error", "write",
            "flush", "log"}
FILEWORDS = {"save", "savetxt", "savez", "mkdir", "makedirs", "rmtree",
             "remove", "unlink", "rename", "create_dataset", "create_group",
             "imwrite", "imsave", "tofile", "writelines", "dump", "close",
             "File", "open"}
FRESH = {"zeros", "ones", "full", "zeros_like", "ones_like", "full_like",
         "empty", "empty_like", "copy", "array", "asarray", "float32",
         "float64", "arange", "linspace", "pad", "where", "list", "dict",
         "tile", "repeat", "mean", "abs", "int", "ascontiguousarray",
         "ndarray", "reshape", "device_array", "to_device", "ones", "stack",
         "concatenate", "vstack", "hstack", "gaussian_filter", "shift",
         "moveaxis", "transpose", "squeeze", "real", "sort", "rotate"}
KINDS = ("ret", "file", "print", "mutate", "raise", "perf")


def ctl(ts):
    """Influence through a decision only (marked with a question mark)."""
    return frozenset(t if t[-1] in "?!" or t[0] == "@" else t + "?"
                     for t in ts)


def nullness(ts):
    """Influence through 'is it None?' only (an exclamation mark)."""
    return frozenset(t if t[0] == "@" else t.rstrip("?!") + "!" for t in ts)


class Summary:
    def __init__(self):
        self.ret = EMPTY
        self.eff = {k: EMPTY for k in KINDS}
        self.mut = {}           # parameter -> what flows into its contents
        self.acc = set()        # parameters whose contents are added to
        self.notes = {}         # source token -> list of (node, what)

    def key(self):
        return (self.ret, tuple(self.eff[k] for k in KINDS),
                tuple(sorted((p, t) for p, t in self.mut.items())),
                frozenset(self.acc))


def ext_name(project, module, e):
    """Dotted name of an external function ('numpy.random.rand')."""
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if not isinstance(e, ast.Name):
        return None
    r = project.resolve(module, e.id)
    if r is None:
        return ".".join([e.id] + parts[::-1])
    if r[0] == "ext":
        return ".".join([r[1]] + parts[::-1])
    return None


class Flow:
    def __init__(self, project):
        self.project = project
        self.sum = {f: Summary() for f in project.all_functions}
        self.names = {}
        self.events = {}
        self.rounds = 0

    def run(self):
        fs = self.project.all_functions
        todo = list(fs)
        callers = {}
        for f in fs:
            for cs in calls.sites(self.project, f):
                callers.setdefault(cs.callee, set()).add(f)
        # callees first
        order = {}

        def visit(f, path):
            if f in order or f in path:
                return
            for cs in calls.sites(self.project, f):
                visit(cs.callee, path | {f})
            order[f] = len(order)
        for f in fs:
            visit(f, frozenset())
        todo = sorted(fs, key=lambda f: order[f])
        pend = set(todo)
        while pend and self.rounds < 6 * len(fs):
            f = min(pend, key=lambda x: order[x])
            pend.discard(f)
            self.rounds += 1
            new = Walk(self, f).go()
            if new.key() != self.sum[f].key():
                pend |= callers.get(f, set())
            self.sum[f] = new
        return self


class Walk:
    """One pass over a function."""

    def __init__(self, flow, fi):
        self.flow = flow
        self.fi = fi
        self.names = flow.names.setdefault(fi, None) or calls.Names(fi)
        flow.names[fi] = self.names
        self.s = Summary()
        self.ctx = EMPTY
        self.env = {}
        self.alias = {}
        self.fresh = set()
        self.nested = {}
        self.globals = set()
        self.jumps = []         # states at break/continue, per open loop
        self.ev = []

    def go(self):
        fi = self.fi
        ps = fi.params + fi.kwonly + [x for x in (fi.vararg, fi.kwarg) if x]
        for p in ps:
            self.env[p] = frozenset([p])
            self.alias[p] = frozenset([p])
        self.block(fi.node.body)
        self.flow.events[fi] = self.ev
        return self.s

    # ------------------------------------------------------------ state
    def snap(self):
        return dict(self.env), dict(self.alias), set(self.fresh)

    def restore(self, s):
        self.env, self.alias, self.fresh = dict(s[0]), dict(s[1]), set(s[2])

    @staticmethod
    def merge(a, b):
        if a is None:
            return b
        if b is None:
            return a
        env = {k: a[0].get(k, EMPTY) | b[0].get(k, EMPTY)
               for k in set(a[0]) | set(b[0])}
        al = {k: a[1].get(k, EMPTY) | b[1].get(k, EMPTY)
              for k in set(a[1]) | set(b[1])}
        return env, al, a[2] & b[2]

    # ------------------------------------------------------- statements
    def block(self, body):
        """Returns False when the end of the block is not reached."""
        ctx0 = self.ctx
        live = True
        for st in body:
            live = self.stmt(st)
            if not live:
                break
        self.ctx = ctx0 if live is False else ctx0
        return live

    def effect(self, kind, t):
        self.s.eff[kind] = self.s.eff[kind] | t | self.ctx

    def note(self, tok, node, what):
        self.ev.append((tok, node, what))

    def stmt(self, st):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            free = {n.id for n in ast.walk(st) if isinstance(n, ast.Name)}
            self.nested[st.name] = free
            return True
        if isinstance(st, ast.Assign):
            for t in st.targets:
                self.assign(t, st.value)
            return True
        if isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.assign(st.target, st.value)
            return True
        if isinstance(st, ast.AugAssign):
            t = self.ex(st.value) | self.ex_load(st.target)
            if isinstance(st.target, ast.Name):
                if "@uninit" in self.env.get(st.target.id, EMPTY):
                    self.note("@uninit", st, "adds to")
                self.env[st.target.id] = t | self.ctx
                self.mutated(st.target.id, t)
            else:
                b = base_name(st.target)
                if b and "@uninit" in self.env.get(b, EMPTY):
                    self.note("@uninit", st, "adds to")
                self.store(st.target, t, aug=True)
            return True
        if isinstance(st, ast.Expr):
            self.ex(st.value)
            return True
        if isinstance(st, ast.Return):
            if st.value is not None:
                self.s.ret |= self.ex(st.value)
            self.s.ret |= self.ctx
            self.s.eff["ret"] |= self.s.ret
            return False
        if isinstance(st, ast.Raise):
            t = self.ex(st.exc) if st.exc is not None else EMPTY
            self.effect("raise", t)
            return False
        if isinstance(st, ast.Assert):
            self.effect("raise", ctl(self.ex(st.test)))
            return True
        if isinstance(st, ast.If):
            return self.if_(st)
        if isinstance(st, (ast.For, ast.AsyncFor)):
            it = self.ex(st.iter)
            self.loop(st, it, st.target)
            return True
        if isinstance(st, ast.While):
            self.loop(st, None, None)
            return not (isinstance(st.test, ast.Constant) and st.test.value
                        and not any(isinstance(n, ast.Break)
                                    for n in ast.walk(st)))
        if isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                t = self.ex(i.context_expr)
                if i.optional_vars is not None:
                    self.bindt(i.optional_vars, t, EMPTY, False)
            return self.inner(st.body)
        if isinstance(st, ast.Try):
            s0 = self.snap()
            live = self.inner(st.body)
            s1 = self.snap()
            out = s1 if live else None
            for h in st.handlers:
                self.restore(self.merge(s0, s1))
                if h.name:
                    self.env[h.name] = EMPTY
                if self.inner(h.body):
                    out = self.merge(out, self.snap())
            if out is not None:
                self.restore(out)
                if live and st.orelse:
                    self.inner(st.orelse)
            if st.finalbody:
                if not self.inner(st.finalbody):
                    return False
            return out is not None
        if isinstance(st, (ast.Break, ast.Continue)):
            if self.jumps:
                self.jumps[-1] = self.merge(self.jumps[-1], self.snap())
            return False
        if isinstance(st, ast.Global):
            self.globals |= set(st.names)
            return True
        if isinstance(st, ast.Delete):
            return True
        if isinstance(st, ast.Match):
            t = ctl(self.ex(st.subject))
            s0 = self.snap()
            out = None
            c0 = self.ctx
            self.ctx = c0 | t
            for c in st.cases:
                self.restore(s0)
                if self.inner(c.body):
                    out = self.merge(out, self.snap())
            self.ctx = c0
            self.restore(self.merge(out, s0))
            return True
        return True

    def inner(self, body):
        c = self.ctx
        r = True
        for st in body:
            r = self.stmt(st)
            if not r:
                break
        if r:
            # context gained inside (early exits) persists only inside
            pass
        self.ctx = c
        return r

    def if_(self, st):
        t = ctl(self.ex(st.test))
        c0 = self.ctx
        s0 = self.snap()
        self.ctx = c0 | t
        a = self.inner(st.body)
        sa = self.snap() if a else None
        self.restore(s0)
        b = self.inner(st.orelse) if st.orelse else True
        sb = self.snap() if b else None
        self.ctx = c0
        m = self.merge(sa, sb)
        if m is None:
            return False
        self.restore(m)
        if a != b:
            arm = st.body if not a else st.orelse
            if not isinstance(arm[-1], ast.Raise):
                self.ctx = c0 | t
        return True

    def loop(self, st, it, target):
        c0 = self.ctx
        for _ in range(4):
            s0 = self.snap()
            t = self.ex(st.test) if isinstance(st, ast.While) else it
            self.ctx = c0 | (ctl(t) if isinstance(st, ast.While) else EMPTY)
            if target is not None:
                # the number of rounds depends on the iterable
                self.ctx = c0 | ctl(frozenset(
                    x for x in it if not x.startswith("@uninit")))
                self.bindt(target, it, self.al(st.iter), False)
            self.jumps.append(None)
            live = self.inner(st.body)
            end = self.snap() if live else None
            s1 = self.merge(self.merge(s0, self.jumps.pop()), end)
            if end is not None and isinstance(st, ast.For):
                # a loop that fills an array is taken to run
                for k, v in end[0].items():
                    if "@uninit" in s1[0].get(k, EMPTY) and \
                            "@uninit" not in v:
                        s1[0][k] = s1[0][k] - {"@uninit"}
            self.restore(s1)
            if s1[0] == s0[0] and s1[1] == s0[1]:
                break
        self.ctx = c0
        if st.orelse:
            self.inner(st.orelse)

    # ------------------------------------------------------ assignments
    def assign(self, target, value):
        if isinstance(target, (ast.Tuple, ast.List)) and \
                isinstance(value, (ast.Tuple, ast.List)) and \
                len(target.elts) == len(value.elts):
            vals = [(self.ex(v), self.al(v), self.is_fresh(v))
                    for v in value.elts]
            for t, (x, a, f) in zip(target.elts, vals):
                self.bindt(t, x, a, f)
            return
        self.bindt(target, self.ex(value), self.al(value),
                   self.is_fresh(value))

    def bindt(self, target, t, al, fresh):
        if isinstance(target, ast.Name):
            if target.id in self.globals:
                self.note("@global", target, target.id)
            self.env[target.id] = t | self.ctx
            self.alias[target.id] = al
            if fresh:
                self.fresh.add(target.id)
            else:
                self.fresh.discard(target.id)
        elif isinstance(target, (ast.Tuple, ast.List)):
            for x in target.elts:
                self.bindt(x, t, al, fresh)
        elif isinstance(target, ast.Starred):
            self.bindt(target.value, t, al, fresh)
        else:
            self.store(target, t)

    def store(self, target, t, aug=False):
        idx = EMPTY
        e = target
        while isinstance(e, (ast.Subscript, ast.Attribute)):
            if isinstance(e, ast.Subscript):
                idx |= self.ex(e.slice)
            e = e.value
        if not isinstance(e, ast.Name):
            self.ex(e)
            self.effect("file", t | idx)
            return
        n = e.id
        if n not in self.env:
            g = self.flow.project.resolve(self.fi.module, n)
            if g is not None or n in self.fi.module.globals:
                self.note("@global", target, n)
                self.effect("mutate", t | idx)
            return
        if aug:
            for p in self.alias.get(n, ()):
                self.s.acc.add(p)
        old = self.env[n]
        if not aug:
            old = old - {"@uninit"}
        self.env[n] = old | t | idx | self.ctx
        self.mutated(n, t | idx)

    def mutated(self, n, t):
        for p in self.alias.get(n, ()):
            self.s.mut[p] = self.s.mut.get(p, EMPTY) | t | self.ctx
            self.effect("mutate", t)
        if n not in self.fresh and not self.alias.get(n):
            self.effect("file", t)

    def is_fresh(self, v):
        if isinstance(v, (ast.BinOp, ast.List, ast.Dict, ast.Constant,
                          ast.ListComp, ast.Tuple, ast.UnaryOp, ast.Compare)):
            return True
        if isinstance(v, ast.Call):
            f = v.func
            n = f.attr if isinstance(f, ast.Attribute) else \
                f.id if isinstance(f, ast.Name) else ""
            return n in FRESH
        if isinstance(v, ast.Name):
            return v.id in self.fresh
        if isinstance(v, ast.Subscript):
            return self.is_fresh(v.value)
        return False

    def al(self, v):
        """Parameters whose contents a value may share."""
        if isinstance(v, ast.Name):
            return self.alias.get(v.id, EMPTY)
        if isinstance(v, (ast.Subscript, ast.Attribute, ast.Starred)):
            return self.al(v.value)
        if isinstance(v, ast.IfExp):
            return self.al(v.body) | self.al(v.orelse)
        if isinstance(v, ast.Call):
            n = v.func.attr if isinstance(v.func, ast.Attribute) else ""
            if n in ("reshape", "transpose", "squeeze", "asarray", "moveaxis",
                     "swapaxes", "ravel", "ascontiguousarray", "flipud",
                     "fliplr"):
                r = EMPTY
                for a in v.args[:1]:
                    r |= self.al(a)
                return r | self.al(v.func.value)
        return EMPTY

    # ------------------------------------------------------ expressions
    def ex_load(self, e):
        if isinstance(e, ast.Name):
            return self.env.get(e.id, EMPTY)
        return self.ex(e)

    def ex(self, e):
        if e is None or isinstance(e, ast.Constant):
            return EMPTY
        if isinstance(e, ast.Name):
            return self.env.get(e.id, EMPTY)
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, ast.Attribute):
            if e.attr == "environ" and not self.local(e) and ext_name(
                    self.flow.project, self.fi.module, e) == "os.environ":
                self.note("@env", e, "os.environ")
                return frozenset(["@env"])
            t = self.ex(e.value)
            if e.attr in ("shape", "dtype", "ndim", "size"):
                t = t - {"@uninit"}
            return t
        if isinstance(e, ast.Set):
            return EMPTY.union(*[self.ex(x) for x in e.elts],
                               ["@setorder"])
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(
                e.ops[0], (ast.In, ast.NotIn)):
            return self.ex(e.left) | (self.ex(e.comparators[0]) -
                                      {"@setorder", "@listing"})
        if isinstance(e, ast.Lambda):
            r = EMPTY
            args = {a.arg for a in e.args.args}
            for n in ast.walk(e.body):
                if isinstance(n, ast.Name) and n.id not in args:
                    r |= self.env.get(n.id, EMPTY)
            return r
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                          ast.DictComp)):
            save = self.snap()
            c0 = self.ctx
            r = EMPTY
            for g in e.generators:
                t = self.ex(g.iter)
                r |= t
                self.bindt(g.target, t, self.al(g.iter), False)
                for c in g.ifs:
                    r |= self.ex(c)
            if isinstance(e, ast.DictComp):
                r |= self.ex(e.key) | self.ex(e.value)
            else:
                r |= self.ex(e.elt)
            self.ctx = c0
            # contents changed inside (calls with effects) persist
            for k in save[0]:
                save[0][k] = save[0][k] | (
                    self.env.get(k, EMPTY) if not any(
                        isinstance(n, ast.Name) and n.id == k
                        for g in e.generators for n in ast.walk(g.target))
                    else EMPTY)
            self.restore(save)
            return r
        if isinstance(e, ast.NamedExpr):
            t = self.ex(e.value)
            self.bindt(e.target, t, self.al(e.value), False)
            return t
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and \
                isinstance(e.ops[0], (ast.Is, ast.IsNot)) and \
                any(isinstance(x, ast.Constant) and x.value is None
                    for x in [e.left] + e.comparators):
            return nullness(self.ex(e.left) | self.ex(e.comparators[0]))
        if isinstance(e, ast.IfExp):
            return ctl(self.ex(e.test)) | self.ex(e.body) | \
                self.ex(e.orelse)
        r = EMPTY
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                r |= self.ex(c)
            elif isinstance(c, ast.comprehension):
                r |= self.ex(c.iter)
        return r

    def call(self, e):
        fe, args, kws = e.func, list(e.args), list(e.keywords)
        if isinstance(fe, ast.Call) and calls.is_name(fe.func, "delayed") and \
                fe.args:
            fe = fe.args[0]
        perf = EMPTY
        if isinstance(fe, ast.Subscript):
            perf = self.ex(fe.slice)
        tg = calls.targets_of(self.flow.project, self.names, fe)
        vals = [self.ex(a.value if isinstance(a, ast.Starred) else a)
                for a in args]
        kvals = [self.ex(k.value) for k in kws]
        everything = EMPTY.union(*vals, *kvals) if vals or kvals else EMPTY
        if tg:
            if perf:
                self.effect("perf", perf)
            out = EMPTY
            for g in tg:
                out |= self.apply(g, e, args, kws, fe)
            # the choice of the function
            if isinstance(fe, ast.Name):
                out |= self.env.get(fe.id, EMPTY)
            return out
        name = fe.id if isinstance(fe, ast.Name) else \
            fe.attr if isinstance(fe, ast.Attribute) else ""
        if isinstance(fe, ast.Name) and fe.id in self.nested:
            for x in self.nested[fe.id]:
                everything |= self.env.get(x, EMPTY)
            return everything
        recv = EMPTY
        ext = None
        if isinstance(fe, ast.Attribute):
            ext = ext_name(self.flow.project, self.fi.module, fe) \
                if not self.local(fe) else None
            if ext is None:
                recv = self.ex(fe.value)
        elif isinstance(fe, ast.Name):
            ext = ext_name(self.flow.project, self.fi.module, fe) \
                if fe.id not in self.env else None
            recv = self.env.get(fe.id, EMPTY)
        else:
            recv = self.ex(fe)
        src = self.source(ext or "", name, args, kws, e)
        if src is not None:
            return everything | src
        if name in ("sorted", "len", "min", "max", "sum", "unique", "sort",
                    "any", "all"):
            everything = everything - {"@listing", "@setorder"}
        if name == "len":
            everything = everything - {"@uninit"}
        if name in PRINTERS and (ext is None or ext.split(".")[0] in (
                "print", "warnings", "sys", "logging")):
            self.effect("print", everything)
            if name == "write" and not (ext or "").startswith("sys"):
                self.effect("file", everything | recv)
            return EMPTY
        if name in ("Parallel", "ThreadPoolExecutor", "ProcessPoolExecutor",
                    "Pool"):
            self.effect("perf", everything)
            return EMPTY
        if name in FILEWORDS:
            self.effect("file", everything | recv)
        root = (ext or "").split(".")[0]
        if root and "." in ext and root not in ("numpy", "np", "scipy"):
            # a library with a state of its own: what goes in may come out
            k = "<%s>" % root
            old = self.env.get(k, EMPTY)
            self.env[k] = old | everything | self.ctx
            everything = everything | old
        for k, v in zip(kws, kvals):
            if k.arg in ("out", "output") and isinstance(k.value, ast.Name):
                b = k.value.id
                self.env[b] = self.env.get(b, EMPTY) | everything | self.ctx
                self.mutated(b, everything)
        if name in ("copyto", "put", "fill_diagonal", "place", "putmask",
                    "shuffle", "array_to_device", "map_coordinates") and args:
            b = base_name(args[0])
            if b and name != "map_coordinates":
                self.env[b] = self.env.get(b, EMPTY) | everything | self.ctx
                self.mutated(b, everything)
        if ext is None and isinstance(fe, ast.Attribute):
            b = base_name(fe.value)
            if b and b in self.env and everything:
                self.env[b] = self.env[b] | everything | self.ctx
                if name in ("append", "extend", "insert", "update", "fill",
                            "sort", "setdefault", "add", "put"):
                    if name == "fill":
                        self.env[b] = self.env[b] - {"@uninit"}
                    self.mutated(b, everything)
        return everything | recv

    def local(self, fe):
        e = fe
        while isinstance(e, ast.Attribute):
            e = e.value
        return isinstance(e, ast.Name) and e.id in self.env

    def source(self, ext, name, args, kws, node):
        p = ext.split(".")
        if name in CLOCK and (p[0] in ("time", "timeit", "datetime")):
            return frozenset(["@clock"])
        if len(p) > 1 and p[0] == "numpy" and p[1] == "random" or \
                p[0] in ("random", "secrets", "uuid"):
            if name in ("default_rng", "RandomState", "Random",
                        "SeedSequence", "Generator") and (args or kws):
                return EMPTY
            if name == "seed":
                self.note("@global", node, "random state of numpy")
                return EMPTY
            self.note("@random", node, ext)
            self.note("@random-in", node, (self.ctx, None))
            return frozenset(["@random"])
        if ext in ("os.getpid", "os.urandom", "os.times", "id", "hash",
                   "tempfile.mktemp", "threading.get_ident"):
            self.note("@random", node, ext)
            return frozenset(["@random"])
        if ext in ("os.getenv", "os.environ.get", "os.getlogin",
                   "socket.gethostname", "getpass.getuser",
                   "platform.node"):
            self.note("@env", node, ext)
            return frozenset(["@env"])
        if name in ("as_completed", "imap_unordered") or any(
                k.arg == "return_as" and "unordered" in ast.unparse(k.value)
                for k in kws):
            self.note("@sched", node, ext or name)
            return frozenset(["@sched"])
        if ext in ("set", "frozenset"):
            return frozenset(["@setorder"])
        if ext in GLOBAL_STATE:
            self.note("@global", node, ext)
            return EMPTY
        if name == "cpu_count":
            return frozenset(["@ncpu"])
        if ext in ("glob.glob", "os.listdir", "os.scandir", "glob.iglob"):
            return frozenset(["@listing"])
        if p[0] == "numpy" and name in ("empty", "empty_like", "ndarray"):
            return frozenset(["@uninit"])
        if p[0] in ("numba", "cuda") and name in (
                "device_array", "device_array_like", "pinned_array"):
            return frozenset(["@uninit"])
        return None

    def apply(self, g, e, args, kws, fe):
        cs = calls.CallSite(self.fi, g, e)
        calls.bind(cs, args, kws)
        s = self.flow.sum[g]
        m = {}
        for q, x in cs.bound.items():
            m[q] = self.ex(x)
        rest = EMPTY
        if cs.opaque:
            for a in args:
                if isinstance(a, ast.Starred):
                    rest |= self.ex(a.value)
            for k in kws:
                if k.arg is None:
                    rest |= self.ex(k.value)
        extra = EMPTY
        for q in (g.vararg, g.kwarg):
            if q:
                extra = EMPTY.union(*[self.ex(a.value if isinstance(
                    a, ast.Starred) else a) for a in args], EMPTY) | \
                    EMPTY.union(*[self.ex(k.value) for k in kws], EMPTY)
                m[q] = extra
        if g.cls and g.params[:1] == ["self"]:
            m["self"] = self.ex(fe.value) if isinstance(
                fe, ast.Attribute) else EMPTY

        def mp(ts):
            out = EMPTY
            for t in ts:
                if t.startswith("@"):
                    out |= {t}
                else:
                    x = m.get(t.rstrip("?!"), rest)
                    out |= ctl(x) if t[-1] == "?" else \
                        nullness(x) if t[-1] == "!" else x
            return out
        for k in KINDS:
            if k in ("ret", "mutate"):
                continue
            if s.eff[k]:
                self.effect(k, mp(s.eff[k]))
        for q, ts in s.mut.items():
            x = cs.bound.get(q)
            if x is None:
                continue
            b = base_name(x)
            if b is None:
                continue
            t = mp(ts)
            if b in self.env:
                if q in s.acc and "@uninit" in self.env[b]:
                    self.note("@uninit", e, "adds to")
                self.env[b] = (self.env[b] - {"@uninit"}) | t | self.ctx
                self.mutated(b, t)
        if g.name == "__init__":
            return EMPTY.union(*m.values(), EMPTY) if m else EMPTY
        if g.name == "parallel_process_slices":
            fn = cs.bound.get("method")
            for h in calls.targets_of(self.flow.project, self.names, fn) \
                    if fn is not None else ():
                hs = self.flow.sum[h]
                for k in KINDS:
                    if k not in ("ret", "mutate") and hs.eff[k]:
                        self.effect(k, frozenset(
                            t for t in hs.eff[k] if t.startswith("@")))
                return mp(s.ret) | frozenset(
                    t for t in hs.ret if t.startswith("@"))
        if "@random" in s.ret:
            self.note("@random-in", e, (self.ctx, g))
        return mp(s.ret)


def base_name(e):
    while isinstance(e, (ast.Subscript, ast.Attribute, ast.Starred)):
        e = e.value
    if isinstance(e, ast.Call) and calls.is_name(
            e.func, "float32", "int32", "asarray", "ascontiguousarray"):
        return None
    return e.id if isinstance(e, ast.Name) else None
