"""Interprocedural abstract interpreter for the analysed package.

Flow sensitive, joins at undecided branches, symbolic loop summaries
(induction variables in closed form, everything else widened), callees
analysed in the calling context.  Checks start it on public functions with
abstract arguments and read the events it records."""
import ast
import sys
from .sym import Poly, C, ZERO, ONE, INF, named_opaque
from . import sym as S
from . import order
from .values import *
from .values import list_elem
from .project import FuncInfo

sys.setrecursionlimit(20000)

CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=",
       ast.Gt: ">", ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not",
       ast.In: "in", ast.NotIn: "not in"}
NEG = {"==": "!=", "!=": "==", "<": ">=", "<=": ">", ">": "<=", ">=": "<",
       "is": "is not", "is not": "is", "in": "not in", "not in": "in"}
SWAP = {"==": "==", "!=": "!=", "<": ">", "<=": ">=", ">": "<", ">=": "<="}
BINOP = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/",
         ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.BitAnd: "&",
         ast.BitOr: "|", ast.BitXor: "^", ast.MatMult: "@",
         ast.LShift: "<<", ast.RShift: ">>"}


class Event:
    __slots__ = ("kind", "node", "func", "stack", "loops", "facts", "conds",
                 "info")

    def __init__(self, kind, node, func, stack, loops, facts, conds, info):
        self.kind = kind
        self.node = node
        self.func = func
        self.stack = stack
        self.loops = loops
        self.facts = facts
        self.conds = conds
        self.info = info

    def __getattr__(self, n):
        try:
            return object.__getattribute__(self, "info")[n]
        except KeyError:
            raise AttributeError(n)

    @property
    def line(self):
        return getattr(self.node, "lineno", 0)

    def where(self):
        f = self.func
        return "%s:%d (in %s)" % (f.module.rel if f else "?", self.line,
                                  f.qualname if f else "?")

    def chain(self):
        return " -> ".join("%s:%d" % (f.short, ln) for f, ln in self.stack)


class Loop:
    __slots__ = ("sym", "n", "parallel", "node", "what")

    def __init__(self, sym, n, parallel, node, what=""):
        self.sym = sym
        self.n = n
        self.parallel = parallel
        self.node = node
        self.what = what

    def __repr__(self):
        return "for %s<%s%s" % (self.sym, self.n,
                                " parallel" if self.parallel else "")


class Flow:
    __slots__ = ("nxt", "rets", "brks", "cnts", "excs", "alts")

    def __init__(self, nxt=None):
        self.nxt = nxt
        self.alts = None        # states to be followed separately
        self.rets = []
        self.brks = []
        self.cnts = []
        self.excs = []

    def absorb(self, o):
        self.rets += o.rets
        self.brks += o.brks
        self.cnts += o.cnts
        self.excs += o.excs


def shapes_differ(a, b):
    """A local variable names arrays of different shapes in the two states."""
    for k, x in a.env.items():
        y = b.env.get(k)
        if y is None or x is y:
            continue
        if isinstance(x, Ref) and isinstance(y, Ref):
            r, q = a.heap.get(x.id), b.heap.get(y.id)
            if isinstance(r, ArrRec) and isinstance(q, ArrRec) and \
                    r.shape is not None and q.shape is not None and \
                    r.shape != q.shape:
                return True
    return False


class Dead(Exception):
    """The current path cannot continue (a call never returns)."""


class Budget(Exception):
    pass


class Interp:
    MAXDEPTH = 22

    def __init__(self, project, options=None, budget=400000):
        self.p = project
        self.events = []
        self.muted = 0
        self.stack = []          # (FuncInfo, lineno of call inside caller)
        self.ctx = (0,)
        self.loops = []
        S.INTERP[0] = self
        self.trial = 0     # depth of passes whose values are thrown away
        self.splits = 0
        self.unroll = ()
        self.kernel = 0
        self.born = {}      # arrays made inside compiled code: loops
        self.views = {}     # parts taken inside compiled code
        self.opts = options or {}
        self.steps = 0
        self.budget = budget
        self.exc_out = [[]]
        self.optcmp = set() if self.opts.get("options") else None
        self.optlib = set()
        self.osrc = {}           # see order.py
        self.wid = {}
        self.red = {}            # value number of a min/max -> array's
        self.warn_err = False    # warnings are turned into exceptions
        self.catching = []       # handler names of the enclosing try blocks
        self.cur_node = None
        self.gcache = {}
        self.analysed = set()
        self.call_count = 0
        from . import models
        self.models = models

    # ------------------------------------------------------------ events
    def emit(self, kind, node, st, **info):
        if self.muted:
            return
        fn = self.stack[-1][0] if self.stack else None
        self.events.append(Event(kind, node, fn, tuple(
            (f, ln) for f, ln in self.stack), tuple(self.loops),
            st.facts if st else (), st.conds if st else (), info))

    @property
    def fn(self):
        return self.stack[-1][0] if self.stack else None

    @property
    def mod(self):
        return self.stack[-1][0].module

    # -------------------------------------------------------------- heap
    def alloc_id(self, node, tag=""):
        return VN("alloc", self.ctx, self.fn.full if self.fn else "",
                  getattr(node, "lineno", 0), getattr(node, "col_offset", 0),
                  getattr(node, "end_col_offset", 0), tag, self.unroll)

    def new_arr(self, st, node, rec, tag=""):
        i = self.alloc_id(node, tag)
        st.heap[i] = rec
        if self.kernel:
            self.born[i] = tuple(l.node for l in self.loops)
        return Ref(i, "arr")

    def new_list(self, st, node, rec, tag=""):
        i = self.alloc_id(node, "L" + tag)
        st.heap[i] = rec
        return Ref(i, "list")

    def new_dict(self, st, node, rec, tag=""):
        i = self.alloc_id(node, "D" + tag)
        st.heap[i] = rec
        return Ref(i, "dict")

    def new_obj(self, st, node, rec, tag=""):
        i = self.alloc_id(node, "O" + tag)
        st.heap[i] = rec
        return Ref(i, "obj")

    def rec(self, st, v):
        return st.heap.get(v.id)

    def vnum(self, st, v):
        """Value number including heap contents."""
        if isinstance(v, Ref):
            r = st.heap.get(v.id)
            if isinstance(r, ArrRec):
                return r.vn
            if isinstance(r, ListRec):
                if r.elts is not None:
                    return VN("list", tuple(self.vnum(st, e)
                                            for e in r.elts))
                return VN("listn", r.vn, r.n, self.vnum(st, r.elem)
                          if r.elem is not None else 0)
            if isinstance(r, DictRec):
                return VN("dict", tuple((k, self.vnum(st, x))
                                        for k, x in r.items), r.vn)
            if isinstance(r, ObjRec):
                return r.vn
            return VN("ref", v.id)
        if isinstance(v, Tup):
            return VN("tup", tuple(self.vnum(st, e) for e in v.elts))
        if isinstance(v, Union):
            return VN("phi", tuple(sorted(self.vnum(st, a) for a in v.alts)))
        return v.vnum

    # ---------------------------------------------------------- function
    def call_function(self, fi, bound, st, node, self_val=None):
        """Interpret a function body.  bound: param -> Val.  Returns Val and
        updates st in place; raises Dead when it never returns."""
        depth = len(self.stack)
        if depth >= self.MAXDEPTH or \
                sum(1 for f, _ in self.stack if f is fi) >= 2:
            return Top(VN("rec", fi.full, tuple(
                self.vnum(st, v) for v in bound.values())))
        self.call_count += 1
        self.analysed.add(fi)
        if len(self.events) > 2000000 or self.steps > self.budget:
            raise Budget()
        ln = getattr(node, "lineno", 0) if node is not None else 0
        self.stack.append((fi, ln))
        octx = self.ctx
        self.ctx = (VN("ctx", octx, ln, getattr(node, "col_offset", 0),
                       self.unroll),)
        oun = self.unroll
        self.unroll = ()
        kk = fi.kernel_kind()
        if kk:
            self.kernel += 1
        caller_env = st.env
        ob = order.before(self, fi, bound, st) if self.opts.get("order") \
            else None
        sub = State(dict(bound), st.heap, st.facts, st.conds)
        self.exc_out.append([])
        try:
            fl = self.exec_block(fi.node.body, sub)
            rets = list(fl.rets)
            if fl.nxt is not None:
                rets.append((NONE, fl.nxt))
            excs = fl.excs + self.exc_out[-1]
            for name, es, en in excs:
                self.emit("exc_exit", en, es, exc=name, fi=fi, state=es)
            for v, rs in rets:
                self.emit("ret_exit", fi.node, rs, fi=fi, value=v, state=rs)
        finally:
            self.exc_out.pop()
            self.stack.pop()
            self.ctx = octx
            self.unroll = oun
            if kk:
                self.kernel -= 1
        for name, es, en in excs:
            es2 = State(dict(caller_env), es.heap, es.facts, es.conds)
            self.exc_out[-1].append((name, es2, en))
        if not rets:
            raise Dead()
        js = join_states([s for _, s in rets])
        rv = rets[0][0]
        for v, _ in rets[1:]:
            rv = join(rv, v)
        st.heap = js.heap
        st.facts = js.facts
        st.conds = js.conds
        if ob is not None:
            order.after(self, fi, ob, rv, st, node)
        return rv

    def bind(self, fi, args, kwargs, st, node, star=None, self_val=None):
        bound = {}
        params = list(fi.params)
        pos = list(args)
        if self_val is not None:
            pos = [self_val] + pos
        extra = []
        for i, a in enumerate(pos):
            if i < len(params):
                bound[params[i]] = a
            else:
                extra.append(a)
        rest = {}
        for k, v in kwargs.items():
            if k in params or k in fi.kwonly:
                if k in bound:
                    self.emit("bad_call", node, st, fi=fi,
                              msg="argument %r given twice" % k)
                bound[k] = v
            else:
                rest[k] = v
        if extra and not fi.vararg:
            self.emit("bad_call", node, st, fi=fi,
                      msg="too many positional arguments")
        if rest and not fi.kwarg:
            self.emit("bad_call", node, st, fi=fi,
                      msg="unexpected keyword %s" % sorted(rest))
        for p in params + fi.kwonly:
            if p in bound:
                continue
            if p in fi.defaults:
                bound[p] = self.default_value(fi, p, st)
            elif star:
                bound[p] = Top(VN("star", fi.full, p))
            else:
                self.emit("bad_call", node, st, fi=fi,
                          msg="missing argument %r" % p)
                bound[p] = Top(VN("missing", fi.full, p))
        if fi.vararg:
            bound[fi.vararg] = Tup(extra)
        if fi.kwarg:
            self.ctx_push = None
            i = VN("kw", self.ctx, fi.full, getattr(node, "lineno", 0),
                   getattr(node, "col_offset", 0), self.unroll)
            st.heap[i] = DictRec(tuple(rest.items()), not star, None)
            bound[fi.kwarg] = Ref(i, "dict")
        return bound

    def default_value(self, fi, p, st):
        d = fi.defaults[p]
        self.stack.append((fi, 0))
        try:
            return self.eval(d, st)
        finally:
            self.stack.pop()

    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget()

    # -------------------------------------------------------- statements
    def exec_block(self, stmts, st):
        fl = Flow(st)
        for i, s in enumerate(stmts):
            if fl.nxt is None:
                break
            f2 = self.exec_stmt(s, fl.nxt)
            fl.nxt = f2.nxt
            fl.absorb(f2)
            if f2.alts and i + 1 < len(stmts):
                # follow the two ways separately to the end of the block
                self.splits += 1
                outs = []
                for a in f2.alts:
                    f3 = self.exec_block(stmts[i + 1:], a)
                    fl.absorb(f3)
                    outs.append(f3.nxt)
                self.splits -= 1
                fl.nxt = join_states(outs)
                break
        return fl

    def exec_stmt(self, s, st):
        self.tick()
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            return Flow(st)
        try:
            return m(s, st)
        except Dead:
            return Flow(None)

    def x_Expr(self, s, st):
        self.eval(s.value, st)
        return Flow(st)

    def x_Pass(self, s, st):
        return Flow(st)

    def x_Import(self, s, st):
        for a in s.names:
            nm = a.asname or a.name.split(".")[0]
            full = a.name if a.asname else a.name.split(".")[0]
            if full in self.p.modules:
                st.env[nm] = ModVal(self.p.modules[full])
            else:
                st.env[nm] = ModVal(full)
        return Flow(st)

    def x_ImportFrom(self, s, st):
        for a in s.names:
            r = self.p.resolve(self.mod, a.asname or a.name)
            v = self.resolved(r, st)
            if v is not None:
                st.env[a.asname or a.name] = v
        return Flow(st)

    def x_FunctionDef(self, s, st):
        fi = FuncInfo(self.mod, s)
        i = self.alloc_id(s, "closure")
        st.heap[i] = ObjRec("closure", tuple(st.env.items()),
                            VN("closure", self.fn.full, s.name))
        st.env[s.name] = Func(fi, extra=i)
        return Flow(st)

    def x_ClassDef(self, s, st):
        st.env[s.name] = Top(VN("class", s.name))
        return Flow(st)

    def x_Return(self, s, st):
        v = self.eval(s.value, st) if s.value is not None else NONE
        self.emit("return", s, st, value=v)
        fl = Flow(None)
        fl.rets.append((v, st))
        return fl

    def x_Raise(self, s, st):
        name = "Exception"
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                for a in e.args:
                    self.eval(a, st)
                e = e.func
            if isinstance(e, ast.Name):
                name = e.id
                v = st.env.get(e.id)
                if isinstance(v, Top):
                    for t in v.tags:
                        if isinstance(t, tuple) and t[0] == "exc":
                            name = t[1]
            elif isinstance(e, ast.Attribute):
                name = e.attr
        self.emit("raise", s, st, exc=name)
        fl = Flow(None)
        fl.excs.append((name, st, s))
        return fl

    def x_Assert(self, s, st):
        st2 = self.refine(s.test, True, st)
        return Flow(st2)

    def x_Global(self, s, st):
        self.emit("global_stmt", s, st, names=s.names)
        return Flow(st)

    x_Nonlocal = x_Global

    def x_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env[t.id] = UNDEF
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value, st)
                self.mutate(st, b, s, "del")
        return Flow(st)

    def x_Assign(self, s, st):
        v = self.eval(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)
        return Flow(st)

    def x_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st), st, s)
        return Flow(st)

    def x_AugAssign(self, s, st):
        op = BINOP.get(type(s.op), "?")
        if isinstance(s.target, ast.Name):
            cur = self.eval(ast.copy_location(
                ast.Name(s.target.id, ast.Load()), s.target), st)
            v = self.eval(s.value, st)
            done = False
            for a in alts_of(cur):
                if isinstance(a, Ref) and a.what in ("arr", "list"):
                    # in place
                    self.inplace_op(st, a, op, v, s)
                    done = True
            if done and len(alts_of(cur)) == 1:
                return Flow(st)
            r = self.binop(op, cur, v, st, s)
            st.env[s.target.id] = r
        elif isinstance(s.target, ast.Subscript):
            base = self.eval(s.target.value, st)
            idx = self.eval_index(s.target.slice, st)
            cur = self.subscript(base, idx, st, s.target, aug=True)
            v = self.eval(s.value, st)
            r = self.binop(op, cur, v, st, s)
            self.store_sub(base, idx, r, st, s, aug=(op, v))
        elif isinstance(s.target, ast.Attribute):
            cur = self.eval_attr(s.target, st)
            v = self.eval(s.value, st)
            for a in alts_of(cur):
                if isinstance(a, Ref) and a.what in ("arr", "list"):
                    self.inplace_op(st, a, op, v, s)
            r = self.binop(op, cur, v, st, s)
            self.assign(s.target, r, st, s)
        return Flow(st)

    def inplace_op(self, st, ref, op, v, node):
        r = st.heap.get(ref.id)
        if r is None:
            return
        if isinstance(r, ListRec):
            self.mutate(st, ref, node, "+=")
            res = self.binop(op, ref, v, st, node)
            rr = st.heap.get(res.id) if isinstance(res, Ref) else None
            if isinstance(rr, ListRec):
                st.heap[ref.id] = rr.upd(roots=r.roots)
            else:
                st.heap[ref.id] = ListRec(None, None, None, r.roots,
                                          VN("aug", self.vnum(st, ref)))
            return
        res = self.binop(op, ref, v, st, node)
        self.mutate(st, ref, node, "in-place " + op)
        if isinstance(res, Ref) and isinstance(st.heap.get(res.id), ArrRec):
            rr = st.heap[res.id]
            shp = r.shape
            if r.shape is not None and rr.shape is not None and \
                    len(rr.shape) != len(r.shape):
                pass
            st.heap[ref.id] = rr.upd(shape=shp, roots=r.roots,
                                     parent=r.parent, dtype=r.dtype,
                                     tags=r.tags | rr.tags, seq=None,
                                     view=r.view)
        else:
            st.heap[ref.id] = r.upd(lo=None, hi=None, nz=False, seq=None,
                                    vn=VN("aug", op, r.vn, self.vnum(st, v)))
        self.propagate_parent(st, ref, node)

    def mutate(self, st, v, node, how):
        """Record a write into the memory behind v."""
        for a in alts_of(v):
            if isinstance(a, Ref):
                r = st.heap.get(a.id)
                roots = getattr(r, "roots", frozenset()) if r is not None \
                    else frozenset()
                self.emit("mutate", node, st, ref=a, roots=roots, how=how,
                          rec=r)
            elif isinstance(a, Top):
                roots = frozenset(t[1] for t in a.tags
                                  if isinstance(t, tuple) and t[0] == "root")
                if roots:
                    self.emit("mutate", node, st, ref=None, roots=roots,
                              how=how, rec=None)
            elif isinstance(a, Tup):
                pass

    def propagate_parent(self, st, ref, node):
        """A write through a view also changes the array it looks into."""
        r = st.heap.get(ref.id)
        seen = set()
        while isinstance(r, ArrRec) and r.parent is not None and \
                r.parent not in seen:
            seen.add(r.parent)
            p = st.heap.get(r.parent)
            if not isinstance(p, ArrRec):
                break
            st.heap[r.parent] = p.upd(
                lo=join_bound(p.lo, r.lo, "lo"),
                hi=join_bound(p.hi, r.hi, "hi"),
                nz=p.nz and r.nz, seq=None,
                vn=VN("viewstore", p.vn, r.vn))
            r = st.heap[r.parent]

    # ------------------------------------------------------------ assign
    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, st, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, st)
            idx = self.eval_index(t.slice, st)
            self.store_sub(base, idx, v, st, node)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value, st)
            for b in alts_of(base):
                if isinstance(b, Ref) and isinstance(st.heap.get(b.id),
                                                     ObjRec):
                    st.heap[b.id] = st.heap[b.id].set(t.attr, v)
                elif isinstance(b, (ModVal, Func)):
                    self.emit("attr_store", node, st, base=b, attr=t.attr)

    def unpack(self, t, v, st, node):
        n = len(t.elts)
        star = [i for i, e in enumerate(t.elts)
                if isinstance(e, ast.Starred)]
        alts = alts_of(v)
        cols = None
        for a in alts:
            xs = self.unpack_vals(a, n, st, node, star)
            if xs is None:
                xs = [Top(VN("unpack", self.vnum(st, a), i))
                      for i in range(n)]
            if cols is None:
                cols = xs
            else:
                cols = [join(x, y) for x, y in zip(cols, xs)]
        for e, x in zip(t.elts, cols):
            self.assign(e, x, st, node)

    def unpack_vals(self, a, n, st, node, star):
        if isinstance(a, Tup):
            if star:
                return None
            if len(a.elts) != n:
                self.emit("unpack_mismatch", node, st, got=len(a.elts),
                          want=n)
                if len(alts_of(a)) == 1:
                    return None
            if len(a.elts) == n:
                return list(a.elts)
            return None
        if isinstance(a, NoneVal):
            self.emit("none_use", node, st, how="unpack", val=a)
            return None
        if isinstance(a, Ref):
            r = st.heap.get(a.id)
            if isinstance(r, ListRec):
                if r.elts is not None and len(r.elts) == n:
                    return list(r.elts)
                if r.elts is not None and not star:
                    self.emit("unpack_mismatch", node, st, got=len(r.elts),
                              want=n)
                if r.elem is not None:
                    return [r.head or r.elem] + [r.elem] * (n - 1)
                return None
            if isinstance(r, ArrRec):
                if r.shape is not None and len(r.shape) and \
                        r.shape[0] is not None:
                    d = r.shape[0].value()
                    if d is not None and d != n:
                        self.emit("unpack_mismatch", node, st, got=int(d),
                                  want=n)
                return [self.subscript(a, num(i), st, node, tag="u%d" % i)
                        for i in range(n)]
        return None

    # -------------------------------------------------------------- if
    def x_If(self, s, st):
        b = self.truth(self.eval(s.test, st), st)
        self.emit("branch", s, st, truth=b)
        if b is True or b is False:
            st = self.refine_quiet(s.test, b, st) or st
            if b:
                return self.exec_block(s.body, st)
            return self.exec_block(s.orelse, st)
        s1 = self.refine_quiet(s.test, True, st.copy())
        s2 = self.refine_quiet(s.test, False, st.copy())
        if s1 is None and s2 is None:
            s1, s2 = st.copy(), st.copy()
        fl = Flow(None)
        outs = []
        if s1 is not None:
            f1 = self.exec_block(s.body, s1)
            outs.append(f1.nxt)
            fl.absorb(f1)
        if s2 is not None:
            f2 = self.exec_block(s.orelse, s2)
            outs.append(f2.nxt)
            fl.absorb(f2)
        if self.splits < 3 and not self.loops and len(outs) == 2 and \
                None not in outs and shapes_differ(*outs):
            fl.alts = outs
        fl.nxt = join_states(outs)
        return fl

    def refine_quiet(self, test, truth, st):
        self.muted += 1
        try:
            return self.refine(test, truth, st)
        except Dead:
            return None
        finally:
            self.muted -= 1

    def refine(self, test, truth, st):
        """Restrict st to paths where test has the given truth value; None
        when there is none."""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, not truth, st)
        if isinstance(test, ast.BoolOp):
            conj = isinstance(test.op, ast.And)
            if conj == truth:
                for v in test.values:
                    st = self.refine(v, truth, st)
                    if st is None:
                        return None
                return st
            # at least one of them: join
            outs = []
            cur = st
            for v in test.values:
                if cur is None:
                    break
                o = self.refine(v, truth, cur.copy())
                if o is not None:
                    outs.append(o)
                cur = self.refine(v, not truth, cur)
            return join_states(outs)
        if isinstance(test, ast.Compare):
            if len(test.ops) > 1:
                if not truth:
                    left = test.left
                    outs, cur = [], st
                    for op, c in zip(test.ops, test.comparators):
                        if cur is None:
                            break
                        one = ast.copy_location(ast.Compare(left, [op], [c]),
                                                test)
                        o = self.refine(one, False, cur.copy())
                        if o is not None:
                            outs.append(o)
                        cur = self.refine(one, True, cur)
                        left = c
                    return join_states(outs)
                left = test.left
                for op, c in zip(test.ops, test.comparators):
                    one = ast.copy_location(ast.Compare(left, [op], [c]),
                                            test)
                    st = self.refine(one, True, st)
                    if st is None:
                        return None
                    left = c
                return st
            return self.refine_cmp(test, truth, st)
        v = self.eval(test, st)
        b = self.truth(v, st)
        if b is not None:
            return st if b == truth else None
        self.mask_facts(v, truth, st)
        if isinstance(test, ast.NamedExpr):
            test = test.target
        if isinstance(test, ast.Call):
            st = self.refine_call(test, truth, st)
            if st is None:
                return None
        elif isinstance(test, ast.Name):
            keep = [a for a in alts_of(v)
                    if self.truth(a, st) in (None, truth)]
            if not keep:
                return None
            new = []
            for a in keep:
                if isinstance(a, BoolVal) and a.b is None:
                    new.append(BoolVal(truth, tags=a.tags))
                    for t in a.tags:
                        if isinstance(t, tuple) and t[0] == "cond":
                            st2 = self.apply_cond(t, truth, st)
                            if st2 is None:
                                return None
                            st = st2
                else:
                    new.append(a)
            st.env[test.id] = mkunion(new)
        if not isinstance(v, (Num,)):
            st.conds = st.conds + ((self.vnum(st, v), truth),)
        return st

    def mask_facts(self, v, truth, st):
        """'no element of x satisfies m' restricts the elements of x."""
        for a in alts_of(v):
            for t in getattr(a, "tags", ()):
                if isinstance(t, tuple) and len(t) == 2 and t[0] == (
                        "allmask" if truth else "anymask"):
                    m = t[1] if truth else self.models.negmask(t[1])
                    vns = self.models.mask_vns(m)
                    for i, r in list(st.heap.items()):
                        if isinstance(r, ArrRec) and r.vn in vns:
                            lo, hi, nz = self.models.restrict(
                                r.lo, r.hi, r.nz, m, r.vn)
                            if (lo, hi, nz) != (r.lo, r.hi, r.nz):
                                self.alias_facts(i, r, lo, hi, nz, st,
                                                 m[0] == "alt")

    def alias_facts(self, i, r, lo, hi, nz, st, alt):
        """The facts go to a view bound to the local names, so that they
        survive a join with a branch that rebinds the name."""
        if not alt:
            st.heap[i] = r.upd(lo=lo, hi=hi, nz=nz)
        names = [k for k, v in st.env.items() if any(
            isinstance(a, Ref) and a.id == i for a in alts_of(v)) and
            (len(alts_of(v)) > 1 if alt else isinstance(v, Ref))]
        if names:
            j = VN("refined", i, tuple(self.ctx) if isinstance(
                self.ctx, tuple) else self.ctx)
            st.heap[j] = r.upd(lo=lo, hi=hi, nz=nz, parent=i)
            for k in names:
                st.env[k] = mkunion([
                    Ref(j, "arr") if isinstance(a, Ref) and a.id == i else a
                    for a in alts_of(st.env[k])])

    def apply_cond(self, t, truth, st):
        _, op, p, q = t
        if not truth:
            op = NEG[op]
        return self.num_fact(op, p, q, st)

    def num_fact(self, op, p, q, st):
        r = S.decide(op, p, q, st.facts)
        if r is False:
            return None
        if r is True:
            return st
        d = q - p
        int_ = d.is_int()
        if op == "<":
            if int_:
                st.add_fact("ge", d - ONE)
            else:
                st.add_fact("gt", d)
                st.add_fact("ge", d)
        elif op == "<=":
            st.add_fact("ge", d)
        elif op == ">":
            return self.num_fact("<", q, p, st)
        elif op == ">=":
            return self.num_fact("<=", q, p, st)
        elif op == "==":
            st.add_fact("eq", d)
            st.add_fact("ge", d)
            st.add_fact("ge", -d)
            self.unify(p, q, st)
        elif op == "!=":
            st.add_fact("ne", d)
            if int_:
                if S.lin_entails(st.facts, d):
                    st.add_fact("ge", d - ONE)
                elif S.lin_entails(st.facts, -d):
                    st.add_fact("ge", -d - ONE)
        return st

    def unify(self, p, q, st):
        """p == q holds on this path: rewrite a bare symbol."""
        for a, b in ((p, q), (q, p)):
            if len(a.t) == 1 and a.t[0][1] == 1 and len(a.t[0][0]) == 1 and \
                    a.t[0][0][0][1] == 1:
                at = a.t[0][0][0][0]
                if at[0] == "s" and at in b.all_atoms():
                    continue
                if at[0] in ("s", "o"):
                    self.subst_state(st, {at: b})
                    return

    def subst_val(self, v, env, st):
        if isinstance(v, Num):
            sy = v.sym.subst(env)
            lo = v.lo.subst(env) if v.lo is not None else None
            hi = v.hi.subst(env) if v.hi is not None else None
            if sy != v.sym or lo != v.lo or hi != v.hi:
                return v.with_(sym=sy, lo=lo, hi=hi)
            return v
        if isinstance(v, Tup):
            e = tuple(self.subst_val(x, env, st) for x in v.elts)
            return v if e == v.elts else Tup(e)
        if isinstance(v, Union):
            e = [self.subst_val(x, env, st) for x in v.alts]
            return mkunion(e)
        if isinstance(v, RangeVal):
            return RangeVal(v.lo.subst(env), v.hi.subst(env),
                            v.step.subst(env))
        if isinstance(v, StrVal) and v.vals is None:
            return self.models.subst_str(v, env)
        if isinstance(v, BoolVal) and v.tags:
            tg = frozenset(
                ("cond", t[1], t[2].subst(env), t[3].subst(env))
                if isinstance(t, tuple) and t[0] == "cond" else t
                for t in v.tags)
            return BoolVal(v.b, v.vn, tg) if tg != v.tags else v
        return v

    def subst_rec(self, r, env, st):
        if isinstance(r, ArrRec):
            sh = r.shape
            if sh is not None:
                sh = tuple(d.subst(env) if d is not None else None
                           for d in sh)
            lo = r.lo.subst(env) if r.lo is not None else None
            hi = r.hi.subst(env) if r.hi is not None else None
            seq = r.seq
            if seq is not None:
                seq = tuple(x.subst(env) if isinstance(x, Poly) else x
                            for x in seq)
            if sh != r.shape or lo != r.lo or hi != r.hi or seq != r.seq:
                return r.upd(shape=sh, lo=lo, hi=hi, seq=seq)
            return r
        if isinstance(r, ListRec):
            n = r.n.subst(env) if r.n is not None else None
            el = self.subst_val(r.elem, env, st) if r.elem is not None \
                else None
            es = tuple(self.subst_val(x, env, st) for x in r.elts) \
                if r.elts is not None else None
            if n != r.n or el != r.elem or es != r.elts:
                return r.upd(n=n, elem=el, elts=es)
            return r
        if isinstance(r, ObjRec) and r.attrs and r.cls != "closure":
            at = tuple((k, self.subst_val(x, env, st)) for k, x in r.attrs)
            return r.upd(attrs=at) if at != r.attrs else r
        return r

    def subst_state(self, st, env, only=None):
        for k, v in list(st.env.items()):
            if only is None or ("e", k) in only:
                st.env[k] = self.subst_val(v, env, st)
        for k, r in list(st.heap.items()):
            if only is None or ("h", k) in only:
                st.heap[k] = self.subst_rec(r, env, st)
        nf = []
        for kind, p in st.facts:
            q = p.subst(env)
            if q.value() is None:
                f = (kind, q)
                if f not in nf:
                    nf.append(f)
        st.facts = tuple(nf)

    def refine_cmp(self, test, truth, st):
        op = CMP.get(type(test.ops[0]), "?")
        l = self.eval(test.left, st)
        r = self.eval(test.comparators[0], st)
        cv = self.compare(op, l, r, st, test)
        res = self.truth(cv, st)
        if res is not None:
            return st if res == truth else None
        self.mask_facts(cv, truth, st)
        if op in ("==", "is", "!=", "is not") and isinstance(r, BoolVal) and \
                r.b is not None:
            self.mask_facts(l, (op in ("==", "is")) == (truth == r.b), st)
        eff = op if truth else NEG.get(op, "?")
        # keep the alternatives that can satisfy the comparison
        for side, other, a in ((test.left, r, l),
                               (test.comparators[0], l, r)):
            if isinstance(side, ast.Name) and len(alts_of(a)) > 1:
                keep = []
                for x in alts_of(a):
                    if side is test.left:
                        z = self.truth(self.compare(op, x, other, st, test),
                                       st)
                    else:
                        z = self.truth(self.compare(op, other, x, st, test),
                                       st)
                    if z is None or z == truth:
                        keep.append(x)
                if not keep:
                    return None
                st.env[side.id] = mkunion(keep)
                if side is test.left:
                    l = st.env[side.id]
                else:
                    r = st.env[side.id]
        if isinstance(l, Num) and isinstance(r, Num) and eff in SWAP:
            return self.num_fact(eff, l.sym, r.sym, st)
        if eff == "==" and isinstance(l, Tup) and isinstance(r, Tup) and \
                len(l.elts) == len(r.elts):
            for x, y in zip(l.elts, r.elts):
                if isinstance(x, Num) and isinstance(y, Num):
                    st = self.num_fact("==", x.sym, y.sym, st)
                    if st is None:
                        return None
            return st
        if isinstance(l, StrVal) and isinstance(r, StrVal) and \
                isinstance(test.left, ast.Name):
            c = r.const()
            if c is not None:
                if eff == "==":
                    st.env[test.left.id] = StrVal(frozenset([c]),
                                                  tags=l.tags)
                    return st
                if eff == "!=" and l.vals is not None:
                    nv = l.vals - {c}
                    if not nv:
                        return None
                    st.env[test.left.id] = StrVal(nv, l.vn, l.tags)
                    return st
        if eff in ("is", "==") and isinstance(r, BoolVal) and \
                r.b is not None and isinstance(l, BoolVal) and l.b is None \
                and isinstance(test.left, ast.Name):
            st.env[test.left.id] = BoolVal(r.b, tags=l.tags)
            for t in l.tags:
                if isinstance(t, tuple) and t[0] == "cond":
                    return self.apply_cond(t, r.b, st)
            return st
        if eff in ("is not", "!=") and isinstance(r, BoolVal) and \
                r.b is not None and isinstance(l, BoolVal) and l.b is None \
                and isinstance(test.left, ast.Name):
            st.env[test.left.id] = BoolVal(not r.b, tags=l.tags)
            return st
        c = VN("cmp", op, self.vnum(st, l), self.vnum(st, r))
        if (c, not truth) in st.conds:
            return None
        st.conds = st.conds + ((c, truth),)
        if eff == "in" and isinstance(l, StrVal) and isinstance(r, StrVal) \
                and l.const() is not None and r.const() is None and \
                isinstance(test.comparators[0], ast.Name):
            st.env[test.comparators[0].id] = StrVal(
                r.vals, r.vn, r.tags | {("has", l.const())})
        return st

    def refine_call(self, test, truth, st):
        return self.models.refine_call(self, test, truth, st)

    # ------------------------------------------------------------- loops
    def iter_info(self, it, st, node):
        """-> (known elements | None, count Poly|None, elem fn(k)->Val)"""
        alts = [a for a in alts_of(it) if not isinstance(a, NoneVal)]
        if isinstance(it, NoneVal):
            self.emit("none_use", node, st, how="iterate", val=it)
            raise Dead()
        it = alts[0] if len(alts) == 1 else it
        if isinstance(it, Tup):
            return list(it.elts), C(len(it.elts)), None
        if isinstance(it, RangeVal):
            n = it.count(st.facts)
            c = n.value() if n is not None else None
            if c is not None and c <= 8 and it.lo.value() is not None and \
                    it.step.value() is not None and not self.kernel:
                return [num(it.lo.value() + i * it.step.value())
                        for i in range(int(c))], n, None
            return None, n, (lambda k: Num(it.lo + it.step * k,
                                           isint=True, ispy=True))
        if isinstance(it, Ref):
            r = st.heap.get(it.id)
            if isinstance(r, ListRec):
                if r.elts is not None and len(r.elts) <= 14:
                    return list(r.elts), C(len(r.elts)), None
                el = list_elem(r)
                if el is None:
                    el = Top(VN("elem", self.vnum(st, it)))
                return None, r.n, (lambda k: self.elem_at(st, it, el, k))
            if isinstance(r, DictRec):
                if r.closed:
                    return [strv(k) if isinstance(k, str) else num(k)
                            for k, _ in r.items], C(len(r.items)), None
                return None, None, (lambda k: StrVal(None, VN(
                    "key", self.vnum(st, it), k)))
            if isinstance(r, ArrRec):
                n = r.shape[0] if r.shape else None
                c = n.value() if n is not None else None
                if r.shape == ():
                    n = None
                if c is not None and c <= 8 and not self.kernel:
                    return [self.subscript(it, num(i), st, node,
                                           tag="it%d" % i)
                            for i in range(int(c))], n, None
                return None, n, (lambda k: self.subscript(
                    it, Num(k, isint=True), st, node, tag="it"))
        if isinstance(it, StrVal):
            return None, None, (lambda k: StrVal(None, VN("char", it.vn, k)))
        if isinstance(it, Top):
            for t in it.tags:
                if isinstance(t, tuple) and t[0] == "iter":
                    return None, t[1], (lambda k: Top(VN("elem", it.vn, k)))
        vn = self.vnum(st, it)
        tags = it.tags if isinstance(it, Top) else frozenset()
        return None, None, (lambda k: Top(VN("elem", vn, k), tags))

    def elem_at(self, st, ref, el, k):
        """Element k of a homogeneous list."""
        if isinstance(el, Num) and el.sym.has_opaque() is False and \
                not el.sym.is_const():
            return el
        return el

    def loop_sym(self):
        name = "k%d" % len(self.loops)
        if name not in S.SYMS:
            S.declare(name, 0, INF, True)
        return ("s", name)

    def x_For(self, s, st):
        itnode = s.iter
        it = self.eval(itnode, st)
        parallel = False
        if isinstance(itnode, ast.Call):
            f = self.eval(itnode.func, st)
            if isinstance(f, Func) and f.fn in ("numba.prange", "prange"):
                parallel = True
        return self.run_loop(s, it, st, parallel)

    def run_loop(self, s, it, st, parallel):
        # enumerate(...) and zip(...) are delivered as IterVal tuples
        elts, n, elem = self.models.iter_any(self, it, st, s)
        if elts is not None:
            return self.unrolled(s, elts, st)
        return self.symbolic_loop(s, n, elem, st, parallel)

    def unrolled(self, s, elts, st):
        fl = Flow(None)
        cur = st
        brks = []
        oun = self.unroll
        for i, e in enumerate(elts):
            if cur is None:
                break
            self.unroll = oun + (i,)
            self.assign(s.target, e, cur, s)
            f = self.exec_block(s.body, cur)
            fl.rets += f.rets
            fl.excs += f.excs
            brks += f.brks
            cur = join_states([f.nxt] + f.cnts)
        self.unroll = oun
        if cur is not None and s.orelse:
            f = self.exec_block(s.orelse, cur)
            fl.absorb(f)
            cur = f.nxt
        fl.nxt = join_states([cur] + brks)
        return fl

    def differing(self, a, b):
        """Names and records that differ between two states."""
        ch = set()
        for k in a.env.keys() | b.env.keys():
            x, y = a.env.get(k, UNDEF), b.env.get(k, UNDEF)
            if x is not y and x != y:
                ch.add(("e", k))
        for k in a.heap.keys() & b.heap.keys():
            x, y = a.heap[k], b.heap[k]
            if x is not y and x != y:
                if isinstance(x, ArrRec) and isinstance(y, ArrRec) and \
                        x.vn == y.vn and y.upd(
                            shape=x.shape, lo=x.lo, hi=x.hi, nz=x.nz) == x:
                    # the same contents, described better or worse
                    continue
                ch.add(("h", k))
        return ch

    def symbolic_loop(self, s, n, elem, st, parallel, body=None, test=None):
        ksym = self.loop_sym()
        k = Poly.atom(ksym)
        if n is not None and n.value() is not None and n.value() <= 0:
            fl = Flow(st)
            return fl
        body = body or s.body
        loop = Loop(ksym[1], n, parallel, s)
        st0 = st
        # ---- pass A: one iteration, to see what changes
        ind = {}           # ('e',name)/('h',id) -> ('num',delta)|...
        widened = set()
        fl = None
        for attempt in range(4):
            last = attempt == 3
            pre = st0.copy()
            self.apply_induction(pre, st0, ind, widened, k, s)
            if n is not None:
                pre.add_fact("ge", n - ONE - k)
            self.loops.append(loop)
            self.muted += 1
            self.trial += 1
            eo = len(self.exc_out[-1])
            try:
                fl = self.loop_once(s, elem, pre.copy(), k, body, test)
            finally:
                self.trial -= 1
                self.muted -= 1
                self.loops.pop()
                del self.exc_out[-1][eo:]
            end = join_states([fl.nxt] + fl.cnts)
            if end is None:
                break
            new_ind, new_wide = self.classify(st0, pre, end, ind, widened,
                                              k, ksym)
            if new_ind == ind and new_wide <= widened:
                break
            widened = widened | new_wide
            ind = {a: b for a, b in new_ind.items() if a not in widened}
        # ---- recorded pass
        pre = st0.copy()
        self.apply_induction(pre, st0, ind, widened, k, s)
        if n is not None:
            pre.add_fact("ge", n - ONE - k)
        self.loops.append(loop)
        try:
            fl = self.loop_once(s, elem, pre.copy(), k, body, test)
        finally:
            self.loops.pop()
        out = Flow(None)
        nb = len(st0.facts)
        # exits from inside
        for v, rs in fl.rets:
            self.drop_k(rs, ksym, st0)
            out.rets.append((self.blur(v, ksym), rs))
        for e in fl.excs:
            self.drop_k(e[1], ksym, st0)
            out.excs.append(e)
        brks = []
        for b in fl.brks:
            self.blur_state(b, ksym, st0, s)
            brks.append(b)
        end = join_states([fl.nxt] + fl.cnts)
        self.loops.append(loop)
        for kind, name in widened:
            if kind == "e" and end is not None:
                w = pre.env.get(name)
                a, b = st0.env.get(name), end.env.get(name)
                if isinstance(w, Num) and isinstance(a, Num) and \
                        isinstance(b, Num):
                    for q in w.sym.atoms():
                        if q[0] == "o":
                            S.record_alts(q[1], (a.sym, b.sym))
        self.loops.pop()
        exit_ = None
        if end is not None:
            ex = end
            if n is not None:
                lastk = {ksym: n - ONE}
                ch = self.differing(pre, ex)
                self.subst_state(ex, lastk, only=ch | {
                    ("e", t) for t in _targets(s)})
                nf = []
                for kind, p in ex.facts:
                    if ksym in p.all_atoms():
                        continue
                    nf.append((kind, p))
                ex.facts = tuple(nf)
                self.induction_exit(ex, st0, ind, k, n)
            else:
                self.blur_state(ex, ksym, st0, s)
            ge1 = n is not None and S.decide(">=", n, ONE, st0.facts)
            if self.opts.get("nonempty") and test is None:
                ge1 = True
            if ge1 is True or n is None and test is None and False:
                exit_ = ex
            else:
                z = st0.copy()
                if n is not None:
                    self.induction_exit(z, st0, ind, k, n)
                exit_ = join_states([ex, z])
        else:
            ge1 = n is not None and S.decide(">=", n, ONE, st0.facts)
            if self.opts.get("nonempty") and test is None:
                ge1 = True
            exit_ = None if ge1 is True else st0.copy()
        if exit_ is not None and test is not None:
            const = isinstance(test, ast.Constant) and bool(test.value)
            r = None if const else self.refine_quiet(test, False, exit_)
            exit_ = r if r is not None or const or brks else exit_
        if exit_ is not None and getattr(s, "orelse", None):
            f = self.exec_block(s.orelse, exit_)
            out.absorb(f)
            exit_ = f.nxt
        out.nxt = join_states([exit_] + brks)
        return out

    def loop_once(self, s, elem, st, k, body, test):
        if test is not None:
            b = self.truth(self.eval(test, st), st)
            st2 = self.refine_quiet(test, True, st)
            if st2 is None:
                return Flow(None)
            st = st2
        else:
            v = elem(k)
            if callable(v):
                v = v(st)
            self.assign(s.target, v, st, s)
        return self.exec_block(body, st)

    def apply_induction(self, st, st0, ind, widened, k, node):
        for key, d in ind.items():
            kind, name = key
            if kind == "e":
                v0 = st0.env.get(name)
                if d[0] == "num" and isinstance(v0, Num):
                    st.env[name] = Num(v0.sym + d[1] * k, isint=v0.isint and
                                       d[1].is_int(), unit=v0.unit,
                                       ispy=v0.ispy)
                elif d[0] == "sum" and isinstance(v0, Num):
                    st.env[name] = Num(named_opaque("acc%d" % VN(
                        "acc", getattr(node, "lineno", 0), name, self.ctx,
                        len(self.loops))), unit=v0.unit)
            else:
                r0 = st0.heap.get(name)
                if d[0] == "len" and isinstance(r0, ListRec):
                    st.heap[name] = ListRec(
                        None, r0.n + d[1] * k if r0.n is not None else None,
                        d[2], r0.roots, VN("loop", r0.vn, name))
        for kind, name in widened:
            tag = VN("wid", self.ctx, getattr(node, "lineno", 0), kind,
                     name if kind == "e" else str(name), len(self.loops))
            if kind == "e":
                st.env[name] = self.widen_val(st.env.get(name, UNDEF), tag)
            elif name in st.heap:
                st.heap[name] = self.widen_rec(st.heap[name], tag)

    def widen_val(self, v, tag):
        if isinstance(v, Num):
            return Num(named_opaque("w%d" % tag), isint=v.isint, unit=v.unit,
                       tags=v.tags, ispy=v.ispy)
        if isinstance(v, Union):
            return mkunion([self.widen_val(a, tag) for a in v.alts])
        if isinstance(v, BoolVal):
            return BoolVal(None, VN("w", tag), v.tags)
        if isinstance(v, StrVal):
            return StrVal(None, VN("w", tag), v.tags)
        if isinstance(v, Tup):
            return Tup(self.widen_val(x, VN("wt", tag, i))
                       for i, x in enumerate(v.elts))
        if isinstance(v, Top):
            return Top(VN("w", tag), v.tags)
        return v

    def widen_rec(self, r, tag):
        if isinstance(r, ArrRec):
            self.wid.setdefault(VN("w", tag), r.vn)
            return r.upd(vn=VN("w", tag), lo=None, hi=None, nz=False,
                         seq=None, mask=None)
        if isinstance(r, ListRec):
            return ListRec(None, None, list_elem(r), r.roots, VN("w", tag))
        if isinstance(r, DictRec):
            return r.upd(vn=VN("w", tag))
        if isinstance(r, ObjRec):
            return r.upd(vn=VN("w", tag))
        return r

    def classify(self, st0, pre, end, ind, widened, k, ksym):
        """Which changes of one iteration have a closed form."""
        new_ind = {}
        new_wide = set()
        changed = self.differing(pre, end)
        bound_here = set()
        for key in changed:
            kind, name = key
            if kind == "e":
                v0 = pre.env.get(name, UNDEF)
                v1 = end.env.get(name, UNDEF)
                if isinstance(v0, Undef):
                    continue          # local to the body
                if key in widened:
                    # keep kinds seen on either side
                    continue
                if isinstance(v0, Num) and isinstance(v1, Num):
                    d = v1.sym - v0.sym
                    at = d.all_atoms()
                    if ksym not in at and not self.mentions_changed(
                            d, pre, changed, st0):
                        if key in ind and ind[key][0] == "num" and \
                                ind[key][1] != d:
                            new_wide.add(key)
                        else:
                            new_ind[key] = ("num", d)
                        continue
                    if not self.mentions_changed(d, pre, changed, st0):
                        if key in ind and ind[key] != ("sum", d):
                            if ind[key][0] == "sum":
                                new_wide.add(key)
                                continue
                        new_ind[key] = ("sum", d)
                        continue
                # plain re-assignment: value does not depend on the previous
                # iteration -> harmless for the closed form, but the value at
                # loop entry is a join
                if key in ind:
                    new_wide.add(key)
                    continue
                if self.kind_changes(v0, v1):
                    pre_v = join(v0, v1)
                    st0.env[name] = join(st0.env.get(name, UNDEF), v1) \
                        if not isinstance(st0.env.get(name, UNDEF), Undef) \
                        else st0.env.get(name, UNDEF)
                new_wide.add(key)
            else:
                r0, r1 = pre.heap.get(name), end.heap.get(name)
                if key in widened:
                    # widened record: merge what the body makes of it
                    m = join_rec(st0.heap[name], r1) if name in st0.heap \
                        else r1
                    if isinstance(m, ListRec) and name in st0.heap:
                        st0.heap[name] = m
                    elif isinstance(m, ArrRec) and name in st0.heap:
                        st0.heap[name] = m
                    continue
                if name not in st0.heap:
                    continue
                if isinstance(r0, ListRec) and isinstance(r1, ListRec) and \
                        r0.n is not None and r1.n is not None:
                    d = r1.n - r0.n
                    if ksym not in d.all_atoms():
                        el = list_elem(r1)
                        if key in ind and ind[key][0] == "len" and \
                                ind[key][1] == d:
                            el0 = ind[key][2]
                            el = join(el0, el) if el0 is not None and \
                                el is not None and el0 != el else (el or el0)
                        new_ind[key] = ("len", d, el)
                        continue
                if isinstance(r0, ObjRec) and isinstance(r1, ObjRec):
                    st0.heap[name] = join_rec(r0, r1)
                    continue
                if isinstance(r0, ArrRec) and isinstance(r1, ArrRec):
                    m = join_rec(r0, r1)
                    st0.heap[name] = st0.heap[name].upd(
                        shape=m.shape, dtype=m.dtype, unit=m.unit,
                        roots=m.roots, tags=m.tags)
                    if r0.upd(vn=0) == r1.upd(vn=0):
                        # only the contents' identity changes
                        new_wide.add(key)
                        continue
                new_wide.add(key)
        for key in ind:
            if key not in changed and key not in new_wide:
                new_ind[key] = ind[key] if ind[key][0] == "len" else \
                    ind[key]
                if ind[key][0] == "num" and ind[key][1].t:
                    # claimed to change but did not
                    new_wide.add(key)
                    new_ind.pop(key, None)
        return new_ind, new_wide

    def kind_changes(self, a, b):
        return type(a) is not type(b) or isinstance(a, (Union, Ref, Tup))

    def mentions_changed(self, d, pre, changed, st0):
        """Does polynomial d mention a loop-carried unknown?"""
        for a in d.all_atoms():
            if a[0] == "o" and isinstance(a[1], str) and (
                    a[1].startswith("w") or a[1].startswith("acc")):
                for kind, name in changed:
                    if kind == "e":
                        v = pre.env.get(name)
                        if isinstance(v, Num) and a in v.sym.atoms():
                            return True
        return False

    def induction_exit(self, st, st0, ind, k, n):
        ksym = next(iter(k.atoms()))
        for key, d in ind.items():
            kind, name = key
            if kind == "e":
                v0 = st0.env.get(name)
                if d[0] == "num" and isinstance(v0, Num):
                    st.env[name] = Num(v0.sym + d[1] * n,
                                       isint=v0.isint and d[1].is_int(),
                                       unit=v0.unit, ispy=v0.ispy)
                elif d[0] == "sum" and isinstance(v0, Num):
                    st.env[name] = Num(v0.sym + S.summation(
                        ksym, n, d[1]), unit=v0.unit)
            else:
                r0 = st0.heap.get(name)
                if d[0] == "len" and isinstance(r0, ListRec):
                    el = d[2]
                    if r0.elts:
                        e0 = list_elem(r0)
                        el = join(e0, el) if el is not None else e0
                    nn = r0.n + d[1] * n if r0.n is not None else None
                    lvn = VN("looplist", r0.vn, VN(
                        "el", self.vnum(st, el)) if el is not None else 0, n)
                    if r0.n is not None and not r0.n.t and d[1] == ONE:
                        self.models.LISTGEN[(lvn, nn)] = ksym
                        lvn = VN("comp", nn, self.vnum(st, el)
                                 if el is not None else 0, 1)
                        self.models.LISTGEN[(lvn, nn)] = ksym
                    st.heap[name] = ListRec(None, nn, el, r0.roots, lvn)

    def blur(self, v, ksym):
        return v

    def drop_k(self, st, ksym, st0):
        return

    def blur_state(self, st, ksym, st0, node):
        tag = VN("blur", self.ctx, getattr(node, "lineno", 0), ksym[1])
        env = {ksym: named_opaque("b%d" % tag)}
        has = False
        self.subst_state(st, env)

    def x_While(self, s, st):
        # try counting form: a variable that grows by a constant each turn
        b = self.truth(self.eval(s.test, st), st)
        if b is False:
            if s.orelse:
                return self.exec_block(s.orelse, st)
            return Flow(st)
        n = self.while_count(s, st)
        return self.symbolic_loop(s, n, None, st, False, body=s.body,
                                  test=s.test)

    def while_count(self, s, st):
        """Trip count of  while v < bound: ... v += c."""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            return None
        for n in ast.walk(ast.Module(s.body, [])):
            if isinstance(n, (ast.Break, ast.Return)):
                return None
        self.muted += 1
        self.loops.append(Loop("?", None, False, s))
        eo = len(self.exc_out[-1])
        try:
            pre = st.copy()
            l = self.eval(t.left, pre)
            r = self.eval(t.comparators[0], pre)
            if not (isinstance(l, Num) and isinstance(r, Num)):
                return None
            p1 = self.refine(t, True, pre.copy())
            if p1 is None:
                return None
            f = self.exec_block(s.body, p1)
            end = join_states([f.nxt] + f.cnts)
            if end is None:
                return None
            l2 = self.eval(t.left, end)
            r2 = self.eval(t.comparators[0], end)
        except Dead:
            return None
        finally:
            self.muted -= 1
            self.loops.pop()
            del self.exc_out[-1][eo:]
        if not (isinstance(l2, Num) and isinstance(r2, Num)):
            return None
        op = CMP.get(type(t.ops[0]))
        a0, b0 = l.sym, r.sym
        dl, dr = l2.sym - l.sym, r2.sym - r.sym
        if op in (">", ">="):
            a0, b0, dl, dr = b0, a0, dr, dl
            op = SWAP[op]
        if op not in ("<", "<="):
            return None
        step = dl - dr
        if not S.is_pos(step) or step.has_opaque():
            return None
        span = b0 - a0 + (ONE if op == "<=" else ZERO)
        v = step.value()
        if v is not None:
            cnt = S.rounding("ceil", span.scale(1 / v))
        elif span.is_int() and step.is_int():
            cnt = S.floordiv(span + step - ONE, step)
        else:
            return None
        return S.pmax(cnt, ZERO)

    def x_Break(self, s, st):
        fl = Flow(None)
        fl.brks.append(st)
        return fl

    def x_Continue(self, s, st):
        fl = Flow(None)
        fl.cnts.append(st)
        return fl

    # ---------------------------------------------------------- try/with
    def x_Try(self, s, st):
        pre = st.copy()
        self.exc_out.append([])
        hn = []
        for h in s.handlers:
            hn += _exc_names(h.type)
        self.catching.append((len(self.stack), hn))
        # a handler starts from the state before the statement that failed
        simple = not isinstance(s.body[-1], (
            ast.If, ast.For, ast.While, ast.With, ast.Try, ast.Match))
        try:
            if simple:
                fl = self.exec_block(s.body[:-1], st)
                mid = None
                if fl.nxt is not None:
                    mid = fl.nxt.copy()
                    f2 = self.exec_block(s.body[-1:], fl.nxt)
                    fl.nxt = f2.nxt
                    fl.absorb(f2)
            else:
                fl = self.exec_block(s.body, st)
                mid = fl.nxt
        finally:
            inner = self.exc_out.pop()
            self.catching.pop()
        pend = fl.excs + inner
        fl.excs = []
        out = Flow(None)
        out.rets, out.brks, out.cnts = fl.rets, fl.brks, fl.cnts
        nexts = []
        cur = fl.nxt
        if cur is not None and s.orelse:
            f = self.exec_block(s.orelse, cur)
            out.absorb(f)
            cur = f.nxt
        nexts.append(cur)
        unhandled = list(pend)
        for h in s.handlers:
            names = _exc_names(h.type)
            got = [e for e in unhandled if _catches(names, e[0])]
            unhandled = [e for e in unhandled if e not in got]
            hs = [e[1] for e in got]
            # something inside may fail on its own
            if not (hs and set(names) <= {"RuntimeWarning", "Warning",
                                          "UserWarning"}):
                base = pre.copy()
                if mid is not None:
                    base = join2(base, mid)
                base.env = dict(base.env)
                base.conds = base.conds + ((
                    VN("exc", self.fn.full, s.lineno), True),)
                hs.append(base)
            hst = join_states(hs)
            if h.name:
                hst.env[h.name] = Top(VN("exc", h.name), frozenset(
                    [("exc", names[0] if names else "Exception")]))
            f = self.exec_block(h.body, hst)
            nexts.append(f.nxt)
            out.absorb(f)
        out.excs += unhandled
        out.nxt = join_states(nexts)
        if s.finalbody:
            res = Flow(None)
            if out.nxt is not None:
                f = self.exec_block(s.finalbody, out.nxt)
                res.nxt = f.nxt
                res.absorb(f)
            for v, rs in out.rets:
                f = self.exec_block(s.finalbody, rs)
                if f.nxt is not None:
                    res.rets.append((v, f.nxt))
                f.nxt = None
                res.absorb(f)
            for lst, dst in ((out.brks, res.brks), (out.cnts, res.cnts)):
                for b in lst:
                    f = self.exec_block(s.finalbody, b)
                    if f.nxt is not None:
                        dst.append(f.nxt)
                    res.absorb(f)
            for name, es, en in out.excs:
                es = State(dict(st.env, **{k: v for k, v in es.env.items()}),
                           es.heap, es.facts, es.conds)
                f = self.exec_block(s.finalbody, es)
                if f.nxt is not None:
                    res.excs.append((name, f.nxt, en))
                res.absorb(f)
            return res
        return out

    x_TryStar = x_Try

    def x_With(self, s, st):
        mgrs = []
        werr = self.warn_err
        for it in s.items:
            v = self.eval(it.context_expr, st)
            v = self.models.enter(self, v, st, s)
            mgrs.append(v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, s)
        self.exc_out.append([])
        try:
            fl = self.exec_block(s.body, st)
        finally:
            inner = self.exc_out.pop()
        fl.excs = fl.excs + inner
        if any(isinstance(r, ObjRec) and r.cls == "ctx" for m in mgrs
               for r in [st.heap.get(m.id) if isinstance(m, Ref) else None]):
            self.warn_err = werr

        def close(x):
            for m in mgrs:
                self.models.exit_(self, m, x, s)
        if fl.nxt is not None:
            close(fl.nxt)
        for _, rs in fl.rets:
            close(rs)
        for b in fl.brks + fl.cnts:
            close(b)
        for _, es, _n in fl.excs:
            close(es)
        return fl

    def x_Match(self, s, st):
        # treat as undecided alternatives
        subj = self.eval(s.subject, st)
        outs, fl = [], Flow(None)
        rest = st
        exhaustive = False
        for c in s.cases:
            if rest is None:
                break
            test = _pattern_test(s.subject, c.pattern)
            if test is True and c.guard is None:
                f = self.exec_block(c.body, rest.copy())
                outs.append(f.nxt)
                fl.absorb(f)
                exhaustive = True
                break
            if test is None or test is True:
                f = self.exec_block(c.body, rest.copy())
                outs.append(f.nxt)
                fl.absorb(f)
                continue
            ast.fix_missing_locations(ast.copy_location(test, s))
            s1 = self.refine_quiet(test, True, rest.copy())
            if s1 is not None:
                f = self.exec_block(c.body, s1)
                outs.append(f.nxt)
                fl.absorb(f)
            rest = self.refine_quiet(test, False, rest)
        if not exhaustive:
            outs.append(rest)
        fl.nxt = join_states(outs)
        return fl

    # ------------------------------------------------------- expressions
    def eval(self, e, st):
        self.tick()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self.eval(c, st)
            return Top(VN("expr", ast.dump(e)))
        return m(e, st)

    def e_Constant(self, e, st):
        if isinstance(e.value, complex):
            return self.new_arr(st, e, ArrRec((), "c16", vn=VN(
                "complex", str(e.value))))
        return self.const(e.value)

    def const(self, v):
        if v is None:
            return NONE
        if v is True:
            return TRUE
        if v is False:
            return FALSE
        if isinstance(v, (int, float)):
            if v != v or v in (INF, -INF):
                return Num(named_opaque("inf"), ispy=True)
            n = num(v)
            return n
        if isinstance(v, str):
            return strv(v)
        return Top(VN("const", repr(v)))

    def e_Name(self, e, st):
        if e.id in st.env:
            v = st.env[e.id]
            if isinstance(v, Undef):
                self.emit("undef_use", e, st, name=e.id)
                raise Dead()
            if isinstance(v, Union) and any(isinstance(a, Undef)
                                            for a in v.alts):
                v = mkunion([a for a in v.alts if not isinstance(a, Undef)])
            return v
        return self.global_name(e.id, e, st)

    def global_name(self, name, e, st):
        # closures: names of enclosing function
        r = self.p.resolve(self.mod, name)
        if r is not None:
            v = self.resolved(r, st)
            if v is not None:
                return v
        if name in self.models.BUILTINS:
            return Func("builtins." + name)
        if name == "__file__" or name == "__name__":
            return StrVal(None, VN("dunder", name))
        # local name never assigned on this path?
        if self.fn is not None and self.is_local(name):
            self.emit("undef_use", e, st, name=name)
            raise Dead()
        return Top(VN("global", name))

    def is_local(self, name):
        fi = self.fn
        key = id(fi.node)
        c = self.gcache.get(key)
        if c is None:
            c = set(fi.params)
            skip = set()
            stack = list(fi.node.body)
            while stack:
                n = stack.pop()
                if isinstance(n, (ast.FunctionDef, ast.Lambda,
                                  ast.ClassDef)):
                    if not isinstance(n, ast.Lambda):
                        c.add(n.name)
                    continue
                if isinstance(n, ast.comprehension):
                    stack.append(n.iter)
                    stack.extend(n.ifs)
                    continue
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    c.add(n.id)
                if isinstance(n, (ast.Global, ast.Nonlocal)):
                    skip |= set(n.names)
                stack.extend(ast.iter_child_nodes(n))
            c -= skip
            self.gcache[key] = c
        return name in c

    def resolved(self, r, st):
        if r is None:
            return None
        if r[0] == "func":
            return Func(r[1])
        if r[0] == "ext":
            return self.ext(r[1])
        if r[0] == "mod":
            return ModVal(r[1])
        if r[0] == "class":
            return Func(("class", r[1].name, r[2]))
        if r[0] == "global":
            return self.global_value(r[1], r[2], st)
        return None

    def ext(self, full):
        c = self.models.ext_const(self, full)
        if c is not None:
            return c
        if full in self.models.EXT_MODULES:
            return ModVal(full)
        return Func(full)

    def global_value(self, mod, name, st):
        e = mod.globals[name]
        try:
            v = ast.literal_eval(e)
        except Exception:
            v = None
            if isinstance(e, ast.Call) or True:
                # e.g. a sentinel; evaluate once in module context
                fake = FuncInfo(mod, ast.parse("def _m(): pass").body[0])
                self.stack.append((fake, 0))
                try:
                    self.muted += 1
                    return self.eval(e, st)
                except Dead:
                    return Top(VN("gl", mod.name, name))
                finally:
                    self.muted -= 1
                    self.stack.pop()
        if isinstance(v, (int, float, str, bool, type(None))):
            return self.const(v)
        return self.literal(v, st, mod, name)

    def literal(self, v, st, mod, name):
        if isinstance(v, tuple):
            return Tup(self.literal(x, st, mod, name) for x in v)
        if isinstance(v, (list, set)):
            i = VN("glob", mod.name, name)
            if i not in st.heap:
                st.heap[i] = ListRec(tuple(self.literal(
                    x, st, mod, name) for x in v), C(len(v)), None,
                    frozenset(["<module state>"]), i)
            return Ref(i, "list")
        if isinstance(v, dict):
            i = VN("glob", mod.name, name)
            if i not in st.heap:
                st.heap[i] = DictRec(tuple(
                    (k, self.literal(x, st, mod, name))
                    for k, x in v.items()), True, None,
                    frozenset(["<module state>"]), i)
            return Ref(i, "dict")
        return self.const(v)

    def e_Tuple(self, e, st):
        return Tup(self.seq_elts(e.elts, st))

    def seq_elts(self, elts, st):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st)
                if isinstance(v, Tup):
                    out += list(v.elts)
                    continue
                if isinstance(v, Ref):
                    r = st.heap.get(v.id)
                    if isinstance(r, ListRec) and r.elts is not None:
                        out += list(r.elts)
                        continue
                out.append(Top(VN("star", self.vnum(st, v))))
            else:
                out.append(self.eval(x, st))
        return out

    def e_List(self, e, st):
        xs = tuple(self.seq_elts(e.elts, st))
        return self.new_list(st, e, ListRec(xs, C(len(xs)), None,
                                            vn=VN("list", len(xs))))

    e_Set = e_List

    def e_Dict(self, e, st):
        items, closed = [], True
        for k, v in zip(e.keys, e.values):
            vv = self.eval(v, st)
            if k is None:
                closed = False
                continue
            kv = self.eval(k, st)
            c = kv.const() if isinstance(kv, (StrVal, Num)) else None
            if c is None:
                closed = False
            else:
                items.append((c, vv))
        return self.new_dict(st, e, DictRec(tuple(items), closed))

    def e_JoinedStr(self, e, st):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(strv(p.value))
            elif isinstance(p, ast.FormattedValue):
                v = self.eval(p.value, st)
                spec = None
                if p.format_spec is not None:
                    sv = self.e_JoinedStr(p.format_spec, st)
                    spec = sv.const()
                    if spec is None:
                        spec = "?"
                parts.append(self.models.fmt_value(self, v, spec, st))
        return self.models.str_concat(self, parts, st)

    def e_FormattedValue(self, e, st):
        return self.eval(e.value, st)

    def e_NamedExpr(self, e, st):
        v = self.eval(e.value, st)
        st.env[e.target.id] = v
        return v

    def e_Lambda(self, e, st):
        i = self.alloc_id(e, "closure")
        st.heap[i] = ObjRec("closure", tuple(st.env.items()),
                            VN("lambda", ast.dump(e)))
        fd = ast.FunctionDef(name="<lambda>", args=e.args, body=[
            ast.copy_location(ast.Return(e.body), e)], decorator_list=[])
        ast.copy_location(fd, e)
        fd.lineno = e.lineno
        return Func(FuncInfo(self.mod, fd), extra=i)

    def e_IfExp(self, e, st):
        b = self.truth(self.eval(e.test, st), st)
        if b is True or b is False:
            r = self.refine_quiet(e.test, b, st)
            if r is not None and r is not st:
                self.assign_state(st, r)
            return self.eval(e.body if b else e.orelse, st)
        s1 = self.refine_quiet(e.test, True, st.copy())
        s2 = self.refine_quiet(e.test, False, st.copy())
        vs, ss = [], []
        for s, x in ((s1, e.body), (s2, e.orelse)):
            if s is not None:
                try:
                    vs.append(self.eval(x, s))
                    ss.append(s)
                except Dead:
                    pass
        if not vs:
            raise Dead()
        if len(vs) == 1:
            self.assign_state(st, ss[0])
            return vs[0]
        if isinstance(vs[0], Num) and isinstance(vs[1], Num):
            mm = self.minmax_ite(e, vs, st)
            if mm is not None:
                j = join_states(ss)
                self.assign_state(st, j)
                return mm
        j = join_states(ss)
        self.assign_state(st, j)
        return join(vs[0], vs[1])

    def minmax_ite(self, e, vs, st):
        """a if a < b else b  is  min(a, b)."""
        t = e.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            return None
        self.muted += 1
        try:
            l = self.eval(t.left, st)
            r = self.eval(t.comparators[0], st)
        finally:
            self.muted -= 1
        if not (isinstance(l, Num) and isinstance(r, Num)):
            return None
        op = CMP.get(type(t.ops[0]))
        a, b = vs[0].sym, vs[1].sym
        if op in (">", ">="):
            l, r, op = r, l, SWAP[op]
        if op in ("<", "<="):
            if (a, b) == (l.sym, r.sym):
                return Num(S.pmin(a, b), isint=vs[0].isint and vs[1].isint,
                           unit=join_unit(vs[0].unit, vs[1].unit))
            if (a, b) == (r.sym, l.sym):
                return Num(S.pmax(a, b), isint=vs[0].isint and vs[1].isint,
                           unit=join_unit(vs[0].unit, vs[1].unit))
        return None

    def assign_state(self, st, o):
        st.env = o.env
        st.heap = o.heap
        st.facts = o.facts
        st.conds = o.conds

    def e_BoolOp(self, e, st):
        conj = isinstance(e.op, ast.And)
        res = []
        cur = st.copy()
        for i, x in enumerate(e.values):
            try:
                v = self.eval(x, cur)
            except Dead:
                break
            b = self.truth(v, cur)
            if b is (not conj):
                res.append(v)
                break
            if i == len(e.values) - 1:
                res.append(v)
            elif b is None:
                res.append(v)
            nxt = self.refine_quiet(x, conj, cur.copy())
            if nxt is None:
                if b is None and i < len(e.values) - 1:
                    pass
                break
            cur = nxt
        st.heap.update({k: r for k, r in cur.heap.items()
                        if k not in st.heap})
        if not res:
            return FALSE if conj else TRUE
        if len(res) == 1:
            return res[0]
        bs = [self.truth(v, st) for v in res]
        if all(isinstance(v, BoolVal) for v in res):
            return BoolVal(None, VN("and" if conj else "or", tuple(
                sorted(v.vnum for v in res))), frozenset().union(
                *[frozenset(t for t in v.tags if not (
                    isinstance(t, tuple) and t[0] == "cond"))
                  for v in res]))
        return mkunion([a for v in res for a in alts_of(v)])

    def e_UnaryOp(self, e, st):
        v = self.eval(e.operand, st)
        if isinstance(e.op, ast.Not):
            b = self.truth(v, st)
            if b is not None:
                return BoolVal(not b)
            tags = frozenset()
            if isinstance(v, BoolVal):
                tags = frozenset(("cond", NEG[t[1]], t[2], t[3])
                                 if isinstance(t, tuple) and t[0] == "cond"
                                 else t for t in v.tags)
            return BoolVal(None, VN("not", self.vnum(st, v)), tags)
        if isinstance(e.op, ast.USub):
            return self.models.neg(self, v, st, e)
        if isinstance(e.op, ast.UAdd):
            return v
        return self.models.unary(self, "~", v, st, e)

    def e_BinOp(self, e, st):
        l = self.eval(e.left, st)
        r = self.eval(e.right, st)
        return self.binop(BINOP.get(type(e.op), "?"), l, r, st, e)

    def binop(self, op, l, r, st, node):
        return self.models.binop(self, op, l, r, st, node)

    def e_Compare(self, e, st):
        left = self.eval(e.left, st)
        res = []
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c, st)
            res.append(self.compare(CMP.get(type(op), "?"), left, right, st,
                                    e))
            left = right
        if len(res) == 1:
            return res[0]
        bs = [self.truth(x, st) for x in res]
        if False in bs:
            return FALSE
        if all(b is True for b in bs):
            return TRUE
        return BoolVal(None, VN("and", tuple(sorted(
            self.vnum(st, x) for x in res))))

    def handed_on(self, fn, args, kwargs):
        """Options given to a library routine, which judges them itself."""
        if self.optcmp is None or fn in (
                "isinstance", "print", "str", "repr", "type", "len", "int",
                "float", "bool", "warnings.warn"):
            return
        for a in list(args) + list(kwargs.values()):
            for t in getattr(a, "tags", ()):
                if isinstance(t, tuple) and t[0] == "opt":
                    self.optlib.add(t[1])

    def note_option(self, op, l, r, st):
        """What the value of an option is compared with."""
        for a, b in ((l, r), (r, l)):
            ps = [t[1] for t in getattr(a, "tags", ())
                  if isinstance(t, tuple) and t[0] == "opt"]
            if not ps:
                continue
            items = [b]
            if isinstance(b, Tup):
                items = list(b.elts)
            elif isinstance(b, Ref):
                rec = st.heap.get(b.id)
                if isinstance(rec, ListRec) and rec.elts is not None:
                    items = list(rec.elts)
                elif isinstance(rec, DictRec):
                    items = [k for k, _ in rec.items]
            part = op in ("in", "not in") and items == [b] and \
                isinstance(b, StrVal)
            for x in items:
                if isinstance(x, (str, int)):
                    cs = [x]
                elif isinstance(x, StrVal):
                    cs = x.vals or ()
                elif isinstance(x, Num):
                    cs = [x.const()]
                elif isinstance(x, NoneVal):
                    cs = ["None"]
                elif isinstance(x, BoolVal):
                    cs = [x.b]
                else:
                    cs = ()
                for c in cs:
                    for q in ps:
                        self.optcmp.add((q, str(c), part))

    def compare(self, op, l, r, st, node):
        if self.optcmp is not None:
            self.note_option(op, l, r, st)
        return self.models.compare(self, op, l, r, st, node)

    def truth(self, v, st):
        if isinstance(v, BoolVal):
            return v.b
        if isinstance(v, NoneVal):
            return False
        if isinstance(v, Num):
            c = v.const()
            if c is not None:
                return c != 0
            if v.nz or S.is_pos(v.sym) or S.is_pos(-v.sym):
                return True
            return S.decide("!=", v.sym, ZERO, st.facts)
        if isinstance(v, StrVal):
            if v.vals is not None:
                ts = {bool(x) for x in v.vals}
                if len(ts) == 1:
                    return ts.pop()
            return None
        if isinstance(v, Tup):
            return len(v.elts) > 0
        if isinstance(v, Func):
            return True
        if isinstance(v, Ref):
            r = st.heap.get(v.id)
            if isinstance(r, ListRec):
                if r.elts is not None:
                    return len(r.elts) > 0
                if r.n is not None:
                    return S.decide(">", r.n, ZERO, st.facts)
            if isinstance(r, DictRec) and r.closed:
                return len(r.items) > 0
            if isinstance(r, ObjRec):
                return True
            return None
        if isinstance(v, Union):
            ts = {self.truth(a, st) for a in v.alts}
            if len(ts) == 1:
                return ts.pop()
        return None

    # ---------------------------------------------------- comprehensions
    def comp(self, e, st, what):
        gens = e.generators
        env0 = dict(st.env)
        res = self.comp_gen(e, gens, 0, st, what)
        # comprehension variables do not leak
        names = set()
        for g in gens:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        for n in names:
            if n in env0:
                st.env[n] = env0[n]
            else:
                st.env.pop(n, None)
        return res

    def comp_gen(self, e, gens, i, st, what):
        """-> (elts|None, n, elem)"""
        if i == len(gens):
            v = self.eval(e.elt, st)
            return ([v], ONE, v)
        g = gens[i]
        it = self.eval(g.iter, st)
        elts, n, elem = self.models.iter_any(self, it, st, e)
        if elts is not None:
            out = []
            uncertain = False
            oun = self.unroll
            for j, x in enumerate(elts):
                self.unroll = oun + (j,)
                self.assign(g.target, x, st, e)
                skip = False
                for c in g.ifs:
                    b = self.truth(self.eval(c, st), st)
                    if b is False:
                        skip = True
                        break
                    if b is None:
                        uncertain = True
                if skip:
                    continue
                r = self.comp_gen(e, gens, i + 1, st, what)
                if r[0] is None:
                    uncertain = True
                    out.append(r[2])
                else:
                    out += r[0]
            self.unroll = oun
            if uncertain:
                el = None
                for x in out:
                    if x is not None:
                        el = x if el is None else join(el, x)
                return (None, None, el)
            el = None
            for x in out:
                el = x if el is None else join(el, x)
            return (out, C(len(out)), el)
        ksym = self.loop_sym()
        k = Poly.atom(ksym)
        fin = st.facts
        if n is not None:
            st.add_fact("ge", n - ONE - k)
        self.loops.append(Loop(ksym[1], n, False, e, what))
        try:
            v = elem(k)
            if callable(v):
                v = v(st)
            self.assign(g.target, v, st, e)
            cnt = n
            ok = True
            for c in g.ifs:
                b = self.truth(self.eval(c, st), st)
                if b is not True:
                    cnt = None
                if b is False:
                    ok = False
                    break
                r = self.refine_quiet(c, True, st)
                if r is not None and r is not st:
                    self.assign_state(st, r)
            if not ok:
                res = ([], ZERO, None)
            else:
                r = self.comp_gen(e, gens, i + 1, st, what)
                nn = None
                if cnt is not None and r[1] is not None and \
                        ksym not in r[1].all_atoms():
                    nn = cnt * r[1]
                res = (None, nn, r[2])
        except Dead:
            res = (None, n, None)
        finally:
            self.loops.pop()
            st.facts = tuple(f for f in st.facts
                             if ksym not in f[1].all_atoms())
        return res

    def e_ListComp(self, e, st, what="list"):
        elts, n, elem = self.comp(e, st, what)
        if elts is not None:
            return self.new_list(st, e, ListRec(tuple(elts), C(len(elts)),
                                                None, vn=VN("list")))
        lvn = VN("comp", n, self.vnum(st, elem) if elem is not None else 0,
                 len(e.generators))
        if len(e.generators) == 1 and n is not None:
            self.models.LISTGEN[(lvn, n)] = self.loop_sym()
        return self.new_list(st, e, ListRec(None, n, elem, vn=lvn))

    def e_SetComp(self, e, st):
        r = self.e_ListComp(e, st)
        return r

    def e_GeneratorExp(self, e, st):
        return self.e_ListComp(e, st, "gen")

    def e_DictComp(self, e, st):
        return self.new_dict(st, e, DictRec((), False))

    # -------------------------------------------------------- attributes
    def e_Attribute(self, e, st):
        return self.eval_attr(e, st)

    def eval_attr(self, e, st):
        b = self.eval(e.value, st)
        return self.attr(b, e.attr, st, e)

    def attr(self, b, name, st, node):
        if isinstance(b, Union):
            vs = []
            for a in b.alts:
                if isinstance(a, (NoneVal, Undef)):
                    continue
                try:
                    vs.append(self.attr(a, name, st, node))
                except Dead:
                    pass
            if not vs:
                raise Dead()
            return mkunion([x for v in vs for x in alts_of(v)])
        if isinstance(b, ModVal):
            if isinstance(b.mod, str):
                return self.ext(b.mod + "." + name)
            r = self.p.resolve(b.mod, name)
            v = self.resolved(r, st)
            if v is not None:
                return v
            sub = b.mod.name + "." + name
            if sub in self.p.modules:
                return ModVal(self.p.modules[sub])
            self.emit("no_attr", node, st, base=b, attr=name)
            return Top(VN("attr", b.key(), name))
        if isinstance(b, NoneVal):
            self.emit("none_use", node, st, how="." + name, val=b)
            raise Dead()
        return self.models.attr(self, b, name, st, node)

    # -------------------------------------------------------- subscripts
    def eval_index(self, sl, st):
        if isinstance(sl, ast.Slice):
            return SliceVal(
                self.eval(sl.lower, st) if sl.lower is not None else None,
                self.eval(sl.upper, st) if sl.upper is not None else None,
                self.eval(sl.step, st) if sl.step is not None else None)
        if isinstance(sl, ast.Tuple):
            return Tup(self.eval_index(x, st) for x in sl.elts)
        return self.eval(sl, st)

    def e_Slice(self, e, st):
        return self.eval_index(e, st)

    def e_Subscript(self, e, st):
        b = self.eval(e.value, st)
        idx = self.eval_index(e.slice, st)
        return self.subscript(b, idx, st, e)

    def subscript(self, b, idx, st, node, aug=False, tag=""):
        if self.optcmp is not None:
            self.note_option("in ", idx, b, st)
        return self.models.subscript(self, b, idx, st, node, aug, tag)

    def store_sub(self, b, idx, v, st, node, aug=None):
        self.models.store_sub(self, b, idx, v, st, node, aug)

    # -------------------------------------------------------------- call
    def e_Call(self, e, st):
        if isinstance(e.func, ast.Subscript):
            fb = self.eval(e.func.value, st)
            if isinstance(fb, Func) and isinstance(fb.fn, FuncInfo) and \
                    fb.fn.kernel_kind() in ("cuda", "device"):
                cfg = self.eval_index(e.func.slice, st)
                args = self.seq_elts(e.args, st)
                return self.launch(fb.fn, cfg, args, st, e)
        f = self.eval(e.func, st)
        args, star = [], False
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st)
                xs = None
                if isinstance(v, Tup):
                    xs = list(v.elts)
                elif isinstance(v, Ref):
                    r = st.heap.get(v.id)
                    if isinstance(r, ListRec) and r.elts is not None:
                        xs = list(r.elts)
                if xs is None:
                    star = True
                else:
                    args += xs
            else:
                args.append(self.eval(a, st))
        kwargs = {}
        for k in e.keywords:
            v = self.eval(k.value, st)
            if k.arg is not None:
                kwargs[k.arg] = v
            else:
                if isinstance(v, Ref):
                    r = st.heap.get(v.id)
                    if isinstance(r, DictRec):
                        for kk, vv in r.items:
                            if isinstance(kk, str):
                                kwargs[kk] = vv
                        if not r.closed:
                            star = True
                        continue
                star = True
        return self.call(f, args, kwargs, st, e, star)

    def call(self, f, args, kwargs, st, node, star=False):
        if isinstance(f, Union):
            outs = []
            alts = [a for a in f.alts if not isinstance(a, (NoneVal, Undef))]
            if len(alts) == 1:
                return self.call(alts[0], args, kwargs, st, node, star)
            res, sts = [], []
            for a in alts:
                s2 = st.copy()
                try:
                    res.append(self.call(a, args, kwargs, s2, node, star))
                    sts.append(s2)
                except Dead:
                    pass
            if not res:
                raise Dead()
            self.assign_state(st, join_states(sts))
            r = res[0]
            for x in res[1:]:
                r = join(r, x)
            return r
        if isinstance(f, NoneVal):
            self.emit("none_use", node, st, how="call", val=f)
            raise Dead()
        if isinstance(f, Func):
            if f.pre:
                args = list(f.pre) + list(args)
            fn = f.fn
            if isinstance(fn, FuncInfo):
                return self.call_repo(f, fn, args, kwargs, st, node, star)
            self.handed_on(fn, args, kwargs)
            return self.models.call_ext(self, f, fn, args, kwargs, st, node,
                                        star)
        self.handed_on(None, args, kwargs)
        if isinstance(f, Ref):
            return self.models.call_obj(self, f, args, kwargs, st, node,
                                        star)
        # unknown callable (e.g. a user-supplied function)
        self.emit("call_unknown", node, st, f=f, args=args)
        return Top(VN("ucall", self.vnum(st, f), tuple(
            self.vnum(st, a) for a in args)))

    def call_repo(self, f, fi, args, kwargs, st, node, star=False):
        bound = self.bind(fi, args, kwargs, st, node, star, f.self_)
        self.emit("call", node, st, fi=fi, bound=bound, star=star,
                  state=st, vns={q: self.vnum(st, v)
                                 for q, v in bound.items()})
        prim = self.models.REPO_PRIMITIVES.get(fi.short) \
            if self.opts.get("prims", True) else None
        if prim is not None:
            r = prim(self, fi, bound, st, node)
            if r is not None:
                return r
        if f.extra is not None:
            cl = st.heap.get(f.extra)
            if cl is not None:
                env = dict(cl.attrs)
                env.update(st.env if self.fn is not None and
                           fi.module is self.fn.module and
                           self.closure_live(f, st) else {})
                env.update(bound)
                bound = env
        opts = self.opts.get("opaque")
        if opts and opts(self, fi):
            return Top(VN("call", fi.full, tuple(
                (k, self.vnum(st, v)) for k, v in sorted(bound.items()))))
        return self.call_function(fi, bound, st, node)

    def closure_live(self, f, st):
        return False

    def launch(self, fi, cfg, args, st, node):
        grid = block = None
        if isinstance(cfg, Tup) and len(cfg.elts) >= 2:
            grid, block = cfg.elts[0], cfg.elts[1]
        self.emit("launch", node, st, fi=fi, grid=grid, block=block,
                  args=args, state=st)
        bound = dict(zip(fi.params, args))
        if len(args) != len(fi.params):
            self.emit("bad_call", node, st, fi=fi,
                      msg="kernel takes %d arguments, %d given" % (
                          len(fi.params), len(args)))
            for p in fi.params:
                bound.setdefault(p, Top(VN("missing", p)))
        for a in args:
            if isinstance(a, Ref):
                pass
        if self.opts.get("kernels", True):
            self.call_function(fi, bound, st, node)
        else:
            for p, a in bound.items():
                if isinstance(a, Ref) and self.kernel_writes(fi, p):
                    self.mutate(st, a, node, "kernel store")
                    r = st.heap.get(a.id)
                    if isinstance(r, ArrRec):
                        st.heap[a.id] = r.upd(
                            vn=VN("kern", fi.full, p, tuple(
                                self.vnum(st, x) for x in args)),
                            lo=None, hi=None, nz=False)
        return NONE

    def kernel_writes(self, fi, p):
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Subscript) and isinstance(
                    n.ctx, ast.Store) and isinstance(n.value, ast.Name) \
                    and n.value.id == p:
                return True
        return False


def _targets(s):
    t = getattr(s, "target", None)
    if t is None:
        return []
    return [n.id for n in ast.walk(t) if isinstance(n, ast.Name)]


def _exc_names(t):
    if t is None:
        return ["BaseException"]
    if isinstance(t, ast.Tuple):
        out = []
        for x in t.elts:
            out += _exc_names(x)
        return out
    if isinstance(t, ast.Name):
        return [t.id]
    if isinstance(t, ast.Attribute):
        return [t.attr]
    return ["Exception"]


PARENTS = {"RuntimeWarning": ["Warning", "Exception"],
           "ValueError": ["Exception"], "TypeError": ["Exception"],
           "KeyError": ["LookupError", "Exception"],
           "IndexError": ["LookupError", "Exception"],
           "IOError": ["OSError", "Exception"],
           "FileNotFoundError": ["OSError", "IOError", "Exception"],
           "ImportError": ["Exception"],
           "NotImplementedError": ["RuntimeError", "Exception"],
           "RuntimeError": ["Exception"], "OSError": ["IOError", "Exception"]}


def _catches(names, exc):
    if "BaseException" in names or exc in names:
        return True
    return any(p in names for p in PARENTS.get(exc, ["Exception"]))


def _pattern_test(subject, pat):
    if isinstance(pat, ast.MatchValue):
        return ast.Compare(subject, [ast.Eq()], [pat.value])
    if isinstance(pat, ast.MatchSingleton):
        return ast.Compare(subject, [ast.Is()], [ast.Constant(pat.value)])
    if isinstance(pat, ast.MatchAs) and pat.pattern is None:
        return True
    if isinstance(pat, ast.MatchOr):
        ts = [_pattern_test(subject, p) for p in pat.patterns]
        if any(t is True for t in ts):
            return True
        if any(t is None for t in ts):
            return None
        return ast.BoolOp(ast.Or(), ts)
    return None
