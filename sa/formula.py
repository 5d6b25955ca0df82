"""What each element of an array is computed from.

A small evaluator for the numeric core of the package: loops over sizes,
guards, sums, whole-array arithmetic and the compiled helper functions.  It
turns the array a function fills into one closed expression per element,

    recon[e0, e1]  =  sum_n ite(0 <= f <= W-1, data[n, floor f] ..., 0)

with sizes, tables and data left symbolic.  Nothing is run: loops become sums
over a bound variable (scalars and elements that grow by an amount that does
not depend on them) or substitutions (elements stored once, at an index that
can be solved for the counter).  Whatever has no such form raises Unsupported
and is left undecided.
"""
import ast
import itertools
import math
import time
from fractions import Fraction

from . import lin, sym as S
from .sym import Poly, C, ONE, ZERO


class Unsupported(Exception):
    pass


class Captured(Exception):
    """The value asked for was met."""

    def __init__(self, value, st):
        Exception.__init__(self)
        self.value, self.st, self.vars = value, st, []


class Raised(Exception):
    pass


POISON = object()


class Arr:
    """A handle; the content lives in State.heap."""
    n = itertools.count()

    def __init__(self, shape, base=None, conv=None):
        self.id = next(Arr.n)
        self.shape = tuple(shape)
        self.base, self.conv = base, conv


class State:
    def __init__(self):
        self.env = {}
        self.heap = {}
        self.facts = ()
        self.ret = None         # ("ret", value) or ("cont",)

    def copy(self):
        s = State()
        s.env, s.heap = dict(self.env), dict(self.heap)
        s.facts, s.ret = self.facts, self.ret
        return s


# ------------------------------------------------------------ expressions
def at(kind, *args):
    return Poly.atom((kind,) + args)


def lead(p):
    m = max(p.t, key=lambda x: (x[0] != (), S.mkey(x[0])))
    return m[1]


def common(a, b):
    """(c, a - c, b - c) with c the terms both have."""
    da, db = dict(a.t), dict(b.t)
    c = S.mk({m: v for m, v in da.items() if db.get(m) == v})
    return c, a - c, b - c


def ite1(kind, p, a, b, facts):
    """One atomic condition."""
    if a == b:
        return a
    v = p.value()
    if v is not None:
        return a if {"ge": v >= 0, "gt": v > 0, "eq": v == 0}[kind] else b
    if kind == "ge":
        if lin.ge(p, ZERO, facts):
            return a
        if lin.lt(p, ZERO, facts):
            return b
    elif kind == "gt":
        if lin.lt(ZERO, p, facts):
            return a
        if lin.ge(ZERO, p, facts):
            return b
    elif S.decide("==", p, ZERO, facts) is False:
        return b
    if lead(p) < 0:
        if kind == "ge":
            kind, p, a, b = "gt", -p, b, a
        elif kind == "gt":
            kind, p, a, b = "ge", -p, b, a
        else:
            p = -p
    c, x, y = common(a, b)
    return c + at("ite", kind, p, x, y)


def ite(cond, a, b, facts=()):
    if cond is True:
        return a
    if cond is False:
        return b
    if cond[0] == "and":
        return ite(cond[1], ite(cond[2], a, b, facts), b, facts)
    if cond[0] == "or":
        return ite(cond[1], a, ite(cond[2], a, b, facts), facts)
    if cond[0] == "not":
        return ite(cond[1], b, a, facts)
    return ite1(cond[0], cond[1], a, b, facts)


def conj(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False or b is False:
        return False
    return ("and", a, b)


def disj(a, b):
    return neg(conj(neg(a), neg(b)))


def neg(a):
    if a is True or a is False:
        return not a
    if a[0] == "not":
        return a[1]
    return ("not", a)


def atomic_facts(cond, true):
    if cond is True or cond is False:
        return ()
    if cond[0] == "not":
        return atomic_facts(cond[1], not true)
    if cond[0] == "and" and true or cond[0] == "or" and not true:
        return atomic_facts(cond[1], true) + atomic_facts(cond[2], true)
    if cond[0] in ("and", "or"):
        return ()
    k, p = cond
    if true:
        return ((k, p),)
    if k == "eq":
        return ()
    return ((("gt" if k == "ge" else "ge"), -p),)


def walk_atoms(p):
    return p.all_atoms()


def height(p):
    h = 0
    for a in p.all_atoms():
        if a[0] in BINDERS:
            h = max(h, a[3])
    return h


def subst(p, env, facts=()):
    """Substitution that rebuilds conditions and sums."""
    if not any(a in env for a in p.all_atoms()):
        return p
    return rewrite(p, env.get, facts)


DEADLINE = [None]


def rewrite(p, f, facts=()):
    """p with every atom a replaced by f(a) where that is not None."""
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
        raise Unsupported("too large")
    r = ZERO
    for m, c in p.t:
        q = C(c)
        for a, k in m:
            x = rewrite_atom(a, f, facts)
            q = q * (x.pow(k) if k > 0 else S.inv(x).pow(-k))
        r = r + q
    return r


def rewrite_atom(a, f, facts):
    r = f(a)
    if r is not None:
        return r
    if a[0] == "ite":
        p, x, y = (rewrite(z, f, facts) for z in a[2:])
        return ite1(a[1], p, x, y, facts)
    if a[0] in BINDERS:
        v, body = opened(a)
        return (total if a[0] == "sum" else extreme)(
            v, rewrite(a[1], f, facts), rewrite(body, f, facts), facts, a[0])
    if a[0] in ("s", "o"):
        return Poly.atom(a)
    new = [rewrite(x, f, facts) if isinstance(x, Poly) else x for x in a[1:]]
    if all(x is y or x == y for x, y in zip(new, a[1:])):
        return Poly.atom(a)
    if a[0] == "fn":
        return fn(*new)
    r = S.rebuild(a[0], new)
    if r is not None:
        return r
    r = f((a[0],) + tuple(new))
    return r if r is not None else at(a[0], *new)


def fn(name, *args):
    if len(args) == 1 and name in ("sin", "cos") and args[0].t:
        if lead(args[0]) < 0:
            r = at("fn", name, -args[0])
            return -r if name == "sin" else r
    if len(args) == 1 and args[0].value() == 0:
        return ONE if name in ("cos", "exp") else ZERO
    return at("fn", name, *args)


BINDERS = ("sum", "amin", "amax")


def extreme(v, n, body, facts, kind):
    """the smallest or largest body for v = 0 .. n-1"""
    if v not in body.all_atoms():
        return body
    h = 1 + height(body)
    b = Poly.atom(("s", "b%d" % h))
    S.declare("b%d" % h, 0)
    return at(kind, n, rename(body, v, b), h)


def total(v, n, body, facts, kind="sum"):
    """sum of body over v = 0 .. n-1 (v an atom)"""
    if not body.t:
        return ZERO
    if v not in body.all_atoms():
        return body * n
    c = n.value()
    if c is not None and c <= 4:
        out = ZERO
        for i in range(int(max(c, 0))):
            out = out + subst(body, {v: C(i)}, facts)
        return out
    # linear split: terms that do not mention v come out
    out = ZERO
    rest = {}
    for m, c in body.t:
        inside = tuple((a, k) for a, k in m
                       if a == v or v in Poly.atom(a).all_atoms())
        outside = tuple((a, k) for a, k in m if (a, k) not in inside)
        if not inside:
            out = out + S.mk({m: c}) * n
        else:
            rest.setdefault(outside, {})[inside] = c
    for o, terms in rest.items():
        h = 1 + height(S.mk(terms))
        b = Poly.atom(("s", "b%d" % h))
        S.declare("b%d" % h, 0)
        out = out + S.mk({o: 1}) * at(
            "sum", n, rename(S.mk(terms), v, b), h)
    return out


TMP = itertools.count()


def opened(a):
    """A sum's body over a counter of its own."""
    v = ("s", "t%d" % next(TMP))
    S.declare(v[1], 0)
    return v, rename(a[2], ("s", "b%d" % a[3]), Poly.atom(v))


def rename(p, old, new):
    """Replace a counter that nothing inside binds again."""
    if old not in p.all_atoms():
        return p
    r = ZERO
    for m, c in p.t:
        q = C(c)
        for a, k in m:
            if a == old:
                x = new
            elif a[0] in ("s", "o"):
                x = Poly.atom(a)
            else:
                x = at(*[rename(z, old, new) if isinstance(z, Poly) else z
                         for z in a])
            q = q * (x.pow(k) if k > 0 else S.inv(x).pow(-k))
        r = r + q
    return r


def equations(p, v):
    """Values t for which an equation in p says v == t."""
    out = []
    for a in p.all_atoms():
        if a[0] == "ite" and a[1] == "eq":
            t = solve(a[2], v)
            if t is not None and t not in out:
                out.append(t)
    return out


def solve(p, v):
    c = dict(p.t).get(((v, 1),))
    if c is None or abs(c) != 1:
        return None
    r = p - Poly.atom(v).scale(c)
    if v in r.all_atoms():
        return None
    return r.scale(-c)


def assume_ne(p, v):
    """p where no equation for v holds."""
    r = ZERO
    for m, c in p.t:
        q = C(c)
        for a, k in m:
            x = Poly.atom(a)
            if a[0] == "ite":
                if a[1] == "eq" and solve(a[2], v) is not None:
                    x = assume_ne(a[4], v)
                else:
                    x = ite1(a[1], a[2], assume_ne(a[3], v),
                             assume_ne(a[4], v), ())
            elif a[0] in BINDERS:
                w, body = opened(a)
                x = total(w, a[1], assume_ne(body, v), ())
            q = q * (x.pow(k) if k > 0 else S.inv(x).pow(-k))
        r = r + q
    return r


# ------------------------------------------------------------- evaluation
IDENT = {"float32", "float64", "float16", "double", "asarray", "array",
         "ascontiguousarray", "copy", "float_", "single"}
INTS = {"int32", "int64", "uint32", "int16", "uint16", "uint8", "int8"}
MATHF = {"cos", "sin", "sqrt", "exp", "log", "tan", "arctan", "arcsin",
         "atan", "asin", "acos"}


class Ev:
    def __init__(self, project, hooks=None):
        self.p = project
        self.hooks = hooks or {}
        self.fresh = itertools.count()
        self.steps = 0
        self.guarded = False

    def new(self, st, shape, get):
        a = Arr(shape)
        st.heap[a.id] = get
        return a

    def sym(self, base, isint=True):
        name = "%s%d" % (base, next(self.fresh))
        S.declare(name, 0 if isint else -S.INF, isint=isint)
        return ("s", name)

    # ---- reading and writing
    def get(self, st, a, idx):
        while a.base is not None:
            idx = a.conv(idx)
            a = a.base
        return st.heap[a.id](tuple(idx))

    def put(self, st, a, idx, val, cond=True):
        """a[idx] = val"""
        while a.base is not None:
            idx = a.conv(idx)
            a = a.base
        old = st.heap[a.id]
        facts = st.facts
        idx = tuple(idx)

        def get(e):
            c = cond
            eqs = {}
            for x, y in zip(e, idx):
                if x != y:
                    c = conj(c, ("eq", x - y))
                    for v in sorted(y.atoms(), key=S.akey, reverse=True):
                        if v[0] == "s" and v[1][:2] == "v#" and v not in eqs \
                                and v not in x.all_atoms():
                            t = solve(y - x, v)
                            if t is not None:
                                eqs[v] = t
                                break
            o = old(e)
            # where the indices agree the counters are known
            return ite(c, subst(val, eqs, facts) if eqs else val, o, facts)
        st.heap[a.id] = get

    def put_all(self, st, a, f):
        """a[...] = f(idx) for a whole array (not a view)"""
        if a.base is not None:
            raise Unsupported("store to a view")
        st.heap[a.id] = f

    # ---- functions
    def call(self, fi, args, kw, st, stack=()):
        if fi.short in self.hooks or fi.name in self.hooks:
            h = self.hooks.get(fi.short) or self.hooks[fi.name]
            return h(self, st, args, kw)
        if len(stack) > 12 or fi in stack:
            raise Unsupported("depth")
        env = {}
        names = fi.params + fi.kwonly
        for n, v in zip(fi.params, args):
            env[n] = v
        for n, v in kw.items():
            env[n] = v
        for n, d in fi.defaults.items():
            if n not in env:
                env[n] = self.expr(d, self.mod_state(fi.module, st),
                                   fi.module, stack)
        if any(n not in env for n in names):
            raise Unsupported("arguments")
        s2 = State()
        s2.env, s2.heap, s2.facts = env, st.heap, st.facts
        body = fi.node.body
        out = self.block(body, s2, fi.module, stack + (fi,))
        st.heap = out.heap
        if out.ret and out.ret[0] == "ret":
            return out.ret[1]
        return None

    def mod_state(self, module, st):
        s = State()
        s.heap, s.facts = st.heap, st.facts
        return s

    # ---- statements
    def block(self, body, st, mod, stack):
        for i, s in enumerate(body):
            self.steps += 1
            if self.steps > 20000:
                raise Unsupported("too long")
            if st.ret:
                return st
            if isinstance(s, ast.If):
                c = self.cond(s.test, st, mod, stack)
                c = self.settle(c, st)
                if c is True or c is False:
                    st = self.block(s.body if c else s.orelse, st, mod,
                                    stack)
                    continue
                rest = body[i + 1:]
                ends = any(isinstance(n, (ast.Return, ast.Continue,
                                          ast.Raise))
                           for b in (s.body, s.orelse) for x in b
                           for n in ast.walk(x))
                a, b = st.copy(), st.copy()
                a.facts = st.facts + atomic_facts(c, True)
                b.facts = st.facts + atomic_facts(c, False)
                tail = rest if ends else []
                ra = rb = None
                cap = []
                try:
                    ra = self.block(list(s.body) + tail, a, mod, stack)
                except Raised:
                    pass
                except Captured as x:
                    cap.append(x)
                try:
                    rb = self.block(list(s.orelse) + tail, b, mod, stack)
                except Raised:
                    pass
                except Captured as x:
                    cap.append(x)
                if cap:
                    if len(cap) == 1 and ra is None and rb is None:
                        raise cap[0]        # the other way is refused
                    if len(cap) == 1 and self.guarded and not s.orelse \
                            and not ends:
                        raise cap[0]        # threads outside do nothing
                    raise Unsupported("depends on %s" % ast.unparse(s.test))
                if ra is None and rb is None:
                    raise Raised()
                if ra is None or rb is None:
                    st = ra or rb
                else:
                    st = self.join(c, ra, rb, st.facts)
                if ends:
                    return st
                continue
            st = self.stmt(s, st, mod, stack)
        return st

    def settle(self, c, st):
        if c is True or c is False:
            return c
        r = ite(c, ONE, ZERO, st.facts)
        v = r.value()
        return c if v is None else v == 1

    def join(self, c, a, b, facts):
        out = State()
        out.facts = facts
        if bool(a.ret) != bool(b.ret) and (
                (a.ret or b.ret)[0] == "ret" and (a.ret or b.ret)[1]
                is not None):
            raise Unsupported("return on one side")
        if a.ret and b.ret:
            out.ret = (a.ret[0], self.merge(c, a.ret[-1], b.ret[-1], facts)
                       if a.ret[0] == "ret" and b.ret[0] == "ret" else None)
        elif a.ret or b.ret:
            # one side left early (nothing follows here): stay open
            out.ret = a.ret or b.ret
        for k in set(a.env) | set(b.env):
            x, y = a.env.get(k, POISON), b.env.get(k, POISON)
            out.env[k] = self.merge(c, x, y, facts)
        for k in set(a.heap) | set(b.heap):
            x, y = a.heap.get(k), b.heap.get(k)
            if x is y or y is None:
                out.heap[k] = x
            elif x is None:
                out.heap[k] = y
            else:
                def get(e, x=x, y=y):
                    return ite(c, x(e), y(e), facts)
                out.heap[k] = get
        return out

    def merge(self, c, x, y, facts):
        if x is y:
            return x
        if isinstance(x, Poly) and isinstance(y, Poly):
            return ite(c, x, y, facts)
        if (isinstance(x, bool) or iscond(x)) and (isinstance(y, bool) or
                                                   iscond(y)):
            return disj(conj(c, x), conj(neg(c), y))
        if isinstance(x, tuple) and isinstance(y, tuple) and \
                len(x) == len(y) and not iscond(x) and not iscond(y):
            return tuple(self.merge(c, a, b, facts) for a, b in zip(x, y))
        try:
            if type(x) is type(y) and x == y:
                return x
        except Exception:
            pass
        return POISON

    def stmt(self, s, st, mod, stack):
        if isinstance(s, ast.Expr):
            if not isinstance(s.value, ast.Constant):
                self.expr(s.value, st, mod, stack)
            return st
        if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom)):
            return st
        if isinstance(s, ast.Return):
            st.ret = ("ret", None if s.value is None else
                      self.expr(s.value, st, mod, stack))
            return st
        if isinstance(s, ast.Continue):
            st.ret = ("cont", None)
            return st
        if isinstance(s, ast.Raise):
            raise Raised()
        if isinstance(s, ast.Assign):
            v = self.expr(s.value, st, mod, stack)
            for t in s.targets:
                self.assign(t, v, st, mod, stack)
            return st
        if isinstance(s, ast.AnnAssign) and s.value is not None:
            self.assign(s.target, self.expr(s.value, st, mod, stack), st,
                        mod, stack)
            return st
        if isinstance(s, ast.AugAssign):
            load = ast.copy_location(
                ast.parse(ast.unparse(s.target), mode="eval").body, s)
            old = self.expr(load, st, mod, stack)
            v = self.binop(s.op, old, self.expr(s.value, st, mod, stack), st)
            if isinstance(old, Arr) and isinstance(s.target, ast.Name):
                self.put_all(st, old, st.heap[v.id])
                return st
            self.assign(s.target, v, st, mod, stack)
            return st
        if isinstance(s, ast.For):
            return self.loop(s, st, mod, stack)
        if isinstance(s, ast.Assert):
            return st
        raise Unsupported(type(s).__name__)

    def assign(self, t, v, st, mod, stack):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if not isinstance(v, tuple) or len(v) != len(t.elts):
                raise Unsupported("unpacking")
            for x, y in zip(t.elts, v):
                self.assign(x, y, st, mod, stack)
        elif isinstance(t, ast.Subscript):
            a = self.expr(t.value, st, mod, stack)
            if not isinstance(a, Arr):
                raise Unsupported("store")
            w = self.index(a, t.slice, st, mod, stack)
            if isinstance(w, Arr):
                if w.base is None:
                    raise Unsupported("store")
                self.put_part(st, w, v)
            else:
                if not isinstance(v, Poly):
                    raise Unsupported("stored value")
                self.put(st, a, w, v)
        else:
            raise Unsupported("target")

    def put_part(self, st, w, v):
        raise Unsupported("store to a part")

    # ---- loops
    def loop(self, s, st, mod, stack):
        it = s.iter
        if not (isinstance(it, ast.Call) and ast.unparse(it.func).split(
                ".")[-1] in ("range", "prange")) or not isinstance(
                s.target, ast.Name) or s.orelse:
            raise Unsupported("loop")
        ar = [self.expr(x, st, mod, stack) for x in it.args]
        lo = ZERO if len(ar) == 1 else ar[0]
        hi = ar[0] if len(ar) == 1 else ar[1]
        if len(ar) == 3 and ar[2] != ONE:
            raise Unsupported("step")
        n = hi - lo
        c = n.value()
        if c is not None and c <= 4:
            for i in range(int(max(c, 0))):
                st.env[s.target.id] = lo + C(i)
                st = self.block(s.body, st, mod, stack)
                if st.ret and st.ret[0] == "cont":
                    st.ret = None
                if st.ret:
                    return st
            return st
        return self.sym_loop([(s.target.id, lo, n)], s.body, st, mod, stack)

    def sym_loop(self, targets, body, st, mod, stack, run=None, grid=False):
        """One loop over v = 0..n-1 (n None: over the whole grid)."""
        (name, lo, n), = targets
        v = self.sym("v#")
        pre = st.copy()
        pre.env[name] = lo + Poly.atom(v)
        if n is not None:
            pre.facts = st.facts + (("ge", n - ONE - Poly.atom(v)),)
        marks = {}
        changed = assigned(body) if run is None else set()
        for x in changed:
            o = st.env.get(x)
            if isinstance(o, Poly):
                m = self.sym("m", False)
                marks[x] = m
                pre.env[x] = Poly.atom(m)
        holes = {}
        for k in list(pre.heap):
            h = "@%d_%d" % (k, next(self.fresh))
            holes[k] = h
            pre.heap[k] = lambda e, h=h: at("ld", h, *e)
        heap0 = dict(pre.heap)
        end = run(pre) if run else self.block(body, pre, mod, stack)
        if end.ret and end.ret[0] == "ret":
            raise Unsupported("return in a loop")
        foreign = set(marks.values())
        hs = set(holes.values())

        def clean(p):
            for a in p.all_atoms():
                if a in foreign or a[0] == "ld" and a[1] in hs:
                    return False
            return True
        out = st.copy()
        fill = {}
        for k, h in holes.items():
            fill[h] = st.heap[k]
        for x in changed:
            o, e = st.env.get(x, POISON), end.env.get(x, POISON)
            if isinstance(o, Poly) and isinstance(e, Poly):
                m = Poly.atom(marks[x])
                d = e - m
                if not d.t:
                    out.env[x] = o
                    continue
                d = self.unhole(d, fill, end.heap, heap0, holes, st.facts)
                if clean(d) and n is not None:
                    out.env[x] = o + total(v, n, d, st.facts)
                    continue
            elif o is e and not isinstance(o, Poly):
                continue
            out.env[x] = POISON
        if isinstance(out.env.get(name), Poly) or True:
            out.env[name] = POISON
        for k in end.heap:
            if k not in heap0:
                continue
            if end.heap[k] is heap0[k]:
                out.heap[k] = st.heap[k]
                continue
            out.heap[k] = self.close(k, end.heap[k], st.heap[k], holes[k],
                                     v, n, fill, end.heap, heap0, holes,
                                     clean, st.facts, lo)
        out.ret = None
        return out

    def unhole(self, p, fill, end, heap0, holes, facts):
        """Elements of arrays the loop leaves alone are what they were."""
        same = {h: fill[h] for k, h in holes.items()
                if end.get(k) is heap0[k]}

        def f(a):
            if a[0] == "ld" and a[1] in same:
                return same[a[1]](tuple(rewrite(x, f, facts)
                                        for x in a[2:]))
            return None
        if any(f(a) is not None for a in p.all_atoms() if a[0] == "ld"):
            return rewrite(p, f, facts)
        return p

    def close(self, k, new, old, hole, v, n, fill, end, heap0, holes, clean,
              facts0, lo):
        memo = {}

        def get(e):
            if e in memo:
                return memo[e]
            g = new(e)
            own = ("ld", hole) + tuple(e)
            g = self.unhole(g, fill, end, heap0, holes, facts0)
            P = Poly.atom(own)
            o = old(e)
            ts = equations(g, v)
            r = None
            if not ts and v not in g.all_atoms() and own not in \
                    g.all_atoms() and clean(g):
                r = g           # the same value each time
                if n is not None and not lin.ge(n, ONE, facts0):
                    r = ite(("ge", n - ONE), r, o, facts0)
            elif g == P:
                r = o
            elif len(ts) == 1 and assume_ne(g, v) == P:
                t = ts[0]
                x = subst(g, {v: t}, facts0)
                x = subst(x, {own: o}, facts0)
                if not clean(x):
                    raise Unsupported("carried through memory")
                c = ("ge", t) if n is None else conj(
                    ("ge", t), ("ge", n - ONE - t))
                r = ite(c, x, o, facts0)
            else:
                d = g - P
                if own in d.all_atoms() or not clean(d) or n is None:
                    raise Unsupported("carried through memory")
                r = o + total(v, n, d, facts0)
            memo[e] = r
            return r
        return get

    # ---- conditions
    def cond(self, e, st, mod, stack):
        if isinstance(e, ast.BoolOp):
            out = None
            for x in e.values:
                c = self.cond(x, st, mod, stack)
                if out is None:
                    out = c
                elif isinstance(e.op, ast.And):
                    out = conj(out, c)
                else:
                    out = disj(out, c)
                if out is (not isinstance(e.op, ast.And)):
                    return out
            return out
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return neg(self.cond(e.operand, st, mod, stack))
        if isinstance(e, ast.Compare):
            l = self.expr(e.left, st, mod, stack)
            out = True
            for op, x in zip(e.ops, e.comparators):
                r = self.expr(x, st, mod, stack)
                out = conj(out, self.compare(op, l, r, st))
                l = r
            return out
        v = self.expr(e, st, mod, stack)
        return self.truth(v)

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if iscond(v):
            return v
        if isinstance(v, Poly):
            if v.value() is not None:
                return v.value() != 0
            return ("not", ("eq", v))
        if v is None:
            return False
        if isinstance(v, (str, tuple)):
            return bool(v)
        raise Unsupported("condition")

    def compare(self, op, l, r, st):
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            pos = isinstance(op, (ast.Is, ast.Eq))
            if l is POISON or r is POISON:
                raise Unsupported("condition")
            if isinstance(l, bool):
                l = l if isinstance(r, (bool, type(None))) else C(int(l))
            if isinstance(l, Poly) and isinstance(r, Poly):
                d = l - r
                if d.value() is not None:
                    return (d.value() == 0) == pos
                return ("eq", d) if pos else ("not", ("eq", d))
            if isinstance(l, Arr) and isinstance(r, Arr):
                raise Unsupported("comparison of arrays")
            return ((l is r) or (type(l) is type(r) and l == r)) == pos
        if isinstance(op, (ast.In, ast.NotIn)):
            raise Unsupported("in")
        if not (isinstance(l, Poly) and isinstance(r, Poly)):
            raise Unsupported("comparison")
        if isinstance(op, ast.Lt):
            return ("gt", r - l)
        if isinstance(op, ast.LtE):
            return ("ge", r - l)
        if isinstance(op, ast.Gt):
            return ("gt", l - r)
        return ("ge", l - r)

    # ---- expressions
    def expr(self, e, st, mod, stack):
        self.steps += 1
        if self.steps > 60000:
            raise Unsupported("too long")
        if isinstance(e, ast.Constant):
            v = e.value
            if isinstance(v, bool) or v is None or isinstance(v, str):
                return v
            if isinstance(v, (int, float)):
                if isinstance(v, float) and (v != v or abs(v) == math.inf):
                    raise Unsupported("constant")
                return C(Fraction(v).limit_denominator(10 ** 12))
            raise Unsupported("constant")
        if isinstance(e, ast.Name):
            if e.id in st.env:
                v = st.env[e.id]
                if v is POISON:
                    raise Unsupported("value of %s" % e.id)
                return v
            return self.name(mod, e.id)
        if isinstance(e, (ast.Tuple, ast.List)):
            return tuple(self.expr(x, st, mod, stack) for x in e.elts)
        if isinstance(e, ast.UnaryOp):
            if isinstance(e.op, ast.Not):
                return self.cond(e, st, mod, stack)
            v = self.expr(e.operand, st, mod, stack)
            if isinstance(e.op, ast.USub):
                return self.binop(ast.Mult(), C(-1), v, st)
            if isinstance(e.op, ast.UAdd):
                return v
            raise Unsupported("operator")
        if isinstance(e, ast.BinOp):
            return self.binop(e.op, self.expr(e.left, st, mod, stack),
                              self.expr(e.right, st, mod, stack), st)
        if isinstance(e, (ast.BoolOp, ast.Compare)):
            return self.cond(e, st, mod, stack)
        if isinstance(e, ast.IfExp):
            c = self.settle(self.cond(e.test, st, mod, stack), st)
            if c is True:
                return self.expr(e.body, st, mod, stack)
            if c is False:
                return self.expr(e.orelse, st, mod, stack)
            r = self.merge(c, self.expr(e.body, st, mod, stack),
                           self.expr(e.orelse, st, mod, stack), st.facts)
            if r is POISON:
                raise Unsupported("conditional value")
            return r
        if isinstance(e, ast.Attribute):
            return self.attr(e, st, mod, stack)
        if isinstance(e, ast.Subscript):
            v = self.expr(e.value, st, mod, stack)
            if isinstance(v, Arr):
                w = self.index(v, e.slice, st, mod, stack)
                return w if isinstance(w, Arr) else self.get(st, v, w)
            if isinstance(v, tuple) and not iscond(v):
                if v[:1] == ("launch",):
                    raise Unsupported("launch")
                if isinstance(e.slice, ast.Slice):
                    g = [None if x is None else
                         int(self.expr(x, st, mod, stack).value())
                         for x in (e.slice.lower, e.slice.upper,
                                   e.slice.step)]
                    return v[slice(*g)]
                i = self.expr(e.slice, st, mod, stack)
                if isinstance(i, Poly) and i.value() is not None:
                    return v[int(i.value())]
                raise Unsupported("index of a tuple")
            from .project import FuncInfo
            if isinstance(v, FuncInfo):
                return ("launch", v)
            raise Unsupported("subscript")
        if isinstance(e, ast.Call):
            return self.callx(e, st, mod, stack)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            s2 = st.copy()
            r = self.comp(e, 0, s2, mod, stack)
            st.heap = s2.heap
            return r
        raise Unsupported(type(e).__name__)

    def comp(self, e, k, st, mod, stack):
        """A comprehension: one array whose first axis is the counter."""
        g = e.generators[k]
        it = g.iter
        if not (isinstance(it, ast.Call) and ast.unparse(it.func) == "range"
                and isinstance(g.target, ast.Name) and not g.ifs):
            raise Unsupported("comprehension")
        ar = [self.expr(x, st, mod, stack) for x in it.args]
        lo = ZERO if len(ar) == 1 else ar[0]
        hi = ar[0] if len(ar) == 1 else ar[1]
        if len(ar) == 3 and ar[2] != ONE:
            raise Unsupported("step")
        n = hi - lo
        v = self.sym("c")
        inner = st.copy()
        inner.env = dict(st.env)
        inner.env[g.target.id] = lo + Poly.atom(v)
        inner.facts = st.facts + (("ge", n - ONE - Poly.atom(v)),)
        try:
            if k + 1 < len(e.generators):
                r = self.comp(e, k + 1, inner, mod, stack)
            else:
                r = self.expr(e.elt, inner, mod, stack)
        except Captured as x:
            x.vars.insert(0, v)
            raise
        if isinstance(r, tuple) and not iscond(r) and all(
                isinstance(x, Poly) for x in r):
            t = r
            r = self.new(inner, (C(len(t)),), lambda i: self.pick(t, i))
        if isinstance(r, Poly):
            return self.new(st, (n,), lambda i: subst(
                r, {v: i[0]}, st.facts))
        if not isinstance(r, Arr) or any(v in d.all_atoms()
                                         for d in r.shape):
            raise Unsupported("comprehension of other values")
        f = self.arr_fn(inner, r)
        out = self.new(st, (n,) + tuple(r.shape), lambda i: subst(
            f(i[1:]), {v: i[0]}, st.facts))
        return out

    def pick(self, t, i):
        k = i[0].value() if len(t) > 1 else 0
        if k is None:
            raise Unsupported("index of a tuple")
        return t[int(k)]

    def name(self, mod, name):
        r = self.p.resolve(mod, name)
        if r is None:
            return ("name", name)
        if r[0] == "func":
            return r[1]
        if r[0] == "ext":
            return ("name", r[1])
        if r[0] == "mod":
            return ("module", r[1])
        if r[0] == "global" and isinstance(r[1].globals.get(name),
                                           ast.Constant):
            return self.expr(r[1].globals[name], State(), r[1], ())
        raise Unsupported("name %s" % name)

    def attr(self, e, st, mod, stack):
        v = self.expr(e.value, st, mod, stack)
        if isinstance(v, Arr):
            if e.attr == "shape":
                return v.shape
            if e.attr == "ndim":
                return C(len(v.shape))
            if e.attr == "T" and len(v.shape) == 2:
                return self.view(v, v.shape[::-1], lambda i: i[::-1])
            if e.attr == "size":
                r = ONE
                for d in v.shape:
                    r = r * d
                return r
            if e.attr == "dtype":
                return ("name", "dtype")
            return ("method", v, e.attr)
        if isinstance(v, tuple) and v[:1] == ("module",):
            return self.name(v[1], e.attr)
        if isinstance(v, tuple) and v[:1] == ("name",):
            if e.attr == "pi":
                return at("fn", "pi")
            return ("name", v[1] + "." + e.attr)
        raise Unsupported("attribute")

    def view(self, a, shape, conv):
        return Arr(shape, a, conv)

    def index(self, a, sl, st, mod, stack):
        """Element (tuple of positions) or part (Arr)."""
        items = sl.elts if isinstance(sl, ast.Tuple) else [sl]
        vals = []
        for x in items:
            if isinstance(x, ast.Slice):
                vals.append(x)
            elif isinstance(x, ast.Constant) and x.value is Ellipsis:
                vals.append(Ellipsis)
            else:
                v = self.expr(x, st, mod, stack)
                if isinstance(v, tuple) and not iscond(v) and all(
                        isinstance(y, Poly) for y in v):
                    vals.extend(v)
                else:
                    vals.append(v)
        nd = len(a.shape)
        if Ellipsis in [v for v in vals if v is Ellipsis]:
            i = [v is Ellipsis for v in vals].index(True)
            vals[i:i + 1] = [ast.Slice()] * (nd - len(vals) + 1)
        vals += [ast.Slice()] * (nd - len(vals))
        if len(vals) != nd:
            raise Unsupported("number of indices")
        if all(isinstance(v, Poly) for v in vals):
            return tuple(self.wrap(v, d, st) for v, d in zip(vals, a.shape))
        shape, plan = [], []
        for v, d in zip(vals, a.shape):
            if isinstance(v, Poly):
                plan.append(("i", self.wrap(v, d, st)))
                continue
            if not isinstance(v, ast.Slice):
                raise Unsupported("index")
            if v.step is not None:
                raise Unsupported("step")
            lo = ZERO if v.lower is None else self.wrap(
                self.expr(v.lower, st, mod, stack), d, st)
            hi = d if v.upper is None else self.wrap(
                self.expr(v.upper, st, mod, stack), d, st)
            if lo is None or hi is None or not isinstance(lo, Poly) or \
                    not isinstance(hi, Poly):
                raise Unsupported("slice")
            plan.append(("s", lo))
            shape.append(hi - lo)

        def conv(idx):
            it = iter(idx)
            return tuple(p if k == "i" else p + next(it) for k, p in plan)
        return self.view(a, shape, conv)

    def wrap(self, v, d, st):
        if not isinstance(v, Poly):
            raise Unsupported("index")
        c = v.value()
        if c is not None and c < 0:
            return d + v
        return v

    def arr_fn(self, st, a):
        if a.base is None:
            return st.heap[a.id]
        heap = dict(st.heap)
        s = State()
        s.heap = heap

        def get(e):
            return self.get(s, a, e)
        return get

    def elementwise(self, f, args, st):
        """f over numbers and arrays, with broadcasting."""
        arrs = [a for a in args if isinstance(a, Arr)]
        if not arrs:
            return f(*args)
        nd = max(len(a.shape) for a in arrs)
        shape = [None] * nd
        fs = []
        for a in args:
            if not isinstance(a, Arr):
                if not isinstance(a, Poly):
                    raise Unsupported("operand")
                fs.append(a)
                continue
            k = nd - len(a.shape)
            keep = []
            for i, d in enumerate(a.shape):
                if d == ONE:
                    keep.append(False)
                else:
                    keep.append(True)
                    if shape[k + i] is None:
                        shape[k + i] = d
            fs.append((self.arr_fn(st, a), k, keep))
        shape = [ONE if d is None else d for d in shape]

        def get(e):
            vals = []
            for g in fs:
                if isinstance(g, Poly):
                    vals.append(g)
                else:
                    h, k, keep = g
                    vals.append(h(tuple(
                        x if y else ZERO for x, y in zip(e[k:], keep))))
            return f(*vals)
        return self.new(st, shape, get)

    def binop(self, op, l, r, st):
        if isinstance(l, bool):
            l = C(int(l))
        if isinstance(r, bool):
            r = C(int(r))
        if isinstance(l, tuple) and isinstance(r, tuple) and \
                isinstance(op, ast.Add) and not iscond(l):
            return l + r

        def f(a, b):
            if not (isinstance(a, Poly) and isinstance(b, Poly)):
                raise Unsupported("operand")
            if isinstance(op, ast.Add):
                return a + b
            if isinstance(op, ast.Sub):
                return a - b
            if isinstance(op, ast.Mult):
                if len(a.t) * len(b.t) > 4000:
                    raise Unsupported("too large")
                return a * b
            if isinstance(op, ast.Div):
                if b.value() == 0:
                    raise Unsupported("division by zero")
                return S.div(a, b)
            if isinstance(op, ast.FloorDiv):
                return S.floordiv(a, b)
            if isinstance(op, ast.Mod):
                return S.mod(a, b)
            if isinstance(op, ast.Pow):
                k = b.value()
                if k is not None and Fraction(k).denominator == 1 and \
                        0 <= k <= 4:
                    return a.pow(int(k))
                if k == Fraction(1, 2):
                    return fn("sqrt", a)
                return at("fn", "pow", a, b)
            raise Unsupported("operator")
        return self.elementwise(f, [l, r], st)

    # ---- calls
    def callx(self, e, st, mod, stack):
        from .project import FuncInfo
        f = e.func
        if isinstance(f, ast.Call):
            n = ast.unparse(f.func).split(".")[-1]
            if n == "delayed" and len(f.args) == 1:
                return self.callx(ast.copy_location(ast.Call(
                    f.args[0], e.args, e.keywords), e), st, mod, stack)
            if n == "Parallel" and len(e.args) == 1:
                return self.expr(e.args[0], st, mod, stack)
        if isinstance(f, ast.Subscript):
            g = self.expr(f.value, st, mod, stack)
            if isinstance(g, FuncInfo):
                return self.launch(g, e, st, mod, stack)
            raise Unsupported("call")
        g = self.expr(f, st, mod, stack)
        args, kw = [], {}
        for x in e.args:
            if isinstance(x, ast.Starred):
                raise Unsupported("*args")
            args.append(self.expr(x, st, mod, stack))
        for k in e.keywords:
            if k.arg is None:
                raise Unsupported("**kwargs")
            kw[k.arg] = self.expr(k.value, st, mod, stack)
        if isinstance(g, FuncInfo):
            return self.call(g, args, kw, st, stack)
        if isinstance(g, tuple) and g[:1] == ("method",):
            return self.npcall(g[2], [g[1]] + args, kw, st)
        if isinstance(g, tuple) and g[:1] == ("name",):
            full = g[1]
            name = full.split(".")[-1]
            if name in self.hooks:
                return self.hooks[name](self, st, args, kw)
            if name in ("warn", "print"):
                return None
            return self.npcall(name, args, kw, st, full)
        raise Unsupported("call")

    def launch(self, g, e, st, mod, stack):
        """Every thread of a grid that covers the output."""
        args = [self.expr(x, st, mod, stack) for x in e.args]
        grid = [n for n in ast.walk(g.node) if isinstance(n, ast.Call) and
                ast.unparse(n.func) == "cuda.grid"]
        if len(grid) != 1 or not grid[0].args or not isinstance(
                grid[0].args[0], ast.Constant):
            raise Unsupported("thread numbers")
        nd = grid[0].args[0].value
        if self.hooks.get("@capture"):
            vs = [self.sym("c") for _ in range(nd)]
            old = self.hooks.get("grid")
            self.hooks["grid"] = lambda ev, s, a, k: tuple(
                Poly.atom(v) for v in vs)
            s2 = st.copy()
            self.guarded = True
            try:
                self.call(g, args, {}, s2, stack)
            except Captured as x:
                x.vars[:0] = vs
                raise
            finally:
                self.guarded = False
                self.hooks.pop("grid")
                if old is not None:
                    self.hooks["grid"] = old

        def thread(pre, got):
            if len(got) == nd:
                s2 = pre.copy()
                s2.env = {}
                old = self.hooks.get("grid")
                self.hooks["grid"] = lambda ev, s, a, k: tuple(got)
                try:
                    self.call(g, args, {}, s2, stack)
                finally:
                    if old is None:
                        del self.hooks["grid"]
                    else:
                        self.hooks["grid"] = old
                return s2
            s3 = pre.copy()
            return self.sym_loop(
                [("@t", ZERO, None)], [], s3, mod, stack,
                run=lambda p: thread(p, got + [p.env["@t"]]))
        out = thread(st, [])
        st.heap = out.heap
        return None

    def reduce(self, a, st, axes=None, kind="sum", keep=False):
        f = self.arr_fn(st, a)
        nd = len(a.shape)
        axes = range(nd) if axes is None else [x % nd for x in axes]
        vs = {k: self.sym("r") for k in axes}
        facts = st.facts + tuple(("ge", a.shape[k] - ONE - Poly.atom(v))
                                 for k, v in vs.items())
        fold = total if kind == "sum" else extreme

        def at_(idx):
            it = iter(idx)
            body = f(tuple(Poly.atom(vs[k]) if k in vs else next(it)
                           for k in range(nd)))
            for k in sorted(vs, reverse=True):
                body = fold(vs[k], a.shape[k], body, facts, kind)
            return body
        rest = [d for k, d in enumerate(a.shape) if k not in vs]
        if not rest and not keep:
            return at_(())
        if keep:
            return self.new(st, tuple(
                ONE if k in vs else d for k, d in enumerate(a.shape)),
                lambda e: at_([x for k, x in enumerate(e) if k not in vs]))
        return self.new(st, tuple(rest), at_)

    def arr(self, v, st):
        """v as an array: numbers and arrays in a list are stacked."""
        if isinstance(v, Arr):
            return v
        if isinstance(v, tuple) and not iscond(v) and v:
            xs = [x if isinstance(x, Poly) else self.arr(x, st) for x in v]
            if all(isinstance(x, Poly) for x in xs):
                return self.new(st, (C(len(xs)),),
                                lambda i: self.pick(xs, i))
            if all(isinstance(x, Arr) for x in xs):
                fs = [self.arr_fn(st, x) for x in xs]
                return self.new(
                    st, (C(len(xs)),) + tuple(xs[0].shape),
                    lambda i: self.pick(fs, i)(i[1:]))
        raise Unsupported("array")

    def axes_of(self, v):
        if v is None:
            return None
        v = v if isinstance(v, tuple) else (v,)
        if any(not isinstance(x, Poly) or x.value() is None for x in v):
            raise Unsupported("axis")
        return [int(x.value()) for x in v]

    def permuted(self, a, order, st):
        inv = [order.index(k) for k in range(len(order))]
        return self.view(a, tuple(a.shape[k] for k in order),
                         lambda i: tuple(i[inv[k]] for k in range(len(i))))

    def npcall(self, name, args, kw, st, full=""):
        num = [a for a in args if isinstance(a, (Poly, Arr))]
        a = args[0] if args else None
        if name in ("zeros", "empty", "ones"):
            shape = a if isinstance(a, tuple) and not iscond(a) else (a,)
            v = ONE if name == "ones" else ZERO
            return self.new(st, shape, lambda e: v)
        if name in ("zeros_like", "empty_like", "ones_like"):
            v = ONE if name == "ones_like" else ZERO
            return self.new(st, a.shape, lambda e: v)
        if name == "len":
            if isinstance(a, Arr):
                return a.shape[0]
            if isinstance(a, tuple):
                return C(len(a))
        if name in ("asarray", "array", "float32", "float64") and isinstance(
                a, tuple) and not iscond(a):
            return self.arr(a, st)
        if name in IDENT or name == "to_device" or name == "astype" or \
                name == "copy_to_host":
            if isinstance(a, Arr):
                return self.new(st, a.shape, self.arr_fn(st, a))
            return a
        if name == "float":
            return a
        if name in INTS or name == "int" or name == "trunc":
            if isinstance(a, Poly):
                if a.is_int():
                    return a
                return S.rounding("trunc", a)
            raise Unsupported("int")
        if name in ("floor", "ceil", "round", "rint", "around"):
            if len(num) != 1:
                raise Unsupported(name)
            k = {"rint": "round", "around": "round"}.get(name, name)
            return self.elementwise(lambda x: S.rounding(k, x), [a], st)
        if name in ("abs", "fabs", "absolute"):
            return self.elementwise(S.pabs, [a], st)
        if name in MATHF:
            return self.elementwise(lambda x: fn(name, x), [a], st)
        if name in ("max", "min", "maximum", "minimum") and len(num) > 1:
            g = S.pmax if name[:3] == "max" else S.pmin
            return self.elementwise(lambda *x: g(*x), args, st)
        if name in ("max", "min") and isinstance(a, tuple):
            return (S.pmax if name == "max" else S.pmin)(*a)
        if name in ("sum", "mean", "average", "std", "var", "min", "max",
                    "amin", "amax") and len(args) < 3 and \
                not set(kw) - {"axis", "dtype", "keepdims"}:
            a = self.arr(a, st)
            axes = self.axes_of(args[1] if len(args) > 1
                                else kw.get("axis"))
            keep = kw.get("keepdims") is True
            if name[-3:] in ("min", "max"):
                return self.reduce(a, st, axes, "a" + name[-3:], keep)
            n = ONE
            for k, d in enumerate(a.shape):
                if axes is None or k in [x % len(a.shape) for x in axes]:
                    n = n * d
            over = ast.Div()
            if name in ("std", "var"):
                m = self.binop(over, self.reduce(a, st, axes, keep=True), n,
                               st)
                d = self.binop(ast.Sub(), a, m, st)
                a = self.binop(ast.Mult(), d, d, st)
            r = self.reduce(a, st, axes, keep=keep)
            if name != "sum":
                r = self.binop(over, r, n, st)
            if name == "std":
                r = self.elementwise(lambda x: fn("sqrt", x), [r], st)
            return r
        if name == "transpose":
            a = self.arr(a, st)
            o = self.axes_of(args[1] if len(args) > 1 else kw.get("axes"))
            return self.permuted(a, o or list(range(len(a.shape)))[::-1], st)
        if name == "swapaxes" and len(args) == 3:
            a = self.arr(a, st)
            o = list(range(len(a.shape)))
            (x,), (y,) = self.axes_of(args[1]), self.axes_of(args[2])
            o[x], o[y] = o[y], o[x]
            return self.permuted(a, o, st)
        if name == "moveaxis" and len(args) == 3:
            a = self.arr(a, st)
            nd = len(a.shape)
            (x,), (y,) = self.axes_of(args[1]), self.axes_of(args[2])
            o = [k for k in range(nd) if k != x % nd]
            o.insert(y % nd, x % nd)
            return self.permuted(a, o, st)
        if name == "expand_dims":
            a = self.arr(a, st)
            (x,) = self.axes_of(args[1] if len(args) > 1 else kw["axis"])
            nd = len(a.shape) + 1
            x = x % nd
            sh = list(a.shape)
            sh.insert(x, ONE)
            return self.view(a, tuple(sh), lambda i: i[:x] + i[x + 1:])
        if name == "clip" and len(args) == 3:
            lo, hi = args[1:]

            def clip(x):
                m = x if lo is None else ite(("ge", x - lo), x, lo, st.facts)
                return m if hi is None else ite(("ge", hi - m), m, hi,
                                                st.facts)
            return self.elementwise(clip, [a], st)
        if name == "square":
            return self.elementwise(lambda x: x * x, [a], st)
        if name in ("multiply", "add", "subtract", "divide") and \
                len(args) == 2:
            op = {"multiply": ast.Mult(), "add": ast.Add(),
                  "subtract": ast.Sub(), "divide": ast.Div()}[name]
            return self.binop(op, args[0], args[1], st)
        if name == "isinstance":
            return True
        if name == "synchronize":
            return None
        if name == "is_available":
            return True
        if name == "correlate" and len(args) == 2 and \
                kw.get("mode") == "valid":
            x, y = args
            fx, fy = self.arr_fn(st, x), self.arr_fn(st, y)
            shape = [p - q + ONE for p, q in zip(x.shape, y.shape)]

            def get(e):
                vs = [self.sym("r") for _ in y.shape]
                ps = [Poly.atom(v) for v in vs]
                body = fx(tuple(i + p for i, p in zip(e, ps))) * fy(tuple(ps))
                for v, d in reversed(list(zip(vs, y.shape))):
                    body = total(v, d, body, st.facts)
                return body
            return self.new(st, shape, get)
        raise Unsupported(name)


def sealed(name):
    """A function left unexpanded: the same operand gives the same array."""
    def hook(ev, st, args, kw):
        a = args[0]
        if len(args) != 1 or kw or not isinstance(a, Arr):
            raise Unsupported(name)
        gen = [Poly.sym("g%d" % k, 0) for k in range(len(a.shape))]
        p = ev.arr_fn(st, a)(tuple(gen))
        text = (p,) + tuple(a.shape)
        free = sorted({x for q in text for x in S.base_atoms([q])
                       if x[0] == "s" and x[1][0] == "c" and
                       x[1][1:].isdigit()}, key=S.akey)
        env = {x: Poly.sym("f%d" % k, 0) for k, x in enumerate(free)}
        key = "%s(%s)" % (name, "; ".join(str(subst(q, env)) for q in text))
        pre = [Poly.atom(x) for x in free]
        return ev.new(st, a.shape, lambda e: at("ld", key, *(pre + list(e))))
    return hook


def iscond(v):
    return isinstance(v, tuple) and len(v) > 0 and v[0] in (
        "ge", "gt", "eq", "and", "or", "not")


def assigned(body):
    out = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
    return out


# -------------------------------------------------------------- comparison
def value(p, env, table):
    """The number a formula stands for, data being a table made up on the
    way."""
    tot = 0.0
    for m, c in p.t:
        v = float(c)
        for a, k in m:
            x = value_atom(a, env, table)
            if k < 0 and x == 0:
                raise S.Unknown()
            v *= x ** k
        tot += v
    return tot


def value_atom(a, env, table):
    k = a[0]
    if a in env:
        return env[a]
    if k == "ld":
        key = (a[1],) + tuple(round(value(x, env, table)) for x in a[2:])
        if key not in table:
            table[key] = unit(key)
        return table[key]
    if k == "ite":
        x = value(a[2], env, table)
        if abs(x) < 1e-9:
            x = 0.0
        c = {"ge": x >= 0, "gt": x > 0, "eq": x == 0}[a[1]]
        return value(a[3] if c else a[4], env, table)
    if k in BINDERS:
        n = round(value(a[1], env, table))
        b = ("s", "b%d" % a[3])
        if k != "sum":
            if n < 1:
                raise S.Unknown()
            return (min if k == "amin" else max)(
                value(a[2], dict(env, **{}) | {b: i}, table)
                for i in range(n))
        tot = 0.0
        for i in range(max(n, 0)):
            e2 = dict(env)
            e2[b] = i
            tot += value(a[2], e2, table)
        return tot
    if k == "fn":
        xs = [value(x, env, table) for x in a[2:]]
        if a[1] == "pi":
            return math.pi
        if a[1] == "pow":
            return xs[0] ** xs[1]
        try:
            return getattr(math, {"arctan": "atan", "arcsin": "asin"}.get(
                a[1], a[1]))(*xs)
        except Exception:
            raise S.Unknown()
    if k in ("floor", "ceil", "round", "trunc"):
        x = value(a[1], env, table)
        r = round(x)
        if abs(x - r) < 1e-9:
            x = r
        return getattr(math, k)(x) if k != "round" else round(x)
    if k in ("min", "max"):
        return (min if k == "min" else max)(
            value(x, env, table) for x in a[1:])
    if k == "abs":
        return abs(value(a[1], env, table))
    if k == "inv":
        x = value(a[1], env, table)
        if abs(x) < 1e-12:
            raise S.Unknown()
        return 1.0 / x
    if k == "floordiv":
        return value(a[1], env, table) // value(a[2], env, table)
    if k == "mod":
        return value(a[1], env, table) % value(a[2], env, table)
    raise S.Unknown()


def unit(key):
    """A number in (0.1, 1.1) fixed by the key."""
    import hashlib
    h = hashlib.sha256(repr(key).encode()).digest()
    return 0.1 + int.from_bytes(h[:6], "big") / float(1 << 48)
