"""Abstract values and heap records."""
from .sym import Poly, C, named_opaque, INF, pmin, pmax
from . import sym as S

_VN = {}


def VN(*term):
    """Value number: equal terms get equal numbers."""
    n = _VN.get(term)
    if n is None:
        n = len(_VN) + 1
        _VN[term] = n
    return n


class Val:
    __slots__ = ()
    kind = "val"

    def key(self):
        raise NotImplementedError

    def __eq__(self, o):
        return type(self) is type(o) and self.key() == o.key()

    def __hash__(self):
        return hash((type(self).__name__, self.key()))

    @property
    def vnum(self):
        return VN(self.kind, self.key())


class Top(Val):
    """Anything.  `vn` identifies the computation that produced it."""
    __slots__ = ("vn", "tags")
    kind = "top"

    def __init__(self, vn=None, tags=frozenset()):
        self.vn = vn if vn is not None else VN("top")
        self.tags = tags

    def key(self):
        return (self.vn, self.tags)

    @property
    def vnum(self):
        return self.vn

    def __repr__(self):
        return "Top%s" % ("{%s}" % ",".join(sorted(map(str, self.tags)))
                          if self.tags else "")


class NoneVal(Val):
    __slots__ = ()
    kind = "none"

    def key(self):
        return ()

    def __repr__(self):
        return "None"


NONE = NoneVal()


class Undef(Val):
    __slots__ = ()
    kind = "undef"

    def key(self):
        return ()

    def __repr__(self):
        return "Undef"


UNDEF = Undef()


class Num(Val):
    """Scalar number: symbolic value, element bounds, angle unit."""
    __slots__ = ("sym", "lo", "hi", "isint", "unit", "nz", "npint", "tags",
                 "ispy")
    kind = "num"

    def __init__(self, sym, lo=None, hi=None, isint=None, unit=None, nz=False,
                 npint=None, tags=frozenset(), ispy=False):
        self.sym = sym
        self.lo = lo            # Poly | None, None = unbounded
        self.hi = hi
        self.isint = sym.is_int() if isint is None else isint
        self.unit = unit
        self.nz = nz
        self.npint = npint      # width in bits when a small numpy integer
        self.tags = tags
        self.ispy = ispy        # certainly a plain python int/float/bool

    def key(self):
        return (self.sym, self.lo, self.hi, self.isint, self.unit, self.nz,
                self.npint, self.tags, self.ispy)

    @property
    def vnum(self):
        return VN("num", self.sym)

    def const(self):
        return self.sym.value()

    def bounds(self):
        lo, hi = S.bounds(self.sym)
        if self.lo is not None:
            lo = max(lo, S.bounds(self.lo)[0])
        if self.hi is not None:
            hi = min(hi, S.bounds(self.hi)[1])
        return lo, hi

    def with_(self, **kw):
        d = dict(sym=self.sym, lo=self.lo, hi=self.hi, isint=self.isint,
                 unit=self.unit, nz=self.nz, npint=self.npint, tags=self.tags,
                 ispy=self.ispy)
        d.update(kw)
        return Num(**d)

    def __repr__(self):
        return "Num(%r%s%s)" % (self.sym, "," + self.unit if self.unit else "",
                                ",[%s,%s]" % (self.lo, self.hi)
                                if self.lo is not None or self.hi is not None
                                else "")


def num(c):
    return Num(C(c), isint=(C(c).value().denominator == 1 and
                            not isinstance(c, float)), ispy=True)


class BoolVal(Val):
    __slots__ = ("b", "vn", "tags")
    kind = "bool"

    def __init__(self, b=None, vn=None, tags=frozenset()):
        self.b = b
        self.vn = VN("bool", b) if vn is None or b is not None else vn
        self.tags = tags

    def key(self):
        return (self.b, self.vn, self.tags)

    @property
    def vnum(self):
        return self.vn

    def __repr__(self):
        return "Bool(%s)" % self.b


TRUE = BoolVal(True)
FALSE = BoolVal(False)


class StrVal(Val):
    """String: set of possible constants (None = any), provenance tags."""
    __slots__ = ("vals", "vn", "tags")
    kind = "str"

    def __init__(self, vals=None, vn=None, tags=frozenset()):
        self.vals = vals
        if vals is not None and len(vals) == 1:
            vn = VN("str", next(iter(vals)))
        self.vn = vn if vn is not None else VN("str", vals)
        self.tags = tags

    def key(self):
        return (self.vals, self.vn, self.tags)

    @property
    def vnum(self):
        return self.vn

    def const(self):
        if self.vals is not None and len(self.vals) == 1:
            return next(iter(self.vals))
        return None

    def __repr__(self):
        return "Str(%s%s)" % (sorted(self.vals) if self.vals is not None
                              else "*", "".join("," + str(t) for t in
                                                sorted(self.tags, key=str)))


def strv(s, tags=frozenset()):
    return StrVal(frozenset([s]), tags=tags)


class Tup(Val):
    __slots__ = ("elts",)
    kind = "tup"

    def __init__(self, elts):
        self.elts = tuple(elts)

    def key(self):
        return self.elts

    @property
    def vnum(self):
        return VN("tup", tuple(e.vnum for e in self.elts))

    def __repr__(self):
        return "Tup%r" % (self.elts,)


class Ref(Val):
    """Reference to a heap record (array, list, dict, object)."""
    __slots__ = ("id", "what")
    kind = "ref"

    def __init__(self, id, what):
        self.id = id
        self.what = what

    def key(self):
        return (self.id, self.what)

    def __repr__(self):
        return "%s@%s" % (self.what, self.id)


class Func(Val):
    """fn: FuncInfo | str (external dotted name) | ('lambda', node, envkey)"""
    __slots__ = ("fn", "pre", "self_", "extra")
    kind = "func"

    def __init__(self, fn, pre=(), self_=None, extra=None):
        self.fn = fn
        self.pre = pre
        self.self_ = self_
        self.extra = extra

    def key(self):
        return (id(self.fn) if not isinstance(self.fn, (str, tuple))
                else self.fn, self.pre, self.self_, self.extra)

    @property
    def vnum(self):
        return VN("func", self.fn if isinstance(self.fn, (str, tuple))
                  else self.fn.full, tuple(p.vnum for p in self.pre))

    def __repr__(self):
        return "Func(%s)" % (self.fn,)


class ModVal(Val):
    __slots__ = ("mod",)
    kind = "mod"

    def __init__(self, mod):
        self.mod = mod

    def key(self):
        return (self.mod if isinstance(self.mod, str) else self.mod.name,)

    def __repr__(self):
        return "Mod(%s)" % self.key()


class SliceVal(Val):
    __slots__ = ("lo", "hi", "step")
    kind = "slice"

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def key(self):
        return (self.lo, self.hi, self.step)

    @property
    def vnum(self):
        return VN("slice", tuple(x.vnum if x is not None else 0
                                 for x in (self.lo, self.hi, self.step)))


class RangeVal(Val):
    __slots__ = ("lo", "hi", "step")
    kind = "range"

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def key(self):
        return (self.lo, self.hi, self.step)

    def count(self, facts=()):
        s = self.step.value()
        d = self.hi - self.lo
        if s == 1:
            return S.pmax(d, S.ZERO)
        if s == -1:
            return S.pmax(-d, S.ZERO)
        if s is not None and s > 0:
            return S.pmax(S.rounding("ceil", d.scale(1 / s)), S.ZERO)
        if s is not None and s < 0:
            return S.pmax(S.rounding("ceil", d.scale(1 / s)), S.ZERO)
        if S.is_pos(self.step) or facts and S.decide(
                ">", self.step, S.ZERO, facts) is True:
            q = S.exact_div(d, self.step)
            if q is not None:
                return S.pmax(q, S.ZERO)
            return S.pmax(S.floordiv(d + self.step - C(1), self.step), S.ZERO)
        return None


class Union(Val):
    __slots__ = ("alts",)
    kind = "union"

    def __init__(self, alts):
        self.alts = frozenset(alts)

    def key(self):
        return self.alts

    @property
    def vnum(self):
        return VN("phi", tuple(sorted(a.vnum for a in self.alts)))

    def __repr__(self):
        return "Union%s" % (sorted(map(repr, self.alts)),)


# --------------------------------------------------------------- records
class Rec:
    __slots__ = ()
    fields = ()

    def key(self):
        return tuple(getattr(self, f) for f in self.fields)

    def __eq__(self, o):
        return type(self) is type(o) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def upd(self, **kw):
        n = type(self)()
        for f in self.fields:
            setattr(n, f, kw.get(f, getattr(self, f)))
        return n


class ArrRec(Rec):
    """Array contents: shape (tuple of Poly|None, or None), element facts."""
    fields = ("shape", "dtype", "lo", "hi", "nz", "unit", "vn", "roots",
              "parent", "seq", "mask", "tags", "view")
    __slots__ = fields

    def __init__(self, shape=None, dtype="?", lo=None, hi=None, nz=False,
                 unit=None, vn=0, roots=frozenset(), parent=None, seq=None,
                 mask=None, tags=frozenset(), view=None):
        self.shape = shape
        self.dtype = dtype
        self.lo = lo
        self.hi = hi
        self.nz = nz
        self.unit = unit
        self.vn = vn
        self.roots = roots
        self.parent = parent
        self.seq = seq
        self.mask = mask
        self.tags = tags
        self.view = view

    def bounds(self):
        lo = -INF if self.lo is None else S.bounds(self.lo)[0]
        hi = INF if self.hi is None else S.bounds(self.hi)[1]
        return lo, hi

    def __repr__(self):
        return "Arr(%s %s lo=%s hi=%s nz=%s u=%s %s)" % (
            self.shape, self.dtype, self.lo, self.hi, self.nz, self.unit,
            sorted(self.tags, key=str) or "")


class ListRec(Rec):
    fields = ("elts", "n", "elem", "roots", "vn", "head")
    __slots__ = fields

    def __init__(self, elts=None, n=None, elem=None, roots=frozenset(), vn=0,
                 head=None):
        self.head = head        # element 0 when it differs from the others
        self.elts = elts
        self.n = n
        self.elem = elem
        self.roots = roots
        self.vn = vn

    def __repr__(self):
        return "List(n=%s, %s)" % (self.n, self.elts if self.elts is not None
                                   else self.elem)


class DictRec(Rec):
    fields = ("items", "closed", "elem", "roots", "vn")
    __slots__ = fields

    def __init__(self, items=(), closed=True, elem=None, roots=frozenset(),
                 vn=0):
        self.items = items      # tuple of (const key, Val)
        self.closed = closed
        self.elem = elem
        self.roots = roots
        self.vn = vn


class ObjRec(Rec):
    fields = ("cls", "attrs", "vn", "roots", "tags")
    __slots__ = fields

    def __init__(self, cls="?", attrs=(), vn=0, roots=frozenset(),
                 tags=frozenset()):
        self.cls = cls
        self.attrs = attrs      # tuple of (name, Val)
        self.vn = vn
        self.roots = roots
        self.tags = tags

    def get(self, n):
        for k, v in self.attrs:
            if k == n:
                return v
        return None

    def set(self, n, v):
        return self.upd(attrs=tuple((k, x) for k, x in self.attrs if k != n)
                        + ((n, v),))

    def __repr__(self):
        return "Obj(%s %s)" % (self.cls, dict(self.attrs))


# --------------------------------------------------------------- joins
def join_bound(a, b, kind):
    if a is None or b is None:
        return None
    if a == b:
        return a
    return pmin(a, b) if kind == "lo" else pmax(a, b)


def join_unit(a, b):
    if a == b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    return "mixed"


def join_num(a, b):
    if a.sym == b.sym:
        sy = a.sym
        lo = join_bound(a.lo, b.lo, "lo")
        hi = join_bound(a.hi, b.hi, "hi")
    else:
        nm = "phi%d" % VN("phi", *sorted((a.vnum, b.vnum)))
        sy = named_opaque(nm)
        S.record_alts(nm, (a.sym, b.sym))
        ba = S.bounds(a.sym)
        bb = S.bounds(b.sym)
        la = a.lo if a.lo is not None else (
            C(ba[0]) if ba[0] != -INF else None)
        lb = b.lo if b.lo is not None else (
            C(bb[0]) if bb[0] != -INF else None)
        ha = a.hi if a.hi is not None else (C(ba[1]) if ba[1] != INF else None)
        hb = b.hi if b.hi is not None else (C(bb[1]) if bb[1] != INF else None)
        lo = join_bound(la, lb, "lo")
        hi = join_bound(ha, hb, "hi")
    # a python constant 0 is neutral as an angle
    ua, ub = a.unit, b.unit
    return Num(sy, lo, hi, a.isint and b.isint, join_unit(ua, ub),
               a.nz and b.nz, a.npint if a.npint == b.npint else None,
               a.tags | b.tags, a.ispy and b.ispy)


def alts_of(v):
    return list(v.alts) if isinstance(v, Union) else [v]


def mkunion(alts):
    """Merge alternatives of the same kind; collapse when too many."""
    out = []
    for v in alts:
        for i, w in enumerate(out):
            m = merge1(w, v)
            if m is not None:
                out[i] = m
                break
        else:
            out.append(v)
    if len(out) > 1:
        out2 = [v for v in out if not isinstance(v, Undef)]
        if out2:
            out = out2
    if len(out) == 1:
        return out[0]
    if len(out) > 5:
        return Top(VN("phi", tuple(sorted(x.vnum for x in out))))
    return Union(out)


def merge1(a, b):
    if a == b:
        return a
    if isinstance(a, Num) and isinstance(b, Num):
        return join_num(a, b)
    if isinstance(a, BoolVal) and isinstance(b, BoolVal):
        return BoolVal(None, VN("phi", *sorted((a.vnum, b.vnum))),
                       a.tags | b.tags)
    if isinstance(a, StrVal) and isinstance(b, StrVal):
        if a.vals is not None and b.vals is not None and \
                len(a.vals | b.vals) <= 6:
            return StrVal(a.vals | b.vals, VN("phi", *sorted(
                (a.vnum, b.vnum))), join_tags(a.tags, b.tags))
        return StrVal(None, VN("phi", *sorted((a.vnum, b.vnum))),
                      join_tags(a.tags, b.tags))
    if isinstance(a, Tup) and isinstance(b, Tup) and \
            len(a.elts) == len(b.elts):
        return Tup(join(x, y) for x, y in zip(a.elts, b.elts))
    if isinstance(a, Top) and isinstance(b, Top):
        return Top(VN("phi", *sorted((a.vn, b.vn))), a.tags | b.tags)
    if isinstance(a, Undef):
        return b
    if isinstance(b, Undef):
        return a
    return None


MUST = frozenset(["fresh", "parent", "own"])


def tag_name(t):
    return t[0] if isinstance(t, tuple) else t


def join_tags(a, b):
    """Tags in MUST hold only when they hold on both sides."""
    return frozenset(t for t in a | b
                     if tag_name(t) not in MUST or (t in a and t in b))


def join(a, b):
    if a == b:
        return a
    return mkunion(alts_of(a) + alts_of(b))


def join_shape(a, b):
    if a is None or b is None or len(a) != len(b):
        return None
    return tuple(x if x == y else None for x, y in zip(a, b))


def join_rec(a, b):
    if a == b:
        return a
    if type(a) is not type(b):
        return ObjRec("?", vn=VN("phi"))
    if isinstance(a, ArrRec):
        vn = a.vn if a.vn == b.vn else VN("phi", *sorted((a.vn, b.vn)))
        return ArrRec(join_shape(a.shape, b.shape),
                      a.dtype if a.dtype == b.dtype else "?",
                      join_bound(a.lo, b.lo, "lo"),
                      join_bound(a.hi, b.hi, "hi"),
                      a.nz and b.nz, join_unit(a.unit, b.unit), vn,
                      a.roots | b.roots,
                      a.parent if a.parent == b.parent else None,
                      a.seq if a.seq == b.seq else None,
                      a.mask if a.mask == b.mask else None,
                      join_tags(a.tags, b.tags),
                      a.view if a.view == b.view else None)
    if isinstance(a, ListRec):
        vn = a.vn if a.vn == b.vn else VN("phi", *sorted((a.vn, b.vn)))
        if a.elts is not None and b.elts is not None and \
                len(a.elts) == len(b.elts):
            return ListRec(tuple(join(x, y) for x, y in
                                 zip(a.elts, b.elts)), a.n, None,
                           a.roots | b.roots, vn)
        ea, eb = list_elem(a), list_elem(b)
        e = ea if eb is None else eb if ea is None else join(ea, eb)
        hd = None
        if a.head is not None and b.head is not None:
            hd = join(a.head, b.head)
            e = join(a.elem, b.elem)
        return ListRec(None, a.n if a.n == b.n else None, e,
                       a.roots | b.roots, vn, hd)
    if isinstance(a, DictRec):
        da, db = dict(a.items), dict(b.items)
        items = []
        for k in da:
            if k in db:
                items.append((k, join(da[k], db[k])))
        closed = a.closed and b.closed and set(da) == set(db)
        vn = a.vn if a.vn == b.vn else VN("phi", *sorted((a.vn, b.vn)))
        return DictRec(tuple(items), closed, a.elem or b.elem,
                       a.roots | b.roots, vn)
    if isinstance(a, ObjRec):
        da, db = dict(a.attrs), dict(b.attrs)
        attrs = tuple((k, join(da[k], db[k])) for k in da if k in db)
        vn = a.vn if a.vn == b.vn else VN("phi", *sorted((a.vn, b.vn)))
        return ObjRec(a.cls if a.cls == b.cls else "?", attrs, vn,
                      a.roots | b.roots, a.tags | b.tags)
    return a


def list_elem(r):
    if r.elts is not None:
        e = None
        for x in r.elts:
            e = x if e is None else join(e, x)
        return e
    if r.head is not None and r.elem is not None:
        return join(r.head, r.elem)
    return r.elem


class State:
    __slots__ = ("env", "heap", "facts", "conds")

    def __init__(self, env=None, heap=None, facts=(), conds=()):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.facts = facts
        self.conds = conds       # undecided non-numeric path conditions

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.facts, self.conds)

    def add_fact(self, kind, p):
        v = p.value()
        if v is not None:
            return
        f = (kind, p)
        if f not in self.facts:
            self.facts = self.facts + (f,)


def join_states(states):
    states = [s for s in states if s is not None]
    if not states:
        return None
    r = states[0]
    for s in states[1:]:
        r = join2(r, s)
    return r


def join2(a, b):
    env = {}
    new = []
    for k in a.env.keys() | b.env.keys():
        x = a.env.get(k, UNDEF)
        y = b.env.get(k, UNDEF)
        env[k] = z = x if x is y or x == y else join(x, y)
        if z is not x and z is not y and type(z) is Num and z.isint and \
                type(x) is Num and type(y) is Num and x.sym != y.sym:
            for m in (C(1), S.ZERO):
                if S.decide(">=", x.sym, m, a.facts) is True and S.decide(
                        ">=", y.sym, m, b.facts) is True:
                    if (z.sym - m).value() is None:
                        new.append(("ge", z.sym - m))
                    break
    heap = {}
    for k in a.heap.keys() | b.heap.keys():
        x = a.heap.get(k)
        y = b.heap.get(k)
        if x is None:
            heap[k] = y
        elif y is None or x is y:
            heap[k] = x
        else:
            heap[k] = join_rec(x, y)
    fb = set(b.facts)
    facts = tuple(f for f in a.facts if f in fb)
    facts += tuple(f for f in sorted(new, key=lambda f: str(f[1]))
                   if f not in facts)
    cb = set(b.conds)
    conds = tuple(c for c in a.conds if c in cb)
    return State(env, heap, facts, conds)
