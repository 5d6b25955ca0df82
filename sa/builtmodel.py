"""Models of builtins, math, containers, numba/cuda, joblib and friends."""
import ast
from fractions import Fraction
from .sym import Poly, C, ZERO, ONE, INF, named_opaque
from . import sym as S
from .values import *
from .values import list_elem
from .project import FuncInfo
from . import models as M
from .models import op_of, out, bnd, fn

HANDLERS = {}


def h(*names):
    def deco(f):
        for n in names:
            HANDLERS[n] = f
        return f
    return deco


def Dead():
    from .interp import Dead as D
    return D()


def by_prefix(pre, last):
    if pre in ("numba", "numba.cuda", "cuda") and last.startswith(
            ("uint", "int", "float", "complex")):
        return lambda I, f, n, a, k, st, node: Top(VN("nbtype", last))
    if pre in ("random", "numpy.random", "numpy.random.RandomState",
               "secrets", "uuid"):
        return nondet
    if pre in ("time", "timeit", "datetime", "datetime.datetime"):
        return clock
    return None


def num1(I, a, st):
    """Poly of a scalar argument or None."""
    if isinstance(a, Num):
        return a.sym
    if isinstance(a, BoolVal) and a.b is not None:
        return C(int(a.b))
    return None


def union_map(f):
    """Apply a handler to every alternative of its first argument."""
    def g(I, fv, n, args, kwargs, st, node):
        if args and isinstance(args[0], Union):
            rs = []
            for a in args[0].alts:
                if isinstance(a, (NoneVal, Undef)):
                    continue
                rs.append(f(I, fv, n, [a] + list(args[1:]), kwargs, st,
                            node))
            rs = [r for r in rs if r is not None]
            if not rs:
                raise Dead()
            x = rs[0]
            for y in rs[1:]:
                x = M.joinv(I, st, node, x, y)
            return x
        if args and isinstance(args[0], NoneVal):
            I.emit("none_use", node, st, how=n, val=args[0])
            raise Dead()
        return f(I, fv, n, args, kwargs, st, node)
    return g


@h("builtins.len")
@union_map
def b_len(I, f, n, args, kw, st, node):
    v = args[0]
    if isinstance(v, Tup):
        return num(len(v.elts))
    if isinstance(v, StrVal):
        if v.const() is not None:
            return num(len(v.const()))
        return Num(named_opaque("len%d" % v.vn), ZERO, None, True, ispy=True)
    if isinstance(v, RangeVal):
        return Num(v.count(), isint=True, ispy=True)
    if isinstance(v, Num):
        I.emit("type_error", node, st, how="len of a number")
        raise Dead()
    if isinstance(v, Ref):
        r = st.heap.get(v.id)
        p = None
        if isinstance(r, ArrRec) and r.shape == ():
            I.emit("type_error", node, st, how="len of a 0-d array")
            raise Dead()
        if isinstance(r, ArrRec) and r.shape:
            p = r.shape[0]
        elif isinstance(r, ListRec):
            p = r.n
        elif isinstance(r, DictRec) and r.closed:
            p = C(len(r.items))
        elif isinstance(r, ObjRec) and r.cls == "dset":
            sh = r.get("shape")
            if isinstance(sh, Tup) and sh.elts and isinstance(sh.elts[0],
                                                              Num):
                return sh.elts[0]
        if p is not None:
            return Num(p, isint=True, ispy=True)
    return Num(named_opaque("len%d" % I.vnum(st, v)), ZERO, None, True,
               ispy=True)


@h("builtins.range", "numba.prange")
def b_range(I, f, n, args, kw, st, node):
    ps = []
    for a in args:
        if isinstance(a, NoneVal):
            I.emit("none_use", node, st, how="range", val=a)
            raise Dead()
        p = num1(I, a, st)
        if p is None:
            p = named_opaque("rng%d" % I.vnum(st, a))
        ps.append(p)
    if len(ps) == 1:
        return RangeVal(ZERO, ps[0], ONE)
    if len(ps) == 2:
        return RangeVal(ps[0], ps[1], ONE)
    return RangeVal(*ps[:3])


@h("builtins.int")
@union_map
def b_int(I, f, n, args, kw, st, node):
    if not args:
        return num(0)
    v = args[0]
    if isinstance(v, Num):
        if v.isint and v.sym.is_int():
            return v.with_(ispy=True, isint=True)
        lo = S.rounding("trunc", v.lo) if v.lo is not None else None
        hi = S.rounding("trunc", v.hi) if v.hi is not None else None
        s = S.rounding("trunc", v.sym)
        if v.sym.is_int() or v.isint:
            s = v.sym
        elif S.is_nonneg(v.sym) or S.decide(">=", v.sym, ZERO,
                                            st.facts) is True:
            s = S.rounding("floor", v.sym)
        return Num(s, lo, hi, True, v.unit, False, None, v.tags, True)
    if isinstance(v, BoolVal) and v.b is not None:
        return num(int(v.b))
    if isinstance(v, BoolVal):
        return Num(named_opaque("int%d" % v.vn), ZERO, ONE, True, ispy=True)
    if isinstance(v, StrVal) and v.const() is not None:
        try:
            return num(int(v.const()))
        except ValueError:
            raise Dead()
    o = op_of(I, v, st)
    return Num(named_opaque("int%d" % o.vn), o.lo, o.hi, True, o.unit,
               ispy=True, tags=M.deps(I, st, v))


@h("builtins.float", "numpy.float64", "numpy.float_", "builtins.complex")
@union_map
def b_float(I, f, n, args, kw, st, node):
    if not args:
        return num(0)
    v = args[0]
    if isinstance(v, Num):
        return v.with_(isint=False)
    if isinstance(v, Ref) and n.startswith("numpy"):
        return None
    o = op_of(I, v, st)
    return Num(named_opaque("flt%d" % o.vn), o.lo, o.hi, False, o.unit, o.nz,
               tags=M.deps(I, st, v))


@h("builtins.str", "builtins.repr")
def b_str(I, f, n, args, kw, st, node):
    if not args:
        return strv("")
    v = args[0]
    if isinstance(v, StrVal):
        return StrVal(v.vals, v.vn, frozenset(t for t in v.tags
                                              if t != "path"))
    if isinstance(v, NoneVal):
        return strv("None")
    return M.fmt_value(I, v, "", st)


@h("builtins.bool")
def b_bool(I, f, n, args, kw, st, node):
    b = I.truth(args[0], st)
    return BoolVal(b, VN("bool", I.vnum(st, args[0])))


@h("builtins.abs", "math.fabs")
@union_map
def b_abs(I, f, n, args, kw, st, node):
    v = args[0]
    if isinstance(v, Num):
        s = S.pabs(v.sym)
        if not (v.sym.has_opaque()) and S.decide(">=", v.sym, ZERO,
                                                 st.facts) is True:
            s = v.sym
        return v.with_(sym=s, lo=ZERO, hi=None)
    from . import npmodel
    return npmodel.HANDLERS["numpy.abs"](I, f, "numpy.abs", args, kw, st,
                                         node)


def _mm(I, kind, args, st, node):
    if len(args) == 1:
        v = args[0]
        xs = None
        if isinstance(v, Tup):
            xs = list(v.elts)
        elif isinstance(v, Ref):
            r = st.heap.get(v.id)
            if isinstance(r, ListRec) and r.elts:
                xs = list(r.elts)
        if xs is None:
            o = op_of(I, v, st)
            if o.shape == () and o.num:
                return o.num
            return Num(named_opaque("%s%d" % (kind, o.vn)), o.lo, o.hi,
                       o.dtype[0] in "iu", o.unit, o.nz)
    else:
        xs = list(args)
    nv = [x for x in xs if isinstance(x, NoneVal)]
    if nv:
        I.emit("none_use", node, st, how=kind, val=nv[0])
        raise Dead()
    os_ = [op_of(I, x, st) for x in xs]
    if all(o.num is not None for o in os_):
        p = reduce_mm(kind, [o.num.sym for o in os_], st)
        unit = None
        for o in os_:
            unit = join_unit(unit, o.unit)
        lo = hi = None
        if p.has_opaque():
            if kind == "max":
                for o in os_:
                    if o.lo is not None:
                        lo = o.lo if lo is None else S.pmax(lo, o.lo)
                hi = os_[0].hi
                for o in os_[1:]:
                    hi = join_bound(hi, o.hi, "hi")
            else:
                for o in os_:
                    if o.hi is not None:
                        hi = o.hi if hi is None else S.pmin(hi, o.hi)
                lo = os_[0].lo
                for o in os_[1:]:
                    lo = join_bound(lo, o.lo, "lo")
        return Num(p, bnd(lo), bnd(hi), all(o.num.isint for o in os_), unit,
                   all(o.nz for o in os_), ispy=all(o.num.ispy
                                                    for o in os_),
                   tags=frozenset(t for o in os_ for t in o.tags
                                  if M.keeptag(t)))
    vn = VN(kind, tuple(sorted(o.vn for o in os_)))
    lo, hi = os_[0].lo, os_[0].hi
    nz = all(o.nz for o in os_)
    if kind == "max":
        los = [o.lo for o in os_ if o.lo is not None]
        lo = S.pmax(*los) if los else None
        for o in os_[1:]:
            hi = join_bound(hi, o.hi, "hi")
    else:
        his = [o.hi for o in os_ if o.hi is not None]
        hi = S.pmin(*his) if his else None
        for o in os_[1:]:
            lo = join_bound(lo, o.lo, "lo")
    return Num(named_opaque("v%d" % vn), bnd(lo), bnd(hi),
               all(o.dtype[0] in "iu" for o in os_), None, nz)


def reduce_mm(kind, ps, st):
    """min/max with the path facts used to drop decided operands."""
    keep = []
    for p in ps:
        dom = False
        for q in keep:
            op = "<=" if kind == "max" else ">="
            if S.decide(op, p, q, st.facts) is True:
                dom = True
                break
        if dom:
            continue
        keep = [q for q in keep if S.decide(
            "<=" if kind == "max" else ">=", q, p, st.facts) is not True]
        keep.append(p)
    if len(keep) == 1:
        return keep[0]
    return S.pmax(*keep) if kind == "max" else S.pmin(*keep)


@h("builtins.min")
def b_min(I, f, n, args, kw, st, node):
    return _mm(I, "min", args, st, node)


@h("builtins.max")
def b_max(I, f, n, args, kw, st, node):
    return _mm(I, "max", args, st, node)


@h("builtins.sum")
def b_sum(I, f, n, args, kw, st, node):
    v = args[0]
    xs = None
    if isinstance(v, Tup):
        xs = v.elts
    elif isinstance(v, Ref):
        r = st.heap.get(v.id)
        if isinstance(r, ListRec) and r.elts is not None:
            xs = r.elts
    if xs is not None:
        acc = num(0)
        for x in xs:
            acc = I.binop("+", acc, x, st, node)
        return acc
    o = op_of(I, v, st)
    return Num(named_opaque("sum%d" % o.vn), isint=o.dtype[0] in "iu")


@h("builtins.round", "numpy.round", "numpy.around", "numpy.rint")
@union_map
def b_round(I, f, n, args, kw, st, node):
    v = args[0]
    if isinstance(v, Num):
        if len(args) > 1 or "decimals" in kw or "ndigits" in kw:
            return v.with_(sym=named_opaque("rnd%d" % VN(
                "rnd", v.vnum, I.vnum(st, args[1]) if len(args) > 1
                else 0)), isint=False)
        return v.with_(sym=S.rounding("round", v.sym), isint=v.isint or
                       n.startswith("builtins"),
                       lo=S.rounding("round", v.lo) if v.lo is not None
                       else None,
                       hi=S.rounding("round", v.hi) if v.hi is not None
                       else None)
    o = op_of(I, v, st)
    if not o.known:
        return Top(VN("round", o.vn))
    return out(I, st, node, o, vn=VN("round", o.vn), nz=False,
               lo=S.rounding("round", o.lo) if o.lo is not None else None,
               hi=S.rounding("round", o.hi) if o.hi is not None else None,
               tags=frozenset())


@h("math.floor", "math.ceil", "numpy.floor", "numpy.ceil", "math.trunc",
   "numpy.trunc", "numpy.fix")
@union_map
def b_floor(I, f, n, args, kw, st, node):
    kind = n.split(".")[1]
    kind = "trunc" if kind == "fix" else kind
    v = args[0]
    if isinstance(v, Num):
        return v.with_(sym=S.rounding(kind, v.sym),
                       isint=True if n.startswith("math") else v.isint,
                       lo=S.rounding(kind, v.lo) if v.lo is not None
                       else None,
                       hi=S.rounding(kind, v.hi) if v.hi is not None
                       else None, nz=False)
    o = op_of(I, v, st)
    if not o.known:
        return Top(VN(kind, o.vn))
    seq = None
    return out(I, st, node, o, vn=VN(kind, o.vn), nz=False,
               lo=S.rounding(kind, o.lo) if o.lo is not None else None,
               hi=S.rounding(kind, o.hi) if o.hi is not None else None,
               tags=frozenset())


@h("builtins.enumerate")
def b_enum(I, f, n, args, kw, st, node):
    start = args[1] if len(args) > 1 else kw.get("start", num(0))
    return I.new_obj(st, node, ObjRec("enumerate", (
        ("it", args[0]), ("start", start)), VN("enum", I.vnum(
            st, args[0]))))


@h("builtins.zip")
def b_zip(I, f, n, args, kw, st, node):
    return I.new_obj(st, node, ObjRec("zip", tuple(
        ("a%d" % i, a) for i, a in enumerate(args)), VN("zip", tuple(
            I.vnum(st, a) for a in args))))


@h("builtins.map")
def b_map(I, f, n, args, kw, st, node):
    return I.new_obj(st, node, ObjRec("map", (
        ("f", args[0]), ("it", args[1])), VN("map", I.vnum(
            st, args[0]), I.vnum(st, args[1]))))


@h("builtins.iter", "builtins.reversed", "builtins.filter", "builtins.set",
   "builtins.frozenset")
def b_iter(I, f, n, args, kw, st, node):
    v = args[-1] if args else None
    if v is None:
        return I.new_list(st, node, ListRec((), ZERO, vn=VN("list", 0)))
    if n == "builtins.iter":
        return v
    if isinstance(v, RangeVal) and n == "builtins.reversed":
        c = v.count()
        return RangeVal(v.lo + v.step * (c - ONE), v.lo - v.step, -v.step)
    elts, nn, el = materialise(I, v, st, node)
    if elts is not None:
        if n == "builtins.reversed":
            elts = list(reversed(elts))
        if n in ("builtins.reversed",):
            return I.new_list(st, node, ListRec(tuple(elts), C(len(elts)),
                                                vn=VN("list")))
        if n == "builtins.set" or n == "builtins.frozenset":
            return I.new_list(st, node, ListRec(
                tuple(elts), C(len(elts)), vn=VN("set", I.vnum(st, v))))
    if isinstance(el, StrVal):
        if n == "builtins.reversed":
            el = set_order(el, TRUE)
        elif n.endswith("set"):
            el = StrVal(el.vals, el.vn, el.tags | {("unsorted", "set")})
    return I.new_list(st, node, ListRec(
        None, nn if n == "builtins.reversed" else None, el,
        vn=VN(n, I.vnum(st, v))))


@h("builtins.next")
def b_next(I, f, n, args, kw, st, node):
    elts, nn, el = materialise(I, args[0], st, node)
    if el is not None and len(args) < 2:
        return el
    if el is not None:
        return join(el, args[1])
    return Top(VN("next", I.vnum(st, args[0])))


def materialise(I, v, st, node):
    """-> (elements|None, count, generic element|None)"""
    if isinstance(v, NoneVal):
        I.emit("none_use", node, st, how="iterate", val=v)
        raise Dead()
    elts, n, el = M.iter_any(I, v, st, node)
    if elts is not None:
        e = None
        for x in elts:
            e = x if e is None else join(e, x)
        return elts, C(len(elts)), e
    k = Poly.atom(I.loop_sym())
    x = el(k)
    if callable(x):
        x = x(st)
    return None, n, x


@h("builtins.list", "builtins.tuple", "builtins.sorted", "numpy.sort_list")
def b_list(I, f, n, args, kw, st, node):
    if not args:
        return Tup(()) if n.endswith("tuple") else I.new_list(
            st, node, ListRec((), ZERO, vn=VN("list", 0)))
    v = args[0]
    if isinstance(v, NoneVal):
        I.emit("none_use", node, st, how=n, val=v)
        raise Dead()
    if isinstance(v, Union):
        v = mkunion([a for a in v.alts if not isinstance(a, (NoneVal,
                                                             Undef))])
    srt = n.endswith("sorted")
    tags_in = listtags(I, v, st)
    ksym = I.loop_sym()
    elts, nn, el = materialise(I, v, st, node)
    if n.endswith("tuple") and elts is not None:
        return Tup(elts)
    if isinstance(el, StrVal) and srt:
        el = set_order(el, kw.get("reverse"))
    if elts is not None and not srt and len(elts) <= 16:
        return I.new_list(st, node, ListRec(tuple(elts), C(len(elts)),
                                            vn=VN("list", len(elts))))
    vn = VN(n, I.vnum(st, v), tuple(sorted((k, I.vnum(st, x))
                                           for k, x in kw.items())))
    if not srt:
        if nn is not None and el is not None:
            M.LISTGEN[(vn, nn)] = ksym
    r = ListRec(None, nn, el, vn=vn)
    if n.endswith("tuple"):
        return Top(VN("tuple", vn))
    return I.new_list(st, node, r)


def set_order(el, rev):
    """Tags of the elements of a sorted list of names."""
    up = rev is None or (isinstance(rev, BoolVal) and rev.b is False) or \
        (isinstance(rev, Num) and rev.const() == 0)
    tg = frozenset(t for t in el.tags
                   if not (isinstance(t, tuple) and t[0] == "unsorted"))
    return StrVal(el.vals, el.vn, tg | (
        frozenset() if up else {("unsorted", "reversed")}))


def listtags(I, v, st):
    return frozenset()


@h("builtins.any", "builtins.all")
def b_any(I, f, n, args, kw, st, node):
    v = args[0]
    elts = None
    if isinstance(v, Tup):
        elts = v.elts
    elif isinstance(v, Ref):
        r = st.heap.get(v.id)
        if isinstance(r, ListRec):
            elts = r.elts
    if elts is not None:
        bs = [I.truth(x, st) for x in elts]
        if n.endswith("any"):
            if True in bs:
                return TRUE
            if all(b is False for b in bs):
                return FALSE
        else:
            if False in bs:
                return FALSE
            if all(b is True for b in bs):
                return TRUE
    return BoolVal(None, VN(n, I.vnum(st, v)))


@h("builtins.isinstance")
def b_isinstance(I, f, n, args, kw, st, node):
    r = M.isinst(I, args[0], args[1], st)
    return BoolVal(r, VN("isinst", I.vnum(st, args[0]),
                         I.vnum(st, args[1])))


@h("builtins.callable")
def b_callable(I, f, n, args, kw, st, node):
    v = args[0]
    rs = set()
    for a in alts_of(v):
        if isinstance(a, Func):
            rs.add(True)
        elif isinstance(a, (Num, StrVal, BoolVal, Tup, NoneVal)) or \
                isinstance(a, Ref) and a.what in ("arr", "list", "dict"):
            rs.add(False)
        else:
            rs.add(None)
    return BoolVal(rs.pop() if len(rs) == 1 else None,
                   VN("callable", I.vnum(st, v)))


@h("builtins.print", "warnings.warn", "warnings.filterwarnings",
   "warnings.simplefilter", "sys.stdout.write", "sys.stdout.flush",
   "sys.stderr.write")
def b_print(I, f, n, args, kw, st, node):
    if n == "warnings.warn":
        I.emit("warn", node, st, args=args)
    if n in ("warnings.filterwarnings", "warnings.simplefilter") and args \
            and isinstance(args[0], StrVal):
        I.warn_err = args[0].const() == "error"
    return NONE


@h("builtins.type")
def b_type(I, f, n, args, kw, st, node):
    return Top(VN("type", I.vnum(st, args[0])))


@h("builtins.dir", "builtins.globals", "builtins.locals", "builtins.vars")
def b_dir(I, f, n, args, kw, st, node):
    if n == "builtins.dir" and args and isinstance(args[0], ModVal) and \
            isinstance(args[0].mod, str):
        return Top(VN("dir", args[0].mod), frozenset(
            [("dir", args[0].mod)]))
    if n == "builtins.dir" and args and isinstance(args[0], ModVal):
        m = args[0].mod
        names = sorted(set(m.functions) | set(m.imports) | set(m.globals)) \
            if hasattr(m, "functions") else []
        if names:
            return I.new_list(st, node, ListRec(tuple(
                strv(x) for x in names), C(len(names)), vn=VN("dirm",
                                                              m.name)))
    if n == "builtins.globals":
        return Top(VN("globals", I.mod.name), frozenset(
            [("globals", I.mod.name)]))
    return Top(VN(n, tuple(I.vnum(st, a) for a in args)))


@h("builtins.getattr")
def b_getattr(I, f, n, args, kw, st, node):
    o, nm = args[0], args[1]
    if isinstance(nm, StrVal) and nm.vals is not None:
        vs = []
        for s in sorted(nm.vals):
            if s.startswith("__sentinel") and len(args) < 3:
                # no such attribute: AttributeError
                I.emit("raise", node, st, exc="AttributeError")
                I.exc_out[-1].append(("AttributeError", st.copy(), node))
                continue
            if s.startswith("__sentinel"):
                vs.append(args[2])
                continue
            try:
                vs.append(I.attr(o, s, st, node))
            except Exception as e:
                if type(e).__name__ != "Dead":
                    raise
        if not vs:
            raise Dead()
        x = vs[0]
        for y in vs[1:]:
            x = join(x, y)
        return x
    I.emit("getattr_dyn", node, st, base=o, name=nm)
    return Top(VN("getattr", I.vnum(st, o), I.vnum(st, nm)))


@h("builtins.hasattr")
def b_hasattr(I, f, n, args, kw, st, node):
    v, nm = args[0], args[1]
    c = nm.const() if isinstance(nm, StrVal) else None
    rs = set()
    for a in alts_of(v):
        r = None
        if isinstance(a, Ref):
            rec = st.heap.get(a.id)
            if isinstance(rec, ArrRec):
                r = c in ("shape", "ndim", "dtype", "size", "T",
                          "__len__", "astype") or None
                if r is None and c in ("append", "keys", "items"):
                    r = False
            elif isinstance(rec, ListRec):
                r = c in ("__len__", "append", "__iter__", "sort")
            elif isinstance(rec, DictRec):
                r = c in ("__len__", "items", "keys", "values", "get")
        elif isinstance(a, (Num, NoneVal, BoolVal)):
            r = False if c in ("shape", "__len__", "__iter__") else None
        elif isinstance(a, (Tup, StrVal)):
            r = False if c in ("shape", "ndim", "dtype") else None
        rs.add(r)
    return BoolVal(rs.pop() if len(rs) == 1 else None,
                   VN("hasattr", I.vnum(st, v), c))


@h("builtins.dict", "collections.OrderedDict")
def b_dict(I, f, n, args, kw, st, node):
    if not args:
        return I.new_dict(st, node, DictRec(tuple(kw.items()), True))
    if isinstance(args[0], Ref):
        r = st.heap.get(args[0].id)
        if isinstance(r, DictRec):
            return I.new_dict(st, node, r.upd(roots=frozenset()))
    return I.new_dict(st, node, DictRec((), False))


@h("collections.deque")
def b_deque(I, f, n, args, kw, st, node):
    return b_list(I, f, "builtins.list", args, {}, st, node)


@h("builtins.slice")
def b_slice(I, f, n, args, kw, st, node):
    a = [None if isinstance(x, NoneVal) else x for x in args]
    if len(a) == 1:
        return SliceVal(None, a[0], None)
    return SliceVal(a[0], a[1], a[2] if len(a) > 2 else None)


@h("builtins.divmod")
def b_divmod(I, f, n, args, kw, st, node):
    return Tup((I.binop("//", args[0], args[1], st, node),
                I.binop("%", args[0], args[1], st, node)))


@h("builtins.pow", "math.pow", "numpy.power", "numpy.float_power")
def b_pow(I, f, n, args, kw, st, node):
    return I.binop("**", args[0], args[1], st, node)


@h("builtins.id", "builtins.hash")
def b_id(I, f, n, args, kw, st, node):
    I.emit("nondet", node, st, name=n)
    return Num(named_opaque("id%d" % I.vnum(st, args[0])), isint=True)


# ------------------------------------------------------------- math
@h("math.sin", "math.cos", "math.tan", "math.sqrt", "math.exp", "math.log",
   "math.log2", "math.log10", "math.atan2", "math.atan", "math.hypot",
   "math.radians", "math.degrees", "math.asin", "math.acos", "math.tanh")
def b_math(I, f, n, args, kw, st, node):
    from . import npmodel
    nm = n.split(".")[1]
    alias = {"radians": "deg2rad", "degrees": "rad2deg",
             "atan2": "arctan2", "atan": "arctan", "asin": "arcsin",
             "acos": "arccos"}
    full = "numpy." + alias.get(nm, nm)
    return npmodel.HANDLERS[full](I, f, full, args, kw, st, node)


# ------------------------------------------------------------- random, time
def nondet(I, f, n, args, kw, st, node):
    I.emit("nondet", node, st, name=n)
    vn = VN("rand", n, tuple(I.vnum(st, a) for a in args), id(node))
    if n.startswith("numpy.random"):
        from . import npmodel
        size = kw.get("size")
        last = n.split(".")[-1]
        if last == "rand":
            size = Tup(args) if args else None
        elif last in ("normal", "randint", "uniform", "poisson"):
            if size is None and len(args) > 2:
                size = args[2]
        if size is not None:
            sh = npmodel.shape_arg(I, size, st)
            return I.new_arr(st, node, ArrRec(
                sh, "i8" if last == "randint" else "f8", None, None, False,
                None, vn))
        lo = hi = None
        if last == "randint" and len(args) == 2:
            lo, hi = num1(I, args[0], st), num1(I, args[1], st)
            hi = hi - ONE if hi is not None else None
        return Num(named_opaque("r%d" % vn), lo, hi, last == "randint")
    return Top(vn)


def clock(I, f, n, args, kw, st, node):
    I.emit("clock", node, st, name=n)
    return Num(named_opaque("t%d" % VN("clock", n)), isint=False)


@h("os.urandom", "uuid.uuid4", "uuid.uuid1", "os.getpid", "tempfile.mktemp",
   "tempfile.gettempdir", "secrets.token_hex")
def b_urandom(I, f, n, args, kw, st, node):
    I.emit("nondet", node, st, name=n)
    return Top(VN("rand", n, id(node)))


@h("os.getenv", "os.environ.get")
def b_env(I, f, n, args, kw, st, node):
    I.emit("nondet", node, st, name=n)
    return Top(VN("env", tuple(I.vnum(st, a) for a in args)))


@h("multiprocessing.cpu_count", "os.cpu_count")
def b_cpu(I, f, n, args, kw, st, node):
    I.emit("cpu_count", node, st)
    return Num(Poly.sym("NCPU", 1), isint=True, ispy=True)


@h("platform.system")
def b_platform(I, f, n, args, kw, st, node):
    return StrVal(frozenset(["Linux"]))


@h("copy.copy", "copy.deepcopy")
def b_copy(I, f, n, args, kw, st, node):
    v = args[0]
    if isinstance(v, Ref):
        r = st.heap.get(v.id)
        if isinstance(r, ArrRec):
            return I.new_arr(st, node, r.upd(roots=frozenset(), parent=None,
                                             view=None))
        if isinstance(r, ListRec):
            e = r.upd(roots=frozenset())
            if n.endswith("deepcopy") and r.elts is not None:
                e = e.upd(elts=tuple(
                    b_copy(I, f, n, [x], {}, st, node) if isinstance(x, Ref)
                    else x for x in r.elts))
            return I.new_list(st, node, e, "cp")
        if isinstance(r, DictRec):
            return I.new_dict(st, node, r.upd(roots=frozenset()), "cp")
    return v


# ---------------------------------------------------------- list methods
def lrec(I, f, st):
    return st.heap.get(f.self_.id)


@h("list.append")
def l_append(I, f, n, args, kw, st, node):
    r = lrec(I, f, st)
    I.mutate(st, f.self_, node, "append")
    v = args[0]
    if r.elts is not None and len(r.elts) < 16:
        st.heap[f.self_.id] = r.upd(elts=r.elts + (v,),
                                    n=C(len(r.elts) + 1))
        return NONE
    e = list_elem(r)
    st.heap[f.self_.id] = ListRec(
        None, r.n + ONE if r.n is not None else None,
        v if e is None else join(e, v), r.roots,
        VN("app", r.vn, I.vnum(st, v)))
    return NONE


@h("list.extend")
def l_extend(I, f, n, args, kw, st, node):
    r = lrec(I, f, st)
    I.mutate(st, f.self_, node, "extend")
    elts, nn, el = materialise(I, args[0], st, node)
    if r.elts is not None and elts is not None and \
            len(r.elts) + len(elts) <= 16:
        es = r.elts + tuple(elts)
        st.heap[f.self_.id] = r.upd(elts=es, n=C(len(es)))
        return NONE
    e = list_elem(r)
    e2 = e if el is None else el if e is None else join(e, el)
    st.heap[f.self_.id] = ListRec(
        None, r.n + nn if r.n is not None and nn is not None else None, e2,
        r.roots, VN("ext", r.vn, I.vnum(st, args[0])))
    return NONE


@h("list.insert", "list.pop", "list.popleft", "list.appendleft",
   "list.remove", "list.clear", "list.sort", "list.reverse")
def l_mut(I, f, n, args, kw, st, node):
    r = lrec(I, f, st)
    m = n.split(".")[1]
    I.mutate(st, f.self_, node, m)
    if m in ("sort", "reverse") and r.elts is None and \
            isinstance(r.elem, StrVal):
        rev = TRUE if m == "reverse" else kw.get("reverse")
        st.heap[f.self_.id] = r.upd(elem=set_order(r.elem, rev),
                                    vn=VN("list", m, r.vn))
        return NONE
    if m == "reverse" and r.elts is not None:
        st.heap[f.self_.id] = r.upd(elts=tuple(reversed(r.elts)))
        return NONE
    if m == "clear":
        st.heap[f.self_.id] = r.upd(elts=(), n=ZERO, elem=None)
        return NONE
    if m == "insert" and r.elts is not None and isinstance(args[0], Num) \
            and args[0].const() is not None:
        es = list(r.elts)
        es.insert(int(args[0].const()), args[1])
        st.heap[f.self_.id] = r.upd(elts=tuple(es), n=C(len(es)))
        return NONE
    if m in ("pop", "popleft") and r.elts and (
            not args or isinstance(args[0], Num) and
            args[0].const() is not None):
        es = list(r.elts)
        i = 0 if m == "popleft" else int(args[0].const()) if args else -1
        if -len(es) <= i < len(es):
            v = es.pop(i)
            st.heap[f.self_.id] = r.upd(elts=tuple(es), n=C(len(es)))
            return v
    e = list_elem(r)
    if m in ("insert", "appendleft"):
        v = args[-1]
        e = v if e is None else join(e, v)
    nn = r.n
    if nn is not None:
        if m in ("insert", "appendleft"):
            nn = nn + ONE
        elif m in ("pop", "popleft", "remove"):
            nn = nn - ONE
    st.heap[f.self_.id] = ListRec(
        None, nn, e, r.roots,
        VN(m, r.vn, tuple(I.vnum(st, a) for a in args)))
    if m in ("pop", "popleft"):
        return e if e is not None else Top(VN("pop", r.vn))
    return NONE


@h("list.copy")
def l_copy(I, f, n, args, kw, st, node):
    return I.new_list(st, node, lrec(I, f, st).upd(roots=frozenset()))


@h("list.index", "list.count", "tuple.index", "tuple.count")
def l_index(I, f, n, args, kw, st, node):
    return Num(named_opaque("ix%d" % VN(n, I.vnum(st, f.self_),
                                        I.vnum(st, args[0]))), ZERO, None,
               True)


# ---------------------------------------------------------- dict methods
@h("dict.get", "dict.setdefault", "dict.pop")
def d_get(I, f, n, args, kw, st, node):
    r = lrec(I, f, st)
    m = n.split(".")[1]
    if m != "get":
        I.mutate(st, f.self_, node, m)
    k = args[0].const() if isinstance(args[0], (StrVal, Num)) else None
    d = dict(r.items)
    dflt = args[1] if len(args) > 1 else NONE
    if k is not None and k in d:
        return d[k]
    if k is not None and r.closed:
        if m == "setdefault":
            st.heap[f.self_.id] = r.upd(items=r.items + ((k, dflt),))
        return dflt
    return Top(VN("get", I.vnum(st, f.self_), I.vnum(st, args[0])))


@h("dict.keys", "dict.values", "dict.items")
def d_items(I, f, n, args, kw, st, node):
    r = lrec(I, f, st)
    m = n.split(".")[1]
    if r.closed:
        if m == "keys":
            es = [strv(k) if isinstance(k, str) else num(k)
                  for k, _ in r.items]
        elif m == "values":
            es = [v for _, v in r.items]
        else:
            es = [Tup((strv(k) if isinstance(k, str) else num(k), v))
                  for k, v in r.items]
        return I.new_list(st, node, ListRec(tuple(es), C(len(es)),
                                            vn=VN("list", len(es))))
    vn = VN(n, I.vnum(st, f.self_))
    kv = StrVal(None, VN("key", vn))
    vv = Top(VN("value", vn))
    el = {"keys": kv, "values": vv, "items": Tup((kv, vv))}[m]
    return I.new_list(st, node, ListRec(None, None, el, vn=vn))


@h("dict.update", "dict.clear", "dict.popitem")
def d_update(I, f, n, args, kw, st, node):
    r = lrec(I, f, st)
    I.mutate(st, f.self_, node, n.split(".")[1])
    items = dict(r.items)
    closed = r.closed
    for a in args:
        ra = st.heap.get(a.id) if isinstance(a, Ref) else None
        if isinstance(ra, DictRec):
            items.update(dict(ra.items))
            closed = closed and ra.closed
        else:
            closed = False
    items.update(kw)
    st.heap[f.self_.id] = r.upd(items=tuple(items.items()), closed=closed)
    return NONE


@h("dict.copy")
def d_copy(I, f, n, args, kw, st, node):
    return I.new_dict(st, node, lrec(I, f, st).upd(roots=frozenset()))


@h("top.sort", "top.fill", "top.append", "top.extend", "top.insert",
   "top.pop", "top.clear", "top.update", "top.remove", "top.reverse",
   "top.resize", "top.put", "top.partition", "top.itemset",
   "top.setdefault")
def top_mut(I, f, n, args, kw, st, node):
    I.mutate(st, f.self_, node, n.split(".")[1])
    return Top(VN(n, f.self_.vn, tuple(I.vnum(st, a) for a in args)))


@h("top.copy", "top.astype", "top.flatten", "top.tolist")
def top_copy(I, f, n, args, kw, st, node):
    return Top(VN(n, f.self_.vn, tuple(I.vnum(st, a) for a in args)))


# -------------------------------------------------------- joblib, threads
@h("joblib.Parallel")
def parallel(I, f, n, args, kw, st, node):
    I.emit("parallel", node, st, args=args, kwargs=kw)
    return Func("joblib.Parallel()", extra=None)


@h("joblib.Parallel()")
def parallel_run(I, f, n, args, kw, st, node):
    v = args[0]
    if isinstance(v, Ref) and isinstance(st.heap.get(v.id), ListRec):
        return v
    elts, nn, el = materialise(I, v, st, node)
    if elts is not None:
        return I.new_list(st, node, ListRec(tuple(elts), C(len(elts)),
                                            vn=VN("list")))
    return I.new_list(st, node, ListRec(None, nn, el, vn=VN(
        "par", I.vnum(st, v))))


@h("joblib.delayed")
def delayed(I, f, n, args, kw, st, node):
    I.emit("delayed", node, st, f=args[0])
    return args[0]


@h("functools.partial")
def partial(I, f, n, args, kw, st, node):
    if isinstance(args[0], Func) and not kw:
        a = args[0]
        return Func(a.fn, tuple(a.pre) + tuple(args[1:]), a.self_, a.extra)
    return None


# -------------------------------------------------------------- numba
@h("numba.jit", "numba.njit", "numba.cuda.jit")
def nbjit(I, f, n, args, kw, st, node):
    if args and isinstance(args[0], Func):
        return args[0]
    return Top(VN("jit"))


@h("numba.cuda.is_available")
def cuda_avail(I, f, n, args, kw, st, node):
    mode = I.opts.get("cuda")
    I.emit("cuda_avail", node, st)
    if mode is None:
        return BoolVal(None, VN("cuda_available"), frozenset(["cuda"]))
    return BoolVal(bool(mode))


@h("numba.cuda.grid")
def cuda_grid(I, f, n, args, kw, st, node):
    d = args[0].const() if args and isinstance(args[0], Num) else None
    I.emit("cuda_grid", node, st, ndim=d)
    names = I.opts.get("grid") or ("gx", "gy", "gz")
    vs = []
    for i in range(int(d or 1)):
        nm = names[i]
        if nm not in S.SYMS:
            S.declare(nm, 0, INF, True)
        vs.append(Num(Poly.atom(("s", nm)), isint=True))
    return vs[0] if len(vs) == 1 else Tup(vs)


def _cuda_dim(I, f, n, args, kw, st, node):
    return None


@h("numba.cuda.to_device", "numba.cuda.device_array_like")
def to_device(I, f, n, args, kw, st, node):
    I.emit("gpu_use", node, st, name=n)
    return args[0]


@h("numba.cuda.device_array", "numba.cuda.pinned_array",
   "numba.cuda.mapped_array")
def device_array(I, f, n, args, kw, st, node):
    from . import npmodel
    I.emit("gpu_use", node, st, name=n)
    return npmodel.HANDLERS["numpy.empty"](I, f, "numpy.empty", args, kw,
                                           st, node)


@h("numba.cuda.synchronize", "numba.cuda.syncthreads",
   "numba.cuda.current_context", "numba.cuda.close",
   "numba.cuda.get_current_device", "numba.cuda.select_device")
def cuda_misc(I, f, n, args, kw, st, node):
    if not n.endswith("syncthreads"):
        I.emit("gpu_use", node, st, name=n)
    return Top(VN(n))


@h("numba.cuda.atomic.add", "numba.cuda.atomic.max", "numba.cuda.atomic.min")
def cuda_atomic(I, f, n, args, kw, st, node):
    arr, idx, v = args[0], args[1], args[2]
    I.emit("atomic", node, st, ref=arr, idx=idx)
    M.store_sub(I, arr, idx, Top(VN("atomic")), st, node, aug=("atomic", v))
    return Top(VN("atomic"))


@h("numba.cuda.local.array", "numba.cuda.shared.array")
def cuda_local(I, f, n, args, kw, st, node):
    from . import npmodel
    r = npmodel.HANDLERS["numpy.empty"](I, f, "numpy.empty", args[:1], {},
                                        st, node)
    rec = st.heap[r.id]
    st.heap[r.id] = rec.upd(tags=rec.tags | {
        "private" if "local" in n else "shared"})
    return r


@h("warnings.catch_warnings", "numpy.errstate")
def b_ctx(I, f, n, args, kw, st, node):
    return I.new_obj(st, node, ObjRec("ctx", vn=VN("ctx")))


@h("os.path.join_", "sys.exit", "builtins.exit")
def b_exit(I, f, n, args, kw, st, node):
    I.emit("raise", node, st, exc="SystemExit")
    I.exc_out[-1].append(("SystemExit", st.copy(), node))
    raise Dead()
