"""Semantics of operators, builtins and containers for the interpreter.
numpy/scipy live in npmodel.py, files and processes in iomodel.py."""
import ast
from fractions import Fraction
from .sym import Poly, C, ZERO, ONE, INF, named_opaque
from . import sym as S
from .values import *
from .values import list_elem, tag_name
from .project import FuncInfo

BUILTINS = set("""len range int float str abs min max sum round sorted zip
enumerate isinstance print list tuple dict set bool any all map filter getattr
hasattr setattr callable type iter next open reversed divmod pow slice repr
globals locals dir vars id hash format ValueError TypeError Exception KeyError
IndexError ImportError IOError OSError FileNotFoundError RuntimeError
NotImplementedError UserWarning StopIteration AttributeError object super
frozenset complex bytes ord chr input eval exec AssertionError
DeprecationWarning RuntimeWarning property staticmethod""".split())

EXT_MODULES = set("""numpy numpy.fft numpy.linalg numpy.random scipy
scipy.ndimage scipy.signal scipy.signal.windows scipy.interpolate
scipy.interpolate scipy.fft scipy.stats math os os.path sys time timeit shutil
warnings h5py PIL glob platform multiprocessing numba numba.cuda joblib pywt
pathlib copy random astra tomopy numpy.ndarray numpy.multiply numba.core
numba.core.errors collections functools itertools datetime scipy.optimize
tempfile io PIL.Image operator string uuid secrets""".split())

EXC = {"ValueError", "TypeError", "Exception", "KeyError", "IndexError",
       "ImportError", "IOError", "OSError", "FileNotFoundError",
       "RuntimeError", "NotImplementedError"}

S.declare("pi", Fraction(314159, 100000), Fraction(31416, 10000), False)
PI = Poly.atom(("s", "pi"))
REPO_PRIMITIVES = {}

STRPARTS = {}          # vn -> tuple of parts, how a string is put together


def ext_const(I, full):
    if full in ("numpy.pi", "math.pi", "scipy.pi", "numpy.pi"):
        return Num(PI, isint=False, nz=True)
    if full in ("numpy.inf", "math.inf", "numpy.nan", "math.nan", "numpy.e",
                "math.e"):
        return Num(named_opaque(full), isint=False, nz=True)
    if full in ("numpy.newaxis",):
        return NONE
    if full in ("os.sep", "os.path.sep", "os.linesep"):
        return strv("/")
    return None


# ------------------------------------------------------------ operands
class Op:
    """Uniform look at a scalar or an array operand."""
    __slots__ = ("v", "num", "shape", "dtype", "lo", "hi", "nz", "unit", "vn",
                 "tags", "mask", "seq", "roots", "rec", "known")


def op_of(I, v, st):
    o = Op()
    o.v = v
    o.num = None
    o.mask = o.seq = o.rec = None
    o.roots = frozenset()
    o.known = True
    if isinstance(v, BoolVal):
        o.shape, o.dtype = (), "b1"
        o.lo, o.hi, o.nz, o.unit = ZERO, ONE, v.b is True, None
        o.vn, o.tags = v.vnum, v.tags
        if v.b is not None:
            o.num = num(int(v.b))
        return o
    if isinstance(v, Num):
        o.num = v
        o.shape = ()
        o.dtype = "i8" if v.isint else "f8"
        b = v.sym
        o.lo = v.lo if v.lo is not None else b
        o.hi = v.hi if v.hi is not None else b
        if b.has_opaque():
            if v.lo is None:
                l = S.bounds(b)[0]
                o.lo = C(l) if l != -INF else None
            if v.hi is None:
                h = S.bounds(b)[1]
                o.hi = C(h) if h != INF else None
        o.nz = v.nz or S.is_pos(b) or S.is_pos(-b)
        o.unit, o.vn, o.tags = v.unit, v.vnum, v.tags
        return o
    if isinstance(v, Ref):
        r = st.heap.get(v.id)
        if isinstance(r, ArrRec):
            o.rec = r
            for f in ("shape", "dtype", "lo", "hi", "nz", "unit", "vn",
                      "tags", "mask", "seq", "roots"):
                setattr(o, f, getattr(r, f))
            return o
        if isinstance(r, ListRec):
            return op_list(I, r, st, I.vnum(st, v), o)
    if isinstance(v, Tup):
        return op_list(I, ListRec(v.elts, C(len(v.elts))), st,
                       I.vnum(st, v), o)
    if isinstance(v, RangeVal):
        n = v.count()
        o.shape = (n,)
        o.dtype = "i8"
        o.lo = o.hi = None
        if S.is_nonneg(v.step):
            o.lo, o.hi = v.lo, v.hi - ONE
        o.nz, o.unit = False, None
        o.vn, o.tags = v.vnum, frozenset()
        o.seq = (v.lo, v.step)
        return o
    if isinstance(v, Union):
        os_ = [op_of(I, a, st) for a in v.alts
               if not isinstance(a, (NoneVal, Undef))]
        if os_:
            r = os_[0]
            for x in os_[1:]:
                r = op_join(r, x, v)
            r.vn = I.vnum(st, v)
            return r
    o.shape = None
    o.dtype = "?"
    o.lo = o.hi = None
    o.nz = False
    o.unit = None
    o.known = False
    o.vn = I.vnum(st, v)
    o.tags = v.tags if isinstance(v, (Top, StrVal)) else frozenset()
    o.roots = frozenset(t[1] for t in o.tags
                        if isinstance(t, tuple) and t[0] == "root")
    return o


def op_join(a, b, v):
    o = Op()
    o.v = v
    o.num = a.num if a.num == b.num else None
    o.shape = join_shape(a.shape, b.shape)
    o.dtype = a.dtype if a.dtype == b.dtype else "?"
    o.lo = join_bound(a.lo, b.lo, "lo")
    o.hi = join_bound(a.hi, b.hi, "hi")
    o.nz = a.nz and b.nz
    o.unit = join_unit(a.unit, b.unit)
    o.vn = VN("phi", *sorted((a.vn, b.vn)))
    o.tags = a.tags | b.tags
    o.mask = None
    o.seq = a.seq if a.seq == b.seq else None
    o.roots = a.roots | b.roots
    o.rec = None
    o.known = a.known and b.known
    return o


def op_list(I, r, st, vn, o):
    e = list_elem(r)
    o.vn = vn
    o.tags = frozenset()
    if e is None:
        o.shape, o.dtype, o.lo, o.hi = (r.n,), "f8", None, None
        o.nz, o.unit = False, None
        return o
    eo = op_of(I, e, st)
    o.shape = (r.n,) + eo.shape if eo.shape is not None else None
    o.dtype = eo.dtype
    o.lo, o.hi, o.nz, o.unit = eo.lo, eo.hi, eo.nz, eo.unit
    o.known = eo.known
    if isinstance(e, Num) and (e.lo is None or e.hi is None):
        # element expression may mention a loop symbol
        if any(a[0] == "s" and a[1].startswith("k") and a[1][1:].isdigit()
               for a in e.sym.all_atoms()):
            b = S.bounds(e.sym)
            o.lo = C(b[0]) if b[0] != -INF else None
            o.hi = C(b[1]) if b[1] != INF else None
    o.tags = frozenset(t for t in eo.tags if t in CONTENT)
    if r.elts is not None and len(r.elts) >= 1 and all(
            isinstance(x, Num) for x in r.elts):
        o.dtype = "i8" if all(x.isint for x in r.elts) else "f8"
    return o


CONTENT = {"meas", "flat", "dark", "ffdiff", "mean", "affine", "clipped"}


def rec_of(o, **kw):
    d = dict(shape=o.shape, dtype=o.dtype, lo=o.lo, hi=o.hi, nz=o.nz,
             unit=o.unit, vn=o.vn, tags=o.tags, mask=o.mask, seq=o.seq,
             roots=frozenset())
    d.update(kw)
    return ArrRec(**d)


def bnd(p):
    """Drop bounds that say nothing."""
    if p is None:
        return None
    if p.has_opaque():
        return None
    return p


def out(I, st, node, o, scalar_ok=True, **kw):
    """Result value with the facts of o: a Num when 0-dimensional."""
    d = dict(shape=o.shape, dtype=o.dtype, lo=o.lo, hi=o.hi, nz=o.nz,
             unit=o.unit, vn=o.vn, tags=o.tags)
    d.update(kw)
    if d["shape"] == () and scalar_ok:
        return Num(named_opaque("v%d" % d["vn"]), d["lo"], d["hi"],
                   d["dtype"][0] in "iub", d["unit"], d["nz"],
                   tags=d["tags"])
    return I.new_arr(st, node, ArrRec(**d), kw.get("tag", ""))


# ------------------------------------------------------------ broadcast
def dims_differ(I, a, b, st):
    """A witness valuation for a != b (with neither equal to one)."""
    if a is None or b is None or a == b:
        return None
    if a == ONE or b == ONE:
        return None
    w = find_diff(a, b, st.facts)
    return w


_fd = {}


def find_diff(a, b, facts):
    d = a - b
    if not d.t or d.has_opaque():
        return None
    key = (a, b, facts)
    if key in _fd:
        return _fd[key]
    if len(_fd) > 50000:
        _fd.clear()
    r = S.find_difference(a, b, facts)
    _fd[key] = r
    return r


def broadcast(I, shapes, st, node, what="combine"):
    known = [s for s in shapes if s is not None]
    if len(known) != len(shapes):
        return None
    n = max(len(s) for s in known)
    outd = []
    for i in range(1, n + 1):
        cur = ONE
        for s in known:
            if len(s) < i:
                continue
            d = s[-i]
            if d == ONE:
                continue
            if cur is not None and cur == ONE:
                cur = d
                continue
            if d is None or cur is None:
                if cur is None and d is not None and \
                        S.decide("!=", d, ONE, st.facts) is True:
                    cur = d
                elif d is None and cur is not None and \
                        S.decide("!=", cur, ONE, st.facts) is True:
                    pass
                else:
                    cur = None
                continue
            if d == cur:
                continue
            w = dims_differ(I, cur, d, st)
            if w is not None and S.decide("!=", d, ONE, st.facts) is True \
                    and S.decide("!=", cur, ONE, st.facts) is True:
                I.emit("shape_mismatch", node, st, how=what, a=cur, b=d,
                       witness=w, shapes=shapes, axis=-i)
            elif d.has_opaque() and not cur.has_opaque():
                pass
            elif cur.has_opaque() and not d.has_opaque():
                cur = d
        outd.append(cur)
    return tuple(reversed(outd))


# ------------------------------------------------------------ arithmetic
def badd(a, b):
    return a + b if a is not None and b is not None else None


def neg_b(a):
    return -a if a is not None else None


def sgn(lo, hi, nz):
    """'+' (>0), '0+' (>=0), '-', '0-', '?'"""
    if lo is not None:
        l = S.bounds(lo)[0]
        if l > 0 or (l >= 0 and nz):
            return "+"
        if l >= 0:
            return "0+"
    if hi is not None:
        h = S.bounds(hi)[1]
        if h < 0 or (h <= 0 and nz):
            return "-"
        if h <= 0:
            return "0-"
    return "?"


def bmul(a, b):
    """(lo, hi) of a product."""
    sa, sb = sgn(a.lo, a.hi, a.nz), sgn(b.lo, b.hi, b.nz)
    lo = hi = None
    pa, pb = sa in ("+", "0+"), sb in ("+", "0+")
    na, nb = sa in ("-", "0-"), sb in ("-", "0-")
    if pa and pb:
        lo = a.lo * b.lo
        hi = a.hi * b.hi if a.hi is not None and b.hi is not None else None
    elif pa and nb:
        lo = a.hi * b.lo if a.hi is not None and b.lo is not None else None
        hi = a.lo * b.hi
    elif na and pb:
        lo = a.lo * b.hi if a.lo is not None and b.hi is not None else None
        hi = a.hi * b.lo
    elif na and nb:
        lo = a.hi * b.hi
    else:
        # constant sign factor on one side
        for x, y in ((a, b), (b, a)):
            s = sgn(y.lo, y.hi, y.nz)
            if y.lo is not None and y.lo == y.hi and s in ("+", "0+"):
                lo = x.lo * y.lo if x.lo is not None else None
                hi = x.hi * y.lo if x.hi is not None else None
                return lo, hi
            if y.lo is not None and y.lo == y.hi and s in ("-", "0-"):
                lo = x.hi * y.lo if x.hi is not None else None
                hi = x.lo * y.lo if x.lo is not None else None
                return lo, hi
        for x, y in ((a, b), (b, a)):
            s = sgn(y.lo, y.hi, y.nz)
            if s in ("+", "0+") and y.hi is not None and x.lo is not None \
                    and x.hi is not None:
                lo = S.pmin(x.lo * y.hi, ZERO)
                hi = S.pmax(x.hi * y.hi, ZERO)
                return lo, hi
    return lo, hi


def bdiv(a, b):
    sb = sgn(b.lo, b.hi, b.nz)
    if b.lo is not None and b.lo == b.hi and sb in ("+", "-") and \
            b.lo.t:
        c = Op()
        c.lo = c.hi = S.inv(b.lo)
        c.nz = True
        return bmul(a, c)
    sa = sgn(a.lo, a.hi, a.nz)
    if sa in ("+", "0+") and sb in ("+", "0+"):
        lo = ZERO
        hi = None
        if a.hi is not None and b.lo is not None and S.is_pos(b.lo):
            hi = S.div(a.hi, b.lo)
        return lo, hi
    if sb == "+" and b.lo is not None and S.is_pos(b.lo) and \
            a.lo is not None and a.hi is not None:
        return (S.pmin(S.div(a.lo, b.lo), ZERO),
                S.pmax(S.div(a.hi, b.lo), ZERO))
    return None, None


def unit_mul(u, other):
    """Unit of an angle times a scalar whose polynomial is `other`."""
    if u is None or other is None:
        return u
    c = other
    if u == "deg" and c == PI.scale(Fraction(1, 180)):
        return "rad"
    if u == "rad" and c == S.inv(PI).scale(Fraction(180)):
        return "deg"
    if u == "rad" and c == PI.scale(Fraction(1, 180)):
        return "rad*pi/180"
    at = c.all_atoms()
    haspi = ("s", "pi") in at
    v = None
    if u == "deg" and haspi and c == PI:
        return "degpi"
    if u == "rad" and c == PI:
        return "radpi"
    if u == "degpi" and c == C(Fraction(1, 180)):
        return "rad"
    if u == "radpi" and c == C(Fraction(1, 180)):
        return "rad*pi/180"
    if u == "deg" and c == C(Fraction(1, 180)):
        return "deg/180"
    if u == "deg/180" and c == PI:
        return "rad"
    if u == "rad" and c == C(180):
        return "rad180"
    if u == "rad180" and c == S.inv(PI):
        return "deg"
    if u == "rad" and c == S.inv(PI):
        return "rad/pi"
    if u == "rad/pi" and c == C(180):
        return "deg"
    if haspi:
        return None
    return u


def dt_join(a, b, op):
    if op == "/":
        if a == "?" or b == "?":
            return "?"
        if a[0] == "c" or b[0] == "c":
            return "c16"
        return "f8"
    if a == b:
        return a
    if a == "?" or b == "?":
        return "?"
    rank = "buifc"
    ra, rb = rank.index(a[0]), rank.index(b[0])
    if ra != rb:
        return a if ra > rb else b
    return max(a, b)


def tags_bin(op, a, b):
    """Which content marks survive an operation."""
    t = set()
    A, B = a.tags, b.tags
    if op == "-":
        if "meas" in A and ("dark" in B):
            t.add("meas")
        if "flat" in A:
            t.add("ffdiff")
    elif op in ("*", "/"):
        if "meas" in A:
            t.add("meas")
        if op == "*" and "meas" in B:
            t.add("meas")
        if "ffdiff" in A or (op == "*" and "ffdiff" in B):
            t.add("ffdiff")
        for x, y in ((A, b), (B, a)):
            if y.shape == ():
                for n in ("flat", "dark"):
                    if n in x and (op == "*" or x is A):
                        t.add(n)
    for x, y in ((A, b), (B, a)):
        if op in ("+", "-", "*", "/") and y.shape == () and (
                x is A or op != "/"):
            if "clipped" in x:
                t.add("clipped")
            elif "meas" in x or "affine" in x:
                t.add("affine")
    return frozenset(t) | frozenset(
        x for x in A | B if isinstance(x, tuple) and x[0] == "dep")


def minmax_step(I, op, a, b, vn):
    """Recognises k * (x - min(x)) / (max(x) - min(x)): k."""
    ra, rb = I.red.get(a.vn), I.red.get(b.vn)
    if op == "-":
        if rb and rb[0] == "min" and a.vn in rb[1]:
            I.red[vn] = ("xmin", rb[1], ONE)
        elif ra and rb and ra[0] == "max" and rb[0] == "min" and \
                ra[1] == rb[1]:
            I.red[vn] = ("range", ra[1])
        elif ra and ra[0] == "clip" and ra[1] == b.vn:
            I.red[vn] = ("xmin", ra, ONE)
        if vn not in I.red:
            I.red[vn] = ("diff", a.vn, b.vn)
    elif op == "*":
        for x, y in ((ra, b), (rb, a)):
            if x and x[0] == "xmin" and y.num is not None and \
                    S.is_pos(y.num.sym):
                I.red[vn] = ("xmin", x[1], x[2] * y.num.sym)
    elif op == "/" and ra and rb and ra[0] == "xmin" and len(ra) == 3:
        if rb == ("range", ra[1]):
            return ra[2]
        if ra[1] and ra[1][0] == "clip" and rb[0] in ("diff", "range"):
            lo, hi = I.red.get(ra[1][1]), I.red.get(ra[1][2])
            if rb == ("diff", ra[1][2], ra[1][1]) or (
                    rb[0] == "range" and lo == ("min", rb[1]) and
                    hi == ("max", rb[1])):
                return ra[2]
    return None


def binop(I, op, l, r, st, node):
    if isinstance(l, Union) or isinstance(r, Union):
        ls = [a for a in alts_of(l) if not isinstance(a, Undef)]
        rs = [a for a in alts_of(r) if not isinstance(a, Undef)]
        good_l = [a for a in ls if not isinstance(a, NoneVal)] or ls
        good_r = [a for a in rs if not isinstance(a, NoneVal)] or rs
        if len(good_l) * len(good_r) <= 9:
            res = []
            for a in good_l:
                for b in good_r:
                    try:
                        res.append(binop(I, op, a, b, st, node))
                    except _Dead():
                        pass
            if not res:
                raise _Dead()()
            x = res[0]
            for y in res[1:]:
                x = joinv(I, st, node, x, y)
            return x
        l, r = mkunion(good_l), mkunion(good_r)
    if isinstance(l, NoneVal) or isinstance(r, NoneVal):
        I.emit("none_use", node, st, how=op,
               val=l if isinstance(l, NoneVal) else r)
        raise _Dead()()
    # strings
    if isinstance(l, StrVal) or isinstance(r, StrVal):
        return str_bin(I, op, l, r, st, node)
    # lists and tuples
    if op == "+" and isinstance(l, Tup) and isinstance(r, Tup):
        return Tup(l.elts + r.elts)
    if op == "*" and isinstance(l, Tup) and isinstance(r, Num) and \
            r.const() is not None and 0 <= r.const() <= 20:
        return Tup(l.elts * int(r.const()))
    lr = st.heap.get(l.id) if isinstance(l, Ref) else None
    rr = st.heap.get(r.id) if isinstance(r, Ref) else None
    if op == "+" and isinstance(lr, ListRec) and isinstance(rr, ListRec):
        return list_concat(I, lr, rr, st, node)
    if op == "*" and (isinstance(lr, ListRec) and isinstance(r, Num) or
                      isinstance(rr, ListRec) and isinstance(l, Num)):
        L, k = (lr, r) if isinstance(lr, ListRec) else (rr, l)
        c = k.const()
        if L.elts is not None and c is not None and \
                0 <= c * len(L.elts) <= 16:
            es = L.elts * int(c)
            return I.new_list(st, node, ListRec(es, C(len(es)), vn=VN(
                "list", len(es))))
        n = L.n * k.sym if L.n is not None else None
        return I.new_list(st, node, ListRec(None, n, list_elem(L), vn=VN(
            "rep", L.vn, k.vnum)))
    if isinstance(l, (Func, ModVal)) or isinstance(r, (Func, ModVal)):
        return Top(VN("bin", op, I.vnum(st, l), I.vnum(st, r)))
    a, b = op_of(I, l, st), op_of(I, r, st)
    if a.unit or b.unit:
        unit_check(I, st, node, a, b, op)
    if op in ("&", "|", "^"):
        return bitop(I, op, a, b, st, node)
    if op == "@":
        return matmul(I, a, b, st, node)
    if a.num is not None and b.num is not None:
        return num_bin(I, op, a, b, st, node)
    return arr_bin(I, op, a, b, st, node)


def _Dead():
    from .interp import Dead
    return Dead


def joinv(I, st, node, a, b):
    """Join two result values; two arrays become one record."""
    if a == b:
        return a
    if isinstance(a, Ref) and isinstance(b, Ref):
        ra, rb = st.heap.get(a.id), st.heap.get(b.id)
        if isinstance(ra, ArrRec) and isinstance(rb, ArrRec):
            return I.new_arr(st, node, join_rec(ra, rb), "j")
    return join(a, b)


UNIT_OPS = {"+", "-", "//", "%", "<", "<=", ">", ">=", "==", "!="}


def unit_check(I, st, node, a, b, op):
    """Angles of different units are not added or compared."""
    if op not in UNIT_OPS:
        return
    for x, y in ((a, b), (b, a)):
        bad = False
        if x.unit == "rad":
            if y.unit == "deg":
                bad = True
            elif y.unit is None and op[0] not in "<>=!" and \
                    y.num is not None and \
                    y.num.sym.is_const() and abs(y.num.sym.value()) >= 45:
                bad = True
        elif x.unit == "deg" and y.unit is None and y.num is not None and \
                op[0] not in "<>=!":
            s = y.num.sym
            bad = not s.is_const() and s.all_atoms() == {("s", "pi")} and \
                S.decide(">=", s, ZERO, ()) is not None
        if bad:
            I.emit("unit_mix", node, st, op=op, a=a.unit, b=b.unit)
            return


def num_bin(I, op, a, b, st, node):
    x, y = a.num, b.num
    p, q = x.sym, y.sym
    isint = x.isint and y.isint
    ispy = x.ispy and y.ispy
    tags = frozenset(t for t in x.tags | y.tags if keeptag(t))
    npint = x.npint if x.npint and (y.ispy and y.isint or
                                    y.npint == x.npint) else None
    unit = None
    lo = hi = None
    nz = False
    if op == "+":
        z = p + q
        unit = join_unit(a.unit, b.unit)
        lo, hi = badd(a.lo, b.lo), badd(a.hi, b.hi)
    elif op == "-":
        z = p - q
        unit = join_unit(a.unit, b.unit)
        lo, hi = badd(a.lo, neg_b(b.hi)), badd(a.hi, neg_b(b.lo))
    elif op == "*":
        z = p * q
        if a.unit and b.unit:
            unit = None
        else:
            unit = unit_mul(a.unit, q) if a.unit else unit_mul(b.unit, p)
        lo, hi = bmul(a, b)
        nz = a.nz and b.nz
    elif op == "/":
        I.emit("div", node, st, num=a, den=b, scalar=True)
        isint = False
        if not q.t:
            I.emit("zerodiv", node, st, den=q)
            raise _Dead()()
        z = S.div(p, q)
        if a.unit and not b.unit:
            unit = unit_mul(a.unit, S.inv(q))
        lo, hi = bdiv(a, b)
        nz = a.nz
    elif op == "//":
        if not q.t:
            raise _Dead()()
        z = S.floordiv(p, q)
        unit = None
    elif op == "%":
        if not q.t:
            raise _Dead()()
        z = S.mod(p, q)
        unit = a.unit
        isint = x.isint and y.isint
    elif op == "**":
        c = y.const()
        if c is not None and c.denominator == 1 and 0 <= c <= 6:
            z = p.pow(int(c))
        elif c is not None and c.denominator == 1 and -4 <= c < 0:
            z = S.inv(p).pow(int(-c))
            isint = False
        elif c == Fraction(1, 2):
            z = fn("sqrt", p)
            isint = False
        elif x.const() is not None and y.const() is not None and \
                y.const().denominator == 1 and abs(y.const()) < 70:
            z = C(x.const() ** int(y.const()))
            isint = isint and z.is_int()
        else:
            z = Poly.atom(("fn", "pow", p, q))
            isint = False
            if x.isint and y.isint and S.is_nonneg(q):
                isint = True
            if a.nz and sgn(a.lo, a.hi, a.nz) == "+":
                lo, nz = ZERO, True
    elif op in ("<<", ">>"):
        z = Poly.atom(("fn", op, p, q))
    else:
        return Top(VN("bin", op, a.vn, b.vn))
    if z.is_const() or not z.has_opaque():
        lo = hi = None
    else:
        lo, hi = bnd(lo), bnd(hi)
    # comparing an opaque expression: rounding of numbers too large to matter
    if len(z.t) > 60:
        z = named_opaque("big%d" % VN("big", z))
    if op == "-" and I.red and a.vn in I.red and b.vn in I.red:
        ra, rb = I.red[a.vn], I.red[b.vn]
        if ra[0] == "max" and rb[0] == "min" and ra[1] == rb[1]:
            I.red[VN("num", z)] = ("range", ra[1])
    if op == "-" and not z.is_const():
        I.red.setdefault(VN("num", z), ("diff", a.vn, b.vn))
    if z.is_int() and not isint and not z.is_const():
        # a value that happens to be integral keeps its float nature
        return Num(z, lo, hi, False, unit, nz, npint, tags, ispy)
    return Num(z, lo, hi, isint, unit, nz, npint, tags, ispy)


def keeptag(t):
    return isinstance(t, tuple) and t[0] in ("dep",)


def fn(name, *ps):
    if len(ps) == 1 and name == "sqrt":
        v = ps[0].value()
        if v is not None and v >= 0:
            import math
            a, b = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if a * a == v.numerator and b * b == v.denominator:
                return C(Fraction(a, b))
        t = ps[0].t
        if len(t) == 1 and t[0][1] == 1 and len(t[0][0]) == 1 and \
                t[0][0][0][1] == 2 and S.is_nonneg(Poly.atom(t[0][0][0][0])):
            return Poly.atom(t[0][0][0][0])
    return Poly.atom(("fn", name) + ps)


def arr_bin(I, op, a, b, st, node):
    shape = broadcast(I, [a.shape, b.shape], st, node, "operator " + op)
    vn = VN("bin", op, *(sorted((a.vn, b.vn)) if op in ("+", "*")
                         else (a.vn, b.vn)))
    dt = dt_join(a.dtype, b.dtype, op)
    unit = None
    lo = hi = None
    nz = False
    seq = None
    an, bn = a.num, b.num
    if I.red and op in ("-", "*"):
        minmax_step(I, op, a, b, vn)
    if I.opts.get("order"):
        I.emit("obin", node, st, op=op, a=a.vn, b=b.vn, sa=a.shape,
               sb=b.shape)
    if op == "+":
        unit = join_unit(a.unit, b.unit)
        lo, hi = badd(a.lo, b.lo), badd(a.hi, b.hi)
        if sgn(a.lo, a.hi, a.nz) == "+" and sgn(b.lo, b.hi, b.nz) in (
                "+", "0+") or sgn(b.lo, b.hi, b.nz) == "+" and \
                sgn(a.lo, a.hi, a.nz) in ("+", "0+"):
            nz = True
        if a.seq and bn is not None:
            seq = (a.seq[0] + bn.sym, a.seq[1])
        elif b.seq and an is not None:
            seq = (b.seq[0] + an.sym, b.seq[1])
    elif op == "-":
        unit = join_unit(a.unit, b.unit)
        lo, hi = badd(a.lo, neg_b(b.hi)), badd(a.hi, neg_b(b.lo))
        if a.seq and bn is not None:
            seq = (a.seq[0] - bn.sym, a.seq[1])
        elif b.seq and an is not None:
            seq = (an.sym - b.seq[0], -b.seq[1])
    elif op == "*":
        if a.unit and b.unit:
            unit = None
        elif a.unit:
            unit = unit_mul(a.unit, bn.sym) if bn is not None else None
        elif b.unit:
            unit = unit_mul(b.unit, an.sym) if an is not None else None
        lo, hi = bmul(a, b)
        nz = a.nz and b.nz
        if a.seq and bn is not None:
            seq = (a.seq[0] * bn.sym, a.seq[1] * bn.sym)
        elif b.seq and an is not None:
            seq = (b.seq[0] * an.sym, b.seq[1] * an.sym)
    elif op == "/":
        I.emit("div", node, st, num=a, den=b, scalar=False)
        if a.unit and not b.unit:
            unit = unit_mul(a.unit, S.inv(bn.sym)) if bn is not None and \
                bn.sym.t else None
        lo, hi = bdiv(a, b)
        nz = a.nz
        k = minmax_step(I, op, a, b, vn)
        if k is not None:
            lo, hi = ZERO, k
        if a.seq and bn is not None and bn.sym.t:
            iv = S.inv(bn.sym)
            seq = (a.seq[0] * iv, a.seq[1] * iv)
    elif op == "**":
        c = bn.const() if bn is not None else None
        sa = sgn(a.lo, a.hi, a.nz)
        nz = a.nz
        if c is not None and c.denominator == 1 and int(c) % 2 == 0:
            lo = ZERO
        elif sa in ("+", "0+"):
            lo = ZERO
    elif op == "%":
        if bn is not None and sgn(b.lo, b.hi, b.nz) == "+":
            lo, hi = ZERO, bn.sym
        unit = a.unit
    elif op == "//":
        pass
    r = ArrRec(shape, dt, bnd(lo), bnd(hi), nz, unit, vn,
               seq=seq if shape is not None and len(shape) == 1 else None,
               tags=tags_bin(op, a, b))
    if shape == ():
        rv = Num(named_opaque("v%d" % vn), r.lo, r.hi, dt[0] in "iub", unit,
                 nz, tags=r.tags)
        return rv
    if shape is None and not (a.known or b.known):
        return Top(vn, a.tags & b.tags)
    return I.new_arr(st, node, r)


def bitop(I, op, a, b, st, node):
    shape = broadcast(I, [a.shape, b.shape], st, node, "operator " + op)
    vn = VN("bin", op, *sorted((a.vn, b.vn)))
    if shape == ():
        va = I.truth(a.v, st) if isinstance(a.v, BoolVal) else None
        vb = I.truth(b.v, st) if isinstance(b.v, BoolVal) else None
        if op == "&" and (va is False or vb is False):
            return FALSE
        if op == "|" and (va is True or vb is True):
            return TRUE
        if op == "&" and va and vb:
            return TRUE
        if op == "|" and va is False and vb is False:
            return FALSE
        if a.dtype == "b1" and b.dtype == "b1":
            return BoolVal(None, vn)
        return Num(named_opaque("v%d" % vn), isint=True)
    m = None
    if a.mask is not None and b.mask is not None:
        m = ({"&": "and", "|": "or"}.get(op, "xor"), a.mask, b.mask)
    elif op == "&" and (a.mask or b.mask):
        m = ("and", a.mask or ("?",), b.mask or ("?",))
    return I.new_arr(st, node, ArrRec(
        shape, dt_join(a.dtype, b.dtype, op), ZERO if a.dtype == "b1" else
        None, ONE if a.dtype == "b1" and b.dtype == "b1" else None, False,
        None, vn, mask=m))


def matmul(I, a, b, st, node):
    shape = None
    if a.shape is not None and b.shape is not None:
        x, y = a.shape, b.shape
        if x and y:
            if dims_differ(I, x[-1], y[-2] if len(y) > 1 else y[0], st):
                I.emit("shape_mismatch", node, st, how="matmul", a=x[-1],
                       b=y[-2] if len(y) > 1 else y[0], witness=dims_differ(
                           I, x[-1], y[-2] if len(y) > 1 else y[0], st),
                       shapes=[x, y], axis=-1)
            shape = x[:-1] + (y[:-2] + y[-1:] if len(y) > 1 else ())
    return out(I, st, node, a, shape=shape, dtype=dt_join(
        a.dtype, b.dtype, "@"), lo=None, hi=None, nz=False, unit=None,
        vn=VN("matmul", a.vn, b.vn), tags=frozenset())


def neg(I, v, st, node):
    if isinstance(v, Union):
        return mkunion([x for a in v.alts if not isinstance(
            a, (NoneVal, Undef)) for x in alts_of(neg(I, a, st, node))] or
            [Top(VN("neg", I.vnum(st, v)))])
    if isinstance(v, NoneVal):
        I.emit("none_use", node, st, how="-", val=v)
        raise _Dead()()
    o = op_of(I, v, st)
    if o.num is not None:
        x = o.num
        return x.with_(sym=-x.sym, lo=neg_b(x.hi), hi=neg_b(x.lo),
                       tags=frozenset())
    if not o.known:
        return Top(VN("neg", o.vn), o.tags)
    return I.new_arr(st, node, rec_of(
        o, lo=neg_b(o.hi), hi=neg_b(o.lo), vn=VN("neg", o.vn), mask=None,
        seq=(-o.seq[0], -o.seq[1]) if o.seq else None,
        tags=frozenset(t for t in o.tags if t in ("meas",))))


def unary(I, op, v, st, node):
    o = op_of(I, v, st)
    if o.num is not None and op == "~":
        return Num(-o.num.sym - ONE, isint=True)
    m = negmask(o.mask) if o.mask is not None else None
    if not o.known:
        return Top(VN("inv", o.vn))
    return I.new_arr(st, node, rec_of(o, vn=VN("inv", o.vn), mask=m,
                                      seq=None))


# ---------------------------------------------------------------- masks
_NEG = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}


def negmask(m):
    if m[0] == "cmp":
        return ("cmp", _NEG[m[1]], m[2], m[3])
    if m[0] == "and":
        return ("or", negmask(m[1]), negmask(m[2]))
    if m[0] == "or":
        return ("and", negmask(m[1]), negmask(m[2]))
    if m[0] == "alt":
        return ("alt",) + tuple(negmask(x) for x in m[1:])
    return ("?",)


def mask_vns(m):
    if m[0] == "cmp":
        return {m[2]}
    if m[0] in ("and", "or"):
        return mask_vns(m[1]) | mask_vns(m[2])
    if m[0] == "alt":
        return set().union(*[mask_vns(x) for x in m[1:]])
    return set()


def restrict(lo, hi, nz, m, vn):
    """Element facts of the array numbered vn where mask m is true."""
    if m is None:
        return lo, hi, nz
    if m[0] == "and":
        lo, hi, nz = restrict(lo, hi, nz, m[1], vn)
        return restrict(lo, hi, nz, m[2], vn)
    if m[0] == "alt":
        for x in m[1:]:
            if vn in mask_vns(x):
                return restrict(lo, hi, nz, x, vn)
        return lo, hi, nz
    if m[0] == "or":
        a = restrict(lo, hi, nz, m[1], vn)
        b = restrict(lo, hi, nz, m[2], vn)
        return (join_bound(a[0], b[0], "lo"), join_bound(a[1], b[1], "hi"),
                a[2] and b[2])
    if m[0] != "cmp" or m[2] != vn:
        return lo, hi, nz
    op, q = m[1], m[3]
    b = S.bounds(q)
    qo = None if q.has_opaque() else q
    if op == ">":
        if b[0] >= 0:
            nz = True
        nlo = qo if qo is not None else (C(b[0]) if b[0] != -INF else None)
        if nlo is not None and (lo is None or S.is_nonneg(nlo - lo)):
            lo = nlo
    elif op == ">=":
        if b[0] > 0:
            nz = True
        nlo = qo if qo is not None else (C(b[0]) if b[0] != -INF else None)
        if nlo is not None and (lo is None or S.is_nonneg(nlo - lo)):
            lo = nlo
    elif op == "<":
        if b[1] <= 0:
            nz = True
        nhi = qo if qo is not None else (C(b[1]) if b[1] != INF else None)
        if nhi is not None and (hi is None or S.is_nonneg(hi - nhi)):
            hi = nhi
    elif op == "<=":
        if b[1] < 0:
            nz = True
        nhi = qo if qo is not None else (C(b[1]) if b[1] != INF else None)
        if nhi is not None and (hi is None or S.is_nonneg(hi - nhi)):
            hi = nhi
    elif op == "!=":
        if q.t == ():
            nz = True
    elif op == "==":
        if qo is not None:
            lo = hi = qo
            if S.is_pos(qo) or S.is_pos(-qo):
                nz = True
    return lo, hi, nz


def join_facts(a, b):
    return (join_bound(a[0], b[0], "lo"), join_bound(a[1], b[1], "hi"),
            a[2] and b[2])


# -------------------------------------------------------------- compare
def compare(I, op, l, r, st, node):
    if op in ("is", "is not"):
        res = is_same(I, l, r)
        if res is None:
            return BoolVal(None, VN("is" if op == "is" else "isnot",
                                    I.vnum(st, l), I.vnum(st, r)))
        return BoolVal(res if op == "is" else not res)
    if op in ("in", "not in"):
        res = contains(I, l, r, st, node)
        if res is None:
            tg = ()
            if isinstance(r, Ref) and r.what == "arr" and isinstance(l, Num):
                tg = (("anymask" if op == "in" else "allmask",
                       ("cmp", "==" if op == "in" else "!=",
                        st.heap[r.id].vn, l.sym)),)
            return BoolVal(None, VN(op, I.vnum(st, l), I.vnum(st, r)),
                           frozenset(tg))
        return BoolVal(res if op == "in" else not res)
    if isinstance(l, Union) or isinstance(r, Union):
        bs, vs, recs = [], [], []
        for a in alts_of(l):
            for b in alts_of(r):
                if isinstance(a, Undef) or isinstance(b, Undef):
                    continue
                try:
                    x = compare(I, op, a, b, st, node)
                except _Dead():
                    continue
                vs.append(x)
                if isinstance(x, Ref):
                    recs.append(st.heap[x.id])
                bs.append(I.truth(x, st) if isinstance(x, BoolVal) else None)
        refs = [v for v in vs if isinstance(v, Ref)]
        if refs:
            ms = [x.mask for x in recs]
            rec = recs[0]
            for x in recs[1:]:
                rec = join_rec(rec, x)
            if len(ms) > 1 and None not in ms and ("?",) not in ms:
                rec = rec.upd(mask=("alt",) + tuple(ms))
            return I.new_arr(st, node, rec, "j")
        if bs and all(b is True for b in bs):
            return TRUE
        if bs and all(b is False for b in bs):
            return FALSE
        return BoolVal(None, VN("cmp", op, I.vnum(st, l), I.vnum(st, r)))
    if isinstance(l, NoneVal) or isinstance(r, NoneVal):
        if op in ("==", "!="):
            if isinstance(l, NoneVal) and isinstance(r, NoneVal):
                return BoolVal(op == "==")
            o = r if isinstance(l, NoneVal) else l
            if isinstance(o, (Num, StrVal, BoolVal, Tup)):
                return BoolVal(op == "!=")
            if isinstance(o, Ref) and o.what != "arr":
                return BoolVal(op == "!=")
            return BoolVal(None, VN("cmp", op, I.vnum(st, l), I.vnum(st, r)))
        I.emit("none_use", node, st, how=op,
               val=l if isinstance(l, NoneVal) else r)
        raise _Dead()()
    if isinstance(l, StrVal) and isinstance(r, StrVal):
        if l.vals is not None and r.vals is not None:
            if op in ("==", "!="):
                if len(l.vals) == 1 and l.vals == r.vals:
                    return BoolVal(op == "==")
                if not (l.vals & r.vals):
                    return BoolVal(op == "!=")
            elif len(l.vals) == 1 and len(r.vals) == 1:
                a, b = l.const(), r.const()
                return BoolVal({"<": a < b, "<=": a <= b, ">": a > b,
                                ">=": a >= b}[op])
        if l.vn == r.vn and op in ("==", "!="):
            return BoolVal(op == "==")
        return BoolVal(None, VN("cmp", op, l.vn, r.vn))
    if isinstance(l, (StrVal, Func, ModVal)) or \
            isinstance(r, (StrVal, Func, ModVal)):
        if op in ("==", "!=") and not isinstance(l, Top) and \
                not isinstance(r, Top) and type(l) is not type(r) and \
                not any(isinstance(x, Ref) and x.what in ("obj", "arr")
                        for x in (l, r)):
            return BoolVal(op == "!=")
        if isinstance(l, Func) and isinstance(r, Func) and \
                op in ("==", "!=") and l == r:
            return BoolVal(op == "==")
        return BoolVal(None, VN("cmp", op, I.vnum(st, l), I.vnum(st, r)))
    if isinstance(l, Tup) and isinstance(r, Tup) and op in ("==", "!="):
        if len(l.elts) != len(r.elts):
            return BoolVal(op == "!=")
        bs = []
        for a, b in zip(l.elts, r.elts):
            x = compare(I, "==", a, b, st, node)
            bs.append(I.truth(x, st))
        if all(b is True for b in bs):
            return BoolVal(op == "==")
        if any(b is False for b in bs):
            return BoolVal(op == "!=")
        return BoolVal(None, VN("cmp", op, I.vnum(st, l), I.vnum(st, r)))
    if isinstance(l, Tup) != isinstance(r, Tup) and op in ("==", "!=") and \
            isinstance(l, (Tup, Num, BoolVal)) and \
            isinstance(r, (Tup, Num, BoolVal)):
        return BoolVal(op == "!=")
    a, b = op_of(I, l, st), op_of(I, r, st)
    if a.unit or b.unit:
        unit_check(I, st, node, a, b, op)
    if a.num is not None and b.num is not None:
        res = S.decide(op, a.num.sym, b.num.sym, st.facts)
        if res is None:
            res = by_bounds(op, a, b)
        if res is not None:
            return BoolVal(res)
        vn = VN("cmp", op, a.vn, b.vn)
        return BoolVal(None, vn, frozenset(
            [("cond", op, a.num.sym, b.num.sym)]) | red_tags(I, op, a, b))
    if a.shape == () and b.shape == ():
        res = by_bounds(op, a, b)
        if res is not None:
            return BoolVal(res)
        return BoolVal(None, VN("cmp", op, a.vn, b.vn),
                       red_tags(I, op, a, b))
    la = isinstance(l, Ref) and l.what == "arr"
    ra = isinstance(r, Ref) and r.what == "arr"
    if la or ra:
        shape = broadcast(I, [a.shape, b.shape], st, node, "compare")
        m = None
        if b.num is not None:
            m = ("cmp", op, a.vn, b.num.sym)
        elif a.num is not None:
            sw = {"==": "==", "!=": "!=", "<": ">", "<=": ">=", ">": "<",
                  ">=": "<="}[op]
            m = ("cmp", sw, b.vn, a.num.sym)
        elif b.shape == () and b.lo is not None:
            m = ("?",)
        return I.new_arr(st, node, ArrRec(
            shape, "b1", ZERO, ONE, False, None,
            VN("cmp", op, a.vn, b.vn), mask=m))
    return BoolVal(None, VN("cmp", op, I.vnum(st, l), I.vnum(st, r)))


def red_tags(I, op, a, b):
    """min(x) > c says that all elements are, and so on."""
    out_ = set()
    for x, y, o in ((a, b, op), (b, a, {"<": ">", "<=": ">=", ">": "<",
                                        ">=": "<="}.get(op, op))):
        src = I.red.get(x.vn)
        if src is None or y.num is None:
            continue
        k, vn = src[:2]
        m = None
        if k in ("min", "max"):
            m = [("cmp", o, x_, y.num.sym) for x_ in sorted(vn)]
            m = m[0] if len(m) == 1 else ("alt",) + tuple(m)
        if k == "min":
            if o in (">", ">="):
                out_.add(("allmask", m))
            elif o in ("<", "<="):
                out_.add(("anymask", m))
        elif k == "max":
            if o in ("<", "<="):
                out_.add(("allmask", m))
            elif o in (">", ">="):
                out_.add(("anymask", m))
        elif k == "count" and y.num.const() == 0 and o in (">", "!=") :
            out_.add(("anymask", vn))
        elif k == "count" and y.num.const() == 0 and o == "==":
            out_.add(("allmask", negmask(vn)))
    return frozenset(out_)


def by_bounds(op, a, b):
    def lo(x):
        return -INF if x.lo is None else S.bounds(x.lo)[0]

    def hi(x):
        return INF if x.hi is None else S.bounds(x.hi)[1]
    if op == "<":
        if hi(a) < lo(b):
            return True
        if lo(a) >= hi(b):
            return False
    elif op == "<=":
        if hi(a) <= lo(b):
            return True
        if lo(a) > hi(b):
            return False
    elif op == ">":
        return by_bounds("<", b, a)
    elif op == ">=":
        return by_bounds("<=", b, a)
    elif op in ("==", "!="):
        if hi(a) < lo(b) or hi(b) < lo(a):
            return op == "!="
        if b.num is not None and b.num.sym == ZERO and a.nz or \
                a.num is not None and a.num.sym == ZERO and b.nz:
            return op == "!="
    return None


def is_same(I, l, r):
    if isinstance(l, NoneVal) and isinstance(r, NoneVal):
        return True
    if isinstance(r, NoneVal) or isinstance(l, NoneVal):
        o = l if isinstance(r, NoneVal) else r
        if isinstance(o, Union):
            if any(isinstance(a, NoneVal) for a in o.alts):
                return None
            return None if any(isinstance(a, (Top, Undef))
                               for a in o.alts) else False
        if isinstance(o, Top):
            return None
        return False
    if isinstance(l, BoolVal) and isinstance(r, BoolVal):
        if l.b is not None and r.b is not None:
            return l.b == r.b
        return None
    if isinstance(r, BoolVal) or isinstance(l, BoolVal):
        o = l if isinstance(r, BoolVal) else r
        if isinstance(o, (Num, StrVal, Tup, Ref)):
            return False
        if isinstance(o, Union):
            if not any(isinstance(a, (BoolVal, Top)) for a in o.alts):
                return False
        return None
    if l == r and not isinstance(l, Top):
        return True
    return None


def contains(I, l, r, st, node):
    items = None
    if isinstance(r, Tup):
        items = r.elts
    elif isinstance(r, NoneVal):
        I.emit("none_use", node, st, how="in", val=r)
        raise _Dead()()
    elif isinstance(r, Ref):
        rec = st.heap.get(r.id)
        if isinstance(rec, ListRec) and rec.elts is not None:
            items = rec.elts
        elif isinstance(rec, DictRec) and rec.closed:
            items = [strv(k) if isinstance(k, str) else num(k)
                     for k, _ in rec.items]
        elif isinstance(rec, DictRec) and isinstance(l, StrVal) and \
                l.const() in dict(rec.items):
            return True
    elif isinstance(r, StrVal) and isinstance(l, StrVal):
        if r.vals is not None and l.const() is not None:
            ts = {l.const() in x for x in r.vals}
            if len(ts) == 1:
                return ts.pop()
        return None
    elif isinstance(r, Top) and isinstance(l, StrVal):
        for t in r.tags:
            if isinstance(t, tuple) and t[0] == "dir":
                if l.vals is not None:
                    ts = {known_name(t[1], x) for x in l.vals}
                    if len(ts) == 1:
                        return ts.pop()
        return None
    if items is None:
        return None
    if isinstance(l, Union):
        rs = {contains(I, a, r, st, node) for a in l.alts}
        return rs.pop() if len(rs) == 1 else None
    if isinstance(l, StrVal) and l.vals is not None and len(l.vals) > 1:
        consts = {x.const() if isinstance(x, StrVal) else x.const()
                  if isinstance(x, Num) else None for x in items}
        if None not in consts:
            if l.vals <= consts:
                return True
            if not (l.vals & consts):
                return False
        return None
    unk = False
    for x in items:
        b = I.truth(compare(I, "==", l, x, st, node), st)
        if b is True:
            return True
        if b is None:
            unk = True
    return None if unk else False


def known_name(mod, name):
    """Does the external module have this attribute?  Only sentinels of the
    analysis are certainly absent."""
    if name.startswith("__sentinel"):
        return False
    lst = NAMES.get(mod)
    if lst is not None and name in lst:
        return True
    return None


NAMES = {
    "scipy.signal.windows": set("""boxcar triang blackman hamming hann
bartlett flattop parzen bohman blackmanharris nuttall barthann cosine
exponential tukey taylor kaiser gaussian general_cosine general_gaussian
general_hamming dpss chebwin lanczos""".split()),
    "scipy.ndimage": set("""gaussian_filter median_filter uniform_filter
maximum_filter minimum_filter rotate zoom shift gaussian_filter1d percentile_filter
rank_filter""".split()),
}


# ---------------------------------------------------------------- refine
def refine_call(I, test, truth, st):
    f = test.func
    if isinstance(f, ast.Name) and f.id == "isinstance" and \
            len(test.args) == 2 and isinstance(test.args[0], ast.Name):
        name = test.args[0].id
        v = st.env.get(name)
        if v is not None:
            keep = []
            T = I.eval(test.args[1], st)
            for a in alts_of(v):
                b = isinst(I, a, T, st)
                if b is None or b == truth:
                    keep.append(a)
            if not keep:
                return None
            st.env[name] = mkunion(keep)
        return st
    if isinstance(f, ast.Name) and f.id == "callable" and test.args and \
            isinstance(test.args[0], ast.Name):
        v = st.env.get(test.args[0].id)
        if v is not None:
            keep = []
            for a in alts_of(v):
                c = None
                if isinstance(a, Func):
                    c = True
                elif isinstance(a, (Num, StrVal, NoneVal, Tup, BoolVal)):
                    c = False
                elif isinstance(a, Ref) and a.what in ("arr", "list",
                                                       "dict"):
                    c = False
                if c is None or c == truth:
                    keep.append(a)
            if not keep:
                return None
            st.env[test.args[0].id] = mkunion(keep)
        return st
    # existence tests of paths
    from . import iomodel
    return iomodel.refine_exists(I, test, truth, st)


def isinst(I, v, T, st):
    if isinstance(T, Tup):
        rs = [isinst(I, v, t, st) for t in T.elts]
        if True in rs:
            return True
        if all(r is False for r in rs):
            return False
        return None
    if isinstance(v, Union):
        rs = {isinst(I, a, T, st) for a in v.alts if not isinstance(a, Undef)}
        return rs.pop() if len(rs) == 1 else None
    if isinstance(T, ModVal) and T.mod == "numpy.ndarray":
        T = Func("numpy.ndarray")
    if not isinstance(T, Func) or not isinstance(T.fn, str):
        return None
    n = T.fn.replace("builtins.", "")
    if isinstance(v, Top):
        return None
    if isinstance(v, NoneVal):
        return False
    if n in ("int",):
        if isinstance(v, BoolVal):
            return True
        if isinstance(v, Num):
            if not v.isint:
                return False if v.ispy else None
            return True if v.ispy else None
        return False
    if n == "float":
        if isinstance(v, Num):
            if v.isint and v.ispy:
                return False
            return True if v.ispy and not v.isint else None
        return False
    if n in ("numpy.integer", "numpy.floating", "numpy.number",
             "numbers.Number", "numbers.Integral", "numpy.generic"):
        return None if isinstance(v, Num) else False
    if n == "bool":
        return isinstance(v, BoolVal) if not isinstance(v, Num) else False
    if n == "str":
        return isinstance(v, StrVal) and "path" not in v.tags
    if n == "tuple":
        return isinstance(v, Tup)
    if n == "list":
        return isinstance(v, Ref) and v.what == "list"
    if n == "dict":
        return isinstance(v, Ref) and v.what == "dict"
    if n in ("numpy.ndarray",):
        return isinstance(v, Ref) and v.what == "arr"
    if n in ("pathlib.Path", "pathlib.PurePath"):
        if isinstance(v, StrVal):
            return "path" in v.tags
        return False if not isinstance(v, Ref) else None
    if n in ("h5py.Dataset", "h5py.Group", "h5py.File"):
        if isinstance(v, Ref) and v.what == "obj":
            r = st.heap.get(v.id)
            c = getattr(r, "cls", "?")
            return {"h5py.Dataset": c == "dset", "h5py.Group": c in
                    ("h5file", "group"), "h5py.File": c == "h5file"}[n]
        return False
    return None


# ---------------------------------------------------------------- strings
def parts_of(v):
    if isinstance(v, StrVal):
        c = v.const()
        if c is not None:
            return (("const", c),)
        p = STRPARTS.get(v.vn)
        if p is not None:
            return p
        return (("str", v.vn),)
    return (("val", v.vnum),)


def mkstr(parts, tags=frozenset()):
    ps = []
    for p in parts:
        if p[0] == "const" and ps and ps[-1][0] == "const":
            ps[-1] = ("const", ps[-1][1] + p[1])
        elif p[0] == "const" and p[1] == "":
            continue
        else:
            ps.append(p)
    if not ps:
        return strv("", tags)
    if len(ps) == 1 and ps[0][0] == "const":
        return strv(ps[0][1], tags)
    if len(ps) == 1 and ps[0][0] == "str":
        return StrVal(None, ps[0][1], tags)
    vn = VN("concat", tuple(ps))
    STRPARTS[vn] = tuple(ps)
    return StrVal(None, vn, tags)


def path_tags(v):
    return frozenset(t for t in v.tags if isinstance(t, tuple) and
                     t[0] in ("own", "dep", "user", "pb", "unsorted")) \
        if isinstance(v, (StrVal, Top)) else frozenset()


def subst_str(v, env):
    """Replace symbols inside the numbers a string is built from."""
    ps = STRPARTS.get(v.vn)
    if ps is None:
        return v
    new = subst_parts(ps, env)
    if new == ps:
        return v
    r = mkstr(new)
    return StrVal(r.vals, r.vn, v.tags)


def subst_parts(ps, env):
    out = []
    for p in ps:
        if p[0] == "num":
            p = ("num", p[1].subst(env)) + p[2:]
        elif p[0] == "slice":
            p = ("slice", subst_parts(p[1], env)) + p[2:]
        out.append(p)
    return tuple(out)


def str_concat(I, parts, st):
    ps = []
    tags = frozenset()
    for p in parts:
        ps += list(parts_of(p))
        if isinstance(p, StrVal):
            tags = tags | path_tags(p)
    return mkstr(ps, tags)


def fmt_value(I, v, spec, st):
    if isinstance(v, StrVal) and spec in (None, "", "s"):
        return v
    if isinstance(v, Num):
        c = v.const()
        if c is not None and c.denominator == 1 and v.isint:
            try:
                return strv(format(int(c), spec or ""))
            except Exception:
                pass
        vn = VN("fmt", v.vnum, spec)
        STRPARTS[vn] = (("num", v.sym, spec or "", v.isint),)
        return StrVal(None, vn)
    if isinstance(v, Union):
        return StrVal(None, VN("fmt", I.vnum(st, v), spec))
    return StrVal(None, VN("fmt", I.vnum(st, v), spec))


def str_bin(I, op, l, r, st, node):
    if op == "+":
        if isinstance(l, StrVal) and isinstance(r, StrVal):
            if l.vals is not None and r.vals is not None and \
                    len(l.vals) * len(r.vals) <= 8:
                return StrVal(frozenset(a + b for a in l.vals
                                        for b in r.vals),
                              VN("concat", l.vn, r.vn),
                              path_tags(l) | path_tags(r))
            return mkstr(parts_of(l) + parts_of(r),
                         path_tags(l) | path_tags(r))
        if isinstance(l, Top) or isinstance(r, Top):
            return StrVal(None, VN("concat", I.vnum(st, l), I.vnum(st, r)),
                          path_tags(l) | path_tags(r))
        I.emit("type_error", node, st, how="str + " + r.kind)
        raise _Dead()()
    if op == "%":
        args = r.elts if isinstance(r, Tup) else (r,)
        c = l.const()
        if c is not None:
            import re
            toks = re.split(r"(%[-0-9.+ ]*[dsfgieExX%])", c)
            ps, i = [], 0
            for t in toks:
                if t.startswith("%") and len(t) > 1:
                    if t == "%%":
                        ps.append(strv("%"))
                    elif i < len(args):
                        sp = t[1:]
                        a = args[i]
                        i += 1
                        if isinstance(a, Num):
                            ps.append(fmt_value(I, a, sp, st))
                        else:
                            ps.append(fmt_value(I, a, None, st))
                elif t:
                    ps.append(strv(t))
            return str_concat(I, ps, st)
        return StrVal(None, VN("fmt%", I.vnum(st, l), I.vnum(st, r)))
    if op == "/" and (isinstance(l, StrVal) and ("path" in l.tags) or
                      isinstance(r, StrVal) and "path" in r.tags):
        from . import iomodel
        return iomodel.path_join(I, [l, r], st)
    if op == "*" and isinstance(l, StrVal) and isinstance(r, Num):
        if l.const() is not None and r.const() is not None:
            return strv(l.const() * int(r.const()))
        return StrVal(None, VN("srep", l.vn, r.vnum))
    return StrVal(None, VN("sbin", op, I.vnum(st, l), I.vnum(st, r)))


def list_concat(I, a, b, st, node):
    if a.elts is not None and b.elts is not None and \
            len(a.elts) + len(b.elts) <= 16:
        es = a.elts + b.elts
        return I.new_list(st, node, ListRec(es, C(len(es)),
                                            vn=VN("list", len(es))))
    n = a.n + b.n if a.n is not None and b.n is not None else None
    ea, eb = list_elem(a), list_elem(b)
    e = ea if eb is None else eb if ea is None else join(ea, eb)
    hd = None
    if a.elts is not None and len(a.elts) == 1 and eb is not None:
        hd, e = ea, eb
    elif a.head is not None and a.elem is not None:
        hd = a.head
        e = a.elem if eb is None else join(a.elem, eb)
    return I.new_list(st, node, ListRec(None, n, e, vn=VN(
        "lcat", lvn(I, st, a), lvn(I, st, b)), head=hd))


def lvn(I, st, r):
    if r.elts is not None:
        return VN("list", tuple(I.vnum(st, e) for e in r.elts))
    return VN("listn", r.vn, r.n, I.vnum(st, r.elem)
              if r.elem is not None else 0)


# ------------------------------------------------------------ iteration
def iter_any(I, it, st, node):
    """-> (known elements | None, count, fn(k) -> Val | callable(st))"""
    if isinstance(it, Ref):
        r = st.heap.get(it.id)
        if isinstance(r, ObjRec) and r.cls == "zip":
            return iter_zip(I, [v for _, v in r.attrs], st, node)
        if isinstance(r, ObjRec) and r.cls == "enumerate":
            base = r.get("it")
            start = r.get("start")
            elts, n, el = iter_any(I, base, st, node)
            s0 = start.sym if isinstance(start, Num) else ZERO
            if elts is not None:
                return [Tup((Num(s0 + C(i), isint=True, ispy=True), e))
                        for i, e in enumerate(elts)], n, None

            def mk_(k):
                def go(st2):
                    v = el(k)
                    if callable(v):
                        v = v(st2)
                    return Tup((Num(s0 + k, isint=True, ispy=True), v))
                return go
            return None, n, mk_
        if isinstance(r, ObjRec) and r.cls == "dset":
            sh = r.get("shape")
            n = sh.elts[0].sym if isinstance(sh, Tup) and sh.elts and \
                isinstance(sh.elts[0], Num) else None

            def md(k):
                return lambda st2: subscript(I, it, Num(k, isint=True), st2,
                                             node)
            return None, n, md
        if isinstance(r, ObjRec) and r.cls == "genlist":
            return iter_any(I, r.get("list"), st, node)
        if isinstance(r, ObjRec) and r.cls == "map":
            elts, n, el = iter_any(I, r.get("it"), st, node)
            f = r.get("f")
            if elts is not None:
                return [I.call(f, [e], {}, st, node) for e in elts], n, None

            def mm(k):
                def go(st2):
                    v = el(k)
                    if callable(v):
                        v = v(st2)
                    return I.call(f, [v], {}, st2, node)
                return go
            return None, n, mm
    elts, n, el = I.iter_info(it, st, node)
    if elts is None and isinstance(it, Ref) and isinstance(
            st.heap.get(it.id), ArrRec):
        def ma(k):
            return lambda st2: subscript(I, it, Num(k, isint=True), st2,
                                         node, tag="it")
        return None, n, ma
    if elts is None and isinstance(it, Ref):
        r = st.heap.get(it.id)
        if isinstance(r, ListRec):
            def ml(k):
                return lambda st2: list_at(I, st2, it, r, k)
            return None, n, ml
    return elts, n, el


def list_at(I, st, ref, r, k):
    """Element k of a list known only by its generic element (an expression
    over the loop symbol it was built with)."""
    e = list_elem(r)
    if e is None:
        return Top(VN("elem", I.vnum(st, ref), k))
    return at_index(I, st, e, r, k, VN("elem", I.vnum(st, ref), k))


def at_index(I, st, e, r, k, vn):
    gen = [t for t in r_gen(r)]
    if gen:
        env = {gen[0]: k}
        return I.subst_val(e, env, st)
    return e


def r_gen(r):
    t = LISTGEN.get((r.vn, r.n))
    return [t] if t is not None else []


LISTGEN = {}


def iter_zip(I, its, st, node):
    infos = [iter_any(I, x, st, node) for x in its]
    if all(e is not None for e, _, _ in infos):
        return [Tup(xs) for xs in zip(*[e for e, _, _ in infos])], C(min(
            [len(e) for e, _, _ in infos] or [0])), None
    ns = [n for _, n, _ in infos]
    n = None
    if all(x is not None for x in ns) and ns:
        n = ns[0]
        for x in ns[1:]:
            if x != n:
                n = S.pmin(n, x)

    def mk_(k):
        def go(st2):
            vs = []
            for (e, _, el) in infos:
                if e is not None:
                    v = e[0] if e else Top(VN("zip"))
                    for x in e[1:]:
                        v = join(v, x)
                else:
                    v = el(k)
                    if callable(v):
                        v = v(st2)
                vs.append(v)
            return Tup(vs)
        return go
    return None, n, mk_


# ------------------------------------------------------------ subscripts
def norm_index(p, n, st):
    """Index polynomial with negative values folded."""
    v = p.value()
    if v is not None:
        if v < 0:
            return n + p if n is not None else None
        return p
    if S.decide(">=", p, ZERO, st.facts) is True:
        return p
    if S.decide("<", p, ZERO, st.facts) is True:
        return n + p if n is not None else None
    return p          # assumed valid as written


def slice_bounds(I, sl, n, st):
    """-> (start Poly|None, count Poly|None, step Poly|None)"""
    def get(v):
        if v is None or isinstance(v, NoneVal):
            return "none"
        if isinstance(v, Num):
            return v.sym
        return None
    lo, hi, step = get(sl.lo), get(sl.hi), get(sl.step)
    if lo is None or hi is None or step is None:
        return None, None, None
    stp = ONE if step == "none" else step
    sv = stp.value()
    if sv is not None and sv < 0:
        if lo == "none" and hi == "none" and n is not None:
            if sv == -1:
                return n - ONE, n, stp
            return n - ONE, S.rounding("ceil", n.scale(Fraction(-1) / sv)), \
                stp
        return None, None, stp
    a = fold(ZERO if lo == "none" else lo, n, st)
    b = n if hi == "none" else fold(hi, n, st)
    if a is None or b is None:
        return a, None, stp
    d = b - a
    r = S.decide(">=", d, ZERO, st.facts)
    if r is False:
        d = ZERO
    elif r is None:
        d = S.pmax(d, ZERO)
    if sv == 1:
        cnt = d
    elif sv is not None and sv > 1:
        cnt = S.rounding("ceil", d.scale(Fraction(1) / sv))
    elif S.is_pos(stp) and d.is_int():
        cnt = S.floordiv(d + stp - ONE, stp)
    else:
        cnt = None
    return a, cnt, stp


def fold(p, n, st):
    """Slice end as a position in 0..n."""
    v = p.value()
    if v is not None and v == 0:
        return ZERO
    s = S.decide(">=", p, ZERO, st.facts)
    if s is True:
        if n is None:
            return p
        r = S.decide("<=", p, n, st.facts)
        if r is True:
            return p
        if r is False:
            return n
        return S.pmin(p, n)
    if s is False:
        if n is None:
            return None
        q = n + p
        r = S.decide(">=", q, ZERO, st.facts)
        if r is True:
            return q
        if r is False:
            return ZERO
        return S.pmax(q, ZERO)
    if n is not None and not p.is_const() and \
            S.decide("<=", p, ZERO, st.facts) is True:
        # "x[:-pad]": the case pad == 0 is reported apart; go on with
        # pad >= 1
        st.add_fact("ge", S.ZERO - p - ONE)
        q = n + p
        if S.decide(">=", q, ZERO, st.facts) is True:
            return q
        return S.pmax(q, ZERO)
    return None


def index_list(idx):
    if isinstance(idx, Tup):
        return list(idx.elts)
    return [idx]


def is_ellipsis(v):
    return isinstance(v, Top) and v.vn == VN("const", "Ellipsis")


def expand_index(I, idx, nd, st):
    """Split an index into per-axis parts; None when unknown."""
    items = index_list(idx)
    used = 0
    for x in items:
        if isinstance(x, NoneVal) or is_ellipsis(x):
            continue
        if isinstance(x, Ref):
            r = st.heap.get(x.id)
            if isinstance(r, ArrRec) and r.dtype == "b1" and \
                    r.shape is not None:
                used += len(r.shape)
                continue
        used += 1
    outl = []
    seen = False
    for x in items:
        if is_ellipsis(x):
            if seen:
                return None
            seen = True
            outl += [SliceVal(None, None, None)] * max(0, nd - used)
        else:
            outl.append(x)
    if not seen:
        outl += [SliceVal(None, None, None)] * max(0, nd - used)
    return outl


def subscript(I, b, idx, st, node, aug=False, tag=""):
    if isinstance(b, Union):
        vs = []
        for a in b.alts:
            if isinstance(a, (NoneVal, Undef)):
                continue
            try:
                vs.append(subscript(I, a, idx, st, node, aug, tag))
            except _Dead():
                pass
        if not vs:
            raise _Dead()()
        x = vs[0]
        for y in vs[1:]:
            x = joinv(I, st, node, x, y)
        return x
    if isinstance(b, NoneVal):
        I.emit("none_use", node, st, how="[]", val=b)
        raise _Dead()()
    if isinstance(idx, Union):
        ks = [a for a in idx.alts if not isinstance(a, Undef)]
        if len(ks) <= 4:
            vs = [subscript(I, b, a, st, node, aug, tag + "u%d" % i)
                  for i, a in enumerate(ks)]
            x = vs[0]
            for y in vs[1:]:
                x = joinv(I, st, node, x, y)
            return x
    if isinstance(b, StrVal):
        return str_sub(I, b, idx, st)
    if isinstance(b, Tup):
        if isinstance(idx, Num) and idx.const() is not None:
            i = int(idx.const())
            if -len(b.elts) <= i < len(b.elts):
                return b.elts[i]
            I.emit("index", node, st, idx=idx.sym, dim=C(len(b.elts)),
                   ref=None, definite=True)
            raise _Dead()()
        if isinstance(idx, SliceVal):
            s = const_slice(idx)
            if s is not None:
                return Tup(b.elts[s])
        if isinstance(idx, Num) and b.elts:
            x = b.elts[0]
            for y in b.elts[1:]:
                x = join(x, y)
            return x
        return Top(VN("sub", I.vnum(st, b), I.vnum(st, idx)))
    if isinstance(b, RangeVal):
        if isinstance(idx, Num):
            n = b.count()
            p = norm_index(idx.sym, n, st)
            if p is not None:
                return Num(b.lo + b.step * p, isint=True, ispy=True)
        return Top(VN("sub", I.vnum(st, b), I.vnum(st, idx)))
    if isinstance(b, Ref):
        r = st.heap.get(b.id)
        if isinstance(r, ArrRec):
            return arr_sub(I, b, r, idx, st, node, tag)
        if isinstance(r, ListRec):
            return list_sub(I, b, r, idx, st, node)
        if isinstance(r, DictRec):
            return dict_sub(I, b, r, idx, st, node)
        if isinstance(r, ObjRec):
            from . import iomodel
            return iomodel.obj_sub(I, b, r, idx, st, node)
    if isinstance(b, Func) and b.fn in ("numpy.ogrid", "numpy.mgrid"):
        from . import npmodel
        r = npmodel.open_grid(I, b.fn, idx, st, node)
        if r is not None:
            return r
    if isinstance(b, Func):
        # numba types, configured kernels kept as values
        return Top(VN("sub", I.vnum(st, b), I.vnum(st, idx)))
    vn = VN("sub", I.vnum(st, b), I.vnum(st, idx))
    tags = b.tags if isinstance(b, Top) else frozenset()
    return Top(vn, tags)


def const_slice(s):
    def g(v):
        if v is None or isinstance(v, NoneVal):
            return None
        if isinstance(v, Num) and v.const() is not None:
            return int(v.const())
        raise ValueError
    try:
        return slice(g(s.lo), g(s.hi), g(s.step))
    except ValueError:
        return None


def str_sub(I, b, idx, st):
    if b.const() is not None:
        try:
            if isinstance(idx, SliceVal):
                s = const_slice(idx)
                if s is not None:
                    return strv(b.const()[s], b.tags)
            elif isinstance(idx, Num) and idx.const() is not None:
                return strv(b.const()[int(idx.const())])
        except IndexError:
            pass
    vn = VN("ssub", b.vn, I.vnum(st, idx))
    if isinstance(idx, SliceVal):
        s = const_slice(idx)
        if s is not None:
            STRPARTS[vn] = (("slice", parts_of(b), s.start, s.stop),)
    return StrVal(None, vn, path_tags(b))


def list_sub(I, b, r, idx, st, node):
    if isinstance(idx, Num):
        c = idx.const()
        if r.elts is not None and c is not None:
            i = int(c)
            if -len(r.elts) <= i < len(r.elts):
                return r.elts[i]
            I.emit("index", node, st, idx=idx.sym, dim=C(len(r.elts)),
                   ref=b, definite=True)
            raise _Dead()()
        if r.n is not None:
            I.emit("index", node, st, idx=idx.sym, dim=r.n, ref=b,
                   definite=False)
        e = list_elem(r)
        if r.head is not None:
            if c == 0:
                return r.head
            if S.decide(">=", idx.sym, ONE, st.facts) is True:
                e = r.elem
        if e is not None:
            if r.elts is None and r.n is not None:
                p = norm_index(idx.sym, r.n, st)
                if p is not None:
                    return at_index(I, st, e, r, p, VN(
                        "elem", I.vnum(st, b), p))
            return e
        return Top(VN("elem", I.vnum(st, b), idx.sym))
    if isinstance(idx, SliceVal):
        I.emit("list_slice", node, st, ref=b, idx=idx)
        if r.elts is not None:
            s = const_slice(idx)
            if s is not None:
                es = r.elts[s]
                return I.new_list(st, node, ListRec(
                    es, C(len(es)), vn=VN("list", len(es))))
        a, cnt, stp = slice_bounds(I, idx, r.n, st)
        e = list_elem(r)
        if r.head is not None and isinstance(idx.lo, Num) and S.decide(
                ">=", idx.lo.sym, ONE, st.facts) is True:
            e = r.elem
        return I.new_list(st, node, ListRec(None, cnt, e, vn=VN(
            "lsl", lvn(I, st, r), I.vnum(st, idx))))
    return Top(VN("sub", I.vnum(st, b), I.vnum(st, idx)))


def dict_sub(I, b, r, idx, st, node):
    k = idx.const() if isinstance(idx, (StrVal, Num)) else None
    d = dict(r.items)
    if k is not None and k in d:
        return d[k]
    if k is not None and r.closed:
        I.emit("key_error", node, st, key=k)
        raise _Dead()()
    if r.closed and d:
        x = None
        for y in d.values():
            x = y if x is None else join(x, y)
        return x
    if r.elem is not None and k is None:
        return r.elem
    return Top(VN("sub", I.vnum(st, b), I.vnum(st, idx)),
               frozenset(("root", t) for t in r.roots))


def arr_sub(I, b, r, idx, st, node, tag=""):
    vn = VN("sub", r.vn, I.vnum(st, idx))
    items = index_list(idx)
    # ---- boolean mask or where() indices
    m = mask_of(I, idx, st)
    if m is not None:
        mk_, mrec = m
        lo, hi, nz = restrict(r.lo, r.hi, r.nz, mk_, r.vn)
        n = Poly.atom(("o", "cnt%d" % VN("cnt", mrec.vn))) if mrec else None
        shp = (None,)
        if mrec is not None and mrec.shape is not None and \
                r.shape is not None and mrec.dtype == "b1":
            chk_mask(I, r, mrec, st, node)
            shp = (None,) + r.shape[len(mrec.shape):]
        return I.new_arr(st, node, ArrRec(
            shp, r.dtype, lo, hi, nz, r.unit, vn, tags=content(r.tags)), tag)
    if r.shape is None:
        return sub_unknown(I, b, r, idx, items, vn, st, node, tag)
    ex = expand_index(I, idx, len(r.shape), st)
    if ex is None:
        return I.new_arr(st, node, r.upd(shape=None, vn=vn, parent=b.id,
                                         seq=None, mask=None), tag)
    nidx = sum(0 if isinstance(x, NoneVal) else 1 for x in ex)
    if nidx > len(r.shape):
        I.emit("too_many_indices", node, st, ref=b, shape=r.shape,
               n=nidx)
        raise _Dead()()
    shape = []
    ax = 0
    adv = []
    advpos = None
    polys = []
    view = True
    seq = None
    starts = []
    for x in ex:
        if isinstance(x, NoneVal):
            shape.append(ONE)
            continue
        d = r.shape[ax]
        ax += 1
        if isinstance(x, BoolVal):
            x = Num(C(int(x.b)) if x.b is not None else named_opaque("b"),
                    isint=True)
        if isinstance(x, Num):
            p = norm_index(x.sym, d, st)
            polys.append(p)
            starts.append(("i", p))
            if d is not None and p is not None and not I.kernel:
                I.emit("index", node, st, idx=x.sym, dim=d, ref=b,
                       definite=False)
            continue
        if isinstance(x, SliceVal):
            a, cnt, stp = slice_bounds(I, x, d, st)
            polys.append(None)
            starts.append(("s", a, cnt, stp, x))
            shape.append(cnt)
            if r.seq is not None and len(r.shape) == 1 and a is not None \
                    and stp is not None:
                seq = (r.seq[0] + r.seq[1] * a, r.seq[1] * stp)
            continue
        xo = op_of(I, x, st)
        polys.append(None)
        starts.append(("a", xo))
        view = False
        if d is not None:
            I.emit("index_arr", node, st, lo=xo.lo, hi=xo.hi, dim=d, ref=b)
        adv.append(xo.shape)
        if advpos is None:
            advpos = len(shape)
            shape.append("ADV")
        if xo.mask is not None and xo.mask[0] == "idx":
            pass
    if adv:
        bs = broadcast(I, adv, st, node, "index arrays")
        i = shape.index("ADV")
        if bs is None:
            shape = None
        else:
            shape[i:i + 1] = list(bs)
    if shape == [] and all(p is not None for p in polys):
        return load_elem(I, b, r, polys, vn, st, node)
    I.emit("arr_read", node, st, ref=b, rec=r, starts=starts)
    if I.kernel:
        I.emit("kview", node, st, ref=b, rec=r, parts=tuple(starts))
    sh = tuple(shape) if shape is not None else None
    if sh == ():
        return Num(named_opaque("v%d" % vn), r.lo, r.hi, r.dtype[0] in "iub",
                   r.unit, r.nz, tags=deptags(r))
    full = view and all(s[0] == "s" and s[1] is not None and not s[1].t and
                        s[2] == d and s[3] == ONE
                        for s, d in zip(starts, r.shape)) and \
        len(ex) == len(r.shape)
    nvn = r.vn if full else vn
    if len(starts) and not full:
        nvn = sub_vn(I, r, starts, st, vn)
    if I.opts.get("order") and not I.kernel:
        I.emit("ocut", node, st, vn=nvn, dims=r.shape)
    out = I.new_arr(st, node, ArrRec(
        sh, r.dtype, r.lo, r.hi, r.nz, r.unit, nvn,
        r.roots if view else frozenset(), b.id if view else None, seq,
        tags=content(r.tags), view=(r.view or b.id, nvn) if view else None),
        tag)
    if I.kernel and view:
        I.views[out.id] = (b.id, starts, any(
            isinstance(x, NoneVal) for x in ex))
    return out


def sub_vn(I, r, starts, st, vn):
    """Value number of a part, by the positions rather than the spelling."""
    key = []
    for s in starts:
        if s[0] == "i":
            if s[1] is None:
                return vn
            key.append(("i", s[1]))
        elif s[0] == "s":
            if s[1] is None or s[2] is None:
                return vn
            key.append(("s", s[1], s[2], s[3]))
        else:
            key.append(("a", s[1].vn))
    while key and key[-1][0] == "s" and not key[-1][1].t and \
            len(key) <= len(r.shape) and key[-1][2] == r.shape[len(key) - 1] \
            and key[-1][3] == ONE:
        key.pop()
    return VN("part", r.vn, tuple(key))


def content(tags):
    return frozenset(t for t in tags if t in CONTENT or keeptag(t) or
                     (isinstance(t, tuple) and t[0] in ("ord",)))


def deptags(r):
    return frozenset(t for t in r.tags if keeptag(t))


def sub_unknown(I, b, r, idx, items, vn, st, node, tag):
    I.emit("arr_read", node, st, ref=b, rec=r, starts=None)
    view = all(isinstance(x, (Num, SliceVal, NoneVal)) or is_ellipsis(x)
               for x in items)
    return I.new_arr(st, node, r.upd(
        shape=None, vn=vn, parent=b.id if view else None, seq=None,
        mask=None, roots=r.roots if view else frozenset(),
        tags=content(r.tags)), tag)


def load_elem(I, b, r, polys, vn, st, node):
    if I.kernel:
        at = Poly.atom(("ld", r.vn) + tuple(polys))
        I.emit("kload", node, st, ref=b, rec=r, idx=tuple(polys), vn=r.vn)
        return Num(at, bnd(r.lo), bnd(r.hi), r.dtype[0] in "iub" and
                   r.dtype != "?", r.unit, r.nz)
    I.emit("arr_read", node, st, ref=b, rec=r,
           starts=[("i", p) for p in polys])
    if r.seq is not None and len(polys) == 1 and isinstance(r.seq[0], Poly):
        return Num(r.seq[0] + r.seq[1] * polys[0],
                   isint=r.dtype[0] in "iu", unit=r.unit)
    ev = VN("part", r.vn, tuple(("i", p) for p in polys))
    return Num(named_opaque("v%d" % ev), r.lo, r.hi,
               r.dtype[0] in "iub", r.unit, r.nz,
               int(r.dtype[1:]) * 8 if r.dtype in ("i2", "u2", "u1", "i1")
               else None, tags=deptags(r) | frozenset(
                   t for t in r.tags if t in CONTENT))


def mask_of(I, idx, st):
    """(mask, record) when idx selects elements by a condition."""
    if isinstance(idx, Ref):
        r = st.heap.get(idx.id)
        if isinstance(r, ArrRec):
            if r.dtype == "b1":
                return (r.mask or ("?",), r)
            if r.mask is not None and r.mask[0] == "idx":
                return (r.mask[1], r)
    if isinstance(idx, Tup) and idx.elts:
        ms = []
        for x in idx.elts:
            r = st.heap.get(x.id) if isinstance(x, Ref) else None
            if isinstance(r, ArrRec) and r.mask is not None and \
                    r.mask[0] == "idx":
                ms.append(r.mask[1])
            else:
                return None
        if len(set(ms)) == 1:
            return (ms[0], None)
    return None


def chk_mask(I, r, mrec, st, node):
    for i, d in enumerate(mrec.shape):
        if i < len(r.shape):
            w = dims_differ(I, r.shape[i], d, st)
            if w is not None:
                I.emit("shape_mismatch", node, st, how="boolean mask",
                       a=r.shape[i], b=d, witness=w,
                       shapes=[r.shape, mrec.shape], axis=i)


# ------------------------------------------------------------ stores
def store_sub(I, b, idx, v, st, node, aug=None):
    for a in alts_of(b):
        if isinstance(a, NoneVal):
            if len(alts_of(b)) == 1:
                I.emit("none_use", node, st, how="[]=", val=a)
                raise _Dead()()
            continue
        store_one(I, a, idx, v, st, node, aug, len(alts_of(b)) == 1)


def store_one(I, b, idx, v, st, node, aug, strong):
    if isinstance(b, Top):
        I.mutate(st, b, node, "[]=")
        return
    if not isinstance(b, Ref):
        if isinstance(b, Tup):
            I.emit("type_error", node, st, how="tuple item assignment")
        return
    r = st.heap.get(b.id)
    if isinstance(r, ListRec):
        I.mutate(st, b, node, "[]=")
        if isinstance(idx, Num) and idx.const() is not None and \
                r.elts is not None and \
                -len(r.elts) <= int(idx.const()) < len(r.elts):
            es = list(r.elts)
            i = int(idx.const())
            es[i] = v if strong else join(es[i], v)
            st.heap[b.id] = r.upd(elts=tuple(es))
            return
        e = list_elem(r)
        st.heap[b.id] = ListRec(None, r.n, v if e is None else join(e, v),
                                r.roots, VN("lset", r.vn, I.vnum(st, idx),
                                            I.vnum(st, v)))
        return
    if isinstance(r, DictRec):
        I.mutate(st, b, node, "[]=")
        k = idx.const() if isinstance(idx, (StrVal, Num)) else None
        if k is None:
            st.heap[b.id] = r.upd(closed=False, vn=VN(
                "dset", r.vn, I.vnum(st, idx), I.vnum(st, v)))
        else:
            st.heap[b.id] = r.upd(items=tuple(
                (a, x) for a, x in r.items if a != k) + ((k, v),))
        return
    if isinstance(r, ObjRec):
        from . import iomodel
        iomodel.obj_store(I, b, r, idx, v, st, node, aug)
        return
    if not isinstance(r, ArrRec):
        return
    o = op_of(I, v, st)
    # ---- kernel element store
    items = index_list(idx)
    if r.dtype[0] in "iu" and o.dtype[0] == "f":
        I.emit("store_frac", node, st, ref=b, rec=r, value=v, vdtype=o.dtype)
    if I.kernel and r.shape is not None and len(items) == len(r.shape) and \
            all(isinstance(x, Num) for x in items):
        polys = tuple(norm_index(x.sym, d, st)
                      for x, d in zip(items, r.shape))
        I.emit("kstore", node, st, ref=b, rec=r, idx=polys, value=v,
               aug=aug[0] if aug else None,
               augv=aug[1] if aug else None)
        I.mutate(st, b, node, "kernel store")
        st.heap[b.id] = r.upd(
            lo=join_bound(r.lo, bnd(o.lo), "lo"),
            hi=join_bound(r.hi, bnd(o.hi), "hi"), nz=r.nz and o.nz,
            seq=None, vn=VN("kst", r.vn, polys, o.vn))
        I.propagate_parent(st, b, node)
        return
    I.mutate(st, b, node, "[]=" if not aug else "[] %s=" % aug[0])
    m = mask_of(I, idx, st)
    vn = VN("store", r.vn, I.vnum(st, idx), o.vn)
    if m is not None:
        if m[1] is not None and m[1].shape is not None and \
                m[1].dtype == "b1" and r.shape is not None:
            chk_mask(I, r, m[1], st, node)
        rest = restrict(r.lo, r.hi, r.nz, negmask(m[0]), r.vn)
        if aug:
            new = (None, None, False)
        else:
            new = (bnd(o.lo), bnd(o.hi), o.nz)
        lo, hi, nz = join_facts(rest, new)
        if m[0] == ("?",):
            lo, hi, nz = join_facts((r.lo, r.hi, r.nz), new)
        tg = r.tags
        if ("meas" in tg or "ffdiff" in tg) and m[0] == ("?",):
            # an unrecognised condition: may be the sanitising one
            tg = frozenset(t for t in tg if t not in ("meas", "ffdiff"))
        st.heap[b.id] = r.upd(lo=lo, hi=hi, nz=nz, vn=vn, seq=None, tags=tg)
        I.propagate_parent(st, b, node)
        return
    if r.shape is None:
        I.emit("arr_write", node, st, ref=b, rec=r, starts=None, value=v)
        st.heap[b.id] = r.upd(
            lo=join_bound(r.lo, bnd(o.lo), "lo"),
            hi=join_bound(r.hi, bnd(o.hi), "hi"), nz=r.nz and o.nz,
            vn=vn, seq=None, unit=join_unit(r.unit, o.unit))
        I.propagate_parent(st, b, node)
        return
    ex = expand_index(I, idx, len(r.shape), st)
    shape = []
    starts = []
    ok = ex is not None
    ax = 0
    full = True
    if ok:
        for x in ex:
            if isinstance(x, NoneVal):
                shape.append(ONE)
                continue
            if ax >= len(r.shape):
                I.emit("too_many_indices", node, st, ref=b, shape=r.shape,
                       n=len(ex))
                raise _Dead()()
            d = r.shape[ax]
            ax += 1
            if isinstance(x, Num):
                p = norm_index(x.sym, d, st)
                starts.append(("i", p))
                full = False
                if d is not None and not I.kernel:
                    I.emit("index", node, st, idx=x.sym, dim=d, ref=b,
                           definite=False)
            elif isinstance(x, SliceVal):
                a, cnt, stp = slice_bounds(I, x, d, st)
                starts.append(("s", a, cnt, stp, x))
                shape.append(cnt)
                if not (a is not None and not a.t and cnt == d and
                        stp == ONE):
                    full = False
            else:
                full = False
                xo = op_of(I, x, st)
                starts.append(("a", xo))
                if d is not None:
                    I.emit("index_arr", node, st, lo=xo.lo, hi=xo.hi, dim=d,
                           ref=b)
                shape = None
                break
    I.emit("arr_write", node, st, ref=b, rec=r,
           starts=starts if ok else None, value=v)
    if ok and shape is not None and o.shape is not None and o.known:
        vs = list(o.shape)
        while len(vs) > len(shape) and vs and vs[0] == ONE:
            vs.pop(0)
        if len(vs) > len(shape):
            if all(x is not None for x in vs):
                I.emit("shape_mismatch", node, st, how="assignment",
                       a=C(len(shape)), b=C(len(vs)), witness={},
                       shapes=[tuple(shape), o.shape], axis=0)
        else:
            for i in range(1, len(vs) + 1):
                d, e = shape[-i], vs[-i]
                if e is None or e == ONE or d is None:
                    continue
                w = None
                if d != e:
                    w = find_diff(d, e, st.facts)
                if w is not None and S.decide("!=", e, ONE, st.facts) is True:
                    I.emit("shape_mismatch", node, st, how="assignment",
                           a=d, b=e, witness=w,
                           shapes=[tuple(shape), o.shape], axis=-i)
    if ok and full and strong and not aug and shape is not None:
        st.heap[b.id] = r.upd(lo=bnd(o.lo), hi=bnd(o.hi), nz=o.nz, vn=vn,
                              seq=None, unit=o.unit,
                              tags=content(o.tags) | frozenset(
                                  t for t in r.tags if t not in CONTENT))
    else:
        tg = r.tags | frozenset(t for t in o.tags if t in CONTENT)
        unit = join_unit(r.unit, o.unit)
        st.heap[b.id] = r.upd(
            lo=join_bound(r.lo, bnd(o.lo), "lo"),
            hi=join_bound(r.hi, bnd(o.hi), "hi"),
            nz=r.nz and o.nz, vn=vn, seq=None, unit=unit, tags=tg)
    I.propagate_parent(st, b, node)


# ------------------------------------------------------------ attributes
def attr(I, b, name, st, node):
    from . import npmodel, iomodel
    if isinstance(b, Ref):
        r = st.heap.get(b.id)
        if isinstance(r, ArrRec):
            return npmodel.arr_attr(I, b, r, name, st, node)
        if isinstance(r, (ListRec, DictRec)):
            return Func("%s.%s" % (b.what, name), self_=b)
        if isinstance(r, ObjRec):
            return iomodel.obj_attr(I, b, r, name, st, node)
    if isinstance(b, StrVal):
        return iomodel.str_attr(I, b, name, st, node)
    if isinstance(b, (Tup, RangeVal)):
        return Func("tuple." + name, self_=b)
    if isinstance(b, Num):
        if name in ("real",):
            return b
        if name == "imag":
            return num(0)
        if name in ("shape",):
            return Tup(())
        if name == "ndim":
            return num(0)
        if name == "size":
            return num(1)
        if name == "dtype":
            return Top(VN("dtype", b.vnum))
        return Func("ndarray." + name, self_=b)
    if isinstance(b, Func):
        if isinstance(b.fn, str):
            return I.ext(b.fn + "." + name)
        return Top(VN("fattr", I.vnum(st, b), name))
    if isinstance(b, Top):
        tg = b.tags
        if name in TOPMETH:
            return Func("top." + name, self_=b)
        return Top(VN("attr", b.vn, name), tg)
    return Top(VN("attr", I.vnum(st, b), name))


TOPMETH = {"sort", "fill", "append", "extend", "insert", "pop", "clear",
           "update", "remove", "reverse", "setdefault", "resize", "put",
           "itemset", "partition", "byteswap", "setfield", "setflags",
           "copy", "astype", "flatten", "tolist", "close"}


def deps(I, st, *vs):
    t = frozenset()
    for v in vs:
        if isinstance(v, (Num, StrVal, Top, BoolVal)):
            t |= frozenset(x for x in v.tags if keeptag(x))
    return t


ANGLE_SINKS = {"tomopy.recon": 1, "astra.create_proj_geom": 3}


# ------------------------------------------------------------ calls
def call_obj(I, f, args, kwargs, st, node, star):
    from . import iomodel
    return iomodel.call_obj(I, f, args, kwargs, st, node, star)


def call_ext(I, f, fn_, args, kwargs, st, node, star):
    from . import npmodel, iomodel, builtmodel
    if isinstance(fn_, tuple):
        if fn_[0] == "class":
            return iomodel.make_instance(I, fn_, args, kwargs, st, node, star)
        return Top(VN("call", fn_[0]))
    I.emit("ext_call", node, st, name=fn_, args=args, kwargs=kwargs,
           self_=f.self_)
    if fn_ in ANGLE_SINKS and len(args) > ANGLE_SINKS[fn_]:
        I.emit("angle_sink", node, st, fn=fn_, unit=op_of(
            I, args[ANGLE_SINKS[fn_]], st).unit)
    h = None
    for m in (builtmodel, npmodel, iomodel):
        h = m.HANDLERS.get(fn_)
        if h is not None:
            break
    if h is None and "." in fn_:
        pre, _, last = fn_.rpartition(".")
        for m in (builtmodel, npmodel, iomodel):
            h = m.by_prefix(pre, last)
            if h is not None:
                break
    if h is not None:
        try:
            r = h(I, f, fn_, args, kwargs, st, node)
        except (IndexError, KeyError):
            r = None
        if r is not None:
            return r
    vn = VN("ext", fn_, I.vnum(st, f.self_) if f.self_ is not None else 0,
            tuple(I.vnum(st, a) for a in args),
            tuple((k, I.vnum(st, v)) for k, v in sorted(kwargs.items())))
    I.emit("ext_unknown", node, st, name=fn_)
    return Top(vn)


def enter(I, v, st, node):
    from . import iomodel
    return iomodel.enter(I, v, st, node)


def exit_(I, v, st, node):
    from . import iomodel
    return iomodel.exit_(I, v, st, node)
