"""Models of numpy, scipy and pywt functions: shape, aliasing, element facts,
angle unit and value number of the result."""
from fractions import Fraction
from .sym import Poly, C, ZERO, ONE, INF, named_opaque
from . import sym as S
from .values import *
from .values import list_elem
from . import models as M
from .models import (op_of, out, bnd, fn, rec_of, broadcast, find_diff, sgn,
                     CONTENT, content, join_facts, restrict, negmask)
from .builtmodel import num1, union_map, Dead, materialise

HANDLERS = {}


def h(*names):
    def deco(f):
        for n in names:
            HANDLERS[n] = f
        return f
    return deco


def by_prefix(pre, last):
    if pre == "ndarray":
        g = HANDLERS.get("numpy." + last)
        if g is not None:
            def call(I, f, n, args, kw, st, node):
                return g(I, Func("numpy." + last), "numpy." + last,
                         [f.self_] + list(args), kw, st, node)
            return call
    if pre == "numpy.ndarray":
        g = HANDLERS.get("numpy." + last)
        if g is not None:
            return lambda I, f, n, args, kw, st, node: g(
                I, f, "numpy." + last, args, kw, st, node)
    if pre == "scipy.ndimage.filters" or pre == "scipy.ndimage.interpolation":
        return HANDLERS.get("scipy.ndimage." + last)
    if pre in ("numpy.ma",):
        return None
    if pre == "scipy.signal.windows" or pre == "scipy.signal" and \
            last in M.NAMES["scipy.signal.windows"]:
        return window
    if pre == "scipy.fft" or pre == "scipy.fftpack" or pre == "numpy.fft":
        return HANDLERS.get("numpy.fft." + last)
    return None


# ------------------------------------------------------------- arguments
def arg(args, kw, i, name, default=None):
    if len(args) > i:
        return args[i]
    return kw.get(name, default)


def shape_arg(I, v, st):
    """A shape given as int, tuple, list or .shape."""
    if isinstance(v, Num):
        return (v.sym,)
    if isinstance(v, Tup):
        return tuple(num1(I, x, st) for x in v.elts)
    if isinstance(v, Ref):
        r = st.heap.get(v.id)
        if isinstance(r, ListRec) and r.elts is not None:
            return tuple(num1(I, x, st) for x in r.elts)
    if isinstance(v, Union):
        ss = {shape_arg(I, a, st) for a in v.alts
              if not isinstance(a, (NoneVal, Undef))}
        if len(ss) == 1:
            return ss.pop()
        ss = list(ss)
        if all(s is not None for s in ss) and len({len(s) for s in ss}) == 1:
            r = ss[0]
            for s in ss[1:]:
                r = join_shape(r, s)
            return r
    return None


def axis_arg(v, nd):
    """-> tuple of axes, None for all, or 'unknown'"""
    if v is None or isinstance(v, NoneVal):
        return None
    if isinstance(v, Num) and v.const() is not None:
        a = int(v.const())
        return (a % nd if nd and -nd <= a < nd else a,)
    if isinstance(v, Tup) and all(isinstance(x, Num) and
                                  x.const() is not None for x in v.elts):
        return tuple(int(x.const()) % nd if nd else int(x.const())
                     for x in v.elts)
    return "unknown"


def dtype_arg(v):
    if v is None or isinstance(v, NoneVal):
        return None
    if isinstance(v, Func) and isinstance(v.fn, str):
        return DT.get(v.fn.split(".")[-1].rstrip("_"), "?")
    if isinstance(v, StrVal) and v.const():
        return DT.get(v.const().lstrip("<>="), "?")
    return "?"


DT = {"float32": "f4", "float64": "f8", "float": "f8", "double": "f8",
      "int32": "i4", "int64": "i8", "int": "i8", "intp": "i8",
      "int16": "i2", "int8": "i1", "uint8": "u1", "uint16": "u2",
      "uint32": "u4", "uint64": "u8", "bool": "b1", "bool_": "b1",
      "complex64": "c8", "complex128": "c16", "complex": "c16",
      "single": "f4", "float16": "f2"}
SMALL = {"i1": (-128, 127), "u1": (0, 255), "i2": (-32768, 32767),
         "u2": (0, 65535), "i4": (-2**31, 2**31 - 1)}


def top(I, st, n, args, kw):
    return Top(VN("ext", n, tuple(I.vnum(st, a) for a in args), tuple(
        (k, I.vnum(st, v)) for k, v in sorted(kw.items()))))


def kwvn(I, st, args, kw, skip=1):
    return (tuple(I.vnum(st, a) for a in args[skip:]), tuple(
        (k, I.vnum(st, v)) for k, v in sorted(kw.items())))


def check_none(I, st, node, n, v):
    if isinstance(v, NoneVal):
        I.emit("none_use", node, st, how=n, val=v)
        raise Dead()


def check_out(I, st, node, args, kw, pos=None):
    o = kw.get("out")
    if o is None and pos is not None and len(args) > pos:
        o = args[pos]
    if isinstance(o, Tup) and o.elts:
        o = o.elts[0]
    if isinstance(o, (Ref, Top)):
        I.mutate(st, o, node, "out=")
        return o
    return None


def give_out(I, st, o, res):
    """out= argument: the result lives in the given array."""
    if isinstance(o, Ref) and isinstance(st.heap.get(o.id), ArrRec) and \
            isinstance(res, Ref) and isinstance(st.heap.get(res.id), ArrRec):
        r0, r1 = st.heap[o.id], st.heap[res.id]
        st.heap[o.id] = r1.upd(roots=r0.roots, parent=r0.parent,
                               shape=r0.shape, dtype=r0.dtype, view=r0.view)
        return o
    return o if o is not None else res


# -------------------------------------------------------------- creation
@h("numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full")
def np_zeros(I, f, n, args, kw, st, node):
    s = arg(args, kw, 0, "shape")
    check_none(I, st, node, n, s)
    sh = shape_arg(I, s, st)
    k = n.split(".")[1]
    dt = dtype_arg(arg(args, kw, 2 if k == "full" else 1, "dtype")) or "f8"
    if k == "zeros":
        lo = hi = ZERO
        nz = False
    elif k == "ones":
        lo = hi = ONE
        nz = True
    elif k == "full":
        o = op_of(I, arg(args, kw, 1, "fill_value"), st)
        lo, hi, nz = bnd(o.lo), bnd(o.hi), o.nz
    else:
        lo = hi = None
        nz = False
    vn = VN(k, sh, I.vnum(st, args[1]) if k == "full" and len(args) > 1
            else 0) if k != "empty" else VN("empty", sh)
    if sh is None:
        vn = VN(k, I.vnum(st, s))
    for d in sh or ():
        if d is not None:
            I.emit("alloc_dim", node, st, dim=d)
    return I.new_arr(st, node, ArrRec(sh, dt, lo, hi, nz, None, vn))


@h("numpy.zeros_like", "numpy.ones_like", "numpy.empty_like",
   "numpy.full_like")
@union_map
def np_zeros_like(I, f, n, args, kw, st, node):
    o = op_of(I, args[0], st)
    k = n.split(".")[1].split("_")[0]
    dt = dtype_arg(kw.get("dtype")) or o.dtype
    lo, hi, nz = {"zeros": (ZERO, ZERO, False), "ones": (ONE, ONE, True),
                  "empty": (None, None, False)}.get(k, (None, None, False))
    if k == "full":
        p = op_of(I, args[1], st)
        lo, hi, nz = bnd(p.lo), bnd(p.hi), p.nz
    sh = shape_arg(I, kw["shape"], st) if "shape" in kw else o.shape
    return I.new_arr(st, node, ArrRec(sh, dt, lo, hi, nz, None, VN(
        k, sh if sh is not None else o.vn)))


@h("numpy.arange")
def np_arange(I, f, n, args, kw, st, node):
    a = list(args)
    for x in a:
        check_none(I, st, node, n, x)
    dt = dtype_arg(kw.get("dtype"))
    ops = [op_of(I, x, st) for x in a[:3]]
    ps = [o.num.sym if o.num is not None else
          named_opaque("v%d" % o.vn) for o in ops]
    isint = all(o.dtype[0] in "iub" and o.shape == () for o in ops)
    unit = None
    for o in ops[:2]:
        unit = join_unit(unit, o.unit)
    if len(ps) == 1:
        start, stop, step = ZERO, ps[0], ONE
    elif len(ps) == 2:
        start, stop, step = ps[0], ps[1], ONE
    else:
        start, stop, step = ps
    d = stop - start
    sv = step.value()
    cnt = None
    if sv is not None and sv != 0:
        q = d.scale(1 / sv)
        cnt = S.rounding("ceil", q)
        if S.decide(">=", cnt, ZERO, st.facts) is not True:
            cnt = S.pmax(cnt, ZERO)
    elif isint and d.is_int() and S.decide(">", step, ZERO,
                                           st.facts) is True:
        cnt = S.exact_div(d, step)
        if cnt is None:
            cnt = S.floordiv(d + step - ONE, step)
        if S.decide(">=", d, ZERO, st.facts) is not True:
            cnt = S.pmax(cnt, ZERO)
    elif S.is_pos(step):
        cnt = S.rounding("ceil", S.div(d, step))
    lo = hi = None
    if S.is_nonneg(step):
        lo = start
        hi = stop - ONE if isint and sv == 1 else stop
    elif S.is_nonneg(-step):
        hi, lo = start, stop
    return I.new_arr(st, node, ArrRec(
        (cnt,), dt or ("i8" if isint else "f8"), bnd(lo), bnd(hi),
        S.is_pos(start) and S.is_nonneg(step), unit,
        VN("arange", start, stop, step), seq=(start, step)))


def open_grid(I, name, idx, st, node):
    """np.ogrid[a:b, c:d] and np.mgrid[...]"""
    idxs = idx.elts if isinstance(idx, Tup) else (idx,)
    ds = []
    for x in idxs:
        if not isinstance(x, SliceVal) or not isinstance(
                x.hi, Num) or isinstance(x.step, Num):
            return None
        lo = x.lo if isinstance(x.lo, Num) else num(0)
        d = x.hi.sym - lo.sym
        c = S.rounding("ceil", d)
        if S.decide(">=", c, ZERO, st.facts) is not True:
            c = S.pmax(c, ZERO)
        ds.append((lo, x.hi, c))
    nd = len(ds)
    els = []
    for i, (lo, hi, c) in enumerate(ds):
        sh = tuple(e[2] for e in ds) if name == "numpy.mgrid" else \
            (ONE,) * i + (c,) + (ONE,) * (nd - 1 - i)
        b = S.bounds(hi.sym - lo.sym)
        isint = lo.isint and hi.isint
        els.append(I.new_arr(st, node, ArrRec(
            sh, "i8" if isint else "f8", bnd(lo.sym),
            bnd(hi.sym - ONE if isint else hi.sym), False, None,
            VN(name, i, tuple((e[0].vnum, e[1].vnum) for e in ds))),
            "og%d" % i))
    return els[0] if nd == 1 else Tup(els)


@h("numpy.linspace")
def np_linspace(I, f, n, args, kw, st, node):
    a, b = args[0], args[1]
    for x in (a, b):
        check_none(I, st, node, n, x)
    c = arg(args, kw, 2, "num", num(50))
    check_none(I, st, node, n, c)
    oa, ob, oc = (op_of(I, x, st) for x in (a, b, c))
    ep = arg(args, kw, 3, "endpoint", TRUE)
    epb = I.truth(ep, st)
    cnt = oc.num.sym if oc.num is not None else None
    pa = oa.num.sym if oa.num is not None else named_opaque("v%d" % oa.vn)
    pb = ob.num.sym if ob.num is not None else named_opaque("v%d" % ob.vn)
    seq = None
    if cnt is not None and epb is not None:
        den = cnt - ONE if epb else cnt
        if den.t:
            seq = (pa, S.div(pb - pa, den))
    r = S.decide("<=", pa, pb, st.facts)
    if r is None:
        r = M.by_bounds("<=", oa, ob)
    if r is True:
        lo, hi = oa.lo, ob.hi
    elif r is False:
        lo, hi = ob.lo, oa.hi
    else:
        lo = join_bound(oa.lo, ob.lo, "lo")
        hi = join_bound(oa.hi, ob.hi, "hi")
    tags = frozenset(["neutral"]) if oa.num is not None and \
        ob.num is not None and pa.is_const() and pb.is_const() else \
        frozenset()
    return I.new_arr(st, node, ArrRec(
        (cnt,), "f8", bnd(lo), bnd(hi), False, join_unit(oa.unit, ob.unit),
        VN("linspace", pa, pb, cnt, epb), seq=seq, tags=tags))


@h("numpy.array", "numpy.copy", "numpy.asarray", "numpy.ascontiguousarray",
   "numpy.asanyarray", "numpy.asfortranarray", "numpy.float32",
   "numpy.squeeze_", "numpy.require", "numpy.atleast_1d_")
@union_map
def np_array(I, f, n, args, kw, st, node):
    v = args[0]
    k = n.split(".")[1]
    if isinstance(v, Num) and k == "float32":
        return v.with_(isint=False)
    if isinstance(v, BoolVal) and k == "float32":
        return Num(C(int(v.b)), isint=False) if v.b is not None else Num(
            named_opaque("flt%d" % v.vn), ZERO, ONE, False)
    if isinstance(v, StrVal):
        return v
    if isinstance(v, Ref):
        r = st.heap.get(v.id)
        if isinstance(r, ObjRec):
            from . import iomodel
            return iomodel.obj_to_array(I, v, r, st, node, n, kw)
        if isinstance(r, ArrRec):
            dt = dtype_arg(arg(args, kw, 1, "dtype"))
            if k == "float32":
                dt = "f4"
            copy = k in ("copy",) or k == "array" and not (
                isinstance(kw.get("copy"), BoolVal) and
                kw["copy"].b is False)
            if k == "array" and isinstance(kw.get("copy"), NoneVal):
                copy = False
            same = dt is None or dt == "?" or r.dtype == dt or \
                r.dtype == "?"
            if dt in ("i1", "u1", "i2", "u2"):
                emit_cast(I, st, node, dt, op_of(I, v, st), v)
            if copy or not same:
                return I.new_arr(st, node, r.upd(
                    dtype=dt or r.dtype, roots=frozenset(), parent=None,
                    view=None, tags=r.tags - {"private"}))
            if k == "ascontiguousarray" and "contig?" in r.tags:
                pass
            # may be the very same memory
            return I.new_arr(st, node, r.upd(dtype=dt if dt not in
                                             (None, "?") else r.dtype,
                                             parent=v.id))
    o = op_of(I, v, st)
    dt = dtype_arg(arg(args, kw, 1, "dtype"))
    if k == "float32":
        dt = "f4"
    if not o.known and o.shape is None:
        if isinstance(v, Ref) and v.what == "list" or isinstance(v, Tup):
            return I.new_arr(st, node, ArrRec(None, dt or "?", vn=o.vn,
                                              roots=frozenset()))
        rr = o.roots if k != "copy" and k != "array" else frozenset()
        tg = v.tags if isinstance(v, Top) else frozenset()
        if k in ("copy", "array"):
            tg = frozenset(t for t in tg if not (
                isinstance(t, tuple) and t[0] == "root"))
        return I.new_arr(st, node, ArrRec(None, dt or "?", vn=o.vn,
                                          roots=rr, tags=content(tg)))
    if dt in ("i1", "u1", "i2", "u2"):
        emit_cast(I, st, node, dt, o, v)
    return I.new_arr(st, node, rec_of(o, dtype=dt or o.dtype,
                                      lo=bnd(o.lo), hi=bnd(o.hi),
                                      seq=o.seq if o.shape is not None and
                                      len(o.shape) == 1 else None))


@h("numpy.int16", "numpy.uint8", "numpy.uint16", "numpy.int8",
   "numpy.int32", "numpy.int64", "numpy.intp", "numpy.uint32",
   "numpy.uint64", "numpy.bool_", "numpy.int_", "numpy.uint")
@union_map
def np_cast(I, f, n, args, kw, st, node):
    dt = DT.get(n.split(".")[1].rstrip("_"), "i8")
    return cast(I, args[0], dt, st, node)


def cast(I, v, dt, st, node):
    o = op_of(I, v, st)
    emit_cast(I, st, node, dt, o, v)
    if isinstance(v, (Num, BoolVal)) and dt != "b1":
        x = o.num if o.num is not None else Num(named_opaque(
            "c%d" % o.vn), o.lo, o.hi, True)
        if dt[0] in "iu":
            s = S.rounding("trunc", x.sym) if not x.isint else x.sym
            return x.with_(sym=s, isint=True, ispy=False,
                           lo=S.rounding("trunc", x.lo)
                           if x.lo is not None else None,
                           hi=S.rounding("trunc", x.hi)
                           if x.hi is not None else None,
                           npint=int(dt[1:]) * 8 if int(dt[1:]) <= 2
                           else None)
        return x.with_(isint=False)
    if dt == "b1":
        if not o.known:
            return Top(VN("bool", o.vn))
        return out(I, st, node, o, dtype="b1", lo=ZERO, hi=ONE, nz=False,
                   vn=VN("bool", o.vn), scalar_ok=False) if o.shape != () \
            else BoolVal(None, VN("bool", o.vn))
    if not o.known:
        return I.new_arr(st, node, ArrRec(None, dt, vn=VN("cast", o.vn)))
    lo, hi = o.lo, o.hi
    nvn = o.vn
    nz = o.nz
    if dt[0] in "iu" and o.dtype[0] not in "iub":
        lo = S.rounding("trunc", lo) if lo is not None else None
        hi = S.rounding("trunc", hi) if hi is not None else None
        nvn = VN("trunc", o.vn)
        nz = nz and lo is not None and S.is_pos(lo)
    return I.new_arr(st, node, rec_of(
        o, dtype=dt, lo=lo, hi=hi, vn=nvn, nz=nz,
        seq=o.seq if o.seq and o.seq[0].is_int() and o.seq[1].is_int()
        else None))


def emit_cast(I, st, node, dt, o, v):
    if dt in ("i1", "u1", "i2", "u2"):
        I.emit("cast", node, st, dt=dt, lo=o.lo, hi=o.hi, src=o.dtype,
               known=o.known, val=v, vn=o.vn, tags=o.tags,
               sym=o.num.sym if o.num is not None else None,
               rng=SMALL[dt])


@h("numpy.astype", "ndarray.astype")
def np_astype(I, f, n, args, kw, st, node):
    v = f.self_ if f.self_ is not None and n.startswith("ndarray") \
        else args[0]
    a = args if n.startswith("ndarray") else args[1:]
    dt = dtype_arg(a[0] if a else kw.get("dtype")) or "?"
    o = op_of(I, v, st)
    if dt in SMALL and dt != "i4" or dt[0] in "iu":
        return cast(I, v, dt, st, node)
    if not o.known:
        return Top(VN("astype", o.vn, dt))
    if o.shape == () and o.num is not None:
        return o.num
    cp = kw.get("copy")
    if isinstance(cp, BoolVal) and cp.b is False and isinstance(v, Ref) and \
            (o.dtype == dt or o.dtype == "?"):
        return I.new_arr(st, node, st.heap[v.id].upd(dtype=dt, parent=v.id))
    return I.new_arr(st, node, rec_of(o, dtype=dt))


# ------------------------------------------------------- shape changers
def viewrec(o, v, same_memory=True, **kw):
    d = dict(roots=o.roots if same_memory else frozenset(),
             parent=v.id if same_memory and isinstance(v, Ref) and
             v.what == "arr" else None, seq=None, mask=None)
    d.update(kw)
    return rec_of(o, **d)


def ordtags(o, what):
    """Reordering marks: an involution applied twice disappears."""
    tags = o.tags
    cur = [t for t in tags if isinstance(t, tuple) and t[0] == "ord"]
    seq = cur[0][1] if cur else ()
    if seq and seq[-1] == inverse(what):
        seq = seq[:-1]
    else:
        seq = seq + (what,)
    tags = frozenset(t for t in tags if t not in cur)
    if seq and len(seq) < 8:
        tags = tags | {("ord", seq)}
    return tags


def inverse(w):
    if w[0] == "T":
        p = w[1]
        return ("T", tuple(p.index(i) for i in range(len(p))))
    if w[0] == "roll":
        return ("roll", -w[1], w[2])
    if w[0] == "fftshift":
        return ("ifftshift",) + w[1:]
    if w[0] == "ifftshift":
        return ("fftshift",) + w[1:]
    if w[0] == "sortf":
        return ("sortb",) + w[1:]
    if w[0] == "sortb":
        return ("sortf",) + w[1:]
    return w


def tview(I, st, node, v, o, perm):
    sh = tuple(o.shape[i] for i in perm) if o.shape is not None else None
    if perm == tuple(range(len(perm))):
        return v if isinstance(v, Ref) else I.new_arr(st, node, rec_of(o))
    vn = VN("T", o.vn, perm)
    t = TERM.get(o.vn)
    if t is not None and t[0] == "T" and tuple(
            t[2][i] for i in perm) == tuple(range(len(perm))):
        vn = t[1]
    TERM[vn] = ("T", o.vn, perm) if vn not in TERM else TERM[vn]
    return I.new_arr(st, node, viewrec(o, v, shape=sh, vn=vn,
                                       tags=ordtags(o, ("T", perm))))


TERM = {}


@h("numpy.transpose", "ndarray.transpose")
def np_transpose(I, f, n, args, kw, st, node):
    if n.startswith("ndarray"):
        v, rest = f.self_, list(args)
    else:
        v, rest = args[0], list(args[1:])
    if isinstance(v, Union):
        v = [a for a in v.alts if isinstance(a, Ref)] or [v]
        v = v[0]
    ax = rest[0] if rest else kw.get("axes")
    o = op_of(I, v, st)
    if not o.known or o.shape is None:
        if isinstance(v, Ref):
            return I.new_arr(st, node, viewrec(o, v, vn=VN(
                "T", o.vn, tuple(I.vnum(st, x) for x in rest))))
        return Top(VN("T", o.vn, tuple(I.vnum(st, x) for x in rest)),
                   o.tags)
    nd = len(o.shape)
    if ax is None or isinstance(ax, NoneVal):
        perm = tuple(reversed(range(nd)))
    else:
        if len(rest) > 1:
            ax = Tup(rest)
        perm = axis_arg(ax if isinstance(ax, Tup) else ax, nd)
        if isinstance(ax, Ref):
            r = st.heap.get(ax.id)
            if isinstance(r, ListRec) and r.elts is not None:
                perm = axis_arg(Tup(r.elts), nd)
        if perm in (None, "unknown") or sorted(perm) != list(range(nd)):
            if perm not in (None, "unknown"):
                I.emit("shape_mismatch", node, st, how="transpose axes",
                       a=C(nd), b=C(len(perm)), witness={},
                       shapes=[o.shape], axis=0)
                raise Dead()
            return I.new_arr(st, node, viewrec(o, v, shape=None, vn=VN(
                "T", o.vn, I.vnum(st, ax))))
    return tview(I, st, node, v, o, perm)


@h("numpy.moveaxis", "numpy.swapaxes", "numpy.rollaxis")
def np_moveaxis(I, f, n, args, kw, st, node):
    v = args[0]
    o = op_of(I, v, st)
    a = arg(args, kw, 1, "source")
    b = arg(args, kw, 2, "destination")
    ca = a.const() if isinstance(a, Num) else None
    cb = b.const() if isinstance(b, Num) else None
    if not o.known:
        return Top(VN(n, o.vn), o.tags)
    if o.shape is None or ca is None or cb is None:
        return I.new_arr(st, node, viewrec(o, v, shape=None, vn=VN(
            n, o.vn, I.vnum(st, a), I.vnum(st, b))))
    nd = len(o.shape)
    ca, cb = int(ca), int(cb)
    if not (-nd <= ca < nd and -nd <= cb < nd):
        I.emit("shape_mismatch", node, st, how=n, a=C(nd), b=C(max(ca, cb)),
               witness={}, shapes=[o.shape], axis=0)
        raise Dead()
    ca %= nd
    cb %= nd
    perm = list(range(nd))
    if n.endswith("swapaxes"):
        perm[ca], perm[cb] = perm[cb], perm[ca]
    else:
        perm.remove(ca)
        perm.insert(cb, ca)
    return tview(I, st, node, v, o, tuple(perm))


@h("numpy.flipud", "numpy.fliplr", "numpy.flip", "numpy.rot90")
@union_map
def np_flip(I, f, n, args, kw, st, node):
    v = args[0]
    o = op_of(I, v, st)
    k = n.split(".")[1]
    if not o.known:
        return Top(VN(k, o.vn), o.tags)
    sh = o.shape
    axes = {"flipud": (0,), "fliplr": (1,)}.get(k)
    if k == "flip":
        ax = arg(args, kw, 1, "axis")
        axes = axis_arg(ax, len(sh) if sh else 0)
        if axes is None:
            axes = tuple(range(len(sh))) if sh else "unknown"
    if k == "rot90":
        return I.new_arr(st, node, viewrec(
            o, v, shape=None if sh is None else (None,) * len(sh),
            vn=VN(k, o.vn, kwvn(I, st, args, kw))))
    w = ("flip", axes)
    vn = VN("flip", o.vn, axes)
    t = TERM.get(o.vn)
    if t is not None and t[0] == "flip" and t[2] == axes:
        vn = t[1]
    else:
        TERM[vn] = ("flip", o.vn, axes)
    seq = None
    if o.seq is not None and sh is not None and len(sh) == 1 and \
            sh[0] is not None:
        seq = (o.seq[0] + o.seq[1] * (sh[0] - ONE), -o.seq[1])
    return I.new_arr(st, node, viewrec(o, v, vn=vn, seq=seq,
                                       tags=ordtags(o, w)))


@h("numpy.reshape", "numpy.resize_")
def np_reshape(I, f, n, args, kw, st, node):
    v = args[0]
    rest = list(args[1:])
    s = rest[0] if rest else kw.get("newshape", kw.get("shape"))
    if len(rest) > 1:
        s = Tup(rest)
    o = op_of(I, v, st)
    sh = shape_arg(I, s, st)
    if sh is not None and any(d is not None and d.value() == -1
                              for d in sh):
        tot = size_of(o.shape)
        i = [j for j, d in enumerate(sh) if d is not None and
             d.value() == -1][0]
        rest_ = ONE
        for j, d in enumerate(sh):
            if j != i:
                rest_ = rest_ * d if rest_ is not None and d is not None \
                    else None
        v2 = None
        if tot is not None and rest_ is not None and rest_.t:
            v2 = S.div(tot, rest_)
            if any(p < 0 for m, _ in v2.t for _, p in m) or any(
                    c.denominator != 1 for _, c in v2.t):
                v2 = None
        sh = sh[:i] + (v2,) + sh[i + 1:]
    elif sh is not None and o.shape is not None:
        a, b = size_of(o.shape), size_of(sh)
        if a is not None and b is not None and a != b:
            w = find_diff(a, b, st.facts)
            if w is not None:
                I.emit("shape_mismatch", node, st, how="reshape", a=a, b=b,
                       witness=w, shapes=[o.shape, sh], axis=0)
    if not o.known:
        return I.new_arr(st, node, ArrRec(sh, "?", vn=VN("rs", o.vn, sh),
                                          roots=o.roots))
    return I.new_arr(st, node, viewrec(o, v, shape=sh, vn=VN(
        "reshape", o.vn, sh if sh is not None else I.vnum(st, s))))


def size_of(sh):
    if sh is None:
        return None
    t = ONE
    for d in sh:
        if d is None:
            return None
        t = t * d
    return t


@h("numpy.ravel", "numpy.flatten", "numpy.atleast_1d", "numpy.atleast_2d")
@union_map
def np_ravel(I, f, n, args, kw, st, node):
    v = args[0]
    o = op_of(I, v, st)
    k = n.split(".")[1]
    if k.startswith("atleast"):
        nd = int(k[8])
        if not o.known or o.shape is None:
            return I.new_arr(st, node, ArrRec(None, "?", vn=o.vn,
                                              roots=o.roots))
        sh = o.shape
        while len(sh) < nd:
            sh = (ONE,) + sh
        return I.new_arr(st, node, viewrec(o, v, shape=sh, lo=bnd(o.lo),
                                           hi=bnd(o.hi)))
    if not o.known:
        return Top(VN("flat", o.vn), o.tags if k == "ravel" else frozenset())
    sz = size_of(o.shape)
    return I.new_arr(st, node, viewrec(
        o, v, k == "ravel", shape=(sz,), vn=VN("flat", o.vn),
        seq=o.seq if o.shape is not None and len(o.shape) == 1 else None,
        mask=("idx", o.mask[1]) if o.mask and o.mask[0] == "idx" else
        o.mask))


@h("numpy.expand_dims")
@union_map
def np_expand(I, f, n, args, kw, st, node):
    v = args[0]
    o = op_of(I, v, st)
    a = arg(args, kw, 1, "axis")
    if not o.known:
        return Top(VN("exp", o.vn), o.tags)
    sh = None
    if o.shape is not None and isinstance(a, Num) and a.const() is not None:
        nd = len(o.shape) + 1
        i = int(a.const()) % nd
        sh = o.shape[:i] + (ONE,) + o.shape[i:]
    return I.new_arr(st, node, viewrec(o, v, shape=sh, lo=bnd(o.lo),
                                       hi=bnd(o.hi), vn=VN(
        "expand", o.vn, I.vnum(st, a))))


@h("numpy.squeeze")
@union_map
def np_squeeze(I, f, n, args, kw, st, node):
    v = args[0]
    o = op_of(I, v, st)
    if not o.known:
        return Top(VN("sq", o.vn), o.tags)
    sh = None
    a = arg(args, kw, 1, "axis")
    if o.shape is not None:
        if a is None or isinstance(a, NoneVal):
            if all(d is not None and (d == ONE or S.decide(
                    "!=", d, ONE, st.facts) is True) for d in o.shape):
                sh = tuple(d for d in o.shape if d != ONE)
        else:
            ax = axis_arg(a, len(o.shape))
            if ax not in (None, "unknown"):
                sh = tuple(d for i, d in enumerate(o.shape) if i not in ax)
    if sh == ():
        return out(I, st, node, o, shape=())
    return I.new_arr(st, node, viewrec(o, v, shape=sh, vn=VN(
        "squeeze", o.vn) if sh != o.shape else o.vn))


@h("numpy.broadcast_to")
def np_bto(I, f, n, args, kw, st, node):
    v = args[0]
    o = op_of(I, v, st)
    sh = shape_arg(I, args[1], st)
    return I.new_arr(st, node, viewrec(o, v, shape=sh, vn=VN(
        "bto", o.vn, sh)))


@h("numpy.tile")
@union_map
def np_tile(I, f, n, args, kw, st, node):
    o = op_of(I, args[0], st)
    reps = shape_arg(I, arg(args, kw, 1, "reps"), st)
    sh = None
    if o.shape is not None and reps is not None:
        a, b = list(o.shape), list(reps)
        while len(a) < len(b):
            a.insert(0, ONE)
        while len(b) < len(a):
            b.insert(0, ONE)
        sh = tuple(x * y if x is not None and y is not None else None
                   for x, y in zip(a, b))
    return I.new_arr(st, node, rec_of(
        o, shape=sh, vn=VN("tile", o.vn, reps if reps is not None
                           else I.vnum(st, args[1])), seq=None, mask=None))


@h("numpy.repeat")
def np_repeat(I, f, n, args, kw, st, node):
    o = op_of(I, args[0], st)
    r = num1(I, args[1], st)
    ax = axis_arg(arg(args, kw, 2, "axis"), len(o.shape) if o.shape else 0)
    sh = None
    if o.shape is not None and r is not None:
        if ax is None:
            t = size_of(o.shape)
            sh = (t * r,) if t is not None else None
        elif ax != "unknown":
            sh = tuple(d * r if i in ax and d is not None else d
                       for i, d in enumerate(o.shape))
    return I.new_arr(st, node, rec_of(o, shape=sh, vn=VN(
        "repeat", o.vn, kwvn(I, st, args, kw)), seq=None, mask=None))


@h("numpy.roll")
@union_map
def np_roll(I, f, n, args, kw, st, node):
    o = op_of(I, args[0], st)
    s = arg(args, kw, 1, "shift")
    ax = arg(args, kw, 2, "axis")
    p = num1(I, s, st)
    vn = VN("roll", o.vn, I.vnum(st, s), I.vnum(st, ax) if ax is not None
            else 0)
    tags = content(o.tags)
    if p is not None:
        a = axis_arg(ax, len(o.shape) if o.shape else 0)
        tags = frozenset(ordtags(o, ("roll", p, a)))
    if not o.known:
        return Top(vn)
    return I.new_arr(st, node, rec_of(o, vn=vn, seq=None, mask=None,
                                      tags=tags))


@h("numpy.pad")
@union_map
def np_pad(I, f, n, args, kw, st, node):
    v = args[0]
    o = op_of(I, v, st)
    pw = arg(args, kw, 1, "pad_width")
    check_none(I, st, node, n, pw)
    nd = len(o.shape) if o.shape is not None else None
    pads = pad_spec(I, pw, nd, st)
    mode = arg(args, kw, 2, "mode", strv("constant"))
    sh = None
    if o.shape is not None and pads is not None:
        if len(pads) != nd:
            I.emit("shape_mismatch", node, st, how="pad widths", a=C(nd),
                   b=C(len(pads)), witness={}, shapes=[o.shape], axis=0)
            raise Dead()
        sh = tuple(d + a + b if d is not None and a is not None and
                   b is not None else None
                   for d, (a, b) in zip(o.shape, pads))
    if pads is not None:
        I.emit("pad", node, st, pads=pads, shape=o.shape)
    lo, hi, nz = o.lo, o.hi, o.nz
    mc = mode.const() if isinstance(mode, StrVal) else None
    tags = content(o.tags)
    if mc == "constant" or mc is None:
        cv = kw.get("constant_values")
        co = op_of(I, cv, st) if cv is not None else None
        if co is not None:
            lo, hi, nz = join_facts((lo, hi, nz), (bnd(co.lo), bnd(co.hi),
                                                   co.nz))
        elif mc is None:
            lo = hi = None
            nz = False
        else:
            lo, hi, nz = join_facts((lo, hi, nz), (ZERO, ZERO, False))
    elif mc in ("linear_ramp", "empty"):
        lo = hi = None
        nz = False
    vn = VN("pad", o.vn, pads if pads is not None else I.vnum(st, pw),
            I.vnum(st, mode), o.shape)
    if not o.known:
        return I.new_arr(st, node, ArrRec(sh, "?", vn=vn))
    return I.new_arr(st, node, rec_of(
        o, shape=sh, lo=lo, hi=hi, nz=nz, vn=vn, seq=None, mask=None,
        tags=tags))


def pad_spec(I, pw, nd, st):
    if isinstance(pw, Num):
        return ((pw.sym, pw.sym),) * nd if nd else None
    elts = None
    if isinstance(pw, Tup):
        elts = pw.elts
    elif isinstance(pw, Ref):
        r = st.heap.get(pw.id)
        if isinstance(r, ListRec):
            elts = r.elts
    if elts is None:
        return None
    if all(isinstance(x, Num) for x in elts):
        if len(elts) == 2:
            return ((elts[0].sym, elts[1].sym),) * (nd or 1)
        if len(elts) == 1:
            return ((elts[0].sym, elts[0].sym),) * (nd or 1)
        return None
    outp = []
    for x in elts:
        s = None
        if isinstance(x, Num):
            outp.append((x.sym, x.sym))
            continue
        s = shape_arg(I, x, st)
        if s is None:
            outp.append((None, None))
        elif len(s) == 2:
            outp.append(s)
        elif len(s) == 1:
            outp.append((s[0], s[0]))
        else:
            return None
    if len(outp) == 1 and nd:
        outp = outp * nd
    return tuple(outp)


# -------------------------------------------------------- concatenation
def seq_ops(I, v, st):
    """Operands of a stacking function."""
    elts = None
    if isinstance(v, Tup):
        elts = v.elts
    elif isinstance(v, Ref):
        r = st.heap.get(v.id)
        if isinstance(r, ListRec):
            if r.elts is not None:
                elts = r.elts
            else:
                e = list_elem(r)
                return (None, r.n, op_of(I, e, st) if e is not None
                        else None)
        elif isinstance(r, ArrRec):
            if r.shape:
                o = op_of(I, v, st)
                o.shape = r.shape[1:]
                return (None, r.shape[0], o)
    if elts is None:
        return None, None, None
    return [op_of(I, e, st) for e in elts], C(len(elts)), None


@h("numpy.concatenate", "numpy.vstack", "numpy.hstack", "numpy.dstack",
   "numpy.append", "numpy.column_stack", "numpy.row_stack")
def np_concat(I, f, n, args, kw, st, node):
    k = n.split(".")[1]
    if k == "append":
        ops, cnt, gen = [op_of(I, args[0], st), op_of(I, args[1], st)], \
            C(2), None
        axv = arg(args, kw, 2, "axis")
    else:
        ops, cnt, gen = seq_ops(I, args[0], st)
        axv = arg(args, kw, 1, "axis", num(0))
    for x in ops or []:
        if isinstance(x.v, NoneVal):
            check_none(I, st, node, n, x.v)
    vnm = VN(k, I.vnum(st, args[0]), kwvn(I, st, args, kw))
    if ops is None:
        if gen is None:
            return Top(vnm)
        if k == "vstack" and gen.shape is not None and len(gen.shape) == 2 \
                and cnt is not None and gen.shape[0] is not None:
            sh = (None, gen.shape[1])
            return I.new_arr(st, node, rec_of(
                gen, shape=sh, vn=vnm, seq=None, mask=None, lo=bnd(gen.lo),
                hi=bnd(gen.hi)))
        return I.new_arr(st, node, rec_of(gen, shape=None, vn=vnm, seq=None,
                                          mask=None))
    shapes = [o.shape for o in ops]
    ax = None
    if all(s is not None for s in shapes) and shapes:
        if k == "vstack" or k == "row_stack":
            shapes = [(ONE,) + s if len(s) == 1 else s for s in shapes]
            ax = 0
        elif k == "hstack":
            ax = 0 if len(shapes[0]) == 1 else 1
        elif k == "dstack":
            shapes = [s + (ONE,) if len(s) == 2 else s for s in shapes]
            ax = 2
        elif k == "column_stack":
            shapes = [s + (ONE,) if len(s) == 1 else s for s in shapes]
            ax = 1
        elif k == "append" and (axv is None or isinstance(axv, NoneVal)):
            shapes = [(size_of(s),) for s in shapes]
            ax = 0
        else:
            a = axis_arg(axv, len(shapes[0]))
            ax = a[0] if a not in (None, "unknown") else None
    sh = cat_shape(I, shapes, ax, st, node, k) if ax is not None else None
    r = join_ops(ops)
    vnm = VN("cat", ax, tuple(o.vn for o in ops)) if ax is not None else vnm
    return I.new_arr(st, node, ArrRec(
        sh, r[3], r[0], r[1], r[2], r[4], vnm, tags=r[5]))


def join_ops(ops):
    lo, hi, nz, dt, unit = (ops[0].lo, ops[0].hi, ops[0].nz, ops[0].dtype,
                            ops[0].unit)
    tags = content(ops[0].tags)
    for o in ops[1:]:
        lo = join_bound(lo, o.lo, "lo")
        hi = join_bound(hi, o.hi, "hi")
        nz = nz and o.nz
        dt = M.dt_join(dt, o.dtype, "+")
        unit = join_unit(unit, o.unit)
        tags = tags | content(o.tags)
    return bnd(lo), bnd(hi), nz, dt, unit, tags


def cat_shape(I, shapes, ax, st, node, k):
    nd = len(shapes[0])
    if any(len(s) != nd for s in shapes) or ax >= nd:
        if shapes and any(len(s) != nd for s in shapes):
            I.emit("shape_mismatch", node, st, how=k, a=C(nd),
                   b=C(max(len(s) for s in shapes)), witness={},
                   shapes=shapes, axis=0)
        return None
    res = []
    for i in range(nd):
        if i == ax:
            t = ZERO
            for s in shapes:
                t = t + s[i] if t is not None and s[i] is not None else None
            res.append(t)
        else:
            d = shapes[0][i]
            for s in shapes[1:]:
                if s[i] is None or d is None:
                    d = d if s[i] is None else s[i]
                    continue
                if s[i] != d:
                    w = find_diff(d, s[i], st.facts)
                    if w is not None:
                        I.emit("shape_mismatch", node, st, how=k, a=d,
                               b=s[i], witness=w, shapes=shapes, axis=i)
            res.append(d)
    return tuple(res)


@h("numpy.stack")
def np_stack(I, f, n, args, kw, st, node):
    ops, cnt, gen = seq_ops(I, args[0], st)
    axv = arg(args, kw, 1, "axis", num(0))
    vnm = VN("stack", I.vnum(st, args[0]), kwvn(I, st, args, kw))
    one = gen
    if ops:
        one = ops[0]
        s0 = ops[0].shape
        for o in ops[1:]:
            if s0 is not None and o.shape is not None:
                if len(s0) == len(o.shape):
                    for a, b in zip(s0, o.shape):
                        w = M.dims_differ(I, a, b, st) if a is not None and \
                            b is not None else None
                        if w is not None:
                            I.emit("shape_mismatch", node, st, how="stack",
                                   a=a, b=b, witness=w,
                                   shapes=[s0, o.shape], axis=0)
    if one is None:
        return Top(vnm)
    sh = None
    if one.shape is not None:
        a = axis_arg(axv, len(one.shape) + 1)
        if a not in (None, "unknown"):
            sh = one.shape[:a[0]] + (cnt,) + one.shape[a[0]:]
    r = join_ops(ops) if ops else (bnd(one.lo), bnd(one.hi), one.nz,
                                   one.dtype, one.unit, content(one.tags))
    return I.new_arr(st, node, ArrRec(sh, r[3], r[0], r[1], r[2], r[4], vnm,
                                      tags=r[5]))


@h("numpy.array_split", "numpy.split")
def np_split(I, f, n, args, kw, st, node):
    v, cnt = args[0], args[1]
    o = op_of(I, v, st)
    p = num1(I, cnt, st)
    ax = axis_arg(arg(args, kw, 2, "axis", num(0)), len(o.shape)
                  if o.shape else 1)
    vn = VN("split", o.vn, I.vnum(st, cnt), ax)
    I.emit("array_split", node, st, dim=o.shape[0] if o.shape else None,
           parts=p)
    if p is None or not o.shape or o.shape[0] is None or ax != (0,):
        return I.new_list(st, node, ListRec(None, p, Top(VN("chunk", vn)),
                                            vn=vn))
    N = o.shape[0]
    c = p.value()
    def chunk(k, tag):
        q = S.floordiv(N, p)
        rem = N - q * p
        start = k * q + S.pmin(k, rem)
        end = (k + ONE) * q + S.pmin(k + ONE, rem)
        seq = None
        if o.seq is not None:
            seq = (o.seq[0] + o.seq[1] * start, o.seq[1])
        return I.new_arr(st, node, rec_of(
            o, shape=(end - start,) + o.shape[1:], vn=VN("chunk", vn, k),
            seq=seq, mask=None, roots=o.roots, view=None,
            parent=v.id if isinstance(v, Ref) and v.what == "arr"
            else None), tag)
    if c is not None and 0 < c <= 8:
        es = tuple(chunk(C(i), "c%d" % i) for i in range(int(c)))
        return I.new_list(st, node, ListRec(es, p, vn=vn))
    ks = Poly.sym("kchunk", 0)
    e = chunk(ks, "cg")
    CHUNKGEN[vn] = (v, o, p, chunk)
    return I.new_list(st, node, ListRec(None, p, e, vn=vn,
                                        ))


CHUNKGEN = {}


# ----------------------------------------------------------- elementwise
def elementwise(I, st, node, o, name, dt=None, lo=None, hi=None, nz=False,
                unit=None, tags=frozenset(), extra=()):
    vn = VN(name, o.vn, *extra)
    if not o.known:
        return Top(vn, frozenset(t for t in o.tags if M.keeptag(t)))
    return out(I, st, node, o, vn=vn, dtype=dt or (
        o.dtype if o.dtype[0] == "f" else "f8" if o.dtype != "?" and
        o.dtype[0] != "c" else o.dtype), lo=lo, hi=hi, nz=nz, unit=unit,
        tags=tags)


@h("numpy.sin", "numpy.cos", "numpy.tan", "numpy.sinc")
@union_map
def np_trig(I, f, n, args, kw, st, node):
    k = n.split(".")[1]
    o = op_of(I, args[0], st)
    I.emit("trig", node, st, fn=k, unit=o.unit, lo=o.lo, hi=o.hi,
           tags=o.tags, vn=o.vn, src=o.dtype,
           sym=o.num.sym if o.num is not None else None)
    if o.num is not None:
        c = o.num.const()
        if c == 0:
            return Num(C(1 if k in ("cos", "sinc") else 0), isint=False)
        return Num(fn(k, o.num.sym), isint=False)
    b = (-ONE, ONE) if k in ("sin", "cos") else (None, None)
    return elementwise(I, st, node, o, k, lo=b[0], hi=b[1])


@h("numpy.arcsin", "numpy.arccos", "numpy.arctan", "numpy.sinh",
   "numpy.cosh", "numpy.tanh", "numpy.arcsinh", "numpy.sign",
   "numpy.isnan", "numpy.isinf", "numpy.isfinite", "numpy.angle",
   "numpy.log1p", "numpy.expm1", "numpy.nan_to_num", "numpy.gradient_",
   "numpy.cbrt", "numpy.unwrap", "numpy.logical_not")
@union_map
def np_misc1(I, f, n, args, kw, st, node):
    k = n.split(".")[1]
    o = op_of(I, args[0], st)
    unit = "rad" if k in ("arcsin", "arccos", "arctan", "angle") else None
    lo = hi = None
    if k in ("sign", "tanh"):
        lo, hi = -ONE, ONE
    elif k == "cosh":
        lo = ONE
    if k in ("isnan", "isinf", "isfinite", "logical_not"):
        if o.shape == ():
            return BoolVal(None, VN(k, o.vn))
        if not o.known:
            return Top(VN(k, o.vn))
        m = negmask(o.mask) if k == "logical_not" and o.mask else None
        return I.new_arr(st, node, rec_of(o, dtype="b1", lo=ZERO, hi=ONE,
                                          nz=False, vn=VN(k, o.vn), seq=None,
                                          mask=m, tags=frozenset()))
    if o.num is not None and unit is None and k not in ("nan_to_num",):
        return Num(fn(k, o.num.sym), lo, hi, False)
    if o.num is not None:
        return Num(fn(k, o.num.sym), lo, hi, False, unit)
    return elementwise(I, st, node, o, k, lo=lo, hi=hi, unit=unit)


@h("numpy.arctan2", "numpy.hypot", "numpy.fmod", "numpy.divide",
   "numpy.true_divide", "numpy.multiply", "numpy.add", "numpy.subtract",
   "numpy.mod", "numpy.remainder", "numpy.floor_divide")
def np_bin(I, f, n, args, kw, st, node):
    k = n.split(".")[1]
    op = {"divide": "/", "true_divide": "/", "multiply": "*", "add": "+",
          "subtract": "-", "mod": "%", "remainder": "%", "fmod": "%",
          "floor_divide": "//"}.get(k)
    if op:
        oo = check_out(I, st, node, args, kw, 2)
        if "where" in kw and op == "/":
            # guarded division
            I.muted += 1
            try:
                r = I.binop(op, args[0], args[1], st, node)
            finally:
                I.muted -= 1
        else:
            r = I.binop(op, args[0], args[1], st, node)
        return give_out(I, st, oo, r) if oo is not None else r
    a, b = op_of(I, args[0], st), op_of(I, args[1], st)
    if a.num is not None and b.num is not None:
        return Num(fn(k, a.num.sym, b.num.sym), ZERO if k == "hypot"
                   else None, None, False,
                   "rad" if k == "arctan2" else None)
    sh = broadcast(I, [a.shape, b.shape], st, node, k)
    return out(I, st, node, a, shape=sh, dtype="f8", vn=VN(k, a.vn, b.vn),
               lo=ZERO if k == "hypot" else None, hi=None, nz=False,
               unit="rad" if k == "arctan2" else None, tags=frozenset())


@h("numpy.deg2rad", "numpy.radians", "numpy.rad2deg", "numpy.degrees")
@union_map
def np_deg2rad(I, f, n, args, kw, st, node):
    k = n.split(".")[1]
    to_rad = k in ("deg2rad", "radians")
    o = op_of(I, args[0], st)
    I.emit("angle_conv", node, st, fn=k, unit=o.unit, lo=o.lo, hi=o.hi)
    fac = M.PI.scale(Fraction(1, 180)) if to_rad else \
        S.inv(M.PI).scale(Fraction(180))
    unit = {"deg": "rad" if to_rad else "deg*180/pi",
            "rad": "deg" if not to_rad else "rad*pi/180",
            None: "rad" if to_rad else "deg"}.get(o.unit)
    if o.num is not None:
        return Num(o.num.sym * fac, isint=False, unit=unit,
                   lo=o.num.lo * fac if o.num.lo is not None else None,
                   hi=o.num.hi * fac if o.num.hi is not None else None)
    oc = op_of(I, Num(fac, isint=False), st)
    lo, hi = M.bmul(o, oc)
    if not o.known:
        return Top(VN(k, o.vn))
    vn = VN("bin", "*", *sorted((o.vn, oc.vn)))
    return out(I, st, node, o, vn=vn, dtype="f8", unit=unit, lo=bnd(lo),
               hi=bnd(hi), tags=content(o.tags) | (o.tags & {"neutral"}))


@h("numpy.sqrt", "numpy.exp", "numpy.square", "numpy.abs", "numpy.absolute",
   "numpy.fabs", "numpy.conjugate", "numpy.conj", "numpy.real",
   "numpy.imag", "numpy.negative", "numpy.reciprocal", "numpy.real_if_close")
@union_map
def np_ew(I, f, n, args, kw, st, node):
    k = n.split(".")[1]
    k = {"absolute": "abs", "fabs": "abs", "conj": "conjugate"}.get(k, k)
    v = args[0]
    o = op_of(I, v, st)
    oo = check_out(I, st, node, args, kw, 1)
    r = None
    if k == "negative":
        r = M.neg(I, v, st, node)
    elif k == "reciprocal":
        r = I.binop("/", num(1), v, st, node)
    elif k == "abs":
        if o.num is not None:
            s = S.pabs(o.num.sym)
            r = o.num.with_(sym=s, lo=ZERO, hi=None, isint=o.num.isint)
        else:
            if not o.known:
                return Top(VN("abs", o.vn))
            lo = o.lo if sgn(o.lo, o.hi, o.nz) in ("+", "0+") else ZERO
            hi = None
            if o.hi is not None and o.lo is not None:
                hi = S.pmax(o.hi, -o.lo) if sgn(o.lo, o.hi, o.nz) not in (
                    "+", "0+") else o.hi
            r = out(I, st, node, o, vn=VN("abs", o.vn), lo=lo, hi=bnd(hi),
                    unit=o.unit, dtype=o.dtype if o.dtype[0] != "c"
                    else "f8", tags=content(o.tags))
    elif k == "sqrt":
        if o.num is not None:
            r = Num(fn("sqrt", o.num.sym), ZERO, None, False, None, o.nz)
        else:
            r = elementwise(I, st, node, o, k, lo=ZERO, nz=o.nz)
    elif k == "exp":
        if o.num is not None:
            r = Num(fn("exp", o.num.sym) if o.num.sym.t else ONE, ZERO,
                    None, False, None, True)
        elif o.dtype[0] == "c":
            r = elementwise(I, st, node, o, k)
        else:
            r = elementwise(I, st, node, o, k, lo=ZERO, nz=True)
    elif k == "square":
        if o.num is not None:
            r = o.num.with_(sym=o.num.sym * o.num.sym, lo=ZERO, hi=None,
                            unit=None)
        else:
            r = elementwise(I, st, node, o, k, dt=o.dtype, lo=ZERO, nz=o.nz)
    elif k in ("real", "conjugate", "real_if_close"):
        if o.num is not None:
            return o.num
        if not o.known:
            return Top(VN(k, o.vn), o.tags)
        if o.dtype[0] == "c":
            r = I.new_arr(st, node, viewrec(
                o, v, k == "real", lo=None, hi=None, nz=False,
                dtype="f8" if k == "real" else o.dtype, vn=VN(k, o.vn),
                tags=o.tags))
        elif k == "real":
            r = I.new_arr(st, node, viewrec(o, v, seq=o.seq, mask=o.mask))
        else:
            r = I.new_arr(st, node, rec_of(o, vn=VN(k, o.vn)
                                           if o.dtype == "?" else o.vn))
    else:
        if o.num is not None:
            return num(0)
        r = elementwise(I, st, node, o, k)
    return give_out(I, st, oo, r) if oo is not None else r


@h("numpy.log", "numpy.log2", "numpy.log10")
@union_map
def np_log(I, f, n, args, kw, st, node):
    k = n.split(".")[1]
    o = op_of(I, args[0], st)
    oo = check_out(I, st, node, args, kw, 1)
    sg = sgn(o.lo, o.hi, o.nz)
    guard = I.warn_err and any(
        d == len(I.stack) and set(hn) & {"RuntimeWarning", "Warning",
                                         "Exception", "BaseException"}
        for d, hn in I.catching)
    I.emit("log", node, st, op=o, sign=sg, tags=o.tags,
           lo=o.lo, hi=o.hi, nz=o.nz, val=args[0], fn=k, guarded=guard)
    if guard and sg != "+":
        I.exc_out[-1].append(("RuntimeWarning", st.copy(), node))
    if o.num is not None:
        r = Num(fn("log" if k == "log" else k, o.num.sym), isint=False)
    else:
        r = elementwise(I, st, node, o, k, tags=frozenset(
            t for t in o.tags if isinstance(t, tuple) and t[0] == "ord"))
    return give_out(I, st, oo, r) if oo is not None else r


@h("numpy.clip")
@union_map
def np_clip(I, f, n, args, kw, st, node):
    v = args[0]
    lo_v = arg(args, kw, 1, "a_min", kw.get("min"))
    hi_v = arg(args, kw, 2, "a_max", kw.get("max"))
    oo = check_out(I, st, node, args, kw, 3)
    o = op_of(I, v, st)
    ol = op_of(I, lo_v, st) if lo_v is not None and not isinstance(
        lo_v, NoneVal) else None
    oh = op_of(I, hi_v, st) if hi_v is not None and not isinstance(
        hi_v, NoneVal) else None
    if o.num is not None and (ol is None or ol.num is not None) and \
            (oh is None or oh.num is not None):
        from .builtmodel import reduce_mm
        p = o.num.sym
        lo, hi = o.num.lo, o.num.hi
        if ol is not None:
            p = reduce_mm("max", [p, ol.num.sym], st)
        if oh is not None:
            p = reduce_mm("min", [p, oh.num.sym], st)
        if p.has_opaque():
            lo, hi = clip_bounds(o, ol, oh)
        nz = False
        if ol is not None and sgn(ol.lo, ol.hi, ol.nz) == "+" and (
                oh is None or sgn(oh.lo, oh.hi, oh.nz) == "+"):
            nz = True
        return Num(p, bnd(lo), bnd(hi), o.num.isint and (
            ol is None or ol.num.isint) and (oh is None or oh.num.isint),
            o.unit, nz, o.num.npint, o.num.tags)
    lo, hi = clip_bounds(o, ol, oh)
    nz = o.nz and sgn(o.lo, o.hi, o.nz) == "+"
    if ol is not None and sgn(ol.lo, ol.hi, ol.nz) == "+":
        nz = True
    vn = VN("clip", o.vn, ol.vn if ol else 0, oh.vn if oh else 0)
    if ol and oh:
        I.red[vn] = ("clip", ol.vn, oh.vn)
    if not o.known:
        r = I.new_arr(st, node, ArrRec(None, "?", bnd(lo), bnd(hi), nz,
                                       vn=vn))
        return give_out(I, st, oo, r) if oo is not None else r
    sh = broadcast(I, [o.shape] + [x.shape for x in (ol, oh) if x],
                   st, node, "clip")
    dt = o.dtype
    for x in (ol, oh):
        if x is not None and x.num is None:
            dt = M.dt_join(dt, x.dtype, "+")
        elif x is not None and not x.num.isint and dt[0] in "iub" and \
                dt != "?" and not x.num.sym.is_int():
            dt = "f8"
    tg = content(o.tags)
    if ol is not None and oh is not None:
        tg = (tg - {"affine"}) | {"clipped"}
    r = out(I, st, node, o, shape=sh, dtype=dt, lo=bnd(lo), hi=bnd(hi),
            nz=nz, vn=vn, tags=tg)
    return give_out(I, st, oo, r) if oo is not None else r


def clip_bounds(o, ol, oh):
    lo, hi = o.lo, o.hi
    if ol is not None:
        cand = ol.lo
        if cand is not None:
            lo = S.pmax(lo, cand) if lo is not None else cand
        if hi is not None and ol.hi is not None:
            hi = S.pmax(hi, ol.hi)
        elif ol.hi is None:
            hi = None
    if oh is not None:
        cand = oh.hi
        if cand is not None:
            hi = S.pmin(hi, cand) if hi is not None else cand
        if lo is not None:
            lo = S.pmin(lo, oh.lo) if oh.lo is not None else None
    return lo, hi


@h("numpy.maximum", "numpy.minimum", "numpy.fmax", "numpy.fmin")
def np_maximum(I, f, n, args, kw, st, node):
    oo = check_out(I, st, node, args, kw, 2)
    a, b = op_of(I, args[0], st), op_of(I, args[1], st)
    mx = n.endswith("max") or n.endswith("maximum")
    if a.num is not None and b.num is not None:
        from .builtmodel import _mm
        return _mm(I, "max" if mx else "min", args[:2], st, node)
    sh = broadcast(I, [a.shape, b.shape], st, node, n)
    if mx:
        los = [x for x in (a.lo, b.lo) if x is not None]
        lo = S.pmax(*los) if los else None
        hi = join_bound(a.hi, b.hi, "hi")
        nz = (a.nz and b.nz) or "+" in (sgn(a.lo, a.hi, a.nz),
                                        sgn(b.lo, b.hi, b.nz))
    else:
        his = [x for x in (a.hi, b.hi) if x is not None]
        hi = S.pmin(*his) if his else None
        lo = join_bound(a.lo, b.lo, "lo")
        nz = a.nz and b.nz
    r = out(I, st, node, a, shape=sh, dtype=M.dt_join(a.dtype, b.dtype,
                                                      "+"),
            lo=bnd(lo), hi=bnd(hi), nz=nz, vn=VN(
                "max" if mx else "min", *sorted((a.vn, b.vn))),
            unit=join_unit(a.unit, b.unit), tags=content(a.tags | b.tags))
    return give_out(I, st, oo, r) if oo is not None else r


def alt_facts(I, v, o, m, st):
    al = alts_of(v)
    if len(al) < 2 or m is None:
        return restrict(o.lo, o.hi, o.nz, m, o.vn)
    r = None
    for x in al:
        y = op_of(I, x, st)
        f = restrict(y.lo, y.hi, y.nz, m, y.vn)
        r = f if r is None else join_facts(r, f)
    return r


@h("numpy.where")
def np_where(I, f, n, args, kw, st, node):
    c = args[0]
    oc = op_of(I, c, st)
    if len(args) == 1:
        m = oc.mask or ("?",)
        nd = len(oc.shape) if oc.shape is not None else 1
        if oc.shape is None:
            return Top(VN("nonzero", oc.vn))
        els = []
        for i in range(nd):
            d = oc.shape[i] if oc.shape is not None else None
            cnt = Poly.atom(("o", "cnt%d" % VN("cnt", oc.vn)))
            els.append(I.new_arr(st, node, ArrRec(
                (None,), "i8", ZERO, d - ONE if d is not None else None,
                False, None, VN("nonzero", oc.vn, i), mask=("idx", m)),
                "w%d" % i))
        return Tup(els)
    a, b = op_of(I, args[1], st), op_of(I, args[2], st)
    sh = broadcast(I, [oc.shape, a.shape, b.shape], st, node, "where")
    m = oc.mask
    fa = alt_facts(I, args[1], a, m, st)
    fb = alt_facts(I, args[2], b, negmask(m) if m else None, st)
    lo, hi, nz = join_facts(fa, fb)
    tags = content(a.tags | b.tags)
    if m is None or m[0] == "?":
        tags = frozenset(t for t in tags if t not in ("meas", "ffdiff"))
    return out(I, st, node, a, shape=sh, dtype=M.dt_join(a.dtype, b.dtype,
                                                         "+"),
               lo=bnd(lo), hi=bnd(hi), nz=nz,
               vn=VN("where", oc.vn, a.vn, b.vn),
               unit=join_unit(a.unit, b.unit), tags=tags)


@h("numpy.nonzero", "numpy.flatnonzero", "numpy.argwhere")
def np_nonzero(I, f, n, args, kw, st, node):
    r = np_where(I, f, n, args[:1], {}, st, node)
    if n.endswith("flatnonzero") and isinstance(r, Tup):
        return r.elts[0]
    if n.endswith("argwhere"):
        o = op_of(I, args[0], st)
        return I.new_arr(st, node, ArrRec(
            (None, C(len(o.shape)) if o.shape else None), "i8", ZERO,
            vn=VN("argwhere", o.vn)))
    return r


@h("numpy.logical_and", "numpy.logical_or", "numpy.logical_xor",
   "numpy.bitwise_and", "numpy.bitwise_or")
def np_logical(I, f, n, args, kw, st, node):
    op = {"and": "&", "or": "|", "xor": "^"}[n.split("_")[1]]
    return M.bitop(I, op, op_of(I, args[0], st), op_of(I, args[1], st), st,
                   node)


@h("numpy.less", "numpy.less_equal", "numpy.greater", "numpy.greater_equal",
   "numpy.equal", "numpy.not_equal")
def np_cmp(I, f, n, args, kw, st, node):
    op = {"less": "<", "less_equal": "<=", "greater": ">",
          "greater_equal": ">=", "equal": "==", "not_equal": "!="}[
        n.split(".")[1]]
    return I.compare(op, args[0], args[1], st, node)


# ------------------------------------------------------------ reductions
RED_KEEP = {"mean", "median", "max", "min", "amax", "amin", "percentile",
            "nanmean", "nanmedian", "nanmax", "nanmin", "quantile",
            "average", "nanpercentile"}


@h(*["numpy." + k for k in """mean median sum std var max min amax amin prod
percentile quantile nanmean nanmedian nansum nanstd nanmax nanmin average
ptp count_nonzero nanpercentile""".split()])
def np_reduce(I, f, n, args, kw, st, node):
    k = n.split(".")[1].replace("amax", "max").replace("amin", "min")
    if k in ("max", "min") and len(args) == 1 and not kw and isinstance(
            args[0], Tup) and args[0].elts and all(
            isinstance(x, Num) for x in args[0].elts):
        from .builtmodel import _mm
        r = _mm(I, k, list(args[0].elts), st, node)
        if isinstance(r, Num):
            return r.with_(ispy=False)
    r = np_reduce1(I, f, n, args, kw, st, node)
    if isinstance(args[0], Union) and k in ("max", "min") and \
            isinstance(r, Num):
        I.red[r.vnum] = (k, frozenset(
            op_of(I, a, st).vn for a in args[0].alts
            if isinstance(a, (Ref, Num))))
    return r


@union_map
def np_reduce1(I, f, n, args, kw, st, node):
    k = n.split(".")[1]
    k = {"amax": "max", "amin": "min"}.get(k, k)
    v = args[0]
    o = op_of(I, v, st)
    oo = check_out(I, st, node, [], kw)
    ai = 2 if k in ("percentile", "quantile", "nanpercentile") else 1
    axv = arg(args, kw, ai, "axis")
    keep = I.truth(kw["keepdims"], st) if "keepdims" in kw else False
    nd = len(o.shape) if o.shape is not None else 0
    ax = axis_arg(axv, nd)
    if isinstance(v, Ref) and isinstance(st.heap.get(v.id), ObjRec):
        from . import iomodel
        v = iomodel.obj_to_array(I, v, st.heap[v.id], st, node, n, kw)
        o = op_of(I, v, st)
    sh = None
    if ax is None:
        sh = () if not keep else (ONE,) * nd
    elif ax != "unknown" and o.shape is not None:
        if any(a >= nd or a < 0 for a in ax):
            I.emit("shape_mismatch", node, st, how=k + " axis", a=C(nd),
                   b=C(max(ax)), witness={}, shapes=[o.shape], axis=0)
            raise Dead()
        sh = tuple((ONE if i in ax else d) for i, d in enumerate(o.shape)
                   if keep or i not in ax)
    vn = VN(k, o.vn, ax if ax != "unknown" else I.vnum(st, axv), tuple(
        I.vnum(st, a) for a in (args[1:2] if ai == 2 else [])), keep)
    if ax is None and k in ("min", "max"):
        I.red[vn] = (k, frozenset([o.vn]))
    elif ax is None and k in ("count_nonzero", "sum") and o.mask is not None \
            and o.mask[0] != "?":
        I.red[vn] = ("count", o.mask)
    lo = hi = None
    nz = False
    unit = None
    dt = "f8"
    tags = frozenset()
    if k in RED_KEEP:
        lo, hi = o.lo, o.hi
        unit = o.unit
        s = sgn(o.lo, o.hi, o.nz)
        nz = o.nz and s in ("+", "-")
        tags = frozenset(t for t in o.tags if t in CONTENT)
        if k in ("max", "min"):
            dt = o.dtype
            nz = o.nz
        if k == "mean" and ax is None and (
                s == "0+" or {"flat", "ffdiff"} & o.tags):
            # assumption: such an image is not zero on average
            nz = True
    elif k in ("std", "var", "nanstd", "ptp", "count_nonzero"):
        lo = ZERO
        if k == "count_nonzero":
            dt = "i8"
    elif k in ("sum", "nansum"):
        s = sgn(o.lo, o.hi, o.nz)
        if s in ("+", "0+"):
            lo = ZERO
            nz = s == "+"
        dt = o.dtype if o.dtype[0] != "b" else "i8"
        tags = frozenset(t for t in o.tags if t in ("flat", "dark"))
    if k in ("percentile", "quantile") and sh == () and len(args) > 1 and \
            not isinstance(args[1], Num):
        q = op_of(I, args[1], st)
        if q.shape:
            sh = q.shape
    I.emit("reduce", node, st, fn=k, op=o, axis=ax)
    if o.seq is not None and sh == () and k in ("max", "min") and \
            len(o.shape or ()) == 1 and o.shape[0] is not None:
        a, b = o.seq[0], o.seq[0] + o.seq[1] * (o.shape[0] - ONE)
        if S.is_nonneg(o.seq[1]):
            return Num(b if k == "max" else a, isint=dt[0] in "iu",
                       unit=unit)
        if S.is_nonneg(-o.seq[1]):
            return Num(a if k == "max" else b, isint=dt[0] in "iu",
                       unit=unit)
    if not o.known and sh != ():
        return Top(vn)
    if sh == ():
        rv = Num(named_opaque("v%d" % vn), bnd(lo), bnd(hi),
                 dt[0] in "iub", unit, nz, tags=tags | M.deps(I, st, v))
        if vn in I.red:
            I.red[rv.vnum] = I.red[vn]
        return rv
    r = I.new_arr(st, node, ArrRec(sh, dt, bnd(lo), bnd(hi), nz, unit, vn,
                                   tags=tags))
    return give_out(I, st, oo, r) if oo is not None else r


@h("numpy.any", "numpy.all", "numpy.array_equal", "numpy.allclose",
   "numpy.isclose", "numpy.isscalar", "numpy.iscomplexobj",
   "numpy.isin")
def np_any(I, f, n, args, kw, st, node):
    o = op_of(I, args[0], st)
    if n.endswith("isscalar"):
        v = args[0]
        if isinstance(v, (Num, StrVal, BoolVal)):
            return TRUE
        if isinstance(v, (NoneVal, Tup, Ref)):
            return FALSE
    axv = arg(args, kw, 1, "axis")
    if n in ("numpy.any", "numpy.all") and axv is not None and not \
            isinstance(axv, NoneVal) and o.shape is not None:
        ax = axis_arg(axv, len(o.shape))
        if ax not in (None, "unknown"):
            return I.new_arr(st, node, ArrRec(
                tuple(d for i, d in enumerate(o.shape) if i not in ax),
                "b1", ZERO, ONE, vn=VN(n, o.vn, ax)))
    tg = ()
    if n in ("numpy.any", "numpy.all") and o.rec is not None and \
            o.rec.mask is not None and o.rec.mask[0] != "?":
        tg = ((n[6:] + "mask", o.rec.mask),)
    return BoolVal(None, VN(n, tuple(I.vnum(st, a) for a in args)),
                   frozenset(tg))


@h("numpy.argmax", "numpy.argmin", "numpy.nanargmax", "numpy.nanargmin")
@union_map
def np_argmax(I, f, n, args, kw, st, node):
    o = op_of(I, args[0], st)
    axv = arg(args, kw, 1, "axis")
    nd = len(o.shape) if o.shape is not None else 0
    ax = axis_arg(axv, nd)
    vn = VN(n, o.vn, ax)
    if ax is None:
        sz = size_of(o.shape)
        return Num(named_opaque("v%d" % vn), ZERO, sz - ONE
                   if sz is not None else None, True)
    if ax == "unknown" or o.shape is None:
        return I.new_arr(st, node, ArrRec(None, "i8", ZERO, vn=vn))
    d = o.shape[ax[0]]
    sh = tuple(x for i, x in enumerate(o.shape) if i not in ax)
    hi = d - ONE if d is not None else None
    if sh == ():
        return Num(named_opaque("v%d" % vn), ZERO, hi, True)
    return I.new_arr(st, node, ArrRec(sh, "i8", ZERO, hi, vn=vn))


@h("numpy.argsort", "numpy.lexsort")
@union_map
def np_argsort(I, f, n, args, kw, st, node):
    o = op_of(I, args[0], st)
    axv = arg(args, kw, 1, "axis", num(-1))
    nd = len(o.shape) if o.shape is not None else 0
    ax = axis_arg(axv, nd)
    hi = None
    if o.shape is not None and ax not in (None, "unknown") and \
            ax[0] < nd and o.shape[ax[0]] is not None:
        hi = o.shape[ax[0]] - ONE
    vn = VN("argsort", o.vn, ax)
    if not o.known:
        return Top(vn)
    return I.new_arr(st, node, ArrRec(o.shape, "i8", ZERO, hi, vn=vn))


@h("numpy.sort")
@union_map
def np_sort(I, f, n, args, kw, st, node):
    v = args[0]
    o = op_of(I, v, st)
    axv = arg(args, kw, 1, "axis", num(-1))
    ax = axis_arg(axv, len(o.shape) if o.shape is not None else 0)
    vn = VN("sort", o.vn, ax)
    if isinstance(v, Ref) and v.what == "list" and not o.known:
        r = st.heap[v.id]
        return I.new_list(st, node, r.upd(
            roots=frozenset(), vn=VN("sort", I.vnum(st, v)),
            elem=sorted_tag(list_elem(r)), elts=None))
    if isinstance(v, Ref) and v.what == "list":
        r = st.heap[v.id]
        if isinstance(list_elem(r), StrVal):
            return I.new_list(st, node, r.upd(
                roots=frozenset(), vn=VN("sort", I.vnum(st, v)),
                elem=sorted_tag(list_elem(r)), elts=None))
    if not o.known:
        return Top(vn)
    return I.new_arr(st, node, rec_of(o, vn=vn, seq=None, mask=None,
                                      tags=content(o.tags)))


def sorted_tag(e):
    if isinstance(e, StrVal):
        return StrVal(e.vals, e.vn, e.tags | {"sorted"})
    return e


@h("ndarray.sort", "ndarray.fill", "ndarray.partition", "ndarray.resize",
   "ndarray.put", "ndarray.itemset", "ndarray.setfield", "numpy.put",
   "numpy.place", "numpy.copyto", "numpy.putmask", "numpy.fill_diagonal",
   "numpy.random.shuffle", "ndarray.byteswap")
def nd_mut(I, f, n, args, kw, st, node):
    v = f.self_ if n.startswith("ndarray") else args[0]
    if n == "numpy.random.shuffle":
        I.emit("nondet", node, st, name=n)
    I.mutate(st, v, node, n.split(".")[-1])
    if isinstance(v, Ref) and isinstance(st.heap.get(v.id), ArrRec):
        r = st.heap[v.id]
        vn = VN(n, r.vn, tuple(I.vnum(st, a) for a in args))
        if n == "ndarray.fill":
            o = op_of(I, args[0], st)
            st.heap[v.id] = r.upd(vn=vn, lo=bnd(o.lo), hi=bnd(o.hi),
                                  nz=o.nz, seq=None)
        elif n == "ndarray.sort":
            st.heap[v.id] = r.upd(vn=vn, seq=None)
        elif n in ("numpy.putmask", "numpy.place", "numpy.copyto"):
            if n == "numpy.copyto" and "where" in kw:
                M.store_one(I, v, kw["where"], args[1], st, node, None, True)
            elif n == "numpy.copyto":
                M.store_one(I, v, SliceVal(None, None, None), args[1], st,
                            node, None, True)
            else:
                M.store_one(I, v, args[1], args[2], st, node, None, True)
            return NONE
        else:
            st.heap[v.id] = r.upd(vn=vn, lo=None, hi=None, nz=False,
                                  seq=None)
        I.propagate_parent(st, v, node)
    return NONE


@h("ndarray.copy")
def nd_copy(I, f, n, args, kw, st, node):
    return np_array(I, f, "numpy.copy", [f.self_], {}, st, node)


@h("ndarray.tolist")
def nd_tolist(I, f, n, args, kw, st, node):
    o = op_of(I, f.self_, st)
    if o.shape is not None and len(o.shape) == 1:
        return I.new_list(st, node, ListRec(
            None, o.shape[0], Num(named_opaque("el%d" % o.vn), o.lo, o.hi,
                                  o.dtype[0] in "iu", o.unit, o.nz),
            vn=VN("tolist", o.vn)))
    return Top(VN("tolist", o.vn))


@h("ndarray.item")
def nd_item(I, f, n, args, kw, st, node):
    o = op_of(I, f.self_, st)
    return Num(named_opaque("v%d" % o.vn), o.lo, o.hi, o.dtype[0] in "iu",
               o.unit, o.nz)


@h("ndarray.view")
def nd_view(I, f, n, args, kw, st, node):
    r = st.heap.get(f.self_.id)
    return I.new_arr(st, node, r.upd(parent=f.self_.id))


def arr_attr(I, b, r, name, st, node):
    if name == "shape":
        if r.shape is None:
            return Top(VN("shape", r.vn))
        return Tup(Num(d, isint=True, ispy=True) if d is not None else Num(
            named_opaque("dim%d" % VN("dim", r.vn, i)), ZERO, None, True,
            ispy=True) for i, d in enumerate(r.shape))
    if name == "ndim":
        if r.shape is None:
            return Num(named_opaque("nd%d" % r.vn), ZERO, None, True,
                       ispy=True)
        return num(len(r.shape))
    if name == "size":
        s = size_of(r.shape)
        return Num(s if s is not None else named_opaque("sz%d" % r.vn),
                   ZERO if s is None else None, None, True, ispy=True)
    if name == "T":
        o = op_of(I, b, st)
        if o.shape is None:
            return I.new_arr(st, node, r.upd(parent=b.id, vn=VN("T", r.vn),
                                             seq=None, mask=None))
        return tview(I, st, node, b, o, tuple(reversed(range(
            len(o.shape)))))
    if name in ("real", "imag"):
        return HANDLERS["numpy." + name](I, None, "numpy." + name, [b], {},
                                         st, node)
    if name == "dtype":
        return Top(VN("dtype", r.dtype, r.vn if r.dtype == "?" else 0),
                   frozenset([("dt", r.dtype)]))
    if name in ("nbytes", "itemsize"):
        return Num(named_opaque("nb%d" % r.vn), ONE, None, True)
    if name == "flat":
        return b
    if name == "flags":
        return Top(VN("flags", r.vn))
    return Func("ndarray." + name, self_=b)


# ----------------------------------------------------------------- grids
@h("numpy.meshgrid")
def np_meshgrid(I, f, n, args, kw, st, node):
    ops = [op_of(I, a, st) for a in args]
    ij = isinstance(kw.get("indexing"), StrVal) and \
        kw["indexing"].const() == "ij"
    sh = None
    if all(o.shape is not None and len(o.shape) <= 1 for o in ops):
        ds = [o.shape[0] if o.shape else ONE for o in ops]
        if len(ds) >= 2 and not ij:
            ds[0], ds[1] = ds[1], ds[0]
        sh = tuple(ds)
    els = []
    for i, o in enumerate(ops):
        axis = i if ij or i > 1 else 1 - i if len(ops) > 1 else 0
        els.append(I.new_arr(st, node, rec_of(
            o, shape=sh, vn=VN("mesh", o.vn, axis, sh), seq=None,
            mask=None), "m%d" % i))
    return I.new_list(st, node, ListRec(tuple(els), C(len(els)),
                                        vn=VN("list", len(els))))


@h("numpy.indices")
def np_indices(I, f, n, args, kw, st, node):
    sh = shape_arg(I, args[0], st)
    if sh is None:
        return None
    return I.new_arr(st, node, ArrRec((C(len(sh)),) + sh, "i8", ZERO, None,
                                      vn=VN("indices", sh)))


@h("numpy.unravel_index")
def np_unravel(I, f, n, args, kw, st, node):
    sh = shape_arg(I, args[1], st)
    o = op_of(I, args[0], st)
    if sh is None:
        return Top(VN(n, o.vn, I.vnum(st, args[1])))
    els = []
    for i, d in enumerate(sh):
        vn = VN("unravel", o.vn, i, sh)
        hi = d - ONE if d is not None else None
        if o.shape == ():
            els.append(Num(named_opaque("v%d" % vn), ZERO, hi, True))
        else:
            els.append(I.new_arr(st, node, ArrRec(o.shape, "i8", ZERO, hi,
                                                  vn=vn), "u%d" % i))
    return Tup(els)


@h("numpy.shape", "numpy.ndim", "numpy.size")
@union_map
def np_shape(I, f, n, args, kw, st, node):
    v = args[0]
    o = op_of(I, v, st)
    k = n.split(".")[1]
    if isinstance(v, Ref) and isinstance(st.heap.get(v.id), (ArrRec,
                                                             ObjRec)):
        return I.attr(v, k, st, node)
    if o.shape is None:
        return Top(VN(k, o.vn))
    if k == "ndim":
        return num(len(o.shape))
    if k == "size":
        s = size_of(o.shape)
        return Num(s, isint=True) if s is not None else Num(
            named_opaque("sz%d" % o.vn), ZERO, None, True)
    return Tup(Num(d, isint=True, ispy=True) if d is not None else Num(
        named_opaque("dim%d" % VN("dim", o.vn, i)), ZERO, None, True)
        for i, d in enumerate(o.shape))


# ------------------------------------------------------ misc numeric
@h("numpy.diff")
@union_map
def np_diff(I, f, n, args, kw, st, node):
    o = op_of(I, args[0], st)
    nn = arg(args, kw, 1, "n", num(1))
    c = num1(I, nn, st)
    nd = len(o.shape) if o.shape is not None else 0
    ax = axis_arg(arg(args, kw, 2, "axis", num(-1)), nd)
    sh = None
    if o.shape is not None and c is not None and ax not in (None,
                                                            "unknown"):
        ex = C(0)
        for k, (pos, key) in enumerate(((3, "prepend"), (4, "append"))):
            e = arg(args, kw, pos, key)
            if e is None:
                continue
            eo = op_of(I, e, st)
            if eo.shape is not None and len(eo.shape) == 0:
                ex = ex + C(1)
            elif eo.shape is not None and len(eo.shape) == nd and \
                    ex is not None:
                z = [eo.shape[i] for i in ax]
                ex = ex + z[0] if z[0] is not None else None
            else:
                ex = None
            if ex is None:
                break
        sh = tuple((None if ex is None else d - c + ex)
                   if i in ax and d is not None else d
                   for i, d in enumerate(o.shape))
    lo = hi = None
    if o.seq is not None and o.shape is not None and len(o.shape) == 1:
        lo = hi = o.seq[1]
    return I.new_arr(st, node, ArrRec(sh, o.dtype if o.dtype != "b1" else
                                      "i8", bnd(lo), bnd(hi), False, o.unit,
                                      VN("diff", o.vn, c, ax,
                                         kwvn(I, st, args[3:], kw))))


@h("numpy.gradient")
def np_gradient(I, f, n, args, kw, st, node):
    o = op_of(I, args[0], st)
    axv = kw.get("axis")
    nd = len(o.shape) if o.shape is not None else None
    if nd == 1 or axv is not None and not isinstance(axv, NoneVal) and \
            isinstance(axv, Num):
        return out(I, st, node, o, vn=VN("grad", o.vn, kwvn(I, st, args,
                                                            kw)),
                   lo=None, hi=None, nz=False, dtype="f8",
                   tags=frozenset())
    if nd is None:
        return Top(VN("grad", o.vn))
    return I.new_list(st, node, ListRec(tuple(
        I.new_arr(st, node, rec_of(o, lo=None, hi=None, nz=False,
                                   dtype="f8", vn=VN("grad", o.vn, i),
                                   tags=frozenset(), seq=None), "g%d" % i)
        for i in range(nd)), C(nd), vn=VN("list", nd)))


@h("numpy.cumsum", "numpy.cumprod")
@union_map
def np_cumsum(I, f, n, args, kw, st, node):
    o = op_of(I, args[0], st)
    axv = arg(args, kw, 1, "axis")
    sh = o.shape
    if axv is None or isinstance(axv, NoneVal):
        sh = (size_of(o.shape),)
    return out(I, st, node, o, shape=sh, vn=VN(
        n, o.vn, kwvn(I, st, args, kw)), lo=None, hi=None, nz=False,
        tags=frozenset())


@h("numpy.dot", "numpy.matmul", "numpy.inner")
def np_dot(I, f, n, args, kw, st, node):
    return M.matmul(I, op_of(I, args[0], st), op_of(I, args[1], st), st,
                    node)


@h("numpy.outer", "numpy.multiply.outer")
def np_outer(I, f, n, args, kw, st, node):
    a, b = op_of(I, args[0], st), op_of(I, args[1], st)
    sh = a.shape + b.shape if a.shape is not None and b.shape is not None \
        else None
    return I.new_arr(st, node, ArrRec(sh, M.dt_join(a.dtype, b.dtype, "*"),
                                      vn=VN("outer", a.vn, b.vn)))


@h("numpy.linalg.lstsq", "numpy.linalg.svd", "numpy.linalg.inv",
   "numpy.linalg.norm", "numpy.linalg.solve", "numpy.linalg.pinv",
   "numpy.linalg.det")
def np_linalg(I, f, n, args, kw, st, node):
    a = op_of(I, args[0], st)
    k = n.split(".")[-1]
    vn = VN(n, tuple(I.vnum(st, x) for x in args), kwvn(I, st, [0] if 0
                                                        else [], kw, 0))
    if k == "norm":
        return Num(named_opaque("v%d" % vn), ZERO, None, False)
    if k == "lstsq":
        b = op_of(I, args[1], st)
        if a.shape and b.shape and a.shape[0] is not None and \
                b.shape[0] is not None:
            w = M.dims_differ(I, a.shape[0], b.shape[0], st)
            if w is not None:
                I.emit("shape_mismatch", node, st, how="lstsq",
                       a=a.shape[0], b=b.shape[0], witness=w,
                       shapes=[a.shape, b.shape], axis=0)
        sh = None
        if a.shape is not None and len(a.shape) == 2 and \
                b.shape is not None:
            sh = (a.shape[1],) + b.shape[1:]
        return Tup([I.new_arr(st, node, ArrRec(sh, "f8", vn=VN(vn, i)),
                              "l%d" % i) if i == 0 else Top(VN(vn, i))
                    for i in range(4)])
    if k == "svd":
        els = []
        for i in range(3):
            sh = None
            if a.shape is not None and len(a.shape) == 2:
                m_, n_ = a.shape
                mn = S.pmin(m_, n_) if m_ is not None and n_ is not None \
                    else None
                fm = kw.get("full_matrices", arg(args, {}, 1, "", TRUE))
                full = I.truth(fm, st) is not False
                sh = [(m_, m_ if full else mn), (mn,),
                      (n_ if full else mn, n_)][i]
            els.append(I.new_arr(st, node, ArrRec(sh, "f8", vn=VN(vn, i)),
                                 "s%d" % i))
        return Tup(els)
    return I.new_arr(st, node, ArrRec(None, "f8", vn=vn))


@h("numpy.polyfit")
def np_polyfit(I, f, n, args, kw, st, node):
    a, b = op_of(I, args[0], st), op_of(I, args[1], st)
    deg = num1(I, args[2], st)
    if a.shape and b.shape and a.shape[0] is not None and \
            b.shape[0] is not None:
        w = M.dims_differ(I, a.shape[0], b.shape[0], st)
        if w is not None:
            I.emit("shape_mismatch", node, st, how="polyfit", a=a.shape[0],
                   b=b.shape[0], witness=w, shapes=[a.shape, b.shape],
                   axis=0)
    sh = (deg + ONE,) if deg is not None else None
    if sh is not None and b.shape is not None and len(b.shape) == 2:
        sh = sh + (b.shape[1],)
    vn = VN("polyfit", a.vn, b.vn, deg)
    return I.new_arr(st, node, ArrRec(sh, "f8", vn=vn))


@h("numpy.polyval", "numpy.poly1d")
def np_polyval(I, f, n, args, kw, st, node):
    if n.endswith("poly1d"):
        return Func("poly1d()", pre=(args[0],))
    o = op_of(I, args[1], st)
    return out(I, st, node, o, vn=VN("polyval", I.vnum(st, args[0]), o.vn),
               lo=None, hi=None, nz=False, unit=None, tags=frozenset())


@h("poly1d()")
def poly1d_call(I, f, n, args, kw, st, node):
    o = op_of(I, args[1], st)
    return out(I, st, node, o, vn=VN("polyval", I.vnum(st, args[0]), o.vn),
               lo=None, hi=None, nz=False, unit=None, tags=frozenset())


@h("numpy.interp")
def np_interp(I, f, n, args, kw, st, node):
    o = op_of(I, args[0], st)
    xp, fp = op_of(I, args[1], st), op_of(I, args[2], st)
    if xp.shape and fp.shape and xp.shape[0] is not None and \
            fp.shape[0] is not None:
        w = M.dims_differ(I, xp.shape[0], fp.shape[0], st)
        if w is not None:
            I.emit("shape_mismatch", node, st, how="interp", a=xp.shape[0],
                   b=fp.shape[0], witness=w, shapes=[xp.shape, fp.shape],
                   axis=0)
    return out(I, st, node, o, vn=VN("interp", o.vn, xp.vn, fp.vn),
               lo=bnd(fp.lo), hi=bnd(fp.hi), nz=False, unit=fp.unit,
               tags=frozenset())


@h("numpy.histogram", "numpy.unique", "numpy.bincount", "numpy.digitize",
   "numpy.searchsorted", "numpy.cross", "numpy.convolve", "numpy.correlate",
   "numpy.trapz", "numpy.cov", "numpy.corrcoef", "numpy.delete",
   "numpy.insert", "numpy.apply_along_axis", "numpy.vectorize",
   "numpy.fromiter", "numpy.frombuffer", "numpy.take", "numpy.compress",
   "numpy.setdiff1d", "numpy.intersect1d", "numpy.union1d", "numpy.mgrid",
   "numpy.eye", "numpy.identity", "numpy.diag", "numpy.tri", "numpy.tril",
   "numpy.triu", "numpy.loadtxt", "numpy.ix_", "numpy.lib.stride_tricks."
   "sliding_window_view")
def np_misc(I, f, n, args, kw, st, node):
    k = n.split(".")[-1]
    vn = VN(n, tuple(I.vnum(st, a) for a in args), tuple(
        (a, I.vnum(st, b)) for a, b in sorted(kw.items())))
    if k in ("eye", "identity"):
        p = num1(I, args[0], st)
        return I.new_arr(st, node, ArrRec((p, p), "f8", ZERO, ONE, vn=vn))
    if k == "histogram":
        bins = arg(args, kw, 1, "bins", num(10))
        p = num1(I, bins, st)
        a = I.new_arr(st, node, ArrRec((p,), "i8", ZERO, None, vn=VN(vn, 0)),
                      "h0")
        b = I.new_arr(st, node, ArrRec((p + ONE if p is not None else None,),
                                       "f8", vn=VN(vn, 1)), "h1")
        return Tup((a, b))
    if k == "unique":
        flags = [x for x in ("return_index", "return_inverse",
                             "return_counts") if x in kw]
        o = op_of(I, args[0], st)
        a = I.new_arr(st, node, ArrRec((None,), o.dtype, bnd(o.lo),
                                       bnd(o.hi), o.nz, o.unit, VN(vn, 0)),
                      "q")
        if not flags and len(args) == 1:
            return a
        return Tup([a] + [I.new_arr(st, node, ArrRec(
            (None,), "i8", ZERO, vn=VN(vn, x)), x) for x in flags])
    if k == "apply_along_axis":
        I.emit("callback", node, st, f=args[0])
        o = op_of(I, args[2], st)
        ax = axis_arg(args[1], len(o.shape) if o.shape else 0)
        if o.shape is not None and ax not in (None, "unknown"):
            row = I.new_arr(st, node, ArrRec((o.shape[ax[0]],), o.dtype,
                                             o.lo, o.hi, o.nz, o.unit,
                                             VN("row", o.vn, ax)), "row")
            r = I.call(args[0], [row] + list(args[3:]), dict(kw), st, node)
            ro = op_of(I, r, st)
            if ro.shape is not None:
                sh = o.shape[:ax[0]] + ro.shape + o.shape[ax[0] + 1:]
                return I.new_arr(st, node, ArrRec(sh, ro.dtype, vn=VN(
                    vn, ro.vn)))
        return I.new_arr(st, node, ArrRec(None, "?", vn=vn))
    if k == "vectorize":
        return Top(vn)
    if k == "mgrid":
        return Top(vn)
    if k == "ix_":
        return Top(vn)
    return I.new_arr(st, node, ArrRec(None, "?", vn=vn))


# ------------------------------------------------------------------ FFT
@h(*["numpy.fft." + k for k in """fft ifft fft2 ifft2 fftn ifftn rfft irfft
rfft2 irfft2 hfft dct idct dctn idctn dst idst dstn idstn""".split()])
@union_map
def np_fft(I, f, n, args, kw, st, node):
    k = n.split(".")[-1]
    o = op_of(I, args[0], st)
    axes = fft_axes(k, args, kw, o)
    vn = VN(k, o.vn, axes, kwvn(I, st, args, kw))
    if I.opts.get("order"):
        I.emit("fft", node, st, fn=k, vn=o.vn, axes=axes)
    sh = o.shape
    nn = arg(args, kw, 1, "n")
    if k in ("fft", "ifft", "rfft", "irfft") and nn is not None and not \
            isinstance(nn, NoneVal) and sh is not None:
        ax = axis_arg(arg(args, kw, 2, "axis", num(-1)), len(sh))
        p = num1(I, nn, st)
        sh = tuple(p if ax not in (None, "unknown") and i in ax else d
                   for i, d in enumerate(sh)) if ax != "unknown" else None
    elif k in ("rfft", "rfft2", "irfft", "irfft2") and sh is not None:
        d = sh[-1]
        if d is not None:
            d = S.floordiv(d, C(2)) + ONE if k[0] == "r" else \
                (d - ONE).scale(Fraction(2))
        sh = sh[:-1] + (d,)
    dt = "f8" if k[:3] in ("dct", "idc", "dst", "ids", "irf", "hff") \
        else "c16"
    if not o.known:
        return I.new_arr(st, node, ArrRec(None, dt, vn=vn))
    tags = fft_tags(o, k, kw)
    return I.new_arr(st, node, ArrRec(sh, dt, vn=vn, tags=tags))


def fft_axes(k, args, kw, o):
    """Transformed axes, counted from the last one."""
    if k not in ("fft", "ifft", "fft2", "ifft2", "fftn", "ifftn"):
        return None
    if o.shape is None:
        given = arg(args, kw, 2, "axis" if k in ("fft", "ifft") else "axes")
        if given is None:
            return {"fft": (-1,), "ifft": (-1,), "fft2": (-2, -1),
                    "ifft2": (-2, -1)}.get(k)
        return None
    nd = len(o.shape)
    if k in ("fft", "ifft"):
        ax = axis_arg(arg(args, kw, 2, "axis", num(-1)), nd)
    elif k in ("fft2", "ifft2"):
        a = arg(args, kw, 2, "axes")
        ax = axis_arg(a, nd) if a is not None else tuple(range(nd))[-2:]
    else:
        a = arg(args, kw, 2, "axes")
        ax = axis_arg(a, nd) if a is not None else tuple(range(nd))
    if ax is None:
        ax = tuple(range(nd))
    if ax == "unknown":
        return None
    return tuple(sorted(i - nd for i in ax))


def fft_tags(o, k, kw):
    base = k.lstrip("i")
    return ordtags(o, ("F" if not k.startswith("i") else "F", base)) \
        if False else frozenset(
            t for t in o.tags if isinstance(t, tuple) and t[0] == "ord")


@h("numpy.fft.fftshift", "numpy.fft.ifftshift")
@union_map
def np_fftshift(I, f, n, args, kw, st, node):
    k = n.split(".")[-1]
    o = op_of(I, args[0], st)
    ax = axis_arg(arg(args, kw, 1, "axes"), len(o.shape) if o.shape else 0)
    if not o.known:
        return Top(VN(k, o.vn))
    if ax is None and o.shape is not None:
        ax = tuple(range(len(o.shape)))
    rel = tuple(sorted(i - len(o.shape) for i in ax)) \
        if o.shape is not None and isinstance(ax, tuple) else \
        "all" if ax is None else None
    return I.new_arr(st, node, rec_of(
        o, vn=VN(k, o.vn, rel, ax), seq=None, mask=None,
        tags=ordtags(o, (k, ax))))


@h("numpy.fft.fftfreq", "numpy.fft.rfftfreq")
def np_fftfreq(I, f, n, args, kw, st, node):
    p = num1(I, args[0], st)
    d = p
    if n.endswith("rfftfreq") and p is not None:
        d = S.floordiv(p, C(2)) + ONE
    return I.new_arr(st, node, ArrRec((d,), "f8", None, None, False, None,
                                      VN(n, p, kwvn(I, st, args, kw))))


# -------------------------------------------------------------- ndimage
@h(*["scipy.ndimage." + k for k in """gaussian_filter median_filter
uniform_filter maximum_filter minimum_filter gaussian_filter1d
uniform_filter1d percentile_filter rank_filter convolve convolve1d correlate
correlate1d gaussian_gradient_magnitude gaussian_laplace laplace sobel
prewitt binary_dilation binary_erosion binary_opening binary_closing
binary_fill_holes grey_dilation grey_erosion grey_closing grey_opening
spline_filter spline_filter1d generic_filter distance_transform_edt
maximum_filter1d minimum_filter1d fourier_shift fourier_gaussian white_tophat
black_tophat""".split()])
@union_map
def ndi_same(I, f, n, args, kw, st, node):
    k = n.split(".")[-1]
    o = op_of(I, args[0], st)
    oo = check_out(I, st, node, [], {"out": kw["output"]}) \
        if isinstance(kw.get("output"), (Ref, Top)) else None
    vn = VN(k, o.vn, kwvn(I, st, args, kw))
    I.emit("ndi", node, st, fn=k, args=args, kw=kw, op=o)
    lo = hi = None
    nz = False
    tags = frozenset(t for t in o.tags if isinstance(t, tuple) and
                     t[0] == "ord")
    dt = o.dtype
    if k in ("median_filter", "maximum_filter", "minimum_filter",
             "percentile_filter", "rank_filter", "maximum_filter1d",
             "minimum_filter1d", "grey_dilation", "grey_erosion"):
        lo, hi, nz = o.lo, o.hi, o.nz
        tags = tags | content(o.tags)
    elif k in ("gaussian_filter", "uniform_filter", "gaussian_filter1d",
               "uniform_filter1d"):
        lo, hi = o.lo, o.hi
        s = sgn(o.lo, o.hi, o.nz)
        nz = o.nz and s == "+"
        order = kw.get("order")
        if order is not None and not (isinstance(order, Num) and
                                      order.const() == 0):
            lo = hi = None
            nz = False
        else:
            tags = tags | content(o.tags)
    elif k.startswith("binary"):
        dt, lo, hi = "b1", ZERO, ONE
        tags = frozenset()
    elif k == "distance_transform_edt":
        lo, dt = ZERO, "f8"
    if not o.known:
        return I.new_arr(st, node, ArrRec(None, dt, vn=vn))
    r = I.new_arr(st, node, ArrRec(o.shape, dt, bnd(lo), bnd(hi), nz,
                                   o.unit, vn, tags=tags,
                                   mask=("?",) if dt == "b1" else None))
    return give_out(I, st, oo, r) if oo is not None else r


@h("scipy.ndimage.shift", "scipy.ndimage.rotate", "scipy.ndimage.zoom",
   "scipy.ndimage.affine_transform")
@union_map
def ndi_geom(I, f, n, args, kw, st, node):
    k = n.split(".")[-1]
    o = op_of(I, args[0], st)
    vn = VN(k, o.vn, kwvn(I, st, args, kw))
    p = arg(args, kw, 1, {"shift": "shift", "rotate": "angle",
                          "zoom": "zoom"}.get(k, "matrix"))
    check_none(I, st, node, n, p)
    I.emit("ndi", node, st, fn=k, args=args, kw=kw, op=o)
    sh = o.shape
    if k == "rotate":
        po = op_of(I, p, st)
        I.emit("trig", node, st, fn="ndi.rotate", unit=po.unit, lo=po.lo,
               hi=po.hi, tags=po.tags, vn=po.vn, src=po.dtype,
               sym=po.num.sym if po.num is not None else None)
        rs = kw.get("reshape", args[3] if len(args) > 3 else TRUE)
        if I.truth(rs, st) is not False:
            sh = (None,) * len(o.shape) if o.shape is not None else None
    elif k == "zoom":
        zs = zoom_args(I, p, st, len(o.shape) if o.shape is not None
                       else None)
        if o.shape is not None and zs is not None and \
                len(zs) == len(o.shape):
            sh = tuple(S.rounding("round", d * z) if d is not None and
                       z is not None else None
                       for d, z in zip(o.shape, zs))
        else:
            sh = None
    elif k == "shift":
        so = op_of(I, p, st)
        if so.shape and o.shape is not None and so.shape[0] is not None \
                and so.shape[0].value() is not None and \
                so.shape[0].value() != len(o.shape):
            I.emit("shape_mismatch", node, st, how="ndi.shift vector",
                   a=C(len(o.shape)), b=so.shape[0], witness={},
                   shapes=[o.shape], axis=0)
    if not o.known:
        return I.new_arr(st, node, ArrRec(None, "?", vn=vn))
    return I.new_arr(st, node, ArrRec(sh, o.dtype, vn=vn, tags=frozenset(
        t for t in o.tags if t == "meas")))


def zoom_args(I, p, st, nd):
    if isinstance(p, Num):
        return (p.sym,) * nd if nd else None
    return shape_arg(I, p, st)


@h("scipy.ndimage.map_coordinates")
def ndi_map(I, f, n, args, kw, st, node):
    o = op_of(I, args[0], st)
    c = args[1]
    co = op_of(I, c, st)
    vn = VN("mapc", o.vn, I.vnum(st, c), kwvn(I, st, args, kw, 2))
    sh = None
    if co.shape is not None and len(co.shape) >= 1:
        sh = co.shape[1:]
        if o.shape is not None and co.shape[0] is not None and \
                co.shape[0].value() is not None and \
                co.shape[0].value() != len(o.shape):
            I.emit("shape_mismatch", node, st, how="map_coordinates",
                   a=C(len(o.shape)), b=co.shape[0], witness={},
                   shapes=[o.shape, co.shape], axis=0)
    els = None
    if isinstance(c, Ref):
        r = st.heap.get(c.id)
        if isinstance(r, ListRec):
            els = r.elts
    elif isinstance(c, Tup):
        els = c.elts
    if els is not None:
        eo = [op_of(I, e, st) for e in els]
        b = broadcast(I, [e.shape for e in eo], st, node, "map_coordinates")
        sh = b
        for e, d in zip(eo, o.shape or ()):
            if d is not None:
                I.emit("coord", node, st, lo=e.lo, hi=e.hi, dim=d, vn=e.vn)
    return I.new_arr(st, node, ArrRec(sh, o.dtype, vn=vn, tags=frozenset(
        t for t in o.tags if t == "meas")))


@h("scipy.ndimage.label", "scipy.ndimage.center_of_mass",
   "scipy.ndimage.sum", "scipy.ndimage.find_objects",
   "scipy.ndimage.histogram", "scipy.ndimage.mean",
   "scipy.ndimage.maximum", "scipy.ndimage.minimum",
   "scipy.ndimage.sum_labels", "scipy.ndimage.generate_binary_structure",
   "scipy.ndimage.variance", "scipy.ndimage.standard_deviation")
def ndi_label(I, f, n, args, kw, st, node):
    k = n.split(".")[-1]
    o = op_of(I, args[0], st)
    vn = VN(k, o.vn, kwvn(I, st, args, kw))
    if k == "label":
        a = I.new_arr(st, node, ArrRec(o.shape, "i4", ZERO, None,
                                       vn=VN(vn, 0)), "lab")
        return Tup((a, Num(named_opaque("nl%d" % vn), ZERO, None, True)))
    if k == "center_of_mass" and len(args) < 3 and "index" not in kw:
        if o.shape is not None:
            return Tup(Num(named_opaque("com%d" % VN(vn, i)), ZERO,
                           d - ONE if d is not None else None, False)
                       for i, d in enumerate(o.shape))
    if k in ("sum", "mean", "maximum", "minimum", "sum_labels",
             "variance", "standard_deviation"):
        idx = arg(args, kw, 2, "index")
        if idx is not None:
            io_ = op_of(I, idx, st)
            if io_.shape is not None and io_.shape != ():
                return I.new_arr(st, node, ArrRec(io_.shape, "f8", vn=vn))
        return Num(named_opaque("v%d" % vn), None, None, False)
    if k == "find_objects":
        el = Tup(Top(VN("slice", vn, i)) for i in range(
            len(o.shape) if o.shape else 2))
        return I.new_list(st, node, ListRec(None, None, Top(VN(vn, 0)),
                                            vn=vn))
    if k == "histogram":
        p = num1(I, args[3], st) if len(args) > 3 else None
        return I.new_arr(st, node, ArrRec((p,), "i8", ZERO, None, vn=vn))
    return Top(vn)


# ---------------------------------------------------------- scipy others
@h("scipy.interpolate.RectBivariateSpline", "scipy.interpolate.interp1d",
   "scipy.interpolate.interp2d",
   "scipy.interpolate.RegularGridInterpolator",
   "scipy.interpolate.UnivariateSpline", "scipy.interpolate.CubicSpline")
def sp_spline(I, f, n, args, kw, st, node):
    k = n.split(".")[-1]
    ops = [op_of(I, a, st) for a in args]
    vn = VN(k, tuple(o.vn for o in ops), tuple(
        (a, I.vnum(st, b)) for a, b in sorted(kw.items())))
    if k == "RectBivariateSpline" and len(ops) >= 3:
        x, y, z = ops[:3]
        if z.shape is not None and len(z.shape) == 2:
            for a, i in ((x, 0), (y, 1)):
                if a.shape and a.shape[0] is not None and \
                        z.shape[i] is not None:
                    w = M.dims_differ(I, a.shape[0], z.shape[i], st)
                    if w is not None:
                        I.emit("shape_mismatch", node, st, how=k,
                               a=a.shape[0], b=z.shape[i], witness=w,
                               shapes=[a.shape, z.shape], axis=i)
    if k in ("interp1d", "UnivariateSpline", "CubicSpline") and \
            len(ops) >= 2:
        x, y = ops[:2]
        ax = axis_arg(kw.get("axis", num(-1)), len(y.shape)
                      if y.shape else 0)
        if x.shape and y.shape and ax not in (None, "unknown") and \
                ax[0] < len(y.shape):
            a, b = x.shape[0], y.shape[ax[0]]
            if a is not None and b is not None:
                w = M.dims_differ(I, a, b, st)
                if w is not None:
                    I.emit("shape_mismatch", node, st, how=k, a=a, b=b,
                           witness=w, shapes=[x.shape, y.shape], axis=ax[0])
    I.emit("spline", node, st, fn=k, args=args, kw=kw)
    return I.new_obj(st, node, ObjRec("spline", tuple(
        ("a%d" % i, a) for i, a in enumerate(args)) + (
            ("kind", strv(k)),) + tuple(("kw_" + a, b)
                                        for a, b in kw.items()), vn))


def spline_call(I, b, r, args, kw, st, node, ev=False):
    ops = [op_of(I, a, st) for a in args]
    kind = r.get("kind").const()
    vn = VN("spl", r.vn, tuple(o.vn for o in ops), ev, tuple(
        (k, I.vnum(st, v)) for k, v in sorted(kw.items())))
    unit = None
    if kind == "RectBivariateSpline":
        g = I.truth(kw["grid"], st) if "grid" in kw else True
        z = r.get("a2")
        for i, o in enumerate(ops[:2]):
            x = op_of(I, r.get("a%d" % i), st)
            I.emit("spline_coord", node, st, lo=o.lo, hi=o.hi, xlo=x.lo,
                   xhi=x.hi, axis=i, vn=o.vn)
        zo = op_of(I, z, st) if z is not None else None
        tags = frozenset(t for t in zo.tags if t == "meas") if zo else \
            frozenset()
        if ev or g is False:
            sh = broadcast(I, [o.shape for o in ops[:2]], st, node,
                           "spline.ev")
        else:
            sh = None
            if len(ops) >= 2 and all(o.shape is not None and
                                     len(o.shape) <= 1 for o in ops[:2]):
                sh = tuple(o.shape[0] if o.shape else ONE for o in ops[:2])
        return I.new_arr(st, node, ArrRec(sh, "f8", vn=vn, tags=tags))
    o = ops[0]
    y = op_of(I, r.get("a1"), st)
    sh = o.shape
    if y.shape is not None and len(y.shape) > 1 and o.shape is not None:
        ax = axis_arg(r.get("kw_axis") or num(-1), len(y.shape))
        sh = y.shape[:ax[0]] + o.shape + y.shape[ax[0] + 1:] \
            if ax not in (None, "unknown") else None
    if sh == ():
        return Num(named_opaque("v%d" % vn), None, None, False)
    return I.new_arr(st, node, ArrRec(sh, "f8", vn=vn, unit=y.unit))


@h("scipy.signal.savgol_filter", "scipy.signal.medfilt",
   "scipy.signal.detrend", "scipy.signal.wiener", "scipy.signal.medfilt2d")
@union_map
def sp_same(I, f, n, args, kw, st, node):
    o = op_of(I, args[0], st)
    return out(I, st, node, o, vn=VN(n, o.vn, kwvn(I, st, args, kw)),
               lo=None, hi=None, nz=False, dtype="f8", tags=frozenset())


@h("scipy.signal.convolve", "scipy.signal.fftconvolve",
   "scipy.signal.correlate", "scipy.signal.convolve2d",
   "scipy.signal.correlate2d")
def sp_conv(I, f, n, args, kw, st, node):
    a, b = op_of(I, args[0], st), op_of(I, args[1], st)
    mode = arg(args, kw, 2, "mode", strv("full"))
    m = mode.const() if isinstance(mode, StrVal) else None
    sh = None
    if a.shape is not None and b.shape is not None and \
            len(a.shape) == len(b.shape):
        if m == "same":
            sh = a.shape
        elif m == "full":
            sh = tuple(x + y - ONE if x is not None and y is not None
                       else None for x, y in zip(a.shape, b.shape))
        elif m == "valid":
            sh = tuple(S.pmax(x, y) - S.pmin(x, y) + ONE
                       if x is not None and y is not None else None
                       for x, y in zip(a.shape, b.shape))
    return I.new_arr(st, node, ArrRec(sh, "f8", vn=VN(
        n, a.vn, b.vn, kwvn(I, st, args, kw, 2))))


def window(I, f, n, args, kw, st, node):
    k = n.split(".")[-1]
    p = num1(I, args[0], st) if args else None
    return I.new_arr(st, node, ArrRec((p,), "f8", None, ONE, False, None,
                                      VN(k, p, kwvn(I, st, args, kw))))


@h("scipy.signal.get_window")
def get_window(I, f, n, args, kw, st, node):
    p = num1(I, args[1], st)
    return I.new_arr(st, node, ArrRec((p,), "f8", vn=VN(
        n, tuple(I.vnum(st, a) for a in args))))


@h("scipy.stats.pearsonr", "scipy.stats.spearmanr")
def sp_pearson(I, f, n, args, kw, st, node):
    vn = VN(n, tuple(I.vnum(st, a) for a in args))
    return Tup((Num(named_opaque("v%d" % VN(vn, 0)), -ONE, ONE, False),
                Num(named_opaque("v%d" % VN(vn, 1)), ZERO, ONE, False)))


@h("scipy.optimize.curve_fit", "scipy.optimize.minimize")
def sp_opt(I, f, n, args, kw, st, node):
    return Top(VN(n, tuple(I.vnum(st, a) for a in args)))


# ------------------------------------------------------------- wavelets
def wave_src(v, st, ds, depth):
    """Sizes of the images whose wavelet components are inside a value."""
    if depth > 4:
        return
    if isinstance(v, Tup):
        for x in v.elts:
            wave_src(x, st, ds, depth + 1)
    elif isinstance(v, Union):
        for x in v.alts:
            wave_src(x, st, ds, depth + 1)
    elif isinstance(v, Ref):
        r = st.heap.get(v.id)
        if isinstance(r, ArrRec):
            for t in r.tags:
                if isinstance(t, tuple) and t[0] == "wdec":
                    ds.add(t[1])
        elif isinstance(r, ListRec):
            for x in (r.elts or ()) or (r.elem, r.head):
                wave_src(x, st, ds, depth + 1)


@h("pywt.wavedec2", "pywt.waverec2", "pywt.wavedec", "pywt.waverec",
   "pywt.dwt2", "pywt.idwt2")
def pywt_(I, f, n, args, kw, st, node):
    k = n.split(".")[1]
    vn = VN(k, tuple(I.vnum(st, a) for a in args), tuple(
        (a, I.vnum(st, b)) for a, b in sorted(kw.items())))
    I.emit("pywt", node, st, fn=k, args=args, kw=kw)
    if k.startswith("waverec"):
        ds = set()
        wave_src(args[0] if args else None, st, ds, 0)
        sh = (None, None)
        if len(ds) == 1:
            # one pixel more where the size is odd
            sh = tuple(None if d is None else d + S.mod(d, C(2))
                       for d in ds.pop())
        return I.new_arr(st, node, ArrRec(sh, "f8", vn=vn,
                                          tags=frozenset([("wave",
                                                           "img")])))
    if k.startswith("wavedec2"):
        o = op_of(I, args[0], st)
        tg = frozenset([("wdec", o.shape)]) if o.shape is not None and len(
            o.shape) == 2 else frozenset()

        def arr(i):
            return I.new_arr(st, node, ArrRec((None, None), "f8",
                                              vn=VN(vn, i), tags=tg),
                             "w%s" % (i,))
        return I.new_list(st, node, ListRec(
            None, None, Tup(arr("d%d" % i) for i in range(3)), vn=vn,
            head=arr("a")))
    return Top(vn)


@h("pywt.wavelist")
def pywt_list(I, f, n, args, kw, st, node):
    return Top(VN("wavelist"), frozenset([("dir", "pywt.wavelist")]))


@h("pywt.dwtn_max_level", "pywt.dwt_max_level")
def pywt_max(I, f, n, args, kw, st, node):
    return Num(named_opaque("lvl%d" % VN(n, tuple(
        I.vnum(st, a) for a in args))), ZERO, None, True)
