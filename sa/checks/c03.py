"""C03: work done in chunks covers the requested range exactly once.

Every slice of a source (array, HDF dataset, list of files) that is read and
every slice of a result that is written, is recorded by the interpreter as a
symbolic interval [lo, hi) together with the loops it is inside.  The
intervals of one object along one axis are then put together:

* an interval inside a loop `for k < n` must meet its successor,
  hi(k) == lo(k+1); the loop then covers [lo(0), lo(n));
* the pieces (loops and the separate step for the rest) must form a chain from
  the first to the last requested position, all bounds being equal as
  polynomials (with floor division, min and max as atoms);
* a piece that is executed under a condition must be empty when the condition
  is false;
* the pieces of the source and of the result that belong to one loop must be
  at a constant distance, so that every result is stored where its input came
  from.

A chain that cannot be proved is reported only with a valuation of the sizes
for which the extracted intervals leave a position out or visit it twice;
otherwise it counts as undecided."""
from fractions import Fraction
from .. import spec, sym as S
from ..driver import Finding, construct_of
from ..sym import C, ZERO, ONE, Poly
from ..values import (Ref, SliceVal, Num, Tup, StrVal, num)

D, H, W = spec.D, spec.H, spec.W


class Piece:
    """[lo, hi) visited by one construct; loops from outer to inner."""
    __slots__ = ("lo", "hi", "loops", "ev", "facts", "why", "n", "lo0",
                 "hi0", "step", "subst")

    def __init__(self, lo, hi, loops, ev):
        kc = ("s", "kchunk")        # the chunks of np.array_split
        if loops and kc in (lo - hi).all_atoms() | lo.all_atoms():
            e = {kc: k_of(loops[-1])}
            lo, hi = lo.subst(e), hi.subst(e)
        lo, hi = nomod(lo), nomod(hi)
        self.lo0, self.hi0 = lo, hi
        self.lo, self.hi, self.loops, self.ev = lo, hi, loops, ev
        self.why = None
        self.step = ONE
        self.subst = None


def nomod(p):
    """mod(p, q) as p - q*floor(p/q)"""
    for _ in range(4):
        ms = [a for a in p.all_atoms() if a[0] == "mod"]
        if not ms:
            break
        p = p.subst({a: a[1] - a[2] * S.floordiv(a[1], a[2]) for a in ms})
    return p


def katom(loop):
    return ("s", loop.sym)


def k_of(loop):
    return Poly.atom(katom(loop))


def strip0(n):
    """max(0, n) -> n"""
    if n is None or len(n.t) != 1:
        return n
    (m, c), = n.t
    if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0][0] == "max":
        a = [p for p in m[0][0][1:] if p.value() != 0]
        if len(a) == 1:
            return a[0]
    return n


def count(lp, pc):
    """Iterations of a loop in which the piece is executed: the loop may be
    left early by a condition that bounds its counter."""
    n = strip0(lp.n)
    k = katom(lp)
    for kind, f in pc.ev.facts:
        if kind != "ge" or k not in f.all_atoms():
            continue
        if pc.subst:
            f = f.subst(pc.subst)
        a = f.subst({k: ZERO})
        b = a - f.subst({k: ONE})
        if f != a - b * k_of(lp) or not b.t or k in b.all_atoms():
            continue
        if S.decide(">", b, ZERO, pc.ev.facts) is not True:
            continue
        if lp.n is not None and f == lp.n - ONE - k_of(lp):
            continue
        m = S.floordiv(a, b) + ONE
        if n is None or below(m, n, pc.ev.facts):
            n = m
        elif not below(n, m, pc.ev.facts):
            n = S.pmin(n, m)
    return n


def below(m, n, facts):
    """m <= n, using the monotony of floor division."""
    if S.decide("<=", m, n, facts) is True:
        return True
    a, b = inside(m), inside(n)
    return a is not None and b is not None and a[1] == b[1] and \
        S.decide("<=", a[0], b[0], facts) is True


def inside(p):
    """x + floor(a/q) as floor((a + x*q)/q): (a + x*q, q)"""
    for a in p.atoms():
        if a[0] == "floordiv":
            x = p - Poly.atom(a)
            if a not in x.all_atoms() and x.is_int():
                return a[1] + x * a[2], a[2]
    return None


def equal(a, b, facts):
    return S.decide("==", a, b, facts) is True


def settle(p, extent):
    """min(x, extent) for a slice end: numpy clips slices."""
    if p is None:
        return extent
    return p


def collapse(pc, extent, facts, stride):
    """Interval covered by all iterations; None + reason when not a tiling."""
    lo, hi = pc.lo, pc.hi
    for lp in reversed(pc.loops):
        k = katom(lp)
        if k not in lo.all_atoms() and k not in hi.all_atoms():
            continue
        n = count(lp, pc)
        if n is None:
            return None
        lo1 = lo.subst({k: k_of(lp) + ONE})
        at0, atn = {k: ZERO}, {k: n}
        fs = facts
        if stride is not None and lp is pc.loops[-1] and \
                equal(hi - lo, ONE, fs):
            if not equal(lo1 - lo, stride, fs):
                return None
            lo, hi = lo.subst(at0), lo.subst(atn)
            pc.step = stride
            continue
        if equal(lo1, hi, fs):
            lo, hi = lo.subst(at0), lo.subst(atn)
            continue
        # hi = min(lo(k+1), end)
        e = None
        for end in ends_of(hi):
            if equal(S.pmin(lo1, end), hi, fs):
                e = end
        if e is None and extent is not None and equal(
                S.pmin(hi, extent), S.pmin(lo1, extent), fs):
            e = extent
        if e is not None:
            last = lo.subst(atn)
            if reaches(last, e, fs):
                lo, hi = lo.subst(at0), e
                continue
            return None
        # downwards
        if equal(hi.subst({k: k_of(lp) + ONE}), lo, fs):
            lo, hi = lo.subst({k: n - ONE}), hi.subst(at0)
            continue
        return None
    return lo, hi


def ends_of(p):
    for a in p.atoms():
        if a[0] == "min":
            for q in a[1:]:
                yield p - Poly.atom(a) + q


def reaches(last, end, facts):
    """last >= end, knowing floordiv(p, q)*q > p - q."""
    d = last - end
    if S.decide(">=", d, ZERO, facts) is True:
        return True
    for a in d.all_atoms():
        if a[0] == "floordiv":
            fl, p, q = Poly.atom(a), a[1], a[2]
            # fl*q >= p - q + 1
            x = S.exact_div(d - (d.subst({a: ZERO})), fl)
            if x is not None and equal(x, q, facts):
                r = d.subst({a: ZERO}) + p - q + ONE
                if S.decide(">=", r, ZERO, facts) is True:
                    return True
    return False


class Obj:
    """One object whose reading or writing is to be complete."""

    def __init__(self, name, pieces, axis, lo, hi, extent, stride=None,
                 must=True):
        self.name, self.pieces, self.axis = name, pieces, axis
        self.lo, self.hi, self.extent = lo, hi, extent
        self.stride, self.must = stride, must


def base_facts(events):
    """Facts common to all the events: guards, not branch conditions."""
    out = None
    for e in events:
        fs = set(e.facts)
        out = fs if out is None else out & fs
    return tuple(out or ())


def resolved(o, facts):
    """The object with the sizes bounded by the facts written as the bound
    plus something non-negative."""
    env = {}
    for k, f in sorted((x for x in facts if x[0] == "ge"),
                       key=lambda x: -len(x[1].t)):
        for a in (("s", "H"), ("s", "W"), ("s", "D")):
            h = Poly.atom(a)
            rest = f - h
            if a in env or a in rest.all_atoms() or any(
                    b in rest.all_atoms() for b in env):
                continue
            if not rest.t or rest.is_const():
                continue
            nm = "more_" + a[1]
            if nm not in S.SYMS:
                S.declare(nm, 0, S.INF, True)
            env[a] = Poly.atom(("s", nm)) - rest
            break
    if not env:
        return None
    sub = lambda p: p.subst(env) if p is not None else None
    ps = []
    for pc in o.pieces:
        q = Piece(sub(pc.lo0), sub(pc.hi0), tuple(
            Loop2(l.sym, sub(l.n), l.node) for l in pc.loops), pc.ev)
        q.subst = env
        ps.append(q)
    return Obj(o.name, ps, o.axis, sub(o.lo), sub(o.hi), sub(o.extent),
               sub(o.stride)), tuple((k, sub(f)) for k, f in facts), env


class Loop2:
    def __init__(self, sym, n, node):
        self.sym, self.n, self.node = sym, n, node

    def __repr__(self):
        return "for %s<%s" % (self.sym, self.n)


def chain(o, facts):
    """(ok, explanation): the pieces form a chain from lo to hi."""
    done = []
    for pc in o.pieces:
        c = collapse(pc, o.extent, tuple(facts) + loopfacts(pc), o.stride)
        if c is None:
            return None, pc
        a, b = c
        same = [x for x in done if equal(x[0], a, facts) and
                equal(x[1], b, facts)]
        if not same:
            done.append((a, b, pc))
    cur, left, order = o.lo, list(done), []
    while left:
        for x in left:
            if equal(x[0], cur, facts):
                left.remove(x)
                order.append(x)
                cur = x[1]
                break
        else:
            return None, left[0][2]
    if o.stride is not None:
        n = S.rounding("ceil", S.div(o.hi - o.lo, o.stride))
        ok = order and (equal(cur, o.hi, facts) or reaches(
            cur, o.hi, facts) or len(order) == 1 and
            strip0(order[0][2].loops[-1].n) in (
                n, S.floordiv(o.hi - o.lo + o.stride - ONE, o.stride)))
    else:
        ok = equal(cur, o.hi, facts) or o.extent is not None and equal(
            o.hi, o.extent, facts) and S.decide(
                ">=", cur, o.hi, facts) is True
    if not ok:
        return None, (done[-1][2] if done else None)
    for a, b, pc in order:
        if pc.loops:
            continue
        for k, f in set((k, f.subst(pc.subst) if pc.subst else f)
                        for k, f in pc.ev.facts) - set(facts):
            if not (b - a).atoms() & f.atoms():
                continue
            if skip_empty(k, f, b - a, facts):
                continue
            return None, pc
    return True, order


def skip_empty(k, f, length, facts):
    """The condition being false implies length == 0."""
    if k == "ne":
        q = S.exact_div(length, f) if len(f.t) == 1 else None
        return q is not None or length == f or length == -f
    if k == "ge":
        return S.decide("<=", length, f + ONE, facts) is True and S.decide(
            ">=", length, f + ONE, facts) is True or S.decide(
            "<=", length - f - ONE, ZERO, facts) is True
    if k == "gt":
        return length == f or S.decide("<=", length, f, facts) is True
    return False


def loopfacts(pc):
    out = []
    for lp in pc.loops:
        out.append(("ge", k_of(lp)))
        if lp.n is not None:
            out.append(("ge", strip0(lp.n) - k_of(lp) - ONE))
    return tuple(out)


# ------------------------------------------------------------- counterexample
LIMIT = 400


def visited(pc, env, extent):
    """Concrete intervals of a piece under a valuation, None if unknown."""
    out = []

    def go(i, env):
        if len(out) > LIMIT:
            raise S.Unknown()
        if i == len(pc.loops):
            for f in pc.facts:
                if not S.fact_holds(f, env):
                    return
            a, b = pc.lo0.ev(env), pc.hi0.ev(env)
            if extent is not None:
                b = min(b, extent.ev(env))
            out.append((int(a), int(b)))
            return
        lp = pc.loops[i]
        if lp.n is None:
            raise S.Unknown()
        n = int(lp.n.ev(env))
        if n > LIMIT:
            raise S.Unknown()
        for k in range(n):
            e2 = dict(env)
            e2[katom(lp)] = Fraction(k)
            go(i + 1, e2)
    go(0, env)
    return out


def refute(o, facts):
    """A valuation for which the intervals do not cover [lo, hi) once."""
    used_loops = {katom(lp) for pc in o.pieces for lp in pc.loops}
    polys = [o.lo, o.hi] + [p for pc in o.pieces for p in (pc.lo0, pc.hi0)] + [
        lp.n for pc in o.pieces for lp in pc.loops if lp.n is not None]
    if o.extent is not None:
        polys.append(o.extent)
    atoms = {a for a in S.base_atoms(polys) if a not in used_loops}
    if any(a[0] == "o" for a in atoms):
        atoms_o = {a for a in atoms if a[0] == "o"}
        if not all(phi_ok(a, o) for a in atoms_o):
            return None
    used, cur = S.relevant_facts(
        [f for f in facts if not (S.base_atoms([f[1]]) & used_loops)], atoms)
    ranges = {a: (1, 60) for a in cur if a[0] == "o"}
    ss = S.samples(cur, used, n=300, tries=6000, ranges=ranges)
    for pc in o.pieces:
        keep = []
        for f in pc.ev.facts:
            if f in used or f in facts:
                continue
            b = S.base_atoms([f[1]])
            if b <= cur | used_loops:
                keep.append(f)
        pc.facts = keep
    for env in ss or ():
        try:
            lo, hi = int(o.lo.ev(env)), int(o.hi.ev(env))
            st = int(o.stride.ev(env)) if o.stride is not None else 1
            if st < 1 or hi - lo > LIMIT or hi <= lo:
                continue
            # values merged from several paths: sizes of chunks
            if any(a[0] == "o" and not (
                    v.denominator == 1 and 1 <= v <= hi - lo)
                    for a, v in env.items()):
                continue
            want = set(range(lo, hi, st))
            seen = set()
            twice = None
            for pc in o.pieces:
                mine = set()
                for a, b in visited(pc, env, o.extent):
                    for x in range(a, b):
                        if x in mine and pc.loops:
                            twice = x
                        mine.add(x)
                if seen & mine and not mine <= seen and not seen <= mine:
                    twice = min(seen & mine)
                seen |= mine
            w = {show(a): str(v) for a, v in env.items()}
            if want - seen:
                return w, "position %d is never reached" % min(want - seen)
            if seen - want:
                return w, "position %d is outside the requested range" % min(
                    seen - want)
            if twice is not None:
                return w, "position %d is done twice" % twice
        except (S.Unknown, ZeroDivisionError):
            return None
    return None


def show(a):
    return str(a[1])


def phi_ok(a, o):
    return str(a[1]).startswith("phi")


# ------------------------------------------------------------------- objects
def part(e, axis):
    """(lo, hi) read or written along one axis, None for the whole axis."""
    i = e.info
    if e.kind in ("arr_read", "arr_write"):
        st = i["starts"]
        if st is None or axis >= len(st):
            return None
        s = st[axis]
        shape = getattr(i["rec"], "shape", None)
        ext = shape[axis] if shape is not None and axis < len(shape) else None
        if s[0] == "i":
            if s[1] is None:
                return None
            return s[1], s[1] + ONE, ext
        if s[0] == "s":
            return bounds(s[4], ext)
        return None
    if e.kind == "list_slice":
        return bounds(i["idx"], None)
    if e.kind == "index":
        p = i["idx"]
        return p, p + ONE, None
    return None


def bounds(sv, ext):
    def one(x, d):
        if x is None or type(x).__name__ == "NoneVal":
            return d
        return x.sym if isinstance(x, Num) else None
    if sv.step is not None and type(sv.step).__name__ != "NoneVal" and not (
            isinstance(sv.step, Num) and sv.step.const() == 1):
        return None
    lo, hi = one(sv.lo, ZERO), one(sv.hi, ext)
    if hi is not None and ext is not None and hi.value() is not None and \
            hi.value() < 0:
        hi = ext + hi
    if lo is None or hi is None:
        return None
    return lo, hi, ext


class Case:
    def __init__(self, fn, sel, objs, pairs=(), opts=None, name="",
                 windows=(), assume=None):
        self.windows, self.assume = windows, assume
        self.fn, self.sel, self.objs = fn, sel, objs
        self.pairs, self.name = pairs, name
        self.opts = dict(kernels=False, cuda=False,
                         h5_shape=lambda *_: (D, H, W), tif_shape=(D, H, W))
        self.opts.update(opts or {})


class Sel:
    """Which events belong to an object."""

    def __init__(self, name, axis, rng, kind="read", param=None, how="arr",
                 func=None, stride=None, extent=None):
        self.name, self.axis, self.rng = name, axis, rng
        self.kind, self.param, self.how = kind, param, how
        self.func, self.stride, self.extent = func, stride, extent

    def events(self, r):
        evs = self.found(r)
        if self.func is None or self.how == "made":
            return evs
        return [e for e in evs if any(self.func in f.short
                                      for f, _ in e.stack)]

    def found(self, r):
        b = r.bound
        if self.how == "arr":
            v = b.get(self.param)
            if not isinstance(v, Ref):
                return []
            i = v.id
            rec = r.init.heap.get(i)
            if v.what != "arr" and rec is not None:
                a = rec.get("arr") if hasattr(rec, "get") else None
                i = a.id if isinstance(a, Ref) else i
            ids = {i}
            k = "arr_" + self.kind
            return [e for e in r.events if e.kind == k and
                    e.info["ref"] is not None and e.info["ref"].id in ids]
        if self.how in ("file", "tmp"):
            ids = set()
            pv = {v.vn for v in b.values() if isinstance(v, StrVal)}
            for e in r.events:
                if e.kind not in ("dset_read", "dset_write"):
                    continue
                f = e.info.get("file")
                if f is None or e.info.get("arr") is None:
                    continue
                if self.how == "file" and f == b[self.param].vn or \
                        self.how == "tmp" and f not in pv:
                    ids.add(e.info["arr"])
            k = "arr_" + self.kind
            return [e for e in r.events if e.kind == k and
                    e.info["ref"] is not None and e.info["ref"].id in ids]
        if self.how == "list":
            out = []
            for e in r.events:
                if e.kind == "list_slice" or e.kind == "index" and getattr(
                        e.info["ref"], "what", None) == "list":
                    if e.kind == "index" and not e.loops and \
                            e.info["idx"].value() is not None:
                        continue        # a look at one file
                    if e.func is not None and (
                            e.func is r.fi if self.func is None else
                            e.func.short.endswith(self.func)):
                        out.append(e)
            return out
        if self.how == "made":
            k = "arr_" + self.kind
            pids = {v.id for v in b.values() if isinstance(v, Ref)}
            out = []
            ids = None
            if self.param is not None:
                nodes = {l.node for e in Sel("", 0, None, param=self.param)
                         .events(r) for l in e.loops}
                ids = {e.info["ref"].id for e in r.events if e.kind == k and
                       e.info["ref"] is not None and
                       any(l.node in nodes for l in e.loops)}
            for e in r.events:
                if e.kind == k and e.info["ref"] is not None and \
                        (ids is None or e.info["ref"].id in ids) and \
                        e.info["ref"].id not in pids and e.func is not None \
                        and self.func in e.func.short:
                    p = part(e, self.axis)
                    if p is not None and not whole(p):
                        out.append(e)
            return out
        raise ValueError(self.how)


def whole(p):
    lo, hi, ext = p
    return ext is not None and not lo.t and hi == ext


# --------------------------------------------------------------------- table
def crop6(r):
    return [x.sym for x in r.bound["crop"].elts]


def depth(r):
    c = crop6(r)
    return c[0], D - c[1]


def cut(i, ext):
    def f(r):
        c = crop6(r)
        return ZERO, ext - c[2 * i] - c[2 * i + 1]
    return f


def span(lo, hi):
    return lambda r: (lo, hi)


def projs(r):
    a, b = r.bound["proj_start"].sym, r.bound["proj_stop"]
    return a, D if b.const() == -1 else b.sym


def nproj(r):
    a, b = projs(r)
    return ZERO, b - a


def cases(tier):
    out = []
    add = out.append
    # vertical slices
    for fn in ("vertical_reconstruction", "vertical_reconstruction_multiple",
               "vertical_reconstruction_different_angles"):
        for gpu in ("False", "True"):
            for ps in ("0", "int>=0"):
                for pe in ("-1", "int>=1"):
                    add(Case("vertrec." + fn, dict(
                        gpu=gpu, crop="crop", proj_start=ps, proj_stop=pe,
                        angles="None"),
                        [Sel("projections", 0, projs, param="projections"),
                         Sel("angles", 0, nproj, how="made", func=fn,
                             param="projections")],
                        [("projections", "angles")], assume=stop_valid,
                        opts=dict(cuda=True if gpu == "True" else False)))
    # reslicing
    for inp, lab in (("path.hdf", "hdf"), ("path", "tif")):
        for axis, n in ((1, 1), (2, 2)):
            for outp in ("path.hdf", "path"):
                ext = H if axis == 1 else W
                src = Sel("input", 0, depth, param="input_",
                          how="file" if lab == "hdf" else "list",
                          func="__save_intermediate_data")
                objs = [src,
                        Sel("intermediate", 0, cut(0, D), "write",
                            how="tmp"),
                        Sel("resliced", 1, cut(axis, ext), how="tmp")]
                pairs = [("input", "intermediate")]
                if outp == "path.hdf":
                    objs.append(Sel("output", 0, cut(axis, ext), "write",
                                    param="output", how="file"))
                    pairs.append(("resliced", "output"))
                for resc in ("False", "True"):
                    add(Case("postprocessing.reslice_dataset", dict(
                        input_=inp, output=outp, axis=str(axis), crop="crop",
                        key_path="key", rescaling=resc), objs, pairs,
                        name=lab))
    # datasets
    for inp, how in (("array(D, H, W)", "arr"), ("path.hdf", "file"),
                     ("path", "list")):
        for outp in ("path.hdf", "path"):
            w = [Sel("output", 0, blocks, "write", param="output",
                     how="file")] if outp == "path.hdf" else []
            add(Case("postprocessing.downsample_dataset", dict(
                input_=inp, output=outp, crop="crop", key_path="key",
                cell_size="int>=1"),
                [Sel("input", 0, whole_blocks, param="input_", how=how)] + w,
                [("input", "output")] if False else ()))
            w = [Sel("output", 0, cut(0, D), "write", param="output",
                     how="file")] if outp == "path.hdf" else []
            add(Case("postprocessing.rescale_dataset", dict(
                input_=inp, output=outp, crop="crop", key_path="key",
                nbit="8", minmax="tuple"),
                [Sel("input", 0, depth, param="input_", how=how)] + w,
                [("input", "output")] if w else ()))
        add(Case("postprocessing.get_statistical_information_dataset", dict(
            input_=inp, crop="crop", key_path="key"),
            [Sel("input", 0, depth, param="input_", how=how,
                 stride=lambda r: step(r))]))
    # rows in chunks
    for dim in "12":
        for gpu in ("False", "True", "'hybrid'"):
            for nd in ("array(D, H, W)", "array(H, W)"):
                if nd == "array(H, W)" and gpu == "False":
                    continue
                ax = 1 if "D" in nd else 0
                add(Case("correlation.find_local_shifts", dict(
                    ref_mat=nd, mat=nd, dim=dim, gpu=gpu,
                    chunk_size="int>=1"),
                    [Sel("shifts", 0, shift_rows, "write", how="made",
                         func="_full_image_"),
                     Sel("ref_mat", ax, None, param="ref_mat",
                         func="_full_image_"),
                     Sel("mat", ax, None, param="mat", func="_full_image_")],
                    windows=[("ref_mat", "shifts"), ("mat", "shifts")],
                    assume=rows_known, opts=dict(cuda=gpu != "False")))
    for gpu in ("False", "True"):
        add(Case("correlation.find_local_shifts_umpa", dict(
            gpu=gpu, chunk_size="int>=1"),
            [Sel("shifts", 0, inner_rows, "write", how="made",
                 func="umpa")] + [
                Sel(p, 1, None, param=p, func="umpa")
                for p in ("ref_mat", "mat")],
            windows=[("ref_mat", "shifts"), ("mat", "shifts")],
            opts=dict(cuda=gpu != "False")))
    for nc in ("int>=2",):
        add(Case("phase.get_transmission_dark_field_signal", dict(
            ncore=nc, margin="int>=1"),
                 [Sel("result", 0, inner0, "write", how="made",
                      func="get_transmission_dark_field_signal")]))
    for fn in ("normalization", "regularization"):
        for srt in ("False", "True"):
            add(Case("removal.remove_stripe_based_" + fn, dict(
                num_chunk="int>=1", sort=srt),
                [Sel("rows", 0, span(ZERO, H), k, how="made",
                     func="remove_stripe_based_" + fn, extent=H)
                 for k in ("read", "write")]))
    return out


def stop_valid(r):
    a, b = projs(r)
    return () if b == D else (("ge", D - b),)


def edge(r):
    b = r.bound
    return b["margin"].sym + S.floordiv(b["win_size"].sym, C(2))


def rows_known(r):
    return (("ge", H - edge(r).scale(2) - ONE),)


def inner_rows(r):
    e = edge(r)
    return e, H - e


def inner0(r):
    return ZERO, H - edge(r).scale(2)


def shift_rows(r):
    return [inner_rows(r), (ZERO, H)]


def step(r):
    n = depth(r)
    return S.pmin(r.bound["skip"].sym,
                  S.pmax(ONE, n[1] - n[0] - ONE))


def blocks(r):
    c = crop6(r)
    s = r.bound["cell_size"].sym
    return ZERO, S.floordiv(D - c[0] - c[1], s)


def whole_blocks(r):
    c = crop6(r)
    s = r.bound["cell_size"].sym
    return c[0], c[0] + s * S.floordiv(D - c[0] - c[1], s)


class C03:
    ID = "C03"
    TITLE = "Chunks cover the requested range exactly once"
    EXPLANATION = __doc__
    RULES = {
        "cover": "the slices read of a source, and the slices written of a "
                 "result, cover the requested range exactly once",
        "place": "every chunk of the result is stored at the position of "
                 "the chunk of the source it is computed from",
        "crop": "a slice bounded by a crop argument uses both margins of "
                "that axis",
        "split": "rows are never split into more chunks than there are rows"}
    ASSUMPTIONS = [
        "numpy, h5py and range have their documented slicing semantics",
        "intervals that are not closed forms of the arguments (found by "
        "iteration) count as undecided"]

    def jobs(self, project, tier):
        cs = cases(tier)
        return list(range(len(cs))) 

    def do(self, project, job):
        c = cases("quick")[job]
        fi = project.by_short(c.fn)
        extra = {}
        for p in fi.params:
            vs = spec.variants(fi, p)
            if p in c.sel:
                w = c.sel[p]
                if isinstance(w, tuple):
                    v = w
                else:
                    v = [x for x in vs if str(x[0]) == w]
                    if not v:
                        continue
                    v = v[0]
            else:
                v = vs[0]
            extra[p] = [v]
        combo = next(iter(spec.combos(fi, 1, extra=extra)))
        r = spec.run(project, fi, combo, c.opts, 400000)
        return self.examine(r, c)

    def examine(self, r, c):
        fs = []
        st = {"calls analysed": 1, "public functions": {r.fi.short},
              "functions reached": {f.short for f in r.I.analysed},
              "objects": 0, "covers proved": 0, "undecided": 0,
              "pieces": 0, "pairs proved": 0}
        if r.status not in ("ok", "dead"):
            st["calls cut short (%s)" % r.status] = 1
        facts = tuple(f for f in (r.state.facts if r.state is not None else ()
                                  )) or ()
        if c.assume:
            facts += c.assume(r)
        orders = {}
        loose = {}
        for s in c.objs:
            evs = s.events(r)
            groups = {}
            for e in evs:
                p = part(e, s.axis)
                if p is None or s.extent is not None and p[2] != s.extent:
                    continue
                g = e.info["ref"].id if s.how == "made" else None
                pc = Piece(p[0], p[1], e.loops, e)
                groups.setdefault(g, []).append((pc, p[2]))
            if not groups:
                fs_ = evs[0] if evs else None
                st["objects"] += 1
                if fs_ is None:
                    st["undecided"] += 1
                    st.setdefault("nothing found for", set()).add(
                        "%s: %s" % (c.fn, s.name))
                continue
            for g, ps in groups.items():
                st["objects"] += 1
                st["pieces"] += len(ps)
                if s.rng is None:
                    loose.setdefault(s.name, []).extend(x for x, _ in ps)
                    continue
                rngs = s.rng(r)
                if isinstance(rngs, tuple):
                    rngs = [rngs]
                bad = "?"
                for lo, hi in rngs:
                    o = Obj(s.name, [x for x, _ in ps], s.axis, lo, hi,
                            ps[0][1], s.stride(r) if s.stride else None)
                    ok, info = chain(o, facts)
                    if not ok:
                        x = resolved(o, facts)
                        if x is not None:
                            ok, info2 = chain(x[0], x[1])
                            if ok:
                                info = info2
                    if ok:
                        break
                    if bad is not None:
                        bad = refute(o, facts)
                if ok:
                    st["covers proved"] += 1
                    orders.setdefault(s.name, []).append(info)
                    continue
                pc = info or ps[0][0]
                if bad is None:
                    st["undecided"] += 1
                    st.setdefault("undecided chains", set()).add(
                        "%s: %s at %s" % (c.fn, s.name, pc.ev.where()))
                    continue
                w, what = bad
                fs.append(Finding(
                    "cover", "%s:%s" % (construct_of(pc.ev), s.name),
                    pc.ev.where(),
                    "%s: %s of %s along axis %d: %s" % (
                        r.fi.short, "writing" if s.kind == "write" else
                        "reading", s.name, s.axis, what),
                    {"call": r.label(), "path": pc.ev.chain(),
                     "sizes": w,
                     "pieces": ["%s: [%s, %s) %s" % (
                         x.ev.where(), x.lo0, x.hi0,
                         " ".join(map(str, x.loops))) for x in o.pieces],
                     "requested": "[%s, %s)" % (lo, hi)}))
        for a, b in c.pairs:
            for oa in orders.get(a, ()):
                for ob in orders.get(b, ()):
                    bad = self.misplaced(oa, ob, facts, st)
                    if bad is not None:
                        x, y, w = bad
                        fs.append(Finding(
                            "place", "%s:%s" % (construct_of(y.ev), b),
                            y.ev.where(),
                            "%s: what is read from [%s, %s) of %s goes to "
                            "[%s, %s) of %s" % (r.fi.short, x.lo0, x.hi0, a,
                                                y.lo0, y.hi0, b),
                            {"call": r.label(), "path": y.ev.chain(),
                             "sizes": w}))
        for a, b in c.windows:
            for ob in orders.get(b, ()):
                for x in loose.get(a, ()):
                    bad = self.window(x, ob, edge(r), facts, st)
                    if bad is not None:
                        fs.append(Finding(
                            "place", "%s:%s" % (construct_of(x.ev), a),
                            x.ev.where(),
                            "%s: rows [%s, %s) of %s are used for the rows "
                            "[%s, %s) of %s" % (
                                r.fi.short, x.lo0, x.hi0, a, bad[0].lo0,
                                bad[0].hi0, b),
                            {"call": r.label(), "path": x.ev.chain(),
                             "sizes": bad[1]}))
        self.splits(r, fs, st)
        self.crops(r, c, fs, st)
        return fs, st

    def misplaced(self, oa, ob, facts, st):
        d0 = oa[0][0] - ob[0][0]
        for _, _, x in oa:
            for _, _, y in ob:
                lx = [l.node for l in x.loops]
                ly = [l.node for l in y.loops]
                if lx[:1] != ly[:1] or not lx:
                    continue
                # compare the outermost loop's interval starts
                env = {katom(l): ZERO for l in x.loops[1:] + y.loops[1:]}
                d = (x.lo0 - y.lo0).subst(env) - d0
                env2 = {katom(y.loops[0]): k_of(x.loops[0])}
                d = (x.lo0.subst(env)) - (y.lo0.subst(env).subst(env2)) - d0
                if S.decide("==", d, ZERO, facts) is True:
                    st["pairs proved"] += 1
                    continue
                w = S.find_difference(d, ZERO, facts + loopfacts(x))
                if w is not None:
                    return x, y, w
                st["undecided"] += 1
        return None

    def window(self, x, ob, e, facts, st):
        """Rows read for a chunk: the chunk and the margin on both sides."""
        m = ZERO if ob[0][0].value() == 0 else e
        for _, _, y in ob:
            if not x.loops or [l.node for l in x.loops] != [
                    l.node for l in y.loops]:
                continue
            sub = y.subst or {}
            env = {katom(p): k_of(q) for p, q in zip(y.loops, x.loops)}
            for d in (x.lo0.subst(sub) - y.lo0.subst(env) + m.subst(sub),
                      x.hi0.subst(sub) - y.hi0.subst(env) - m.subst(sub)):
                if S.decide("==", d, ZERO, facts) is True:
                    st["pairs proved"] += 1
                    continue
                w = S.find_difference(d, ZERO, tuple(
                    (k, f.subst(sub)) for k, f in facts + loopfacts(x)))
                if w is not None:
                    return y, w
                st["undecided"] += 1
        return None

    def splits(self, r, fs, st):
        for e in r.events:
            if e.kind != "array_split":
                continue
            st["splits"] = st.get("splits", 0) + 1
            n, d = e.info["parts"], e.info["dim"]
            if n is None or d is None:
                continue
            if S.decide("<=", n, d, e.facts) is True:
                st["splits proved"] = st.get("splits proved", 0) + 1
                continue
            used, cur = S.relevant_facts(e.facts, S.base_atoms([n, d]))
            if any(f[1].has_opaque() for f in used) or (n - d).has_opaque():
                st["undecided"] += 1
                continue
            for env in S.samples(cur, used, n=200) or ():
                try:
                    if n.ev(env) > d.ev(env) > 0:
                        fs.append(Finding(
                            "split", construct_of(e), e.where(),
                            "%s: %s rows are split into %s chunks" % (
                                r.fi.short, d.ev(env), n.ev(env)),
                            {"call": r.label(), "path": e.chain(),
                             "sizes": {show(a): str(v)
                                       for a, v in env.items()}}))
                        break
                except S.Unknown:
                    break

    def crops(self, r, c, fs, st):
        """Slices of the axes that are not done in chunks."""
        cv = r.bound.get("crop")
        if not isinstance(cv, Tup) or len(cv.elts) != 6:
            return
        cs = [x.sym for x in cv.elts]
        ca = set()
        for x in cs:
            ca |= x.atoms()
        seen = set()
        for e in r.events:
            if e.kind not in ("arr_read", "arr_write") or \
                    e.info["starts"] is None:
                continue
            shape = getattr(e.info["rec"], "shape", None) or ()
            for axis in range(min(len(e.info["starts"]), len(shape))):
                if shape[axis] not in (D, H, W):
                    continue
                i = (D, H, W).index(shape[axis])
                p = part(e, axis)
                if p is None or e.info["starts"][axis][0] != "s":
                    continue
                lo, hi = p[0], p[1]
                if not (lo.all_atoms() | hi.all_atoms()) & ca:
                    continue
                own = {katom(l) for l in e.loops}
                if own & (lo.all_atoms() | hi.all_atoms()) or i == 0 and \
                        lo != cs[0]:
                    continue            # chunks: the covers decide
                key = (e.node, axis, lo, hi)
                if key in seen:
                    continue
                seen.add(key)
                st["crop slices"] = st.get("crop slices", 0) + 1
                for what, x, y in (("start", lo, cs[2 * i]),
                                   ("end", hi, shape[axis] - cs[2 * i + 1])):
                    if S.decide("==", x, y, e.facts) is True:
                        continue
                    if what == "end" and "cell_size" in r.bound:
                        # whole cells only
                        q = r.bound["cell_size"].sym
                        z = cs[2 * i] + q * S.floordiv(y - cs[2 * i], q)
                        if S.decide("==", x, z, e.facts) is True:
                            continue
                    w = S.find_difference(x, y, e.facts)
                    if w is None:
                        st["undecided"] += 1
                        continue
                    fs.append(Finding(
                        "crop", construct_of(e), e.where(),
                        "%s: the %s of the slice [%s:%s] along axis %d is "
                        "not the one the crop asks for, %s" % (
                            r.fi.short, what, lo, hi, i, y),
                        {"call": r.label(), "path": e.chain(), "sizes": w}))


CHECK = C03()
