"""C10: implementations of one operation compute the same formula."""
import time
import sys
from .. import formula as F, lin, sym as S
from ..formula import Ev, State, Unsupported, Raised, at
from ..sym import Poly, ONE, ZERO
from ..driver import Finding


def size(name, lo=1):
    return Poly.sym(name, lo)


H, W, D = size("H", 2), size("W", 2), size("D", 1)
NS = size("nS", 1)
H1, W1 = size("h1", 1), size("w1", 1)
E0, E1, S0 = size("e0", 0), size("e1", 0), size("s0", 0)
CENTER = Poly.sym("center", isint=False)


class Case:
    """One implementation: how it is called and where the element is."""

    def __init__(self, label, func, args, out, kw=None, capture=None,
                 picks=(), hooks=None):
        self.label, self.func, self.args, self.out = label, func, args, out
        self.kw = kw or {}
        self.capture = capture or {}    # function -> argument looked at
        self.picks = picks              # counters of loops and threads
        self.hooks = hooks or (lambda: {})      # what other calls give


def table(name, shape, pick=None):
    """Array argument; pick places an index in the common table."""
    def make(ev, st):
        def get(e):
            return at("ld", name, *(pick(e) if pick else e))
        return ev.new(st, shape, get)
    return make


def within(e, n):
    return (("ge", e), ("ge", n - ONE - e))


ANG = table("angles", (H,))
ANGD = table("angles", (D,))
SINO = table("data", (H, W), lambda e: (e[0], S0, e[1]))
SINOS = table("data", (H, NS, W))
PROJ = table("data", (D, H, W))
XL = table("x", (W,), lambda e: (S0, e[0]))
YL = table("y", (W,), lambda e: (S0, e[0]))
XM, YM = table("x", (NS, W)), table("y", (NS, W))
REF2 = table("ref", (H, W), lambda e: (ZERO,) + tuple(e))
MAT2 = table("mat", (H1, W1), lambda e: (ZERO,) + tuple(e))
REF3, MAT3 = table("ref", (D, H, W)), table("mat", (D, H1, W1))
REF31, MAT31 = table("ref", (ONE, H, W)), table("mat", (ONE, H1, W1))
R, M = size("R", 0), size("M", 1)
PY, PX = size("py", 0), size("px", 0)
REFN, MATN = table("ref", (H, W), lambda e: (ZERO,) + tuple(e)), \
    table("mat", (H, W), lambda e: (ZERO,) + tuple(e))
REFS, MATS = table("ref", (D, H, W)), table("mat", (D, H, W))
REFL = table("ref", (H1, W), lambda e: (ZERO,) + tuple(e))


def zeros(*shape):
    def make(ev, st):
        return ev.new(st, shape, lambda e: ZERO)
    return make


def families():
    out = []
    for pad in (False, True):
        k = {"edge_pad": pad}
        rc = "reconstruction.back_projection_"
        out.append((
            "back-projection, edge_pad=%s" % pad,
            within(E0, W) + within(E1, W) + within(S0, NS) +
            within(CENTER, W),
            [Case("CPU", rc + "cpu", [SINO, ANG, CENTER], (E0, E1), k),
             Case("GPU", rc + "gpu", [SINO, ANG, CENTER], (E0, E1), k),
             Case("GPU, chunk", rc + "gpu_chunk", [SINOS, ANG, CENTER],
                  (E0, S0, E1), k)]))
        vc = "vertrec.vertical_back_projection_"
        out.append((
            "vertical back-projection, edge_pad=%s" % pad,
            within(E0, H) + within(E1, W) + within(S0, NS) +
            within(CENTER, W),
            [Case("CPU", vc + "cpu", [PROJ, ANGD, XL, YL, CENTER],
                  (E0, E1), k),
             Case("CPU, chunk", vc + "cpu_chunk",
                  [PROJ, ANGD, XM, YM, CENTER], (S0, E0, E1), k),
             Case("GPU", vc + "gpu", [PROJ, ANGD, XL, YL, CENTER],
                  (E0, E1), k),
             Case("GPU, chunk", vc + "gpu_chunk",
                  [PROJ, ANGD, XM, YM, CENTER], (S0, E0, E1), k)]))
    co = "correlation."
    fit = (("ge", H - H1), ("ge", W - W1))
    where = within(E0, H - H1 + ONE) + within(E1, W - W1 + ONE) + fit
    gm = co + "generate_correlation_map"
    out.append((
        "correlation map of images", where,
        [Case("CPU", gm, [REF2, MAT2], (E0, E1), {"gpu": False}),
         Case("GPU", gm, [REF2, MAT2], (E0, E1), {"gpu": True}),
         Case("stacks of one image", gm, [REF31, MAT31], (E0, E1),
              {"gpu": False}),
         Case("local shifts, GPU", co + "__gen_2d_corr_map_2d_input",
              [REF2, MAT2, zeros(H - H1 + ONE, W - W1 + ONE)], (E0, E1)),
         ]))
    out.append((
        "correlation map of stacks", where,
        [Case("CPU", gm, [REF3, MAT3], (E0, E1), {"gpu": False}),
         Case("GPU", gm, [REF3, MAT3], (E0, E1), {"gpu": True}),
         Case("local shifts, GPU", co + "__gen_2d_corr_map_3d_input",
              [REF3, MAT3, zeros(H - H1 + ONE, W - W1 + ONE)], (E0, E1)),
         ]))
    out.append((
        "correlation of rows", within(E1, W - W1 + ONE) + fit[1:],
        [Case("CPU", gm, [REFL, MAT2], (ZERO, E1), {"gpu": False}),
         Case("local shifts, GPU", co + "__gen_1d_corr_map_kernel",
              [REFL, MAT2, zeros(W - W1 + ONE)], (E1,))]))
    edge = (R + M) * S.C(2)
    fit = (("ge", H - edge - ONE), ("ge", W - edge - ONE))
    here = within(PY, H - edge) + within(PX, W - edge) + fit
    mapped = within(E0, M * S.C(2) + ONE) + within(E1, M * S.C(2) + ONE)
    win = R * S.C(2) + ONE
    kw = {"win_size": win, "margin": M, "ncore": ONE, "gpu": False,
          "pad": False}
    for norm in (False, True):
        shifts(out, dict(kw, norm=norm), here, fit, mapped, edge)
    for dark in (False, True):
        k = {"dark_signal": dark, "ncore": ONE, "method": "diff"}
        a = [REFS, MATS, win, M, WIN] + [LOCAL[x] for x in
                                         ("L1", "L3", "L2", "L4", "L6")]
        name = "__get_2d_shift_multi_rows_3d_input_umpa_"
        out.append((
            "cost of UMPA, dark_signal=%s" % dark, here + mapped,
            [Case("CPU", co + name + "cpu", a, (E0, E1), k,
                  {"locate_peak": 0}, (PY, PX)),
             Case("GPU", co + name + "gpu", a, (E0, E1), k,
                  {"__get_max_value": 0}, (PX, PY))]))
    inside = within(PY, H1) + within(PX, W1)
    for i, x in enumerate("xy"):
        out.append((
            "sub-pixel peak, %s" % x, inside,
            [Case("CPU", co + "_locate_2d_peak_subpixel", [MAP], i,
                  {"method": "diff"}, hooks=peak),
             Case("GPU", co + "__locate_2d_peak_kernel", [MAP, PX, PY],
                  i)]))
    return out


MAP = table("map", (H1, W1))
WIN = table("win", (R * S.C(2) + ONE, R * S.C(2) + ONE))
LOCAL = {x: table(x, (H, W)) for x in ("L1", "L3", "L4", "L6")}
LOCAL["L2"] = Poly.sym("L2", isint=False)


def peak():
    """The maximum is at (PY, PX)."""
    return {"argmax": lambda ev, st, a, k: None,
            "unravel_index": lambda ev, st, a, k: (PY, PX)}


def shifts(out, kw, here, fit, mapped, edge):
    tail = ", normalized" if kw["norm"] else ""
    co = "correlation."
    cpu = {"locate_peak": 0}
    gpu2, gpu1 = {"__locate_max_value": 0}, {"__locate_1d_peak_kernel": 0}
    yx, xy = (PY, PX), (PX, PY)
    par = dict(kw, ncore=S.C(4))
    out.append((
        "local shifts in images" + tail, here + mapped,
        [Case("CPU", co + "_get_2d_shift_full_image_2d_input",
              [REFN, MATN], (E0, E1), kw, cpu, yx),
         Case("CPU, parallel", co + "_get_2d_shift_full_image_2d_input",
              [REFN, MATN], (E0, E1), par, cpu, yx),
         Case("GPU", co + "_get_2d_shift_multi_rows_2d_input_gpu",
              [REFN, MATN], (E0, E1), kw, gpu2, xy)]))
    out.append((
        "local shifts in stacks" + tail, here + mapped,
        [Case("CPU", co + "_get_2d_shift_multi_rows_3d_input",
              [REFS, MATS], (E0, E1), kw, cpu, yx),
         Case("CPU, parallel", co + "_get_2d_shift_multi_rows_3d_input",
              [REFS, MATS], (E0, E1), par, cpu, yx),
         Case("GPU", co + "_get_2d_shift_multi_rows_3d_input_gpu",
              [REFS, MATS], (E0, E1), kw, gpu2, xy),
         Case("GPU for the map", co +
              "_get_2d_shift_multi_rows_3d_input_cpu_gpu",
              [REFS, MATS], (E0, E1), kw, cpu, yx)]))
    for d in "xy":
        line = within(PY, H) + within(PX, W - edge) if d == "x" else \
            within(PX, W) + within(PY, H - edge)
        k = dict(kw, direction=d)
        o = yx if d == "x" else xy
        out.append((
            "local shifts along %s%s" % (d, tail), line + fit + mapped,
            [Case("CPU", co + "_get_1d_shift_multi_rows_3d_input",
                  [REFS, MATS], (ZERO, E0), k, cpu, o),
             Case("CPU, parallel", co + "_get_1d_shift_multi_rows_3d_input",
                  [REFS, MATS], (ZERO, E0), dict(k, ncore=S.C(4)), cpu, o),
             Case("GPU", co + "_get_1d_shift_multi_rows_3d_input_gpu",
                  [REFS, MATS], (E0,), k, gpu1, o[::-1])]))


def formula(project, case, facts):
    fi = project.by_short(case.func)
    if fi is None:
        return None, None, "not found"
    sys.setrecursionlimit(20000)
    ev = Ev(project)
    ev.hooks.update(case.hooks())
    ev.hooks["normalize_image"] = F.sealed("normalize_image")
    F.DEADLINE[0] = time.time() + 60
    for name, k in case.capture.items():
        ev.hooks[name] = catch(k)
        ev.hooks["@capture"] = True
    st = State()
    st.facts = tuple(facts)
    args = [a(ev, st) if callable(a) else a for a in case.args]
    kw = dict(case.kw)
    if "block" in fi.params:
        kw["block"] = (S.C(16), S.C(16))
    kw = {k: v for k, v in kw.items() if k in fi.params}
    try:
        r = ev.call(fi, args, kw, st)
        if isinstance(case.out, int) and isinstance(r, tuple):
            r = r[case.out]
            if isinstance(r, Poly):
                return fi, r, None
        if case.capture or not isinstance(r, F.Arr):
            return fi, None, "result is not an array"
        return fi, ev.get(st, r, case.out), None
    except F.Captured as x:
        picks = case.picks if len(x.vars) == len(case.picks) else None
        if not isinstance(x.value, F.Arr) or picks is None:
            return fi, None, "result is not an array"
        try:
            p = ev.get(x.st, x.value, case.out)
            return fi, F.subst(p, dict(zip(x.vars, picks)), st.facts), None
        except Unsupported as e:
            return fi, None, "no closed form (%s)" % e
    except Unsupported as e:
        return fi, None, "no closed form (%s)" % e
    except Raised:
        return fi, None, "refuses its arguments"
    except RecursionError:
        return fi, None, "too deep"


def catch(k):
    def hook(ev, st, args, kw):
        raise F.Captured(args[k], st)
    return hook


def seals(p):
    return {a[1] for a in p.all_atoms() if a[0] == "ld" and "(" in a[1]}


def differ(p, q, facts, limit=4):
    """Values for which the two formulas differ, or None."""
    if p == q:
        return None
    if seals(p) != seals(q) and not (seals(p) and seals(q)):
        return 0            # one of them has the function expanded
    base = S.base_atoms([p, q] + [f for k, f in facts])
    base = {a for a in base if not (a[1][0] == "b" and a[1][1:].isdigit())}
    tried, until = 0, time.time() + limit
    for t, env in enumerate(lin.valuations(
            base, facts, 10 ** 6, 10 ** 6, 3, (2, 3, 5), 1)):
        env = {a: int(v) if v.denominator == 1 else float(v)
               for a, v in env.items()}
        tb = {}
        if t % 3 == 0:
            tb = Angles((0.0, 3.141592653589793 / 2, 3.141592653589793))
        elif t % 3 == 1:
            tb = Angles((0.3, 1.1, -0.7))
        if time.time() > until:
            break
        try:
            x, y = F.value(p, env, tb), F.value(q, env, tb)
        except (S.Unknown, ZeroDivisionError, OverflowError):
            continue
        tried += 1
        if abs(x - y) > 1e-6 * (1 + abs(x) + abs(y)):
            d = {a[1]: env[a] for a in env}
            d["first"], d["second"] = round(x, 6), round(y, 6)
            return d
    return tried


class Angles(dict):
    def __init__(self, vals):
        self.vals = vals

    def __contains__(self, k):
        if not dict.__contains__(self, k):
            if k[0] == "angles":
                self[k] = self.vals[k[1] % len(self.vals)]
            elif k[0] in ("x", "y"):
                self[k] = 4 * F.unit(k) - 2
            else:
                self[k] = F.unit(k)
        return True


class C10:
    ID = "C10"
    TITLE = "one formula for all implementations of an operation"
    EXPLANATION = (
        "Each implementation (CPU or GPU, single slice or chunk, images or "
        "stacks) is turned into a closed formula per output element: loops "
        "become sums, guards become case distinctions, helper functions are "
        "expanded, sizes and data stay symbolic.  The formulas of one "
        "operation are compared as normal forms; where they are not "
        "identical, values of sizes, indices and data for which they differ "
        "are looked for.")
    RULES = {"formula": "the same closed formula per output element in every "
                        "implementation of an operation"}
    ASSUMPTIONS = ["arithmetic is exact: rounding errors and float32 are not "
                   "modelled",
                   "every thread of a grid that covers the output runs "
                   "(C09)"]

    def jobs(self, project, tier):
        self.limit = 4 if tier == "quick" else 30
        return [(i, j) for i, (n, f, cs) in enumerate(families())
                for j in range(1, len(cs))]

    def do(self, project, job):
        i, j = job
        name, facts, cases = families()[i]
        ref, case = cases[0], cases[j]
        stats = {"comparisons": 1, "operations": {name},
                 "implementations": {ref.func, case.func}}
        f0, p, why0 = formula(project, ref, facts)
        f1, q, why1 = formula(project, case, facts)
        if p is None or q is None:
            stats["undecided"] = {"%s: %s: %s" % (
                name, (ref if p is None else case).label, why0 or why1)}
            return [], stats
        d = differ(p, q, facts, self.limit)
        if d is None:
            stats["identical formulas"] = 1
            return [], stats
        if isinstance(d, int):
            stats["agree on all values tried"] = 1
            return [], stats
        return [Finding(
            "formula", "%s: %s" % (name, case.label),
            (f1.module.rel, f1.node.lineno, f1.name),
            "%s: %s and %s (%s) compute different values" % (
                name, ref.label, case.label, ref.func),
            {"values": d, "one": str(p)[:600], "other": str(q)[:600]})], stats


CHECK = C10()
