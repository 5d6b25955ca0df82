"""Reordering, padding and transformation of data, read off the value numbers.

Value numbers are structured terms (values.VN).  marks(vn) works out from the
term which reversible steps a value has gone through that have not been undone:

  sort   sorted along an axis (which index array belongs to it)
  off    padded: position of element 0 relative to the unpadded data, per axis
  spec   a spectrum: transformed axes and how far each is fftshift-ed
  cen    fftshift-ed, not a spectrum
  log    logarithm taken            exp   exponential taken of something else
  turn   transposed / flipped
  row    axes of a spectrum that were not transformed, but shifted
  pol    mapped to polar coordinates

Terms it does not know have no marks: nothing is concluded from them.
"""
from . import sym as S
from .sym import Poly, ZERO
from . import values

# one-operand steps that keep positions (the operand is the first vn in them)
KEEP = set("""neg cast astype clip round real imag conjugate conj absolute abs
float32 float64 double sqrt square nan_to_num store aug copy where_
gaussian_filter gaussian_filter1d median_filter uniform_filter
uniform_filter1d percentile_filter minimum_filter maximum_filter
grey_erosion grey_dilation convolve convolve1d correlate savgol_filter
generic_filter rank_filter laplace sobel gaussian_laplace spline_filter
deepcopy ascontiguousarray asfortranarray array asarray real_if_close
binary_opening binary_closing binary_erosion binary_dilation""".split())


class Marks:
    """marks(vn) over one interpreter's side tables."""

    def __init__(self, I, roots=()):
        self.I = I
        self.roots = frozenset(roots)       # the arguments' value numbers
        self.rev = {n: t for t, n in values._VN.items()}
        self.memo = {}
        self.unknown = {}

    def __call__(self, vn):
        m = self.memo.get(vn)
        if m is None:
            self.memo[vn] = {}                      # cycles: no marks
            stack_ok = True
            try:
                m = self.work(vn)
            except RecursionError:
                m, stack_ok = {}, False
            if stack_ok:
                self.memo[vn] = m
        return m

    # -------------------------------------------------------------- terms
    def work(self, vn):
        if vn in self.roots:
            return {"known": True}
        src = self.I.osrc.get(vn)
        if src is not None:
            return self.source(src)
        t = self.rev.get(vn)
        if not isinstance(t, tuple) or not t:
            return {}
        k = t[0]
        if not isinstance(k, str):
            return {}
        k = k.split(".")[-1]
        a = t[1] if len(t) > 1 else None
        if isinstance(a, tuple) and len(a) and isinstance(a[0], int):
            a = a[0]
        if k == "bin":
            return self.binary(t[1], t[2], t[3])
        if k == "phi":
            return self.phi(t[1:] if not isinstance(t[1], tuple) else t[1])
        if k == "w":
            return dict(self(self.I.wid[vn])) if vn in self.I.wid else {}
        if not isinstance(a, int) or isinstance(a, bool):
            return {}
        if k in ("fft", "ifft", "fft2", "ifft2", "fftn", "ifftn"):
            return self.fft(k, a, t[2])
        if k in ("fftshift", "ifftshift"):
            return self.shift(k, a, t[2])
        if k == "pad":
            return self.pad(a, t)
        if k == "part":
            return self.part(a, t[2])
        if k == "sub":
            return {x: y for x, y in self(a).items()
                    if x in ("log", "known", "pol")}
        if k == "T" or k == "flip":
            m = {x: y for x, y in self(a).items()
                 if x not in ("off", "spec", "cen", "sort", "idx")}
            if "known" not in m:
                m.pop("turn", None)
                return m
            seq = m.get("turn", ())
            w = (k, t[2])
            inv = w
            if k == "T":
                inv = ("T", tuple(t[2].index(i) for i in range(len(t[2]))))
            if seq and seq[-1] == inv:
                seq = seq[:-1]
            else:
                seq = seq + (w,)
            m.pop("turn", None)
            if seq:
                m["turn"] = seq
            return m
        if k == "log":
            m = keep(self(a), ("log", "spec", "cen"))
            m["log"] = True
            return m
        if k == "exp":
            m = dict(self(a))
            m.pop("spec", None)
            if "log" in m:
                m.pop("log")
            else:
                m["exp"] = True
            return m
        if k in KEEP:
            m = dict(self(a))
            if k in ("absolute", "abs", "square", "sqrt"):
                m.pop("spec", None)
            return m
        self.unknown[k] = self.unknown.get(k, 0) + 1
        return {}

    def source(self, s):
        k = s[0]
        if k == "sort":                     # mat, index, axis
            m = dict(self(s[1]))
            m["sort"] = (s[2], s[3])
            return m
        if k == "idx":
            return {"idx": (s[1], s[2])}
        if k == "same":
            return dict(self(s[1]))
        if k == "unsort":
            m = dict(self(s[1]))
            m.pop("sort", None)
            return m
        if k == "coord":                    # ("to"|"from", which, sizes)
            return {"coord": s[1:]}
        if k == "map":                      # mat, x, y
            m = {x: y for x, y in self(s[1]).items()
                 if x in ("log", "exp", "pol", "known")}
            c = self(s[2]).get("coord")
            if c and c[0] == "to":
                m["pol"] = "to"
            elif c and c[0] == "from":
                m.pop("pol", None)
            return m
        return {}

    def phi(self, alts):
        ms = [self(a) for a in alts if isinstance(a, int)]
        out = {}
        for m in ms:
            for k, v in m.items():
                if k in ("sort", "turn", "log", "exp", "pol"):
                    out.setdefault(k, v)
                elif all(x.get(k) == v for x in ms):
                    out[k] = v
        return out

    def binary(self, op, a, b):
        A, B = self(a), self(b)
        out = {}
        for k in ("sort", "turn", "off", "pol", "spec", "row", "known"):
            x, y = A.get(k), B.get(k)
            if x is not None and y is not None:
                if x == y:
                    out[k] = x
                elif k == "sort":
                    out[k] = x
            elif x is not None or y is not None:
                out[k] = x if x is not None else y
        if "turn" in out and not ("turn" in A and "turn" in B):
            # one of them turned: on purpose, unless the other is a number
            x = b if "turn" in A else a
            if not self.scalar(x):
                del out["turn"]
        la, lb = "log" in A, "log" in B
        if op in ("+", "-") and la and lb or op in ("*", "/") and la != lb:
            out["log"] = True
        elif (la or lb) and op in ("+", "-") and (
                self.scalar(b if la else a)):
            out["log"] = True
        if "spec" not in out and "spec" not in A and "spec" not in B:
            x, y = A.get("cen"), B.get("cen")
            if x is not None and (y is None or x == y):
                out["cen"] = x
            elif y is not None and x is None:
                out["cen"] = y
        return out

    def scalar(self, vn):
        t = self.rev.get(vn)
        return isinstance(t, tuple) and t and t[0] == "num"

    def fft(self, k, a, axes):
        m = {x: y for x, y in self(a).items()
             if x in ("sort", "off", "log", "pol", "turn",
                                            "known")}
        if axes is None:
            return m
        old = self(a).get("spec")
        sh = dict(old) if old else {}
        for ax in axes:
            if k[0] == "i":
                sh.pop(ax, None)
            else:
                sh[ax] = 0
        if sh:
            m["spec"] = tuple(sorted(sh.items()))
        return m

    def shift(self, k, a, axes):
        m = dict(self(a))
        d = 1 if k == "fftshift" else -1
        sp = m.get("spec")
        if axes is None:
            m.pop("spec", None)
            m.pop("cen", None)
            return m
        if sp is not None:
            s, o = dict(sp), dict(m.get("row", ()))
            for ax in (list(s) if axes == "all" else axes):
                if ax in s:
                    s[ax] += d
                else:
                    o[ax] = o.get(ax, 0) + d
                    if not o[ax]:
                        del o[ax]
            m["spec"] = tuple(sorted(s.items()))
            m.pop("row", None)
            if o:
                m["row"] = tuple(sorted(o.items()))
            return m
        if axes == "all":
            m.pop("cen", None)
            return m
        c = dict(m.get("cen", ()))
        for ax in axes:
            c[ax] = c.get(ax, 0) + d
            if not c[ax]:
                del c[ax]
        m.pop("cen", None)
        if c:
            m["cen"] = tuple(sorted(c.items()))
        return m

    def pad(self, a, t):
        m = {x: y for x, y in self(a).items() if x not in ("spec", "cen")}
        pads, shape = t[2], t[4] if len(t) > 4 else None
        m.pop("off", None) if not isinstance(pads, tuple) else None
        if not isinstance(pads, tuple) or shape is None or len(pads) != len(
                shape):
            return m
        off = list(m.get("off", (None,) * len(shape)))
        if len(off) != len(shape):
            m.pop("off", None)
            return m
        for i, (p, n) in enumerate(zip(pads, shape)):
            if p[0] is None or n is None or p[1] is None:
                off[i] = ("?",)
            elif off[i] is None:
                if p[0].t or p[1].t:
                    off[i] = (-p[0], n)
            elif off[i] != ("?",):
                off[i] = (off[i][0] - p[0], off[i][1])
        m.pop("off", None)
        if any(off):
            m["off"] = tuple(off)
        return m

    def part(self, a, key):
        m0 = self(a)
        m = {x: y for x, y in m0.items()
             if x not in ("off", "spec", "cen", "coord", "row")}
        if any(s[0] != "s" for s in key):
            m.pop("sort", None)
            m.pop("turn", None)
        off = m0.get("off")
        if off is not None and len(key) <= len(off):
            out = []
            for i, o in enumerate(off):
                s = key[i] if i < len(key) else None
                if s is None:
                    out.append(o)
                elif s[0] == "i":
                    continue
                elif s[0] != "s" or s[3] != S.ONE:
                    out.append(("?",) if o else None)
                elif o is None or o == ("?",):
                    out.append(o)
                else:
                    p = o[0] + s[1]
                    out.append(None if not p.t and s[2] == o[1]
                               else (p, o[1]))
            if any(out):
                m["off"] = tuple(out)
        return m

    def cut(self, a, key):
        """Places where data are cut to their old length elsewhere."""
        off = self(a).get("off")
        out = []
        if off is None or len(key) > len(off):
            return out
        for i, s in enumerate(key):
            o = off[i]
            if s[0] != "s" or o is None or o == ("?",) or s[3] != S.ONE:
                continue
            p = o[0] + s[1]
            if s[2] == o[1]:
                out.append((i, p))
        return out


def keep(m, drop):
    return {k: v for k, v in m.items() if k not in drop}


# -------------------------------------------------------------- recording
def vnum(I, st, v):
    return I.vnum(st, v)


def before(I, fi, bound, st):
    """What is needed to describe the result of a known reordering."""
    w = WRAP.get(fi.short)
    if w is None:
        return None
    return {p: I.vnum(st, v) for p, v in bound.items()}


WRAP = {"utility.sort_forward", "utility.sort_backward", "utility.mapping",
        "utility.rectangular_from_polar", "utility.polar_from_rectangular",
        "utility.apply_wavelet_decomposition",
        "utility.apply_wavelet_reconstruction"}
WRAP = {k: k for k in WRAP}


def after(I, fi, b, rv, st, node):
    k = fi.short
    els = rv.elts if isinstance(rv, values.Tup) else (rv,)
    vs = [I.vnum(st, e) for e in els]
    if k == "utility.sort_forward" and len(vs) == 2:
        I.osrc[vs[0]] = ("sort", b.get("mat"), vs[1], b.get("axis"))
        I.osrc[vs[1]] = ("idx", vs[1], b.get("axis"))
        I.emit("sorted", node, st, index=vs[1])
    elif k == "utility.sort_backward":
        I.osrc[vs[0]] = ("unsort", b.get("mat"))
        I.emit("unsort", node, st, mat=b.get("mat"), index=b.get("mat_index"),
               axis=b.get("axis"))
    elif k == "utility.rectangular_from_polar" and len(vs) == 2:
        for i, v in enumerate(vs):
            I.osrc[v] = ("coord", "to", i)
    elif k == "utility.polar_from_rectangular" and len(vs) == 2:
        for i, v in enumerate(vs):
            I.osrc[v] = ("coord", "from", i)
    elif k == "utility.apply_wavelet_decomposition":
        I.osrc["wave"] = b.get("mat")
    elif k == "utility.apply_wavelet_reconstruction":
        if "wave" in I.osrc:
            I.osrc[vs[0]] = ("same", I.osrc["wave"])
    elif k == "utility.mapping":
        I.osrc[vs[0]] = ("map", b.get("mat"), b.get("x_mat"), b.get("y_mat"))
        I.emit("mapped", node, st, mat=b.get("mat"), x=b.get("x_mat"),
               y=b.get("y_mat"))
