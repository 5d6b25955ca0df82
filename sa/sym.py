"""Symbolic scalars: polynomials with rational coefficients over atoms.

An atom is a base symbol or an interpreted function of other polynomials
(floor division, min, max, floor, ...).  Polynomials are kept in a canonical
form, so two expressions that are algebraically equal compare equal.  Opaque
atoms stand for values nothing is known about."""
from fractions import Fraction
import math
import random

INF = float("inf")

SYMS = {}     # name -> (lo, hi, isint)
_opq = [0]


_bc = {}      # bounds of polynomials
_ac = {}      # bounds of atoms


def declare(name, lo=-INF, hi=INF, isint=True):
    t = (lo, hi, isint)
    if SYMS.get(name, t) != t:
        _bc.clear()
        _ac.clear()
    SYMS[name] = t


class Unknown(Exception):
    pass


class Poly:
    __slots__ = ("t", "_h", "_a")

    def __init__(self, t):
        self.t = t          # tuple of (monomial, coef) sorted; monomial tuple
        self._h = hash(t)
        self._a = None

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        if self is o:
            return True
        return type(o) is Poly and self._h == o._h and self.t == o.t

    # ---- constructors
    @staticmethod
    def const(c):
        if type(c) is not int:
            c = norm(c)
        return mk({(): c}) if c else ZERO

    @staticmethod
    def atom(a):
        return mk({((a, 1),): 1})

    @staticmethod
    def sym(name, lo=None, hi=None, isint=True):
        if name not in SYMS:
            declare(name, -INF if lo is None else lo,
                    INF if hi is None else hi, isint)
        return Poly.atom(("s", name))

    # ---- queries
    def is_const(self):
        return not self.t or (len(self.t) == 1 and self.t[0][0] == ())

    def value(self):
        if not self.t:
            return _F0
        if len(self.t) == 1 and self.t[0][0] == ():
            return Fraction(self.t[0][1])
        return None

    def atoms(self):
        out = self._a
        if out is None:
            out = self._a = frozenset(a for m, _ in self.t for a, _p in m)
        return out

    def all_atoms(self):
        out = set()
        st = list(self.atoms())
        while st:
            a = st.pop()
            if a in out:
                continue
            out.add(a)
            st.extend(_sub_atoms(a))
        return out

    def base_syms(self):
        return {a[1] for a in self.all_atoms() if a[0] == "s"}

    def has_opaque(self):
        return any(a[0] in ("o", "ld", "sum", "u") for a in self.all_atoms())

    def is_int(self):
        for m, c in self.t:
            if c.denominator != 1:
                return False
            for a, p in m:
                if p < 0 or not atom_is_int(a):
                    return False
        return True

    # ---- arithmetic
    def __add__(self, o):
        if not self.t:
            return o
        if not o.t:
            return self
        d = dict(self.t)
        for m, c in o.t:
            v = d.get(m)
            if v is None:
                d[m] = c
                continue
            v = v + c
            if v:
                d[m] = v if type(v) is int else norm(v)
            else:
                del d[m]
        return mk(d)

    def __neg__(self):
        return mkt(tuple([(m, -c) for m, c in self.t]))

    def __sub__(self, o):
        if self is o:
            return ZERO
        d = dict(self.t)
        for m, c in o.t:
            v = d.get(m)
            if v is None:
                d[m] = -c
                continue
            v = v - c
            if v:
                d[m] = v if type(v) is int else norm(v)
            else:
                del d[m]
        return mk(d)

    def __mul__(self, o):
        d = {}
        for m1, c1 in self.t:
            for m2, c2 in o.t:
                m = mono_mul(m1, m2)
                v = d.get(m, 0) + c1 * c2
                if v:
                    d[m] = norm(v)
                else:
                    d.pop(m, None)
        return mk(d)

    def scale(self, c):
        if not c:
            return ZERO
        return mkt(tuple([(m, norm(v * c)) for m, v in self.t]))

    def pow(self, n):
        r = ONE
        for _ in range(n):
            r = r * self
        return r

    # ---- substitution
    def subst(self, env):
        """env: atom -> Poly"""
        if not env:
            return self
        r = ZERO
        for m, c in self.t:
            p = Poly.const(c)
            for a, k in m:
                if a in env:
                    q = env[a]
                else:
                    q = subst_atom(a, env)
                if k > 0:
                    p = p * q.pow(k)
                else:
                    p = p * inv(q).pow(-k) if q.t else opaque("div0")
            r = r + p
        return r

    def ev(self, env):
        tot = Fraction(0)
        for m, c in self.t:
            v = c
            for a, k in m:
                x = ev_atom(a, env)
                if k < 0 and x == 0:
                    raise Unknown()
                v = v * (x ** k)
            tot = tot + v
        return tot

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in self.t:
            f = "*".join(show_atom(a) + ("^%d" % p if p != 1 else "")
                         for a, p in m)
            if not m:
                s = str(c)
            elif c == 1:
                s = f
            elif c == -1:
                s = "-" + f
            else:
                s = "%s*%s" % (c, f)
            out.append(s)
        return " + ".join(out).replace("+ -", "- ")


def _key(a):
    return repr(a)


_keyc = {}


def akey(a):
    k = _keyc.get(a)
    if k is None:
        k = show_atom(a)
        _keyc[a] = k
    return k


_mkc = {}


def mkey(m):
    k = _mkc.get(m)
    if k is None:
        k = (len(m), tuple((akey(a), p) for a, p in m))
        _mkc[m] = k
    return k


_polys = {}
_F0 = Fraction(0)


def norm(c):
    """Coefficients are ints where possible, Fractions otherwise."""
    if type(c) is int:
        return c
    if type(c) is not Fraction:
        c = Fraction(c)
    return c.numerator if c.denominator == 1 else c


def mk(d):
    if not d:
        return ZERO
    if len(d) == 1:
        t = tuple(d.items())
    else:
        t = tuple(sorted(d.items(), key=_ik))
    return mkt(t)


def _ik(x):
    k = _mkc.get(x[0])
    return k if k is not None else mkey(x[0])


def mkt(t):
    p = _polys.get(t)
    if p is None:
        p = Poly(t)
        _polys[t] = p
    return p


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, p in m2:
        v = d.get(a, 0) + p
        if v:
            d[a] = v
        else:
            d.pop(a, None)
    return tuple(sorted(d.items(), key=lambda x: akey(x[0])))


ZERO = Poly(())
ONE = Poly.const(1)


def C(x):
    return Poly.const(x)


def opaque(tag=""):
    _opq[0] += 1
    return Poly.atom(("o", "%s#%d" % (tag, _opq[0])))


ALTS = {}          # opaque name -> frozenset of expressions it may equal
INTERP = [None]    # the interpreter at work, for its loops


def record_alts(name, polys):
    """Remember which expressions a merged value may stand for.  The
    counters of the loops around it become symbols of their own: the value
    is that of some turn, not of the present one."""
    it = INTERP[0]
    if it is None or it.trial:
        return
    out = ALTS.setdefault(name, {})
    ls = {}
    for l in it.loops:
        ls[("s", l.sym)] = l.n
    for q in polys:
        fs = []
        sub = {}
        for a in q.all_atoms():
            if a in ls:
                nm = "%s@%s" % (a[1], name)
                declare(nm, 0)
                sub[a] = Poly.atom(("s", nm))
                if ls[a] is not None:
                    fs.append(("ge", ls[a] - ONE - sub[a]))
        out[q.subst(sub)] = tuple(fs)


def named_opaque(name):
    return Poly.atom(("o", name))


def show_atom(a):
    k = a[0]
    if k == "s":
        return a[1]
    if k == "o":
        return "?" + str(a[1])
    if k == "fn":
        return "%s(%s)" % (a[1], ", ".join(
            repr(x) if isinstance(x, Poly) else str(x) for x in a[2:]))
    return "%s(%s)" % (k, ", ".join(
        repr(x) if isinstance(x, Poly) else str(x) for x in a[1:]))


def _sub_polys(a):
    for x in a[1:]:
        if isinstance(x, Poly):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, Poly):
                    yield y


def _sub_atoms(a):
    for p in _sub_polys(a):
        yield from p.atoms()


def atom_is_int(a):
    k = a[0]
    if k == "s":
        return SYMS.get(a[1], (0, 0, False))[2]
    if k in ("floordiv", "floor", "ceil", "round", "trunc"):
        return True
    if k in ("min", "max", "mod", "abs"):
        return all(p.is_int() for p in _sub_polys(a))
    return False


def rebuild(k, args):
    if k == "floordiv":
        return floordiv(*args)
    if k == "mod":
        return mod(*args)
    if k == "min":
        return pmin(*args)
    if k == "max":
        return pmax(*args)
    if k in ("floor", "ceil", "round", "trunc"):
        return rounding(k, args[0])
    if k == "abs":
        return pabs(args[0])
    return None


def subst_atom(a, env):
    if a[0] in ("s", "o"):
        return Poly.atom(a)
    ch = False
    new = []
    for x in a[1:]:
        if isinstance(x, Poly):
            y = x.subst(env)
            ch = ch or y != x
            new.append(y)
        elif isinstance(x, tuple):
            y = tuple(z.subst(env) if isinstance(z, Poly) else z for z in x)
            ch = ch or y != x
            new.append(y)
        else:
            new.append(x)
    if not ch:
        return Poly.atom(a)
    r = rebuild(a[0], new)
    return r if r is not None else Poly.atom((a[0],) + tuple(new))


def inv(q):
    v = q.value()
    if v is not None and v != 0:
        return C(1 / v)
    if len(q.t) == 1:
        m, c = q.t[0]
        return mk({tuple((a, -p) for a, p in m): norm(Fraction(1) / c)})
    return Poly.atom(("inv", q))


def div(p, q):
    v = q.value()
    if v is not None:
        if v == 0:
            return opaque("div0")
        return p.scale(norm(1 / v))
    return p * inv(q)


def floordiv(p, q):
    a, b = p.value(), q.value()
    if a is not None and b is not None and b != 0:
        return C(math.floor(a / b))
    if b is not None and b != 0:
        if b == 1 and p.is_int():
            return p
        # pull out the exactly divisible part
        whole, rest = {}, {}
        for m, c in p.t:
            mp = mk({m: 1})
            if (c / b).denominator == 1 and mp.is_int():
                whole[m] = norm(c / b)
            elif m == () and b > 0 and c.denominator == 1 and \
                    b.denominator == 1:
                w = math.floor(c / b)
                if w:
                    whole[m] = w
                r = norm(c - w * b)
                if r:
                    rest[m] = r
            else:
                rest[m] = c
        if not rest:
            return mk(whole)
        if set(rest) == {()} and 0 <= rest[()] < b:
            return mk(whole)
        return mk(whole) + Poly.atom(("floordiv", mk(rest), q))
    if q.t and len(q.t) < 4 and is_pos(q - p) and is_nonneg(p):
        return C(0)
    if b is None and len(q.t) == 1:
        # whole multiples of the divisor
        qm, qc = q.t[0]
        whole, rest = {}, {}
        for m, c in p.t:
            w = quotient(m, qm)
            r = norm(Fraction(c) / qc)
            if w is not None and type(r) is int and mk({w: 1}).is_int():
                whole[w] = r
            else:
                rest[m] = c
        if whole:
            r = mk(rest)
            if r.value() == 0:
                return mk(whole)
            if is_pos(-r) and is_nonneg(r + q):
                return mk(whole) - C(1)
            return mk(whole) + floordiv(r, q)
    return Poly.atom(("floordiv", p, q))


def exact_div(p, q):
    """p / q when q (one term) divides every term of p, else None."""
    if len(q.t) != 1:
        return None
    qm, qc = q.t[0]
    out = {}
    for m, c in p.t:
        w = quotient(m, qm)
        if w is None:
            return None
        out[w] = norm(Fraction(c) / qc)
    return mk(out)


def quotient(m, d):
    """Monomial m / d, None unless it is a monomial."""
    out = dict(m)
    for a, k in d:
        if out.get(a, 0) < k:
            return None
        out[a] -= k
    return tuple((a, out[a]) for a, _ in m if out[a])


def mod(p, q):
    a, b = p.value(), q.value()
    if a is not None and b is not None and b != 0:
        return C(a - b * math.floor(a / b))
    if q.t and p.is_int() and q.is_int():
        return p - q * floordiv(p, q)
    return Poly.atom(("mod", p, q))


def rounding(kind, p):
    v = p.value()
    if v is not None:
        if kind == "floor":
            return C(math.floor(v))
        if kind == "ceil":
            return C(math.ceil(v))
        if kind == "trunc":
            return C(math.trunc(v))
        return C(round(v))
    if p.is_int():
        return p
    # floor(p/const) of an integer polynomial is a floor division
    if kind in ("floor", "ceil", "trunc"):
        den = 1
        for _, c in p.t:
            den = den * c.denominator // math.gcd(den, c.denominator)
        num = p.scale(Fraction(den))
        if num.is_int() and den > 1:
            if kind == "floor" or (kind == "trunc" and is_nonneg(num)):
                return floordiv(num, C(den))
            if kind == "ceil":
                return floordiv(num + C(den - 1), C(den))
    # pull integer constants and integer symbols out
    ip, fp = {}, {}
    if kind != "trunc":
        for m, c in p.t:
            if c.denominator == 1 and mk({m: 1}).is_int():
                if kind == "round" and c % 2 and m == ():
                    fp[m] = c
                else:
                    ip[m] = c
            else:
                fp[m] = c
        if kind == "round":
            ip, fp = {}, dict(p.t)
    else:
        fp = dict(p.t)
    if ip:
        return mk(ip) + Poly.atom((kind, mk(fp)))
    return Poly.atom((kind, p))


def pmin(*ps):
    return _mm("min", ps)


def pmax(*ps):
    return _mm("max", ps)


def _mm(kind, ps):
    out = []
    if kind == "min" and len(ps) > 1:       # min(p, n mod p)
        ps = [p for p in ps if not any(q is not p and is_rem(q, p)
                                       for q in ps)]
    for p in ps:
        for q in _flat(kind, p):
            if q not in out:
                out.append(q)
    # drop dominated
    keep = []
    for i, p in enumerate(out):
        dom = False
        for j, q in enumerate(out):
            if i == j:
                continue
            d = (q - p) if kind == "max" else (p - q)
            if is_nonneg(d) and not (is_nonneg(-d) and i < j):
                dom = True
                break
        if not dom:
            keep.append(p)
    if len(keep) == 1:
        return keep[0]
    keep.sort(key=repr)
    return Poly.atom((kind,) + tuple(keep))


def is_rem(q, p):
    """q == n - floor(n / p) * p for some n, p > 0."""
    for a in q.atoms():
        if a[0] == "floordiv" and a[2] == p and is_pos(p):
            if q + Poly.atom(a) * p == a[1]:
                return True
    return False


def _flat(kind, p):
    if len(p.t) == 1 and p.t[0][1] == 1 and len(p.t[0][0]) == 1 and \
            p.t[0][0][0][1] == 1 and p.t[0][0][0][0][0] == kind:
        return list(p.t[0][0][0][0][1:])
    return [p]


def pabs(p):
    if is_nonneg(p):
        return p
    if is_nonneg(-p):
        return -p
    q = -p
    return Poly.atom(("abs", min(p, q, key=repr)))


def clip(p, lo, hi):
    r = p
    if lo is not None:
        r = pmax(r, lo)
    if hi is not None:
        r = pmin(r, hi)
    return r


# ------------------------------------------------------------- bounds
_depth = [0]


def atom_bounds(a):
    k = a[0]
    if k == "s":
        lo, hi, _ = SYMS.get(a[1], (-INF, INF, False))
        return lo, hi
    r = _ac.get(a)
    if r is not None:
        return r
    if k == "o":
        return -INF, INF
    if _depth[0] > 150:
        return -INF, INF
    _depth[0] += 1
    try:
        r = _atom_bounds(a, k)
        if _depth[0] < 100:
            _ac[a] = r
        return r
    finally:
        _depth[0] -= 1


def _atom_bounds(a, k):
    if True:
        if k == "floordiv":
            l, h = bounds(a[1])
            dl, dh = bounds(a[2])
            if dl > 0:
                lo = -INF if l == -INF else (
                    math.floor(Fraction(l) / Fraction(dl)) if l < 0 else
                    (0 if dh == INF else math.floor(Fraction(l) / Fraction(dh))))
                hi = INF if h == INF else (
                    math.floor(Fraction(h) / Fraction(dl)) if h >= 0 else
                    (0 if dh == INF else math.floor(Fraction(h) / Fraction(dh))))
                return lo, hi
            return -INF, INF
        if k in ("floor", "ceil", "round", "trunc"):
            l, h = bounds(a[1])
            f = {"floor": math.floor, "ceil": math.ceil, "round": round,
                 "trunc": math.trunc}[k]
            return (l if l == -INF else f(l)), (h if h == INF else f(h))
        if k == "min":
            bs = [bounds(p) for p in a[1:]]
            return min(b[0] for b in bs), min(b[1] for b in bs)
        if k == "max":
            bs = [bounds(p) for p in a[1:]]
            return max(b[0] for b in bs), max(b[1] for b in bs)
        if k == "mod":
            dl, dh = bounds(a[2])
            if dl > 0:
                return 0, dh
        if k == "abs":
            l, h = bounds(a[1])
            m = max(abs(l), abs(h))
            return 0, m
        if k == "fn":
            if a[1] in ("sin", "cos"):
                return -1, 1
            if a[1] == "sqrt":
                l, h = bounds(a[2])
                return (math.sqrt(l) if l > 0 and l != INF else 0,
                        math.sqrt(h) if 0 <= h < INF else INF)
            if a[1] == "exp":
                return 0, INF
    return -INF, INF


def _imul(a, b):
    if a == (1, 1):
        return b
    if b == (1, 1):
        return a
    out = []
    for x in a:
        for y in b:
            if x == 0 or y == 0:
                out.append(0)
            else:
                out.append(x * y)
    return min(out), max(out)


def bounds(p):
    r = _bc.get(p)
    if r is None:
        r = _bounds(p)
        if _depth[0] < 100:
            _bc[p] = r
    return r


def _bounds(p):
    lo = hi = 0
    for m, c in p.t:
        b = (1, 1)
        for a, k in m:
            ab = atom_bounds(a)
            if k < 0:
                if ab[0] > 0:
                    ab = (0 if ab[1] == INF else Fraction(1) / Fraction(ab[1]),
                          Fraction(1) / Fraction(ab[0]))
                else:
                    ab = (-INF, INF)
                k = -k
            if k == 2 and ab[0] < 0:
                mx = max(abs(ab[0]), abs(ab[1]))
                ab = (0, mx * mx)
                k = 1
            for _ in range(k):
                b = _imul(b, ab)
        if c != 1:
            cc = float(c) if (b[0] in (INF, -INF) or b[1] in (INF, -INF)) \
                else c
            b = _imul(b, (cc, cc))
        lo = lo + b[0] if not (lo == -INF or b[0] == -INF) else -INF
        hi = hi + b[1] if not (hi == INF or b[1] == INF) else INF
    if lo == -INF or hi == INF:
        # floordiv(x, n) = (x - r) / n with 0 <= r <= n - 1
        for m, c in p.t:
            if len(m) != 1 or m[0][1] != 1 or m[0][0][0] != "floordiv":
                continue
            x, q = m[0][0][1], m[0][0][2].value()
            if q is None or q <= 0 or not x.is_int() or \
                    Fraction(q).denominator != 1:
                continue
            r = p - mk({m: c}) + x.scale(Fraction(c) / q)
            if len(r.t) >= len(p.t) + len(x.t):
                continue        # nothing cancels
            a, b = bounds(r)
            k = Fraction(c) * (q - 1) / q
            if k >= 0:
                a = a - k if a != -INF else a
            else:
                b = b - k if b != INF else b
            lo, hi = max(lo, a), min(hi, b)
            break
    if lo < 0 and len(p.t) > 1:
        # floordiv(x, q) * q = x - r with 0 <= r <= q - 1
        for m, c in p.t:
            if len(m) < 2:
                continue
            for a, k in m:
                if a[0] != "floordiv" or k != 1 or len(a[2].t) != 1:
                    continue
                q = a[2]
                if quotient(m, ((a, 1),)) != q.t[0][0] or q.t[0][1] != 1 \
                        or not is_pos(q) or not a[1].is_int() \
                        or not q.is_int():
                    continue
                r = p - mk({m: c}) + a[1].scale(c)
                if len(r.t) >= len(p.t):
                    continue
                x, y = bounds(r)
                top = bounds(q)[1] - 1
                if c > 0:
                    x = x - c * top if top != INF else -INF
                else:
                    y = y - c * top if top != INF else INF
                lo, hi = max(lo, x), min(hi, y)
    return lo, hi


def is_nonneg(p):
    return bounds(p)[0] >= 0


def is_pos(p):
    return bounds(p)[0] > 0


# --------------------------------------------------------- evaluation
def ev_atom(a, env):
    k = a[0]
    if a in env:
        return env[a]
    if k == "s" or k == "o":
        raise Unknown()
    if k == "floordiv":
        d = a[2].ev(env)
        if d == 0:
            raise Unknown()
        return Fraction(math.floor(a[1].ev(env) / d))
    if k == "mod":
        d = a[2].ev(env)
        if d == 0:
            raise Unknown()
        n = a[1].ev(env)
        return n - d * math.floor(n / d)
    if k == "min":
        return min(p.ev(env) for p in a[1:])
    if k == "max":
        return max(p.ev(env) for p in a[1:])
    if k == "floor":
        return Fraction(math.floor(a[1].ev(env)))
    if k == "ceil":
        return Fraction(math.ceil(a[1].ev(env)))
    if k == "round":
        return Fraction(round(a[1].ev(env)))
    if k == "trunc":
        return Fraction(math.trunc(a[1].ev(env)))
    if k == "abs":
        return abs(a[1].ev(env))
    if k == "inv":
        v = a[1].ev(env)
        if v == 0:
            raise Unknown()
        return 1 / v
    if k == "fn" and len(a) == 3:
        v = float(a[2].ev(env))
        try:
            f = getattr(math, a[1])(v)
        except Exception:
            raise Unknown()
        return Fraction(f)
    raise Unknown()


# ------------------------------------------------------------ decisions
def lin_entails(facts, d, depth=2):
    """d >= 0 follows from bounds and from adding up to `depth` facts f>=0."""
    if is_nonneg(d):
        return True
    if depth == 0:
        return False
    da = d.atoms()
    for k, f in facts:
        if k != "ge":
            continue
        if da.isdisjoint(f.atoms()):
            continue
        r = d - f
        if is_nonneg(r):
            return True
        if len(r.t) <= len(d.t) and depth > 1:
            if lin_entails(facts, r, depth - 1):
                return True
    return False


def decide(op, p, q, facts=()):
    """Three-valued comparison of two polynomials under the facts."""
    d = p - q
    v = d.value()
    if v is not None:
        return {"==": v == 0, "!=": v != 0, "<": v < 0, "<=": v <= 0,
                ">": v > 0, ">=": v >= 0}[op]
    if op == ">":
        return decide("<", q, p, facts)
    if op == ">=":
        return decide("<=", q, p, facts)
    # d<0, d<=0, d==0
    int_ = d.is_int()
    lt_d = d + ONE if int_ else None      # d<0 <=> -(d+1) >= 0
    if op == "<":
        if lt_d is not None:
            if lin_entails(facts, -lt_d):
                return True
        elif is_pos(-d):
            return True
        else:
            for k, f in facts:
                if k == "gt" and is_nonneg(-d - f):
                    return True
            if facts and lin_entails(facts, -d - ONE):
                return True
        if lin_entails(facts, d):
            return False
        for k, f in facts:
            if k == "gt" and is_nonneg(d - f):
                return False
        return None
    if op == "<=":
        if lin_entails(facts, -d):
            return True
        for k, f in facts:
            if k == "gt" and is_nonneg(-d - f):
                return True
        if int_:
            if lin_entails(facts, d - ONE):
                return False
        elif is_pos(d):
            return False
        for k, f in facts:
            if k == "gt" and is_nonneg(d - f):
                return False
        return None
    if op in ("==", "!="):
        r = None
        for k, f in facts:
            if k == "eq" and (f == d or f == -d):
                r = True
            if k == "ne" and (f == d or f == -d):
                r = False
        if r is None:
            if decide("<", p, q, facts) is True or \
                    decide("<", q, p, facts) is True:
                r = False
            elif lin_entails(facts, d) and lin_entails(facts, -d):
                r = True
        if r is None:
            return None
        return r if op == "==" else not r
    return None


def fact_holds(f, env):
    k, p = f
    v = p.ev(env)
    if k == "ge":
        return v >= 0
    if k == "gt":
        return v > 0
    if k == "eq":
        return v == 0
    if k == "ne":
        return v != 0
    return True


def samples(atoms, facts, n=24, tries=4000, seed=7, ranges=None):
    """Concrete valuations of the given base atoms that satisfy the facts.
    Facts whose value cannot be computed make the whole set unusable."""
    rng = random.Random(seed)
    atoms = sorted(atoms, key=akey)
    out = []
    for t in range(tries):
        env = {}
        scale = (3, 12, 40, 150)[t % 4]
        for a in atoms:
            if a[0] == "s":
                lo, hi, isint = SYMS.get(a[1], (-INF, INF, False))
            else:
                lo, hi, isint = -INF, INF, False
            if ranges and a in ranges:
                lo, hi = ranges[a]
            l = -scale if lo == -INF else lo
            h = max(l, 0) + scale if hi == INF else hi
            l2, h2 = math.ceil(l), math.floor(h)
            if isint or (l2 <= h2 and rng.random() < 0.5):
                if l2 > h2:
                    env = None
                    break
                env[a] = Fraction(rng.randint(l2, min(h2, l2 + 4 * scale + 4)))
            else:
                env[a] = Fraction(l) + (Fraction(h) - Fraction(l)) * \
                    Fraction(rng.randint(0, 16), 16)
        if env is None:
            continue
        try:
            if all(fact_holds(f, env) for f in facts):
                out.append(env)
                if len(out) >= n:
                    break
        except Unknown:
            return None
    return out


def base_atoms(polys):
    out = set()
    for p in polys:
        for a in p.all_atoms():
            if a[0] in ("s", "o"):
                out.add(a)
    return out


def relevant_facts(facts, atoms):
    """Facts connected (transitively) to the atoms."""
    cur = set(atoms)
    used = []
    rest = list(facts)
    ch = True
    while ch:
        ch = False
        nr = []
        for f in rest:
            fa = base_atoms([f[1]])
            if fa & cur:
                used.append(f)
                cur |= fa
                ch = True
            else:
                nr.append(f)
        rest = nr
    return used, cur


def find_difference(p, q, facts):
    """A valuation under which p != q, or None.  Expressions containing opaque
    parts are never decided."""
    d = p - q
    if not d.t:
        return None
    if d.has_opaque():
        return None
    used, cur = relevant_facts(facts, base_atoms([d]))
    if any(f[1].has_opaque() for f in used):
        # facts over opaque values: cannot show the valuation is feasible
        used2 = [f for f in used if not f[1].has_opaque()]
        if len(used2) != len(used):
            return None
    ss = samples(cur, used)
    if not ss:
        return None
    for env in ss:
        try:
            if d.ev(env) != 0:
                return {a[1]: str(v) for a, v in env.items()}
        except Unknown:
            return None
    return None


def summation(ksym, n, d):
    """Sum of d over ksym = 0..n-1."""
    if not any(ksym in a_all for a_all in [d.all_atoms()]):
        return d * n
    const, lin, ok = {}, {}, True
    for m, c in d.t:
        ks = [(a, p) for a, p in m if a == ksym]
        rest = tuple((a, p) for a, p in m if a != ksym)
        if any(ksym in Poly.atom(a).all_atoms() for a, _ in rest):
            ok = False
            break
        if not ks:
            const[rest] = const.get(rest, 0) + c
        elif ks[0][1] == 1:
            lin[rest] = lin.get(rest, 0) + c
        else:
            ok = False
            break
    if ok:
        return mk(const) * n + mk(lin) * (n * n - n).scale(Fraction(1, 2))
    declare("_s", 0, INF, True)
    return Poly.atom(("sum", d.subst({ksym: Poly.atom(("s", "_s"))}), n))
