"""Deciding inequalities between sizes, counters and positions.

`prove(op, p, q, facts)` extends sym.decide with what is needed for indexes:
rounding, clipping and values merged from several assignments are replaced by
what they may stand for, on the side that keeps the argument sound.
`witness(p, facts)` looks for values that satisfy every fact and make p < 0.
"""
import math
import random
from fractions import Fraction
from . import sym as S
from .sym import Poly, ONE, ZERO

HALF = Poly.const(Fraction(1, 2))


def lone(p, kinds):
    """(atom, coefficient, rest) of a linear term of one of the kinds that
    occurs nowhere else in p."""
    for m, c in p.t:
        if len(m) == 1 and m[0][1] == 1 and m[0][0][0] in kinds:
            a = m[0][0]
            rest = p - Poly.atom(a).scale(c)
            if a not in rest.all_atoms():
                return a, c, rest
    return None


def expand(facts):
    """The facts and what follows from them without min, max, rounding."""
    out = {}
    todo = list(facts)
    while todo and len(out) < 400:
        k, f = todo.pop()
        if (k, f) in out:
            continue
        out[k, f] = 1
        if k == "eq":
            todo.append(("ge", f))
            todo.append(("ge", -f))
            continue
        if k not in ("ge", "gt"):
            continue
        if k == "gt" and f.is_int():
            todo.append(("ge", f - ONE))
            continue
        for m, c in f.t:
            if len(m) != 1 or m[0][1] != 1:
                continue
            a = m[0][0]
            rest = f - Poly.atom(a).scale(c)
            if a[0] == "min" and c > 0 or a[0] == "max" and c < 0:
                for x in a[1:]:
                    todo.append((k, rest + x.scale(c)))
            elif a[0] in ("max", "min"):
                live = []
                for x in a[1:]:
                    g = rest + x.scale(c)
                    hi = S.bounds(g)[1]
                    if hi < 0 or k == "gt" and hi <= 0:
                        continue
                    if g.value() is None and g.is_int() and \
                            S.lin_entails([z for z in out], -g - ONE, 1):
                        continue
                    live.append(g)
                if len(live) == 1:
                    todo.append((k, live[0]))
            elif a[0] in ("floor", "ceil", "round"):
                x = rest + a[1].scale(c)
                isint = rest.is_int() and abs(c) == 1
                if k == "gt" and isint:
                    todo.append(("ge", f - ONE))
                    continue
                if a[0] == "floor" and c > 0 or a[0] == "ceil" and c < 0:
                    todo.append((k, x))
                elif a[0] == "round":
                    todo.append((k, x + HALF.scale(abs(c))))
                elif isint:
                    todo.append(("gt", x + ONE))
    return list(out)


def alternatives(p, facts):
    """Ways to replace one merged value: [(p, facts)], or None."""
    for a in sorted(p.all_atoms(), key=S.akey):
        if a[0] == "o" and a[1] in S.ALTS:
            al = {}
            seen = set()
            todo = [(Poly.atom(a), ())]
            while todo:
                q, fs = todo.pop()
                if q in seen:
                    continue
                seen.add(q)
                at = q.atoms()
                x = next(iter(at)) if len(q.t) == 1 and len(at) == 1 else None
                if x is not None and x[0] == "o" and x[1] in S.ALTS and \
                        q == Poly.atom(x):
                    for y, f2 in S.ALTS[x[1]].items():
                        todo.append((y, fs + f2))
                    continue
                if any(b[0] == "o" and b[1] in S.ALTS
                       for b in q.all_atoms()):
                    return None
                al[q] = fs
            if not al or len(al) > 8:
                return None
            out = []
            for q, fs in al.items():
                sub = {a: q}
                f2 = [(k, f.subst(sub)) for k, f in facts] + list(fs)
                if all(consistent(f) for f in f2):
                    out.append((p.subst(sub), f2))
            return out
    return None


def consistent(f):
    k, p = f
    lo, hi = S.bounds(p)
    if k == "ge":
        return hi >= 0
    if k == "gt":
        return hi > 0
    if k == "eq":
        return lo <= 0 <= hi
    if k == "ne":
        return not p.value() == 0
    return True


def nonneg(p, facts, strict=False, depth=6):
    """p >= 0 (or p > 0) follows."""
    if strict and p.is_int():
        return nonneg(p - ONE, facts, False, depth)
    b = S.bounds(p)[0]
    if b > 0 or b >= 0 and not strict:
        return True
    if entails(facts, p, strict, 3):
        return True
    if depth == 0:
        return False
    x = lone(p, ("max", "min"))
    if x:
        a, c, rest = x
        every = (a[0] == "max") == (c < 0)
        t = (nonneg(rest + y.scale(c), facts, strict, depth - 1)
             for y in a[1:])
        return all(t) if every else any(t)
    x = lone(p, ("floor", "ceil", "round"))
    if x:
        a, c, rest = x
        y = rest + a[1].scale(c)
        isint = rest.is_int() and abs(c) == 1
        if isint and strict:
            return nonneg(p - ONE, facts, False, depth - 1)
        if a[0] == "round":
            if isint:
                return nonneg(y + HALF, facts, True, depth - 1)
            return nonneg(y - HALF.scale(abs(c)), facts, strict, depth - 1)
        if (a[0] == "floor") == (c > 0):
            if isint:       # floor(P) + r >= 0  <=>  P + r >= 0
                return nonneg(y, facts, False, depth - 1)
            return nonneg(y - Poly.const(abs(c)), facts, strict, depth - 1)
        if isint:           # r - floor(P) >= 0  <=  r - P > -1
            return nonneg(y + ONE, facts, True, depth - 1)
        return nonneg(y, facts, strict, depth - 1)
    al = alternatives(p, facts)
    if al is not None:
        return all(nonneg(q, expand(f), strict, depth - 1) for q, f in al)
    return False


def entails(facts, d, strict, depth):
    b = S.bounds(d)[0]
    if b > 0 or b >= 0 and not strict:
        return True
    if depth == 0:
        return False
    da = d.atoms()
    for k, f in facts:
        if k not in ("ge", "gt"):
            continue
        if da.isdisjoint(f.atoms()):
            continue
        r = d - f
        s2 = strict and k != "gt"
        if len(r.t) <= len(d.t) + (1 if depth > 2 else 0):
            if entails(facts, r, s2, depth - 1):
                return True
        else:
            b = S.bounds(r)[0]
            if b > 0 or b >= 0 and not s2:
                return True
    return False


def ge(p, q, facts):
    if S.decide(">=", p, q, facts) is True:
        return True
    fs = tuple(facts)
    d = p - q
    used, _ = relevant(fs, d)
    return nonneg(d, expand(used))


def lt(p, q, facts):
    if S.decide("<", p, q, facts) is True:
        return True
    d = q - p
    used, _ = relevant(tuple(facts), d)
    return nonneg(d, expand(used), True) or \
        nonneg(d - ONE, expand(used))


def relevant(facts, *polys):
    """Facts that share an atom, directly or through others."""
    cur = set()
    for p in polys:
        cur |= p.all_atoms()
    used, rest, ch = [], list(facts), True
    while ch:
        ch = False
        nr = []
        for f in rest:
            fa = f[1].all_atoms()
            if fa & cur:
                used.append(f)
                cur |= fa
                ch = True
            else:
                nr.append(f)
        rest = nr
    return used, cur


def witness(p, facts, free=()):
    """A valuation with p < 0 under the facts, or None if none was found or
    if they speak of values that cannot be chosen freely.  `free` holds the
    value numbers of the arrays the caller passes in."""
    al = alternatives(p, facts)
    if al is not None:
        for q, f in al:
            w = witness(q, f, free)
            if w is not None:
                return w
        return None
    used, cur = relevant(facts, p)
    sub = {}
    lds = {}
    for a in sorted(cur | p.all_atoms(), key=S.akey):
        if a[0] == "ld":
            if a[1] not in free or a[1] in lds:
                return None
            lds[a[1]] = a
            name = "data%d" % len(lds)
            S.declare(name, -6, 6, False)
            sub[a] = Poly.atom(("s", name))
        elif a[0] == "o" and str(a[1])[:3] in ("dim", "len") and \
                a not in p.all_atoms():
            # the length of another array: any, as far as p is concerned
            S.declare(a[1], 1, isint=True)
            sub[a] = Poly.atom(("s", a[1]))
    if sub:
        p = p.subst(sub)
        used = [(k, f.subst(sub)) for k, f in used]
    if lds:
        zero = {("s", "data%d" % (i + 1)): S.ZERO for i in range(len(lds))}
        one = {("fn", "cos", S.ZERO): ONE, ("fn", "sin", S.ZERO): S.ZERO}
        w = search(p.subst(zero).subst(one), [
            (k, f.subst(zero).subst(one)) for k, f in used])
        if w is not None:
            return dict(w, data="0")
    return search(p, used)


def search(p, used):
    if not usable(p) or not all(usable(f) for k, f in used):
        return None
    base = S.base_atoms([p] + [f for k, f in used])
    for env in valuations(base, used):
        try:
            if p.ev(env) < 0:
                return {a[1]: "%.6g" % float(v) for a, v in env.items()}
        except S.Unknown:
            return None
    return None


def valuations(base, facts, n=250, tries=4000, seed=5,
               tops=(4, 12, 40, 120), spread=4):
    """Values of the symbols that satisfy the facts.  One symbol after the
    other is given a value within what the facts that speak of it and of
    those already chosen allow, often at the ends of the range."""
    rng = random.Random(seed)
    base = sorted(base, key=S.akey)
    sizes = [a for a in base if a[1][:1] in "HWDN" or
             a[1][:3] in ("dim", "len")]
    loops = [a for a in base if a not in sizes and
             (a[1][0] == "k" and a[1][1:2].isdigit() or
              a[1] in ("gx", "gy", "gz"))]
    rest = [a for a in base if a not in sizes and a not in loops]
    got = 0
    lin = {}
    for f in facts:
        for a in S.base_atoms([f[1]]):
            for m, c in f[1].t:
                if m == ((a, 1),):
                    r = f[1] - Poly.atom(a).scale(c)
                    if a not in r.all_atoms():
                        lin.setdefault(a, []).append((f[0], c, r,
                                                      S.base_atoms([r])))
    for t in range(tries):
        rng.shuffle(rest)
        order = rest + sizes + loops if t % 2 else sizes + rest + loops
        env = {}
        top = tops[t % len(tops)]
        ok = True
        for a in order:
            lo, hi, isint = S.SYMS.get(a[1], (-S.INF, S.INF, False))
            try:
                for k, c, r, ra in lin.get(a, ()):
                    if k not in ("ge", "gt", "eq") or not all(
                            x in env for x in ra):
                        continue
                    v = -r.ev(env) / c
                    if k == "eq":
                        lo, hi = max(lo, v), min(hi, v)
                    elif c > 0:
                        lo = max(lo, v)
                    else:
                        hi = min(hi, v)
            except S.Unknown:
                return
            if lo == -S.INF:
                lo = min(-top, hi - top if hi != S.INF else -top)
            if hi == S.INF:
                hi = max(lo, 0) + top
            w = rng.random()
            if isint or w < 0.6:
                l, h = math.ceil(lo), math.floor(hi)
                if l > h:
                    if isint:
                        ok = False
                        break
                    env[a] = Fraction(lo)
                    continue
                x = rng.random()
                env[a] = Fraction(l if x < 0.2 else h if x < 0.45 else
                                  rng.randint(l, min(h, l + spread * top)))
            else:
                if lo > hi:
                    ok = False
                    break
                env[a] = Fraction(lo) + (Fraction(hi) - Fraction(lo)) * \
                    Fraction(rng.randint(0, 16), 16)
        if not ok:
            continue
        try:
            if all(S.fact_holds(f, env) for f in facts):
                got += 1
                yield env
                if got >= n:
                    return
        except S.Unknown:
            return


def usable(p):
    for a in p.all_atoms():
        if a[0] == "fn":
            if len(a) != 3 or a[1] not in ("sin", "cos", "sqrt"):
                return False
        elif a[0] not in ("s", "floor", "ceil", "round", "trunc", "min",
                          "max", "abs", "floordiv", "mod"):
            return False
    return True
