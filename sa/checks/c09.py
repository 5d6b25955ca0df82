"""C09: every GPU launch computes every element of its output."""
import ast
from .. import kern, sym as S
from ..sym import Poly, ONE, ZERO
from ..values import ArrRec, Num, Ref, Tup, alts_of
from .base import ApiCheck, Finding


def at_least(p, b):
    """Polynomials p*b is at least as large as, when p is rounded."""
    yield p * b
    for m, c in p.t:
        if len(m) != 1 or m[0][1] != 1:
            continue
        a = m[0][0]
        rest = p - Poly.atom(a).scale(c)
        if a[0] == "ceil" and c == 1:
            yield (a[1] + rest) * b
        elif a[0] == "floordiv" and c == 1 and a[2] == b:
            yield a[1] - b + ONE + rest * b
        elif a[0] == "floordiv" and c == -1 and a[2] == b:
            yield rest * b - a[1]
        elif a[0] == "floor" and c == 1:
            yield (a[1] + rest - ONE) * b
        elif a[0] == "floor" and c == -1:
            yield (rest - a[1]) * b
        elif a[0] == "max" and c == 1:
            for x in a[1:]:
                for y in (x if isinstance(x, (tuple, list)) else [x]):
                    if isinstance(y, Poly):
                        yield from at_least(y + rest, b)


def below(p, q, facts, tries=4000):
    """A valuation with p < q, or None; (None, True) when p >= q is shown."""
    if S.decide(">=", p, q, facts) is True:
        return None, True
    d = p - q
    if d.has_opaque() or any(a[0] == "ld" for a in d.all_atoms()):
        return None, False
    fs = [f for f in facts if not f[1].has_opaque() and
          not any(a[0] == "ld" for a in f[1].all_atoms())]
    used, cur = S.relevant_facts(fs, S.base_atoms([d]))
    for env in S.samples(cur | S.base_atoms([d]), used, n=200,
                         tries=tries) or ():
        try:
            if d.ev(env) < 0:
                return {a[1]: str(v) for a, v in env.items()}, False
        except S.Unknown:
            return None, False
    return None, False


class C09(ApiCheck):
    ID = "C09"
    TITLE = "every GPU launch computes every element of its output"
    EXPLANATION = (
        "Abstract interpretation of every public function that launches a "
        "GPU kernel.  For every array a kernel stores to, each axis must be "
        "covered from first to last element: an axis indexed by a thread "
        "number by the guard of the kernel and by grid x block threads "
        "(rounded-up division shown symbolically), an axis indexed by a "
        "loop counter by the length of the loop, an axis indexed by "
        "constants by all of them.  Where this cannot be shown, sizes and "
        "block shapes that satisfy all conditions and leave an element out "
        "are looked for.")
    RULES = {"grid": "blocks x threads per block reach the last element of "
                     "the axis the thread number addresses",
             "guard": "the guard of the kernel lets every element through",
             "axis": "axes not addressed by threads are covered by loops or "
                     "constants",
             "args": "a kernel is given as many arguments as it takes"}
    limit = {"quick": 4, "thorough": 24}
    opts = [{"cuda": True}]

    def functions(self, project):
        rs = kern.reach(project)
        return [f for f in project.public_functions() if f in rs]

    def combos(self, fi, tier):
        return kern.combos(fi, self.limit[tier], tier)

    def examine(self, r, project):
        fs = []
        st = {"launches": set(), "axes covered": 0, "axes undecided": 0}
        order = {id(e): i for i, e in enumerate(r.events)}
        launches = [e for e in r.events if e.kind == "launch"]
        acc = [a for a in kern.accesses(r)
               if a.store and a.threads and a.threads[0] == "gx"]
        for e in r.events:
            if e.kind == "bad_call" and e.fi.kernel_kind() == "cuda":
                fs.append(Finding("args", "%s: %s" % (e.func.short,
                                                      e.fi.short),
                                  e.where(), e.msg, {"call": r.label()}))
        for n, L in enumerate(launches):
            lo = order[id(L)]
            hi = order[id(launches[n + 1])] if n + 1 < len(launches) \
                else len(r.events)
            mine = [a for a in acc if lo < order[id(a.e)] < hi and
                    a.region[1] is L.fi]
            st["launches"].add("%s:%d" % (L.func.short, L.line))
            fs += self.launch(L, mine, st, r)
        return fs, st

    def launch(self, L, acc, st, r):
        out = []
        grid, block = comps(L.grid), comps(L.block)
        if grid is None or block is None:
            return out
        roots = {}
        for a in acc:
            roots.setdefault(a.root, []).append(a)
        names = {x.id: q for q, x in zip(L.fi.params, L.args)
                 if isinstance(x, Ref)}
        for root, g in roots.items():
            rec = L.state.heap.get(root)
            if not isinstance(rec, ArrRec) or rec.shape is None:
                continue
            name = names.get(root, "?")
            g = [a for a in g if a.idx is not None and
                 len(a.idx) == len(rec.shape)]
            for d, dim in enumerate(rec.shape):
                if dim is None or not g:
                    continue
                bad = None
                ok = False
                consts = set()
                for a in g:
                    res = self.axis(a, d, dim, grid, block, L)
                    if res[0] == "ok":
                        ok = True
                        break
                    if res[0] == "const":
                        consts.add(res[1])
                    elif res[0] == "bad" and bad is None:
                        bad = res
                if not ok and consts and dim.value() is not None and \
                        set(range(int(dim.value()))) <= consts:
                    ok = True
                if ok:
                    st["axes covered"] += 1
                elif bad is not None:
                    out.append(Finding(
                        bad[1], "%s: %s axis %d" % (L.fi.short, name, d),
                        L.where(), "%s: %s of the kernel %s does not reach "
                        "every element of axis %d of '%s' (length %s): %s" % (
                            r.fi.short, bad[2], L.fi.short, d, name, dim,
                            bad[3]),
                        {"call": r.label(), "sizes": bad[4]}))
                else:
                    st["axes undecided"] += 1
        return out

    def axis(self, a, d, dim, grid, block, L):
        x = a.idx[d]
        if x[0] == "s":
            if x[1] is not None and x[2] is not None and not x[1].t and \
                    x[2] == dim:
                return ("ok",)
            return ("?",)
        p = x[1]
        if p is None:
            return ("?",)
        if p.value() is not None:
            return ("const", int(p.value()))
        facts = a.e.facts
        for k, t in enumerate(a.threads):
            if not kern.affine(p, t):
                continue
            off = p - Poly.atom(("s", t))
            if any(s == ("s", t) for s in off.all_atoms()) or \
                    kern.varying(off, set(a.threads) | {
                        l.sym for l in a.e.loops}):
                return ("?",)
            if k >= len(grid) or k >= len(block):
                return ("bad", "grid", "the grid", "it has %d axes" %
                        min(len(grid), len(block)), {})
            need = dim - off           # thread numbers 0 .. need-1
            host = [f for f in L.facts] + [("ge", dim - ONE)]
            w = None
            shown = False
            for q in at_least(grid[k], block[k]):
                w1, s = below(q, need, host)
                if s:
                    shown = True
                    break
            if not shown:
                w, _ = below(grid[k] * block[k], need, host)
                if w is not None:
                    return ("bad", "grid", "the grid", "%s blocks of %s "
                            "threads" % (grid[k], block[k]), w)
            # the first element: off <= 0
            w, s = below(ZERO, off, host)
            if w is not None:
                return ("bad", "grid", "the grid", "it starts at %s" % off,
                        w)
            for f in facts:
                at = f[1].all_atoms()
                if ("s", t) not in at or any(
                        b[0] in ("ld", "o") for b in at):
                    continue
                if kern.varying(f[1], set(a.threads) | {
                        l.sym for l in a.e.loops}) != {t}:
                    continue
                if f[0] not in ("ge", "gt"):
                    continue
                for v in (need - ONE, ZERO - off if off.t else ZERO):
                    y = f[1].subst({("s", t): v})
                    if f[0] == "gt":
                        y = y - ONE if y.is_int() else y
                    w, s = below(y, ZERO, host)
                    if w is not None:
                        return ("bad", "guard", "the guard",
                                "%s >= 0 is asked for" % f[1], w)
            return ("ok",) if shown else ("?",)
        for l in a.e.loops:
            if kern.affine(p, l.sym) and l.n is not None:
                off = p - Poly.atom(("s", l.sym))
                if off.t:
                    return ("?",)
                w, s = below(l.n, dim, L.facts)
                if s:
                    return ("ok",)
                if w is not None:
                    return ("bad", "axis", "a loop", "it has %s steps" % l.n,
                            w)
        return ("?",)


def comps(v):
    """Components of a grid or block."""
    if isinstance(v, Num):
        return [v.sym]
    if isinstance(v, Tup) and all(isinstance(x, Num) for x in v.elts):
        return [x.sym for x in v.elts]
    return None


CHECK = C09()
