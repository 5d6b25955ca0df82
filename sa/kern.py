"""Accesses to arrays inside compiled code (numba loops, CUDA kernels)."""
import ast

from . import sym as S
from .sym import Poly, ONE
from .values import Num

THREADS = ("gx", "gy", "gz")


def reach(project):
    """Functions that reach compiled code, by name (over-approximated)."""
    byname = {}
    for f in project.all_functions:
        byname.setdefault(f.name, []).append(f)
    uses = {}
    for f in project.all_functions:
        uses[f] = {n.id if isinstance(n, ast.Name) else n.attr
                   for n in ast.walk(f.node)
                   if isinstance(n, (ast.Name, ast.Attribute))}
    out = {f for f in uses if f.kernel_kind()}
    ch = True
    while ch:
        ch = False
        names = {f.name for f in out}
        for f, u in uses.items():
            if f not in out and u & names:
                out.add(f)
                ch = True
    return out


class Access:
    """One load or store of a part of an array, in terms of the array that
    was handed to the compiled code."""
    __slots__ = ("e", "root", "idx", "store", "region", "threads", "rec",
                 "known")

    def __init__(self, e, root, idx, store, region, threads, known):
        self.e = e
        self.root = root
        self.idx = idx
        self.store = store
        self.region = region
        self.threads = threads
        self.known = known

    def text(self):
        return "[%s]" % ", ".join(
            str(x[1]) if x[0] == "i" else "%s:+%s" % (x[1], x[2])
            for x in self.idx) if self.idx else "[?]"


def trace(I, ref, idx):
    """Index into the array the given one is a part of."""
    i = ref.id
    for _ in range(8):
        if i not in I.views:
            return i, idx
        parent, starts, none = I.views[i]
        if idx is None or none:
            i, idx = parent, None
            continue
        out = []
        rest = list(idx)
        for s in starts:
            if s[0] == "i":
                out.append(("i", s[1]))
            elif s[0] == "s" and rest:
                q = rest.pop(0)
                if s[1] is None or s[3] is None or q[1] is None:
                    out.append((q[0], None, None, None)[:2 if q[0] == "i"
                                                        else 4])
                elif q[0] == "i":
                    out.append(("i", s[1] + s[3] * q[1]))
                else:
                    out.append(("s", s[1] + s[3] * q[1], q[2],
                                s[3] * q[3] if q[3] is not None else None))
            else:
                out = None
                break
        if out is not None:
            out += rest
        i, idx = parent, out
    return i, idx


def region_of(e):
    """(node, function, thread symbols) of the parallel code of an event."""
    for f, _ in e.stack:
        if f.kernel_kind() == "cuda":
            return f.node, f, THREADS
    if e.func.kernel_kind() == "cuda":
        return e.func.node, e.func, THREADS
    for l in e.loops:
        if l.parallel:
            fn = None
            for f, _ in list(e.stack) + [(e.func, None)]:
                if any(n is l.node for n in ast.walk(f.node)):
                    fn = f
            return l.node, fn or e.func, (l.sym,)
    return None


def accesses(r):
    """Every access inside parallel code to an array shared by threads."""
    I = r.I
    out = []
    dims = {}
    for e in r.events:
        if e.kind == "cuda_grid":
            reg = region_of(e)
            if reg:
                dims[reg[0]] = e.info["ndim"] or 1
    for e in r.events:
        if e.kind in ("kload", "kstore"):
            idx = [("i", p) for p in e.info["idx"]]
        elif e.kind in ("arr_read", "arr_write"):
            st = e.info["starts"]
            idx = None
            if st is not None:
                idx = []
                for s in st:
                    if s[0] == "i":
                        idx.append(("i", s[1]))
                    elif s[0] == "s":
                        idx.append(("s",) + tuple(s[1:4]))
                    else:
                        idx = None
                        break
        else:
            continue
        reg = region_of(e)
        if reg is None:
            continue
        node, fn, threads = reg
        ref = e.info["ref"]
        root, ridx = trace(I, ref, idx)
        if root in I.born:
            if threads is THREADS:
                rec = e.info["rec"]
                if "shared" not in rec.tags:
                    continue
            elif node in I.born[root]:
                continue
        if threads is THREADS:
            threads = THREADS[:int(dims.get(node, 0) or 1)]
        out.append(Access(e, root, ridx, e.kind in ("kstore", "arr_write"),
                          (node, fn), threads, None))
    return out


def varying(p, inner):
    """Symbols and data an index varies with inside the parallel code."""
    out = set()
    for a in p.all_atoms():
        if a[0] == "s":
            if a[1] in inner:
                out.add(a[1])
        elif a[0] == "ld":
            out.add("data")
        elif a[0] == "o":
            out.add("?")
    return out


def affine(p, t):
    """Is p = c*t + (nothing of t), c a non-zero constant?"""
    c = None
    for m, k in p.t:
        for a, e in m:
            if a == ("s", t):
                if len(m) != 1 or e != 1:
                    return False
                c = k
            elif t in {b[1] for b in Poly.atom(a).all_atoms()
                       if b[0] == "s"}:
                return False
    return c is not None and c != 0


def owns(a, b, inner):
    """Do two different threads doing a and b never meet?  True when for
    every thread number there is an axis both index by the same expression
    that moves with this number only."""
    if a.idx is None or b.idx is None or len(a.idx) != len(b.idx):
        return False
    for t in a.threads:
        ok = False
        for x, y in zip(a.idx, b.idx):
            if x[0] != "i" or y[0] != "i" or x[1] is None or y[1] is None:
                continue
            if x[1] == y[1] and varying(x[1], inner) == {t} and \
                    affine(x[1], t):
                ok = True
                break
        if not ok:
            return False
    return True


def apart(a, b, inner):
    """Do the two touch different elements whatever the threads?"""
    if a.idx is None or b.idx is None or len(a.idx) != len(b.idx):
        return False
    for x, y in zip(a.idx, b.idx):
        if x[0] == y[0] == "i" and x[1] is not None and y[1] is not None:
            if varying(x[1], inner) or varying(y[1], inner):
                continue
            v = (x[1] - y[1]).value()
            if v is not None and v != 0:
                return True
    return False


def meet(a, b, inner, tries=600):
    """Two different threads that touch the same element, or None."""
    if a.idx is None or b.idx is None or len(a.idx) != len(b.idx):
        return None
    ren = {}
    for t in inner:
        n = t + "'"
        if n not in S.SYMS:
            S.declare(n, *S.SYMS.get(t, (0, S.INF, True)))
        ren[("s", t)] = Poly.atom(("s", n))

    def facts(x, sub):
        out = []
        for k, p in x.e.facts:
            if p.has_opaque() or any(q[0] == "ld" for q in p.all_atoms()):
                continue
            out.append((k, p.subst(ren) if sub else p))
        return out
    eqs = []
    for x, y in zip(a.idx, b.idx):
        if x[0] == "i" and y[0] == "i":
            if x[1] is None or y[1] is None:
                return None
            eqs.append((x[1], y[1].subst(ren)))
        elif x[0] == "s" or y[0] == "s":
            if None in x[1:] or None in y[1:]:
                return None
            continue
    polys = [p for q in eqs for p in q]
    for p in polys:
        if p.has_opaque():
            return None
        if any(q[0] == "ld" for q in p.all_atoms()):
            return {"data": "the index is read from data"}
    fs = facts(a, False) + facts(b, True)
    atoms = S.base_atoms(polys) | {("s", t) for t in a.threads} | {
        ("s", t + "'") for t in a.threads}
    used, cur = S.relevant_facts(fs, atoms)
    # small sizes first, so that two threads are likely to meet
    ss = S.samples(cur | atoms, used, n=tries, tries=6 * tries)
    for env in ss or ():
        try:
            if all(env[("s", t)] == env[("s", t + "'")] for t in a.threads):
                continue
            if all(p.ev(env) == q.ev(env) for p, q in eqs):
                return {k[1]: str(v) for k, v in env.items()}
        except S.Unknown:
            return None
    return None


def combos(fi, limit, tier):
    """Option choices of a public function, with every GPU choice and every
    rank of the inputs crossed."""
    from . import spec
    ps = fi.params + fi.kwonly
    gs = [x for x in spec.variants(fi, "gpu") if x[0] != "False"] \
        if "gpu" in ps else [None]
    cross = [p for p in ps if p in ("dim", "ref_mat", "ref_stack", "sinogram",
                                    "direction", "dark_signal")
             and len(spec.variants(fi, p)) > 1]
    out, seen = [], set()
    for g in gs:
        choices = [{}]
        for p in cross:
            choices = [dict(c, **{p: [v]}) for c in choices
                       for v in spec.variants(fi, p)]
        for i, c in enumerate(choices):
            ex = dict(c)
            if g is not None:
                ex["gpu"] = [g]
            if i or fi.module.short == "phase" and g is not gs[0]:
                # the other options one at a time for the first choice only
                cs = [next(iter(spec.combos(fi, 1, extra=ex)))]
            else:
                cs = list(spec.combos(fi, limit, extra=ex))
            for x in cs:
                k = tuple((p, v[0]) for p, v in sorted(x.items()))
                if k not in seen:
                    seen.add(k)
                    out.append(x)
    return out
