"""C17: image sequences keep their order and one file per image."""
from .. import spec, sym as S
from ..sym import Poly, C
from ..values import StrVal, _VN
from ..models import parts_of
from .base import ApiCheck, Finding, construct_of

_REV = {}


def term(vn):
    """The term a value number stands for."""
    if len(_REV) != len(_VN):
        _REV.clear()
        _REV.update((n, t) for t, n in _VN.items())
    return _REV.get(vn)


PARTS = []
OPAQUE = {"phi", "top", "elem", "listelem", "globelem", "next", "call", "line"}


def walk(x, seen, polys, heads, depth=0):
    """Numbers and heads of terms a value number is made of."""
    if isinstance(x, Poly):
        polys.append(x)
        for a in x.all_atoms():
            if a[0] not in ("s",):
                walk_args(a, seen, polys, heads, depth)
    elif isinstance(x, bool) or x is None or isinstance(x, str):
        return
    elif isinstance(x, int):
        if x in seen or depth > 40:
            return
        seen.add(x)
        t = term(x)
        if t is None:
            heads.add("?")
            return
        if isinstance(t, tuple) and t and isinstance(t[0], str):
            heads.add(t[0])
            if t[0] == "inpath" and str(t[1]).endswith("[]"):
                heads.add("elem")
            if t[0] == "part" and isinstance(t[2], tuple) and t[2]:
                PARTS.append(t[2])
        walk(t, seen, polys, heads, depth + 1)
    elif isinstance(x, (tuple, frozenset)):
        for y in x:
            walk(y, seen, polys, heads, depth + 1)


def walk_args(a, seen, polys, heads, depth):
    return


def nums(parts, width=None):
    """(poly, zero-padded width, is integer) of the numbers in a name."""
    out = []
    for p in parts:
        if p[0] == "num":
            f = p[2]
            w = None
            if f and f[0] == "0" and f.rstrip("d").isdigit():
                w = int(f.rstrip("d"))
            elif width is not None and f in ("", "d"):
                w = width
            out.append((p[1], w, p[3], f))
        elif p[0] == "slice":
            out += nums(p[1], slice_width(p))
    return out


def slice_width(p):
    """('slice', (('const','0000'), num), -5, None): digits kept."""
    if len(p[1]) == 1 and p[1][0][0] == "num" and p[1][0][2] in ("", "d"):
        return None
    if p[3] is not None or not isinstance(p[2], int) or p[2] >= 0:
        return 0
    inner = p[1]
    if len(inner) == 2 and inner[0][0] == "const" and \
            inner[0][1].strip("0") == "" and inner[1][0] == "num" and \
            inner[1][2] in ("", "d"):
        return min(-p[2], len(inner[0][1]) + 1)
    return 0


def loopsyms(loops):
    return [l.sym for l in loops]


def symname(l):
    s = l.sym
    return s if isinstance(s, str) else str(s)


def mentions(p, name):
    return any(a[0] == "s" and a[1] == name for a in p.all_atoms()) or \
        name in p.base_syms()


def opaque_atom(p):
    return any(a[0] == "s" and (a[1].startswith("?") or a[1] == "")
               for a in p.all_atoms()) or p.has_opaque()


class C17(ApiCheck):
    ID = "C17"
    TITLE = "image sequences keep their order and one file per image"
    EXPLANATION = (
        "Symbolic file names: every name an image is saved under is kept as "
        "a sequence of constant texts, caller texts and formatted integers "
        "over the loop counters.  In every loop that saves images the name "
        "must depend on every counter of the loops around it, increase with "
        "it, and have the number padded with zeros to at least five digits; "
        "every file name that comes from a directory listing must have been "
        "sorted before it is used for reading.")
    limit = {"quick": 24, "thorough": 200}
    RULES = {"distinct": "different images get different file names",
             "order": "the numbers in the names grow with the image number",
             "padded": "numbers in names have at least five digits",
             "sorted": "names from a directory listing are sorted before use"}

    def functions(self, project):
        return [f for f in project.public_functions()
                if spec.touches_files(project, f, "write") or
                spec.touches_files(project, f, "list")]

    def examine(self, r, project):
        fs = []
        st = {"files written in loops": 0, "names shown distinct": 0,
              "padded numbers": 0, "reads of listed files": 0,
              "undecided names": 0}

        def add(rule, e, msg):
            fs.append(Finding(rule, construct_of(e) + " in " + r.fi.short,
                              e.where(), "%s: %s" % (r.fi.short, msg),
                              {"call": r.label(), "path": e.chain()}))
        for e in r.events:
            if e.kind == "fread":
                st["reads of listed files"] += 1
                for t in getattr(e.path, "tags", ()):
                    if isinstance(t, tuple) and t[0] == "unsorted":
                        add("sorted", e, "reads files in the order of a "
                            + {"glob": "directory listing",
                               "set": "set",
                               "reversed": "reversed list"}.get(t[1], t[1]))
                        break
            if e.kind != "fwrite" or not e.loops or \
                    getattr(e, "how", "") != "image.save":
                continue
            st["files written in loops"] += 1
            if not isinstance(e.path, StrVal):
                st["undecided names"] += 1
                continue
            parts = parts_of(e.path)
            ns = nums(parts)
            bad = False
            undec = False
            for l in e.loops:
                k = l.sym
                if isinstance(l.n, Poly) and l.n.is_const() and \
                        l.n.value() <= 1:
                    continue
                dep = [x for x in ns if mentions(x[0], k)]
                if not dep:
                    v = self.independent(parts, k, e, ns)
                    if v is None:
                        undec = True
                    elif v:
                        bad = True
                        add("distinct", e, "all images of this loop are "
                            "saved under the same name")
                    continue
                for p, w, isint, f in dep:
                    if not isint:
                        undec = True
                        continue
                    c = self.coeff(p, k)
                    if c is None:
                        undec = True
                    elif c != self.data_order(e, k, c):
                        bad = True
                        add("order", e, "the numbers in the file names run "
                            "against the order of the images")
                    if w is None:
                        bad = True
                        add("padded", e, "the number in the file name is not "
                            "padded with zeros")
                    elif w == 0:
                        undec = True
                    elif w < 5:
                        bad = True
                        add("padded", e, "the number in the file name is "
                            "kept to %d digits" % w)
                    else:
                        st["padded numbers"] += 1
            if undec:
                st["undecided names"] += 1
            elif not bad:
                v = self.overlap(e, ns)
                if v:
                    add("distinct", e, v)
                elif v is None:
                    st["undecided names"] += 1
                else:
                    st["names shown distinct"] += 1
        self.separate(r, add, st)
        return fs, st

    @staticmethod
    def coeff(p, k):
        """Sign of the coefficient of k in p when p is linear in it."""
        d = p.subst({("s", k): Poly.sym(k) + C(1)}) - p
        if mentions(d, k):
            return None
        if S.is_pos(d):
            return 1
        if S.is_pos(-d):
            return -1
        return None

    def data_order(self, e, k, default):
        """Direction in which loop k goes through the stack being saved."""
        del PARTS[:]
        walk(getattr(e, "data_vn", None), set(), [], set())
        signs = set()
        for key in PARTS:
            for x in key:
                if isinstance(x, tuple) and len(x) >= 2 and \
                        isinstance(x[1], Poly) and mentions(x[1], k):
                    signs.add(self.coeff(x[1], k))
        if len(signs) == 1 and None not in signs:
            self.directed = getattr(self, "directed", 0) + 1
            return signs.pop()
        return default

    @staticmethod
    def independent(parts, k, e, ns):
        """Is the name the same in every round of loop k (None: unknown)?"""
        polys, heads = [], set()
        walk(tuple(p[1] if p[0] in ("str", "val") else p for p in parts),
             set(), polys, heads)
        if any(mentions(p, k) for p in polys):
            return False
        if "?" in heads or heads & OPAQUE or \
                any(opaque_atom(p) for p in polys):
            return None
        return True

    @staticmethod
    def values(e, p, env):
        """Numbers used by the rounds of the loops under a valuation."""
        atoms = [("s", l.sym) for l in e.loops]
        mine = [f for f in e.facts if base(f[1]) & set(atoms)]
        out = []

        def rec(i, env):
            if len(out) > 600:
                raise S.Unknown()
            if i == len(atoms):
                if all(S.fact_holds(f, env) for f in mine):
                    out.append(p.ev(env))
                return
            n = e.loops[i].n
            if not isinstance(n, Poly):
                raise S.Unknown()
            n = n.ev(env)
            for k in range(int(min(n, 60))):
                rec(i + 1, dict(env, **{}) | {atoms[i]: S.Fraction(k)})
        rec(0, env)
        return out

    def valuations(self, es, ps):
        """Concrete sizes under which all the writes take place."""
        polys, facts, loops = list(ps), [], set()
        for e in es:
            loops |= {("s", l.sym) for l in e.loops}
            polys += [l.n for l in e.loops if isinstance(l.n, Poly)]
            facts += [f for f in e.facts
                      if not base(f[1]) & {("s", l.sym) for l in e.loops}]
        if any(opaque_atom(p) for p in polys):
            return None
        used, cur = S.relevant_facts(facts, base_of(polys) - loops)
        if any(opaque_atom(f[1]) for f in used):
            return None
        return S.samples(cur - loops, used, n=40)

    def overlap(self, e, ns):
        """Do two rounds use the same number?"""
        if len(e.loops) < 2 or len(ns) != 1:
            return False if len(e.loops) < 2 else None
        p = ns[0][0]
        vs = self.valuations([e], [p])
        if not vs:
            return None
        known = False
        for env in vs:
            try:
                got = self.values(e, p, env)
            except S.Unknown:
                continue
            known = True
            if len(set(got)) != len(got):
                return "two rounds of these loops save under the same " \
                    "name (%s)" % show(env)
        return False if known else None

    def separate(self, r, add, st):
        """Different loops of one call that write into the same sequence."""
        ws = []
        for e in r.events:
            if e.kind == "fwrite" and e.loops and e.how == "image.save" and \
                    isinstance(e.path, StrVal):
                ps = parts_of(e.path)
                ns = nums(ps)
                if len(ns) == 1 and ns[0][2]:
                    ws.append((e, skeleton(ps), ns[0][0]))
        for i, (a, ska, pa) in enumerate(ws):
            for b, skb, pb in ws[i + 1:]:
                if ska != skb or any((c, not v) in b.conds
                                     for c, v in a.conds):
                    continue
                if a.stack == b.stack and a.node is b.node and \
                        a.loops == b.loops:
                    continue
                vs = self.valuations([a, b], [pa, pb])
                if not vs:
                    continue
                st["pairs of loops compared"] = \
                    st.get("pairs of loops compared", 0) + 1
                for env in vs:
                    try:
                        x = set(self.values(a, pa, env)) & \
                            set(self.values(b, pb, env))
                    except S.Unknown:
                        continue
                    if x:
                        add("distinct", b, "an image replaces one saved by "
                            "an earlier loop of the same call (%s)"
                            % show(env))
                        break


def base(p):
    return S.base_atoms([p])


def base_of(ps):
    return S.base_atoms(ps)


def skeleton(parts):
    out = []
    for p in parts:
        if p[0] == "num":
            out.append(("num", p[2]))
        elif p[0] == "slice":
            out.append(("slice", skeleton(p[1])) + p[2:])
        else:
            out.append(p)
    return tuple(out)


def show(env):
    return ", ".join("%s=%s" % (a[1], v) for a, v in
                     sorted(env.items(), key=lambda x: str(x[0]))
                     if a[0] == "s")


CHECK = C17()
