"""C20: arguments reach the parameter they are meant for."""
import ast
from .. import calls
from ..driver import Finding

RESOURCE = {"block", "ncore", "chunk_size", "chunk", "gpu", "prefer",
            "n_jobs", "show_progress", "grid", "verbose"}


def kind_of(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        e = e.operand
    if isinstance(e, ast.Constant):
        v = e.value
        if isinstance(v, bool):
            return "bool"
        if isinstance(v, str):
            return "text"
        if isinstance(v, (int, float)):
            return "number"
        return None
    if isinstance(e, (ast.Tuple, ast.List)):
        return "sequence"
    return None


def doc_kinds(fi, p):
    """Kinds the docstring allows for a parameter."""
    d = fi.doc or ""
    out = set()
    for l in d.splitlines():
        l = l.strip()
        name, sep, ty = l.partition(" : ")
        if sep and p in [x.strip() for x in name.split(",")]:
            t = ty.lower()
            if "bool" in t:
                out.add("bool")
            if "str" in t or "'" in t or '"' in t:
                out.add("text")
            if "int" in t or "float" in t or "scalar" in t:
                out.add("number")
            if "tuple" in t or "list" in t or "array" in t:
                out.add("sequence")
            if not out or "callable" in t or "object" in t or "any" in t:
                out |= {"bool", "text", "number", "sequence"}
    return out


def kinds_for(fi, p):
    """Kinds a parameter takes: from its default and its documentation."""
    out = set()
    d = fi.defaults.get(p)
    if d is not None:
        k = kind_of(d)
        if k:
            out.add(k)
        elif not (isinstance(d, ast.Constant) and d.value is None):
            return None
    dk = doc_kinds(fi, p)
    if not out and not dk:
        return None
    return out | dk


def kind_of_arg(names, e):
    """Kind of an argument expression: a literal, or a parameter of the
    caller that is never rebound."""
    k = kind_of(e)
    if k:
        return {k}
    if isinstance(e, ast.Name) and e.id in names.params and \
            e.id not in names.asg:
        d = names.fi.defaults.get(e.id)
        if d is not None and kind_of(d):
            return {kind_of(d)}
    return None


def transposed(names, call):
    """Is the result of the call transposed on the spot?"""
    def is_t(n, inner):
        if isinstance(n, ast.Call) and calls.is_name(
                n.func, "transpose", "swapaxes", "rot90", "moveaxis"):
            return any(x is inner for a in [n.func] + n.args
                       for x in ast.walk(a))
        if isinstance(n, ast.Attribute) and n.attr == "T":
            return any(x is inner for x in ast.walk(n.value))
        return False
    for n in ast.walk(names.fi.node):
        if is_t(n, call):
            return True
    for st in ast.walk(names.fi.node):
        if isinstance(st, ast.Assign) and st.value is call and \
                len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            x = st.targets[0].id
            for n in ast.walk(names.fi.node):
                if isinstance(n, ast.Name) and n.id == x:
                    for m in ast.walk(names.fi.node):
                        if is_t(m, n):
                            return True
    return False


class C20:
    ID = "C20"
    TITLE = "arguments reach the internal routine they are meant for"
    EXPLANATION = (
        "Call-graph query over every call between functions of the package "
        "(direct, through a local alias or conditional alias, kernel "
        "launches, delayed(f)(...), partial, parallel_process_slices): each "
        "argument is traced back through plain copies and conversions to "
        "the variable it is, and compared with the parameter it is bound "
        "to.")
    RULES = {
        "swap": "a value is not bound to another parameter while the "
                "parameter of its own name gets something else",
        "double": "a value is not bound twice while the value named like the "
                  "second parameter is left out",
        "dropped": "an option the caller takes and the callee knows is not "
                   "left at its default on a path where nothing else uses it",
        "kind": "literals and options are of a kind the parameter takes"}
    ASSUMPTIONS = ["equal parameter names in caller and callee mean the same "
                   "thing, as they do throughout the package",
                   "options that only steer resources (%s) may be left out"
                   % ", ".join(sorted(RESOURCE))]

    def jobs(self, project, tier):
        return [(f.module.name, f.qualname) for f in project.all_functions]

    def do(self, project, job):
        m = project.modules[job[0]]
        fi = next(f for f in m.all_functions if f.qualname == job[1])
        return self.examine(project, fi)

    def examine(self, project, fi):
        names = calls.Names(fi)
        fs = []
        st = {"functions": 1, "calls resolved": 0, "arguments traced": 0,
              "parameter bindings": 0, "options left at the default": 0}
        sites = calls.sites(project, fi)
        groups = {}
        for cs in sites:
            groups.setdefault(id(cs.node) if not cs.via.startswith("para")
                              else (id(cs.node), 1), []).append(cs)
        for g in groups.values():
            per = []
            for cs in g:
                per.append(self.site(fi, names, cs, st))
            # several possible callees: wrong for all of them
            if len(per) > 1:
                keys = set.intersection(*[{(f.rule, f.construct.split(
                    " [", 1)[-1]) for f in x} for x in per])
                per = [[f for f in x if (f.rule, f.construct.split(
                    " [", 1)[-1]) in keys] for x in per]
            for x in per:
                fs += x
        return fs, st

    def site(self, fi, names, cs, st):
        fs = []
        G = cs.callee
        st["calls resolved"] += 1
        gp = set(G.params) | set(G.kwonly)
        roles = {q: calls.role(names, e) for q, e in cs.bound.items()}
        st["parameter bindings"] += len(roles)
        st["arguments traced"] += sum(r is not None for r in roles.values())
        lits = ",".join("%s=%s" % (q, ast.unparse(e))
                        for q, e in sorted(cs.bound.items())
                        if isinstance(e, ast.Constant))

        def add(rule, what, msg):
            con = "%s -> %s [%s]%s" % (fi.short, G.short, what,
                                       " (%s)" % lits if lits else "")
            fs.append(Finding(rule, con, cs.where(), "call of %s: %s" % (
                G.short, msg), {"call": ast.unparse(cs.node)[:300]}))
        for q, r in sorted(roles.items()):
            if not r or r == q or r not in gp:
                continue
            if roles.get(r) != r:
                if cs.opaque and r not in cs.bound:
                    continue
                if {q, r} <= {"height", "width"} and \
                        transposed(names, cs.node):
                    continue
                if r not in cs.bound and r in G.defaults and \
                        r not in names.params:
                    continue
                got = roles.get(r) or (
                    ast.unparse(cs.bound[r])[:40] if r in cs.bound
                    else "its default")
                add("swap", "%s->%s" % (r, q), "'%s' is passed as '%s' while "
                    "'%s' gets %s" % (r, q, r, got))
            elif q in names.params and q not in roles.values() and \
                    not any(isinstance(n, ast.Name) and n.id == q
                            for e in cs.bound.values() for n in ast.walk(e)):
                add("double", "%s->%s" % (r, q), "'%s' is passed as '%s' and "
                    "'%s' while '%s' is not passed" % (r, r, q, q))
        # the caller's own **options cannot hold one of its named options
        own = cs.opaque and not any(
            isinstance(a, ast.Starred) for a in cs.node.args) and all(
            k.arg is not None or isinstance(k.value, ast.Name) and
            k.value.id == fi.kwarg for k in cs.node.keywords) and any(
            k.arg is None for k in cs.node.keywords)
        if not cs.opaque or own:
            miss = [(q, "is left at its default") for q in cs.omitted]
            for q, e in cs.bound.items():
                if isinstance(e, ast.Constant) and q in G.defaults and (
                        isinstance(e.value, bool) or
                        ast.dump(e) == ast.dump(G.defaults[q])):
                    miss.append((q, "is fixed to %s" % ast.unparse(e)))
            for q, how in sorted(miss):
                if q not in names.params or q in RESOURCE or G is fi:
                    continue
                st["options left at the default"] += 1
                if not calls.used_with(names, q, cs.node):
                    add("dropped", q, "the option '%s' of %s %s" % (
                        q, fi.name, how))
        for q, e in sorted(cs.bound.items()):
            a = kind_of_arg(names, e)
            if a is None or q not in gp:
                continue
            k = kinds_for(G, q)
            if k is None or a & k:
                continue
            if a == {"number"} and "bool" in k and isinstance(
                    e, ast.Constant) and e.value in (0, 1):
                continue
            add("kind", "kind %s" % q, "'%s' (%s) is passed as '%s', which "
                "takes %s" % (ast.unparse(e)[:40], "/".join(a), q,
                              "/".join(sorted(k))))
        return fs


CHECK = C20()
