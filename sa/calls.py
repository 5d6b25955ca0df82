"""Call sites of project functions with their arguments bound to parameters.

Resolves module attributes, local names that stand for functions, kernels
launched as k[grid, block](...), delayed(f)(...), functools.partial(f, ...) and
the documented higher-order helper parallel_process_slices(data, f, [args]).
"""
import ast


class CallSite:
    __slots__ = ("caller", "callee", "node", "bound", "omitted", "opaque",
                 "via", "guards")

    def __init__(self, caller, callee, node, via=""):
        self.caller = caller
        self.callee = callee
        self.node = node
        self.bound = {}         # parameter -> expression
        self.omitted = set()    # optional parameters left at the default
        self.opaque = False     # *args / **kwargs: binding incomplete
        self.via = via

    def where(self):
        return "%s:%d (in %s)" % (self.caller.module.rel, self.node.lineno,
                                  self.caller.name)


def walk_but(node, stop):
    todo = [node]
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if c not in stop:
                todo.append(c)


class Names:
    """Assignments of local names in one function (flow-insensitive)."""

    def __init__(self, fi):
        self.fi = fi
        self.asg = {}
        self.params = set(fi.params) | set(fi.kwonly)
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    self.target(t, n.value)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                self.target(n.target, n.value)
            elif isinstance(n, ast.AugAssign):
                self.target(n.target, None)
            elif isinstance(n, (ast.For, ast.AsyncFor, ast.comprehension)):
                self.target(n.target, None)
            elif isinstance(n, ast.NamedExpr):
                self.target(n.target, n.value)
            elif isinstance(n, (ast.With,)):
                for i in n.items:
                    if i.optional_vars is not None:
                        self.target(i.optional_vars, None)

    def path_to(self, node):
        """[(block, index, owner)] from the function body down to a node."""
        if not hasattr(self, "_where"):
            self._where = {}

            def rec(owner, path):
                for b in blocks(owner):
                    for i, st in enumerate(b):
                        p = path + [(b, i, owner)]
                        inner = set()
                        if not isinstance(st, (ast.FunctionDef,
                                               ast.ClassDef)):
                            for b2 in blocks(st):
                                for s2 in b2:
                                    inner.add(s2)
                            rec(st, p)
                        for n in walk_but(st, inner):
                            if isinstance(n, ast.expr):
                                self._where[n] = p
            rec(self.fi.node, [])
        return self._where.get(node)

    def target(self, t, v):
        if isinstance(t, ast.Name):
            self.asg.setdefault(t.id, []).append(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, (ast.Tuple, ast.List)) and \
                    len(v.elts) == len(t.elts) and \
                    not any(isinstance(x, ast.Starred) for x in t.elts):
                for x, y in zip(t.elts, v.elts):
                    self.target(x, y)
            else:
                for x in t.elts:
                    if isinstance(x, ast.Starred):
                        x = x.value
                    self.target(x, None)


def blocks(node):
    for f in ("body", "orelse", "finalbody"):
        b = getattr(node, f, None)
        if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
            yield b
    for h in getattr(node, "handlers", ()):
        yield h.body
    for c in getattr(node, "cases", ()):
        yield c.body


def assigns(st, name):
    """Values a statement may give to a name (None: unknown), and whether it
    certainly assigns it."""
    if isinstance(st, ast.Assign):
        for t in st.targets:
            if isinstance(t, ast.Name) and t.id == name:
                return [st.value], True
    out, ends = [], []
    if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
        return [], False
    for b in blocks(st):
        got, sure = reach(b, len(b), name)
        out += got
        ends.append(sure or leaves(b))
    if isinstance(st, ast.If) and st.orelse and len(ends) == 2:
        return out, all(ends)
    if isinstance(st, (ast.With,)) and ends:
        return out, ends[0]
    if not out and isinstance(st, (ast.For, ast.With, ast.AugAssign,
                                   ast.Assign, ast.AnnAssign)):
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and n.id == name and \
                    isinstance(n.ctx, ast.Store):
                return [None], False
    return out, False


def leaves(block):
    """Does the block end by leaving the function or the loop?"""
    return bool(block) and isinstance(block[-1], (ast.Raise, ast.Return,
                                                  ast.Break, ast.Continue))


def reach(block, upto, name):
    """Values of a name that reach position `upto` of a block from inside it,
    and whether an earlier value is certainly replaced."""
    out = []
    for st in reversed(block[:upto]):
        got, sure = assigns(st, name)
        out += got
        if sure:
            return out, True
    return out, False


def reaching(names, use):
    """Values of a local name that reach a use of it; None when unknown."""
    path = names.path_to(use)
    if path is None:
        return None
    out = []
    for block, i, owner in reversed(path):
        got, sure = reach(block, i, use.id)
        out += got
        if sure:
            return out
        if isinstance(owner, (ast.For, ast.While)):
            got, _ = reach(block, len(block), use.id)
            out += got
    return out


def targets_of(project, names, e, depth=0):
    """Project functions an expression may denote."""
    if depth > 6:
        return []
    fi = names.fi
    m = fi.module
    if isinstance(e, ast.Name):
        out = []
        if e.id in names.asg:
            vs = reaching(names, e)
            for v in (names.asg[e.id] if vs is None else vs):
                if v is not None:
                    out += targets_of(project, names, v, depth + 1)
            return out
        if e.id in names.params:
            return []
        r = project.resolve(m, e.id)
        if r and r[0] == "func":
            return [r[1]]
        if r and r[0] == "class":
            c = r[1].classes[r[2]][1].get("__init__")
            return [c] if c else []
        return []
    if isinstance(e, ast.Attribute):
        if isinstance(e.value, ast.Name):
            if e.value.id == "self" and fi.cls:
                f = fi.module.classes[fi.cls][1].get(e.attr)
                return [f] if f else []
            if e.value.id in names.asg or e.value.id in names.params:
                return []
            r = project.resolve(m, e.value.id)
            if r and r[0] == "mod":
                x = project.resolve(r[1], e.attr)
                if x and x[0] == "func":
                    return [x[1]]
                if x and x[0] == "class":
                    c = x[1].classes[x[2]][1].get("__init__")
                    return [c] if c else []
        return []
    if isinstance(e, ast.Subscript):        # kernel[grid, block]
        return [f for f in targets_of(project, names, e.value, depth + 1)
                if f.kernel_kind() == "cuda"]
    if isinstance(e, ast.IfExp):
        return targets_of(project, names, e.body, depth + 1) + \
            targets_of(project, names, e.orelse, depth + 1)
    return []


def bind(cs, args, keywords):
    f = cs.callee
    ps = list(f.params)
    if f.cls and ps and ps[0] == "self":
        ps = ps[1:]
    pos = []
    for a in args:
        if isinstance(a, ast.Starred):
            cs.opaque = True
            break
        pos.append(a)
    for p, a in zip(ps, pos):
        cs.bound[p] = a
    for k in keywords:
        if k.arg is None:
            cs.opaque = True
        else:
            cs.bound[k.arg] = k.value
    for p in ps + f.kwonly:
        if p not in cs.bound and p in f.defaults:
            cs.omitted.add(p)


def is_name(e, *ids):
    return (isinstance(e, ast.Name) and e.id in ids) or \
        (isinstance(e, ast.Attribute) and e.attr in ids)


def sites(project, fi):
    """All call sites inside one function."""
    names = Names(fi)
    out = []
    for n in ast.walk(fi.node):
        if not isinstance(n, ast.Call):
            continue
        fe, args, kws, via = n.func, n.args, n.keywords, ""
        if isinstance(fe, ast.Call) and is_name(fe.func, "delayed") and \
                fe.args:
            fe, via = fe.args[0], "delayed"
        elif is_name(fe, "partial") and args:
            fe, args, via = args[0], args[1:], "partial"
        for f in targets_of(project, names, fe):
            cs = CallSite(fi, f, n, via)
            bind(cs, args, kws)
            if via == "partial":
                cs.omitted = set()
            out.append(cs)
            if f.name == "parallel_process_slices":
                fn = cs.bound.get("method")
                pa = cs.bound.get("parameters")
                if isinstance(pa, ast.Name):
                    vs = [v for v in names.asg.get(pa.id, ())]
                    pa = vs[0] if len(vs) == 1 else None
                if fn is not None and isinstance(pa, (ast.List, ast.Tuple)):
                    for g in targets_of(project, names, fn):
                        c2 = CallSite(fi, g, n, "parallel_process_slices")
                        bind(c2, [cs.bound.get("data")] + pa.elts, [])
                        out.append(c2)
    return out


WRAP = {"float32", "float64", "asarray", "array", "copy", "float", "int",
        "abs", "deepcopy", "to_device", "ascontiguousarray", "squeeze",
        "int32", "int16", "bool", "str", "astype", "reshape", "transpose",
        "flipud", "fliplr", "flip", "list", "tuple", "len"}
STRICT = {"float32", "float64", "asarray", "array", "copy", "float", "int",
          "deepcopy", "to_device", "ascontiguousarray", "int32", "bool", "str",
          "astype"}


def role(names, e, depth=0):
    """Name of the variable an argument is (a plain copy or view of)."""
    if depth > 6 or e is None:
        return None
    if isinstance(e, ast.Name):
        vs = names.asg.get(e.id)
        if e.id in names.params or not vs:
            return e.id
        if len(vs) == 1 and vs[0] is not None:
            r = role(names, vs[0], depth + 1)
            if r is not None and r in names.params:
                return r
        return e.id
    if isinstance(e, ast.Call):
        if isinstance(e.func, ast.Attribute) and e.func.attr in STRICT and \
                not e.args and not isinstance(e.func.value, ast.Name):
            return role(names, e.func.value, depth + 1)
        if is_name(e.func, *STRICT) and e.args:
            if isinstance(e.func, ast.Attribute) and e.func.attr in \
                    ("copy", "astype"):
                return role(names, e.func.value, depth + 1)
            return role(names, e.args[0], depth + 1)
    return None


def exclusive(path_a, path_b):
    """Do two statement paths lie in different arms of one if?"""
    for (ba, ia, oa), (bb, ib, ob) in zip(path_a, path_b):
        if ba is bb:
            if ia == ib:
                continue
            # an arm that always leaves is exclusive with what follows it
            return False
        if oa is ob and isinstance(oa, ast.If):
            return True
        return False
    return False


def leaving_arm(path, other):
    """Is the node inside an arm that ends in return/raise, before `other`?"""
    for k in range(1, len(path)):
        block, _, owner = path[k]
        pb, pi, _ = path[k - 1]
        if leaves(block) and not (
                k < len(other) and other[k][0] is block):
            if isinstance(owner, ast.If):
                return True
    return False


def used_with(names, param, use):
    """Other uses of a parameter that run together with the given call."""
    here = names.path_to(use)
    inside = {id(n) for n in ast.walk(use)}
    out = []
    for n in ast.walk(names.fi.node):
        if isinstance(n, ast.Name) and n.id == param and \
                isinstance(n.ctx, ast.Load) and id(n) not in inside:
            p = names.path_to(n)
            if p is None or here is None:
                out.append(n)
                continue
            if exclusive(p, here) or leaving_arm(p, here) or \
                    leaving_arm(here, p):
                continue
            out.append(n)
    return out
