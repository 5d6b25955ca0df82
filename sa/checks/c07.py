"""C07: parallel kernels have no data races."""
import ast
from .. import kern, spec
from .base import ApiCheck, Finding


class C07(ApiCheck):
    ID = "C07"
    TITLE = "parallel kernels have no data races"
    EXPLANATION = (
        "Abstract interpretation of every public function that reaches "
        "compiled code, as on a machine with a GPU.  Each load and store "
        "inside a prange loop or a CUDA kernel is traced back to the array "
        "handed in, with its index as an expression of the thread numbers, "
        "the loop counters and the sizes.  Two accesses to the same array, "
        "at least one a store, never meet in different threads when for "
        "every thread number there is an axis that both index by the same "
        "expression moving with this number only; otherwise two threads "
        "that meet are looked for among the valuations that satisfy the "
        "conditions of both accesses.  Names assigned in a prange body must "
        "be assigned before they are read in the same iteration.")
    RULES = {"race": "no element stored to by a thread is stored to or read "
                     "by another one",
             "carried": "a prange iteration does not read a name another "
                        "iteration assigns"}
    limit = {"quick": 4, "thorough": 24}
    opts = [{"cuda": True}]

    def functions(self, project):
        rs = kern.reach(project)
        return [f for f in project.public_functions() if f in rs]

    def combos(self, fi, tier):
        return kern.combos(fi, self.limit[tier], tier)

    def examine(self, r, project):
        fs = []
        acc = kern.accesses(r)
        groups = {}
        regions = set()
        for a in acc:
            regions.add("%s:%d" % (a.region[1].short, a.region[0].lineno))
            groups.setdefault((a.region[0], a.root, self.launch(a)),
                              []).append(a)
        st = {"parallel regions": regions, "accesses": len(acc),
              "pairs decided": 0, "pairs undecided": 0}
        for (node, root, _), g in groups.items():
            stores = [a for a in g if a.store]
            seen = set()
            for a in stores:
                inner = set(a.threads) | {l.sym for l in self.inner(a)}
                for b in g:
                    k = (id(a.e.node), id(b.e.node), a.text(), b.text())
                    if k in seen or b.e.kind == "arr_read" and \
                            isinstance(b.e.node, ast.Subscript) and \
                            b.idx is not None and not a.store:
                        continue
                    seen.add(k)
                    inn = inner | {l.sym for l in self.inner(b)}
                    if kern.owns(a, b, inn) or kern.apart(a, b, inn):
                        st["pairs decided"] += 1
                        continue
                    w = kern.meet(a, b, inn)
                    if w is None:
                        st["pairs undecided"] += 1
                        continue
                    st["pairs decided"] += 1
                    fs.append(Finding(
                        "race", "%s: %s" % (a.region[1].short,
                                            ast.unparse(a.e.node)[:60]),
                        a.e.where(),
                        "in %s two threads meet in the same element: stored "
                        "at %s, %s at %s" % (
                            a.region[1].short, a.text(),
                            "stored" if b.store else "read", b.text()),
                        {"call": r.label(), "other": b.e.where(),
                         "threads": w, "path": a.e.chain()}))
        for f in r.I.analysed:
            if f.kernel_kind() == "jit":
                fs += self.carried(f)
        return fs, st

    @staticmethod
    def launch(a):
        return 0

    @staticmethod
    def inner(a):
        """Loops inside the parallel region."""
        ls = list(a.e.loops)
        for i, l in enumerate(ls):
            if l.node is a.region[0]:
                return ls[i:]
        if a.threads and a.threads[0] == "gx":
            body = a.region[0]
            own = {id(n) for n in ast.walk(body)}
            k = [i for i, l in enumerate(ls) if id(l.node) in own]
            if k:
                return ls[k[0]:]
            depth = [f for f, _ in a.e.stack] + [a.e.func]
            if a.region[1] in depth and a.e.func is not a.region[1]:
                fns = {id(n) for f in depth[depth.index(a.region[1]):]
                       for n in ast.walk(f.node)}
                return [l for l in ls if id(l.node) in fns]
            return []
        return ls

    def carried(self, f):
        out = []
        for n in ast.walk(f.node):
            if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and \
                    getattr(n.iter.func, "id", getattr(
                        n.iter.func, "attr", "")) == "prange":
                inside = {id(x) for x in ast.walk(n)}
                before = {x.id for x in ast.walk(f.node) if isinstance(
                    x, ast.Name) and isinstance(x.ctx, ast.Store) and
                    id(x) not in inside} | set(f.params)
                for name, line in loop_carried(n):
                    if name not in before:
                        continue
                    out.append(Finding(
                        "carried", "%s: %s" % (f.short, name),
                        "%s:%d (in %s)" % (f.module.rel, line, f.qualname),
                        "in the prange loop '%s' can hold the value another "
                        "iteration assigned" % name))
        return out


def loop_carried(loop):
    """Names read before they are assigned in the same iteration."""
    plain = set()
    for n in ast.walk(loop):
        if isinstance(n, (ast.Assign, ast.AnnAssign, ast.For)):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target]
            for t in ts:
                plain |= {x.id for x in ast.walk(t) if isinstance(
                    x, ast.Name) and isinstance(x.ctx, ast.Store)}
    found = {}

    def reads(e, done):
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and \
                    n.id in plain and n.id not in done:
                found.setdefault(n.id, n.lineno)

    def block(body, done):
        for s in body:
            done = stmt(s, done)
            if done is None:
                return None
        return done

    def stmt(s, done):
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is not None:
                reads(s.value, done)
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            new = set()
            for t in ts:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and isinstance(
                            x.ctx, ast.Store):
                        new.add(x.id)
                    elif isinstance(x, ast.Subscript):
                        reads(x, done)
            return done | new
        if isinstance(s, ast.AugAssign):
            reads(s.value, done)
            if isinstance(s.target, ast.Name):
                if s.target.id in plain and s.target.id not in done:
                    found.setdefault(s.target.id, s.lineno)
            else:
                reads(s.target, done)
            return done
        if isinstance(s, ast.If):
            reads(s.test, done)
            a, b = block(s.body, done), block(s.orelse, done)
            if a is None:
                return b
            return a if b is None else a & b
        if isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                reads(s.iter, done)
                inner = done | {x.id for x in ast.walk(s.target)
                                if isinstance(x, ast.Name)}
            else:
                reads(s.test, done)
                inner = done
            block(s.body, inner)
            return done
        if isinstance(s, (ast.Continue, ast.Break, ast.Return, ast.Raise)):
            return None
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                reads(c, done)
        return done

    block(loop.body, {x.id for x in ast.walk(loop.target)
                      if isinstance(x, ast.Name)})
    return sorted(found.items())


CHECK = C07()
