"""C16: files opened internally are closed on every way out."""
from ..values import Ref, Tup, Union, Func, BoolVal, ArrRec, ListRec, \
    DictRec, ObjRec, FALSE
from .. import spec
from .base import ApiCheck, Finding, construct_of


def kids(v):
    if isinstance(v, (Tup,)):
        return list(v.elts)
    if isinstance(v, Union):
        return list(v.alts)
    if isinstance(v, Func):
        return [x for x in (v.self_,) if x is not None]
    return []


def rec_kids(r):
    if isinstance(r, ObjRec):
        return [x for _, x in r.attrs]
    if isinstance(r, ListRec):
        return [x for x in list(r.elts or ()) + [r.elem, r.head]
                if x is not None]
    if isinstance(r, DictRec):
        return [x for _, x in r.items or ()] + (
            [r.elem] if r.elem is not None else [])
    return []


def reach(v, heap):
    seen, todo = set(), [v]
    while todo:
        x = todo.pop()
        if isinstance(x, Ref):
            if x.id in seen:
                continue
            seen.add(x.id)
            r = heap.get(x.id)
            if r is not None:
                todo += rec_kids(r)
        else:
            todo += kids(x)
    return seen


def direct(v):
    """File objects handed over as such (not through a dataset)."""
    if isinstance(v, Ref):
        return {v.id}
    out = set()
    for x in kids(v):
        out |= direct(x)
    return out


class C16(ApiCheck):
    ID = "C16"
    TITLE = "files opened internally are closed on every way out"
    EXPLANATION = (
        "Typestate analysis of file handles (h5py.File, open): along every "
        "path of every public call, each handle must be in the closed state "
        "when the function that owns it is left, by return or by an error "
        "raised by the library or by a file operation, unless it is handed "
        "over with the returned value; the caller that receives a file "
        "object then owns it.  A dataset keeps the file it lives in open "
        "until it is dropped.")
    limit = {"quick": 40, "thorough": 200}
    RULES = {"return": "no own handle open at a return",
             "error": "no own handle open when an error leaves the function"}
    opts = [{"io_fail": True}]

    def functions(self, project):
        return [f for f in project.public_functions()
                if spec.touches_files(project, f, "open")]

    def examine(self, r, project):
        opened = {}
        exits = {}
        n = 0
        for e in r.events:
            if e.kind == "hopen" and isinstance(e.ref, Ref):
                opened.setdefault((e.ref.id, e.stack), e)
            elif e.kind in ("ret_exit", "exc_exit"):
                exits.setdefault(e.stack, []).append(e)
        fs = []
        for (i, stack), o in opened.items():
            own = stack
            while own:
                handed = False
                for e in exits.get(own, ()):
                    n += 1
                    heap = e.state.heap
                    rec = heap.get(i)
                    op = rec.get("open") if isinstance(rec, ObjRec) else None
                    if not isinstance(op, BoolVal) or op.b is not True:
                        continue
                    ret = e.kind == "ret_exit"
                    if ret and i in reach(e.value, heap):
                        handed |= i in direct(e.value)
                        continue
                    f = own[-1][0]
                    fs.append(Finding(
                        "return" if ret else "error",
                        "%s: %s" % (f.short, construct_of(o)), o.where(),
                        "file opened here is still open when %s %s" % (
                            f.short, "returns" if ret else
                            "is left by %s at line %d" % (
                                e.exc, getattr(e.node, "lineno", 0))),
                        {"call": r.label(), "path": o.chain()}))
                if not handed or fs:
                    break
                own = own[:-1]
        return fs, {"ways out examined": n, "files opened": len(opened)}


CHECK = C16()
