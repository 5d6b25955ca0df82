"""Structural identity of what a call gives back (for comparing two runs)."""
from .values import (ArrRec, ListRec, DictRec, ObjRec, Ref, Tup, Union, Num,
                     alts_of)


def describe(v, st, depth=0):
    """A value as nested tuples of value numbers; equal means the same
    expression of the same inputs."""
    if v is None or depth > 5:
        return None
    if isinstance(v, Ref):
        r = st.heap.get(v.id)
        if isinstance(r, ArrRec):
            return ("array", r.vn, str(r.shape), str(r.dtype))
        if isinstance(r, ListRec):
            return ("list", None if r.elts is not None else r.vn,
                    tuple(describe(x, st, depth + 1) for x in r.elts or ()))
        if isinstance(r, DictRec):
            return ("dict",) + tuple(
                (str(k), describe(x, st, depth + 1)) for k, x in r.items)
        return type(r).__name__
    if isinstance(v, Tup):
        return ("tuple",) + tuple(describe(x, st, depth + 1) for x in v.elts)
    if isinstance(v, Union):
        return ("one of",) + tuple(sorted(
            (describe(x, st, depth + 1) for x in alts_of(v)), key=str))
    if isinstance(v, Num):
        return repr(v)
    return getattr(v, "vn", repr(v))


def outcome(r):
    """Result and written contents of one analysed call."""
    w = [(e.info.get("how"), e.info.get("data_vn"))
         for e in r.events if e.kind == "fwrite"]
    return r.status, describe(r.value, r.state), tuple(w)
