"""C24: optional inputs may be left out."""
from .. import spec
from .base import ApiCheck, Finding, construct_of

HOW = {"none_use": "uses a value that is None here",
       "undef_use": "uses a variable that was never set on this path"}


class C24(ApiCheck):
    ID = "C24"
    TITLE = "optional inputs can be left out in any combination"
    EXPLANATION = (
        "Nullness and definite-assignment analysis along every path of every "
        "public call: each parameter whose default is None is passed both as "
        "None and as each documented kind of value; every arithmetic, "
        "indexing, attribute, iteration and library use of a value that must "
        "be None, and every read of a local variable that cannot have been "
        "assigned, is reported.")
    RULES = {"none": "no operation on a missing optional value",
             "unset": "no use of a variable never assigned on the path"}
    limit = {"quick": 10, "thorough": 96}

    def examine(self, r, project):
        fs = []
        for e in r.events:
            if e.kind in HOW:
                fs.append(Finding(
                    "none" if e.kind == "none_use" else "unset",
                    construct_of(e), e.where(),
                    "%s %s (%s)" % (r.fi.short, HOW[e.kind],
                                    e.info.get("how", e.info.get("name"))),
                    {"call": r.label(), "path": e.chain()}))
        nn = [p for p in spec.params_of(r.fi) if spec.is_none_default(r.fi, p)]
        left = sum(1 for p in nn if r.combo.get(p, ("",))[0] == "None")
        return fs, {"optional parameters left out": left,
                    "optional parameters given": len(nn) - left}


CHECK = C24()
