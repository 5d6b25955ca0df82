"""C01: caller data are never modified."""
from .base import ApiCheck, Finding, construct_of


class C01(ApiCheck):
    ID = "C01"
    TITLE = "processing functions never modify the caller's data"
    EXPLANATION = (
        "Interprocedural alias and mutation analysis: every public function "
        "is interpreted abstractly with arguments marked as owned by the "
        "caller; views, slices, list members and pass-through calls keep the "
        "mark, copies drop it; every store, in-place operator, mutating "
        "method, out= argument and kernel store is checked against it.")
    RULES = {"write": "no write reaches memory owned by the caller"}

    def examine(self, r, project):
        fs = []
        n = 0
        for e in r.events:
            if e.kind != "mutate":
                continue
            n += 1
            if e.roots:
                own = [x for x in e.roots if x in r.bound or
                       x in r.fi.params]
                if not own:
                    continue
                fs.append(Finding(
                    "write", construct_of(e), e.where(),
                    "%s writes into the caller's argument %s (%s)" % (
                        r.fi.short, "/".join(sorted(own)), e.how),
                    {"call": r.label(), "path": e.chain()}))
        return fs, {"write operations examined": n}


CHECK = C01()
