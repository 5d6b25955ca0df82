"""C15: only own temporary data are deleted, and always."""
from .. import spec
from ..values import StrVal, VN
from .base import ApiCheck, Finding, construct_of


class C15(ApiCheck):
    ID = "C15"
    TITLE = "only folders created by the call itself are deleted, and always"
    EXPLANATION = (
        "Ownership analysis of paths: every deletion (rmtree, remove, "
        "unlink, rename) reached from the public API must act on a path that "
        "the same call created under a name shown to be free (a fresh "
        "temporary folder, or a path tested not to exist before it was "
        "made) or on a path inside one; and every such path that one way out "
        "of a public function deletes must be deleted on all of them, "
        "including the errors raised by the library and by file operations.")
    limit = {"quick": 40, "thorough": 400}
    RULES = {"own": "deleted paths were created by the same call",
             "cleanup": "temporary paths are deleted on every way out"}
    opts = [{"io_fail": True}]

    def functions(self, project):
        return [f for f in project.public_functions()
                if spec.touches_files(project, f, "delete")]

    def examine(self, r, project):
        fs = []
        n = 0
        made = {}
        gone = set()
        for e in r.events:
            if e.kind == "tempmade":
                made[e.path.vn] = e
            elif e.kind == "mkdir" and isinstance(e.path, StrVal):
                made.setdefault(e.path.vn, e)
            elif e.kind == "delete":
                n += 1
                if isinstance(e.path, StrVal):
                    gone.add(e.path.vn)
                if not e.own:
                    fs.append(Finding(
                        "own", construct_of(e) + " in " + r.fi.short,
                        e.where(), "%s deletes a path that may have existed "
                        "before the call" % r.fi.short,
                        {"call": r.label(), "path": e.chain()}))
        temps = {v for v in made if v in gone or made[v].kind == "tempmade"}
        nx = 0
        for e in r.events:
            if e.kind not in ("ret_exit", "exc_exit") or e.fi is not r.fi \
                    or len(e.stack) > 1:
                continue
            for v in temps:
                nx += 1
                cs = e.state.conds
                if (VN("made", v), True) in cs and \
                        (VN("gone", v), True) not in cs:
                    m = made[v]
                    ret = e.kind == "ret_exit"
                    fs.append(Finding(
                        "cleanup", "%s: %s" % (r.fi.short, construct_of(m)),
                        m.where(), "temporary data created here stay behind "
                        "when %s %s" % (r.fi.short, "returns" if ret else
                                        "is left by %s at line %d" % (
                                            e.exc, e.node.lineno)),
                        {"call": r.label(), "path": m.chain()}))
        return fs, {"deletions": n, "ways out with temporary data": nx}


CHECK = C15()
