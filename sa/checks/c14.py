"""C14: existing files are not overwritten unless asked for."""
from .. import spec
from ..iomodel import pb_of
from ..values import StrVal, VN
from .base import ApiCheck, Finding, construct_of

VARY = {"overwrite", "output", "file_path", "list_path", "output_path",
        "input_", "key_path", "axis", "rescaling", "mat", "ncore"}


def absent(path, conds):
    """The requested file or folder was found not to exist."""
    cs = set(conds)
    return any((VN("exists", b), False) in cs for b in pb_of(path)) or \
        (VN("exists", path.vn), False) in cs


class C14(ApiCheck):
    ID = "C14"
    TITLE = "existing files are not overwritten unless asked for"
    EXPLANATION = (
        "Path-freshness analysis: every public function with an overwrite "
        "option is analysed with the option on and off, for each kind of "
        "input and output.  With the option off, every file-creating "
        "operation must act on a path that an existence test on this path "
        "of execution showed to be free; with the option on it must act on "
        "the requested name, not on one changed by an existence test; and a "
        "returned file name must be the one written.")
    RULES = {"off": "with overwrite=False only free names are written",
             "on": "with overwrite=True the requested name is written",
             "report": "the returned name is the name written"}
    limit = {"quick": 200, "thorough": 1000}

    def functions(self, project):
        return [f for f in project.public_functions()
                if "overwrite" in spec.params_of(f)]

    def extra(self, fi):
        out = {}
        for p in spec.params_of(fi):
            vs = spec.variants(fi, p)
            if p == "overwrite":
                out[p] = vs
            elif p not in VARY:
                out[p] = vs[:1]
        return out

    def examine(self, r, project):
        fs = []
        n = ok = 0
        label = r.combo["overwrite"][0]
        writes = []
        for e in r.events:
            if e.kind != "fwrite" or not isinstance(e.path, StrVal):
                continue
            mode = getattr(e, "mode", None) or "w"
            if mode[0] not in "wx" and e.how == "h5py.File":
                continue
            n += 1
            fresh = "fresh" in e.path.tags
            known = absent(e.path, e.conds)
            if any(isinstance(t, tuple) and t[0] == "own"
                   for t in e.path.tags):
                ok += 1
                continue
            writes.append(e)
            if label == "False":
                if fresh or known:
                    ok += 1
                    continue
                fs.append(Finding(
                    "off", construct_of(e) + " in " + r.fi.short, e.where(),
                    "%s(overwrite=False) writes to a name that may be that "
                    "of an existing file" % r.fi.short,
                    {"call": r.label(), "path": e.chain()}))
            elif label == "True":
                if not fresh or known:
                    ok += 1
                    continue
                fs.append(Finding(
                    "on", construct_of(e) + " in " + r.fi.short, e.where(),
                    "%s(overwrite=True) writes to another name than the "
                    "requested one when the file exists" % r.fi.short,
                    {"call": r.label(), "path": e.chain()}))
        if label == "False" and isinstance(r.value, StrVal) and \
                len(writes) == 1 and "fresh" in writes[0].path.tags and \
                "fresh" not in r.value.tags:
            e = writes[0]
            fs.append(Finding(
                "report", construct_of(e) + " in " + r.fi.short, e.where(),
                "%s(overwrite=False) returns another name than the one "
                "written" % r.fi.short, {"call": r.label()}))
        return fs, {"file-creating operations": n, "justified": ok}


CHECK = C14()
