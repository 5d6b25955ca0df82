"""C18: the folder exists before a file is written into it."""
from .. import spec
from .base import ApiCheck, Finding, construct_of


class C18(ApiCheck):
    ID = "C18"
    TITLE = "the output folder exists before anything is written into it"
    EXPLANATION = (
        "Must-precede analysis on path identities: at every operation that "
        "creates a file (h5py.File, open, image save, rename, copy) on every "
        "path of every public call, the folder the file goes into must have "
        "been created, or be known to exist, on that path; and every folder "
        "creation must create missing parents and accept an existing folder.")
    limit = {"quick": 40, "thorough": 200}
    RULES = {"missing": "the folder of a written file was created before",
             "mkdir": "folder creation creates the parents and accepts an "
                      "existing folder"}

    def functions(self, project):
        return [f for f in project.public_functions()
                if spec.touches_files(project, f, "write")]

    def examine(self, r, project):
        fs = []
        nw = nm = ok = 0
        for e in r.events:
            if e.kind == "fwrite":
                nw += 1
                if e.dir_ok is False:
                    fs.append(Finding(
                        "missing", construct_of(e), e.where(),
                        "%s: the folder of the file written here was not "
                        "created on this path" % r.fi.short,
                        {"call": r.label(), "path": e.chain()}))
                else:
                    ok += 1
            elif e.kind == "mkdir":
                nm += 1
                what = None
                if e.parents is False and not e.up_ok:
                    what = "does not create missing parent folders"
                elif e.exist_ok is False and e.known is not False:
                    what = "fails when the folder exists"
                if what:
                    fs.append(Finding(
                        "mkdir", construct_of(e), e.where(),
                        "%s: folder creation %s" % (r.fi.short, what),
                        {"call": r.label(), "path": e.chain()}))
        return fs, {"files written": nw, "folder created before": ok,
                    "folder creations": nm}


CHECK = C18()
