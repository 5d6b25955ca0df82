"""Models of paths, files, HDF5, images, processes and repository classes."""
import ast
import os.path
import pathlib
from .sym import Poly, C, ZERO, ONE, INF, named_opaque
from . import sym as S
from .values import *
from .values import list_elem
from .project import FuncInfo
from . import models as M
from .models import op_of, parts_of, mkstr, STRPARTS

HANDLERS = {}
NOSUF = set()          # value numbers of strings known to have no suffix


def h(*names):
    def deco(f):
        for n in names:
            HANDLERS[n] = f
        return f
    return deco


def Dead():
    from .interp import Dead as D
    return D()


def by_prefix(pre, last):
    if pre.startswith("astra"):
        return astra
    if pre == "str":
        return str_method
    if pre == "path":
        return path_method
    if pre in ("h5file", "group", "dset", "file", "pil", "obj", "ctx"):
        return obj_method
    return None


# ------------------------------------------------------------------ paths
def pb_of(v):
    """Base identities of a path value."""
    s = frozenset(t[1] for t in v.tags if isinstance(t, tuple) and
                  t[0] == "pb")
    return s or frozenset([v.vn])


KEEP = ("pb", "dep", "user", "own", "unsorted")


def ptags(v, *extra):
    """Tags a derived path inherits."""
    if not isinstance(v, (StrVal, Top)):
        return frozenset(extra)
    return frozenset(t for t in v.tags if isinstance(t, tuple) and
                     t[0] in KEEP) | frozenset(extra)


def as_path(v):
    if not isinstance(v, StrVal):
        return v
    tg = v.tags | {"path"}
    if not any(isinstance(t, tuple) and t[0] == "pb" for t in tg):
        tg = tg | {("pb", v.vn)}
    return StrVal(v.vals, v.vn, tg)


def as_str(v):
    return StrVal(v.vals, v.vn, frozenset(t for t in v.tags if t != "path"))


def split_suffix(v):
    """(stem value, suffix value) of a path string."""
    if v.const() is not None:
        a, b = os.path.splitext(v.const())
        return strv(a, ptags(v)), strv(b)
    if v.vals is not None:
        sp = [os.path.splitext(x) for x in v.vals]
        return (StrVal(frozenset(a for a, _ in sp), VN("stem", v.vn),
                       ptags(v)),
                StrVal(frozenset(b for _, b in sp), VN("suffix", v.vn)))
    if v.vn in NOSUF:
        return v, strv("")
    ps = parts_of(v)
    last = ps[-1]
    if last[0] == "const":
        base = last[1].rsplit("/", 1)[-1]
        if "." in base.lstrip(".") or ("." in base and len(ps) > 1 and
                                       "/" not in last[1]):
            i = last[1].rfind(".")
            stem = mkstr(ps[:-1] + (("const", last[1][:i]),), ptags(v))
            return stem, strv(last[1][i:])
        if "/" in last[1]:
            return v, strv("")
    if last[0] == "num" and not any(
            p[0] != "num" and p[0] != "const" for p in ps):
        return v, strv("")
    return (StrVal(None, VN("stem", v.vn), ptags(v)),
            StrVal(None, VN("suffix", v.vn)))


def suffix_of(v):
    s = v
    if v.vn in NOSUF:
        return strv("")
    if "path" in v.tags and isinstance(v.const(), str):
        return strv(pathlib.PurePosixPath(v.const()).suffix)
    return split_suffix(v)[1]


def parent_of(v):
    if isinstance(v, StrVal) and ("own", v.vn) in v.tags:
        # the folder that holds an own folder is not own
        v = StrVal(v.vals, v.vn, v.tags - {("own", v.vn)})
    if v.const() is not None:
        return StrVal(frozenset([str(pathlib.PurePosixPath(
            v.const()).parent)]), tags=ptags(v, "path", "isparent"))
    ps = parts_of(v)
    ps = list(ps)
    while ps:
        last = ps[-1]
        if last[0] == "const" and "/" in last[1].rstrip("/"):
            head = last[1].rstrip("/").rsplit("/", 1)[0]
            nw = mkstr(tuple(ps[:-1]) + ((("const", head),) if head else ()),
                       ptags(v, "path", "isparent"))
            return StrVal(nw.vals, nw.vn, ptags(v, "path", "isparent"))
        if last[0] in ("const", "num") and len(ps) > 1:
            ps.pop()
            continue
        break
    return StrVal(None, VN("parent", v.vn), ptags(v, "path", "isparent"))


def name_of(v):
    if v.const() is not None:
        return strv(pathlib.PurePosixPath(v.const()).name)
    return StrVal(None, VN("name", v.vn), ptags(v))


def path_join(I, vs, st):
    ps = ()
    tags = frozenset(["path"])
    for i, v in enumerate(vs):
        if isinstance(v, Union):
            a = [x for x in v.alts if isinstance(x, StrVal)]
            v = a[0] if len(a) == 1 else StrVal(None, I.vnum(st, v))
        if not isinstance(v, StrVal):
            v = StrVal(None, I.vnum(st, v), ptags(v))
        if i == 0:
            tags |= ptags(as_path(v))
            if "isparent" not in v.tags:
                tags |= {"child"}
        else:
            tags |= frozenset(t for t in ptags(v) if t[0] != "pb")
        p = parts_of(v)
        if i:
            ps += (("const", "/"),)
        ps += tuple(p)
    r = mkstr(ps)
    return StrVal(r.vals, r.vn, tags)


def nfiles(I):
    t = I.opts.get("tif_shape")
    return t[0] if t else None


def listval(I, st, node, elem, vn, n=None):
    return I.new_list(st, node, ListRec(None, n, elem, vn=vn))


def exists_cond(v):
    return VN("exists", v.vn)


PATH_TESTS = {"exists", "is_file", "is_dir", "isfile", "isdir", "lexists"}


def refine_exists(I, test, truth, st):
    """os.path.isfile(p), Path(p).exists(): remember the outcome."""
    f = test.func
    if not isinstance(f, ast.Attribute) or f.attr not in PATH_TESTS:
        return generic_cond(I, test, truth, st)
    if test.args:
        arg = test.args[0]
    else:
        arg = f.value
    v = I.eval(arg, st)
    if not isinstance(v, StrVal):
        return generic_cond(I, test, truth, st)
    c = exists_cond(v)
    if (c, not truth) in st.conds:
        return None
    st.conds = st.conds + ((c, truth),)
    if truth:
        mark_dir(st, v)
    else:
        st.conds = st.conds + ((VN("gone", v.vn), True),)
        if isinstance(arg, ast.Name) and f.attr in ("exists", "isfile",
                                                    "is_file"):
            st.env[arg.id] = StrVal(v.vals, v.vn, v.tags | {"fresh"})
    return st


def generic_cond(I, test, truth, st):
    v = I.eval(test, st)
    c = I.vnum(st, v)
    if (c, not truth) in st.conds:
        return None
    st.conds = st.conds + ((c, truth),)
    return st


def mark_dir(st, v):
    """Directory v is known to exist."""
    lv = "mkp" if "isparent" in v.tags else "mks"
    for b in pb_of(v):
        st.conds = st.conds + ((VN(lv, b), True),)
    st.conds = st.conds + ((VN("mks", v.vn), True),)


def dir_known(st, v):
    """Is the folder that will hold file v known to exist?"""
    cs = set(st.conds)
    lv = "mks" if "child" in v.tags else "mkp"
    if any((VN(lv, b), True) in cs for b in pb_of(v)):
        return True
    # directly below a folder that was created
    p = parent_of(v)
    return (VN("mks", p.vn), True) in cs or any(
        c[1] is True and c[0] in (VN("mks", p.vn),) for c in cs)


def do_mkdir(I, v, st, node, how, parents, exist_ok):
    I.emit("mkdir", node, st, path=v, how=how, parents=parents,
           exist_ok=exist_ok.b if isinstance(exist_ok, BoolVal) else None,
           known=known_exists(v, st) if isinstance(v, StrVal) else None,
           up_ok=dir_known(st, v) if isinstance(v, StrVal) else None)
    if isinstance(v, StrVal):
        if known_exists(v, st) is False or "fresh" in v.tags:
            made(I, v, st, node)
        lv = []
        if "isparent" in v.tags:
            lv.append("mkp")
        if "isparent" not in v.tags or "maybeself" in v.tags:
            lv.append("mks")
        for b in pb_of(v):
            for x in lv:
                st.conds = st.conds + ((VN(x, b), True),)
        st.conds = st.conds + ((VN("mks", v.vn), True),)


def made(I, v, st, node):
    """The call itself created this file or folder."""
    gone = (VN("gone", v.vn), True)
    st.conds = tuple(c for c in st.conds if c != gone) + (
        (VN("made", v.vn), True),)


def delete(I, v, st, node, how):
    own = False
    if isinstance(v, StrVal):
        own = "fresh" in v.tags or any(
            isinstance(t, tuple) and t[0] == "own" for t in v.tags)
        ps = parts_of(v)
        vns = {v.vn} | {mkstr(ps[:i]).vn for i in range(1, len(ps))}
        own = own or any((VN("made", x), True) in st.conds for x in vns)
    I.emit("delete", node, st, path=v, how=how, own=own)
    if isinstance(v, StrVal):
        st.conds = st.conds + ((VN("gone", v.vn), True),)


@h("tempfile.mkdtemp", "tempfile.mkstemp")
def mk_temp(I, f, n, args, kw, st, node):
    I.emit("nondet", node, st, name=n)
    d = kw.get("dir", args[2] if len(args) > 2 else None)
    vn = VN("tmp", node.lineno, node.col_offset, I.ctx)
    tags = frozenset(["fresh", "tmp", ("own", vn)]) | (
        ptags(d) if isinstance(d, StrVal) else frozenset())
    v = StrVal(None, vn, frozenset(
        t for t in tags if not (isinstance(t, tuple) and t[0] == "pb")) |
        {("pb", vn)})
    made(I, v, st, node)
    I.emit("tempmade", node, st, path=v, how=n)
    if n == "tempfile.mkdtemp":
        st.conds = st.conds + ((VN("mks", vn), True), (VN("mkp", vn), True))
        return v
    return Tup([Num(named_opaque("fd%d" % vn), isint=True), v])


@h("tempfile.TemporaryDirectory")
def temp_dir(I, f, n, args, kw, st, node):
    v = mk_temp(I, f, "tempfile.mkdtemp", args, kw, st, node)
    return I.new_obj(st, node, ObjRec("tmpdir", (("name", v),),
                                      VN("tmpdir", v.vn)))


def known_exists(v, st):
    c = exists_cond(v)
    for t in (True, False):
        if (c, t) in st.conds:
            return t
    return None


# ------------------------------------------------------- string attributes
CONST_STR = {"lower", "upper", "strip", "lstrip", "rstrip", "startswith",
             "endswith", "title", "isdigit", "zfill", "rjust", "ljust",
             "find", "count", "capitalize", "isalpha", "isnumeric"}


def str_attr(I, b, name, st, node):
    if "path" in b.tags:
        if name == "suffix":
            return suffix_of(b)
        if name == "stem":
            s = split_suffix(b)[0]
            if s.const() is not None:
                return strv(pathlib.PurePosixPath(b.const()).stem)
            return StrVal(None, VN("stemname", b.vn), ptags(b))
        if name == "name":
            return name_of(b)
        if name == "parent":
            return parent_of(b)
        if name in ("parts", "parents", "anchor", "root", "drive"):
            return Top(VN("pathattr", b.vn, name))
        return Func("path." + name, self_=b)
    return Func("str." + name, self_=b)


def path_method(I, f, n, args, kw, st, node):
    b = f.self_
    m = n.split(".")[1]
    if m in ("resolve", "absolute", "expanduser"):
        return StrVal(b.vals, b.vn, b.tags)
    if m in ("as_posix", "__str__", "__fspath__"):
        return as_str(b)
    if m in ("exists", "is_file", "is_dir"):
        k = known_exists(b, st)
        if k is not None:
            return BoolVal(k)
        return BoolVal(None, VN("exists", b.vn))
    if m == "with_suffix":
        stem, _ = split_suffix(b)
        s = args[0]
        r = mkstr(parts_of(stem) + (parts_of(s) if isinstance(s, StrVal)
                                    else (("str", I.vnum(st, s)),)))
        return StrVal(r.vals, r.vn, ptags(b, "path") | frozenset(
            t for t in b.tags if t == "child"))
    if m in ("with_name", "with_stem"):
        return path_join(I, [parent_of(b), args[0]], st)
    if m == "joinpath":
        return path_join(I, [b] + list(args), st)
    if m == "mkdir":
        pa = kw.get("parents", args[1] if len(args) > 1 else FALSE)
        do_mkdir(I, b, st, node, "mkdir",
                 pa.b if isinstance(pa, BoolVal) else None,
                 kw.get("exist_ok", args[2] if len(args) > 2 else FALSE))
        return NONE
    if m in ("glob", "rglob", "iterdir"):
        pat = args[0] if args else strv("*")
        vn = VN("glob", b.vn, I.vnum(st, pat))
        el = StrVal(None, VN("globelem", vn),
                    ptags(b, "path", ("unsorted", "glob")))
        I.emit("glob", node, st, path=b, pattern=pat)
        return listval(I, st, node, el, VN("unsorted", vn), nfiles(I))
    if m in ("unlink", "rmdir"):
        delete(I, b, st, node, m)
        return NONE
    if m in ("rename", "replace"):
        delete(I, b, st, node, m)
        dst = argstr(I, args, st)
        I.emit("fwrite", node, st, path=dst, how=m, dir_ok=dir_known(st, dst))
        return as_path(dst)
    if m == "open":
        return do_open(I, b, args[0] if args else kw.get("mode"), st, node)
    if m in ("write_text", "write_bytes"):
        I.emit("fwrite", node, st, path=b, how=m, dir_ok=dir_known(st, b))
        return NONE
    if m in ("read_text", "read_bytes"):
        I.emit("fread", node, st, path=b)
        return StrVal(None, VN("text", b.vn))
    if m == "stat":
        return Top(VN("stat", b.vn))
    return Top(VN("path", m, b.vn))


def str_method(I, f, n, args, kw, st, node):
    b = f.self_
    m = n.split(".")[1]
    cargs = [a.const() if isinstance(a, (StrVal, Num)) else None
             for a in args]
    cargs = [int(x) if x is not None and not isinstance(x, str) else x
             for x in cargs]
    if b.vals is not None and len(b.vals) <= 6 and None not in cargs and \
            not kw:
        if m in CONST_STR or m in ("replace",):
            try:
                rs = {getattr(x, m)(*cargs) for x in b.vals}
            except Exception:
                rs = None
            if rs is not None:
                if all(isinstance(x, str) for x in rs):
                    return StrVal(frozenset(rs), VN("sm", m, b.vn,
                                                    tuple(cargs)), b.tags)
                if len(rs) == 1:
                    x = rs.pop()
                    if isinstance(x, bool):
                        return BoolVal(x)
                    return num(x)
    if m == "format":
        return do_format(I, b, args, kw, st)
    if m == "zfill" and args and isinstance(args[0], Num):
        ps = parts_of(b)
        if len(ps) == 1 and ps[0][0] == "num" and \
                args[0].const() is not None:
            vn = VN("zfill", b.vn, args[0].vnum)
            STRPARTS[vn] = (("num", ps[0][1], "0%d" % int(args[0].const()),
                             ps[0][3]),)
            return StrVal(None, vn)
    if m in ("rjust",) and len(args) == 2:
        ps = parts_of(b)
        if len(ps) == 1 and ps[0][0] == "num" and cargs[0] is not None:
            vn = VN("rjust", b.vn, cargs[0])
            STRPARTS[vn] = (("num", ps[0][1], "0%d" % cargs[0], ps[0][3]),)
            return StrVal(None, vn)
    vn = VN("sm", m, b.vn, tuple(I.vnum(st, a) for a in args))
    if m in ("startswith", "endswith", "isdigit", "isalpha", "isnumeric"):
        if m == "endswith" and cargs and isinstance(cargs[0], str):
            last = parts_of(b)[-1]
            if last[0] == "const" and len(last[1]) >= len(cargs[0]):
                return BoolVal(last[1].endswith(cargs[0]))
        return BoolVal(None, vn)
    if m in ("find", "count", "index", "rfind", "rindex"):
        return Num(named_opaque("sm%d" % vn), isint=True, ispy=True)
    if m in ("split", "rsplit", "splitlines"):
        el = StrVal(None, VN("el", vn), ptags(b))
        return listval(I, st, node, el, vn)
    if m == "join":
        v = args[0]
        if isinstance(v, Ref) and isinstance(st.heap.get(v.id), ListRec):
            r = st.heap[v.id]
            if r.elts is not None and all(isinstance(x, StrVal)
                                          for x in r.elts):
                ps = ()
                for i, x in enumerate(r.elts):
                    if i:
                        ps += parts_of(b)
                    ps += parts_of(x)
                return mkstr(ps)
        return StrVal(None, vn)
    if m in ("lower", "upper", "strip", "lstrip", "rstrip", "replace",
             "title", "capitalize", "ljust", "center", "expandtabs"):
        if m in ("rstrip", "strip") and cargs == ["/"]:
            ps = parts_of(b)
            if ps[-1][0] == "str" and len(ps) == 1:
                return StrVal(None, b.vn, b.tags)
        return StrVal(None, vn, ptags(b))
    if m in ("encode", "decode"):
        return Top(vn)
    return Top(vn)


def do_format(I, b, args, kw, st):
    import string
    c = b.const()
    if c is None:
        return StrVal(None, VN("format", b.vn, tuple(
            I.vnum(st, a) for a in args)))
    ps, auto = [], 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(c):
            if lit:
                ps.append(strv(lit))
            if field is None:
                continue
            if field == "":
                v = args[auto]
                auto += 1
            elif field.isdigit():
                v = args[int(field)]
            elif field in kw:
                v = kw[field]
            else:
                return StrVal(None, VN("format", b.vn, tuple(
                    I.vnum(st, a) for a in args)))
            if spec and "{" in spec:
                spec = "?"
            ps.append(M.fmt_value(I, v, spec or None, st))
    except (ValueError, IndexError):
        return StrVal(None, VN("format", b.vn, tuple(
            I.vnum(st, a) for a in args)))
    return M.str_concat(I, ps, st)


# ------------------------------------------------------------- os, shutil
@h("pathlib.Path", "pathlib.PurePath", "pathlib.PosixPath")
def mk_path(I, f, n, args, kw, st, node):
    if not args:
        return as_path(strv("."))
    v = args[0]
    if isinstance(v, Union):
        a = [x for x in v.alts if isinstance(x, StrVal)]
        v = a[0] if a else v
    if isinstance(v, NoneVal):
        I.emit("none_use", node, st, how="Path", val=v)
        raise Dead()
    if len(args) > 1:
        return path_join(I, args, st)
    if isinstance(v, StrVal):
        return as_path(v)
    return as_path(StrVal(None, I.vnum(st, v), ptags(v)))


def argstr(I, args, st):
    v = args[0]
    if isinstance(v, Union):
        a = [x for x in v.alts if isinstance(x, StrVal)]
        if a:
            return a[0]
    if isinstance(v, StrVal):
        return v
    return StrVal(None, I.vnum(st, v), ptags(v))


@h("os.path.exists", "os.path.isfile", "os.path.isdir", "os.path.lexists")
def os_exists(I, f, n, args, kw, st, node):
    if isinstance(args[0], NoneVal):
        I.emit("none_use", node, st, how=n, val=args[0])
        raise Dead()
    v = argstr(I, args, st)
    k = known_exists(v, st)
    if k is not None:
        return BoolVal(k)
    return BoolVal(None, VN("exists", v.vn))


@h("os.path.splitext")
def os_splitext(I, f, n, args, kw, st, node):
    if isinstance(args[0], NoneVal):
        I.emit("none_use", node, st, how=n, val=args[0])
        raise Dead()
    return Tup(split_suffix(argstr(I, args, st)))


@h("os.path.join")
def os_join(I, f, n, args, kw, st, node):
    r = path_join(I, args, st)
    return as_str(r)


@h("os.path.dirname")
def os_dirname(I, f, n, args, kw, st, node):
    return as_str(parent_of(argstr(I, args, st)))


@h("os.path.basename")
def os_basename(I, f, n, args, kw, st, node):
    return name_of(argstr(I, args, st))


@h("os.path.split")
def os_split(I, f, n, args, kw, st, node):
    v = argstr(I, args, st)
    return Tup([as_str(parent_of(v)), name_of(v)])


@h("os.path.abspath", "os.path.realpath", "os.path.normpath", "os.fspath",
   "os.path.expanduser")
def os_abs(I, f, n, args, kw, st, node):
    return as_str(argstr(I, args, st))


@h("os.path.getsize")
def os_getsize(I, f, n, args, kw, st, node):
    v = argstr(I, args, st)
    return Num(named_opaque("fsize%d" % v.vn), ZERO, None, True)


@h("os.makedirs", "os.mkdir")
def os_mkdir(I, f, n, args, kw, st, node):
    many = n == "os.makedirs"
    eo = kw.get("exist_ok", args[2] if many and len(args) > 2 else FALSE)
    do_mkdir(I, argstr(I, args, st), st, node, n, many, eo)
    return NONE


@h("numpy.save", "numpy.savetxt", "numpy.savez", "numpy.savez_compressed")
def np_save(I, f, n, args, kw, st, node):
    path = argstr(I, args, st)
    I.emit("fwrite", node, st, path=path, how=n, mode="w",
           dir_ok=dir_known(st, path))
    return NONE


@h("os.remove", "os.unlink", "os.rmdir", "shutil.rmtree", "os.removedirs")
def os_remove(I, f, n, args, kw, st, node):
    delete(I, argstr(I, args, st), st, node, n)
    return NONE


@h("os.rename", "os.replace", "shutil.move", "shutil.copy",
   "shutil.copyfile", "shutil.copytree")
def os_move(I, f, n, args, kw, st, node):
    if "copy" not in n:
        delete(I, argstr(I, args, st), st, node, n)
    dst = argstr(I, args[1:], st)
    I.emit("fwrite", node, st, path=dst, how=n, dir_ok=dir_known(st, dst))
    return NONE


@h("os.listdir", "os.scandir", "glob.glob", "glob.iglob")
def os_list(I, f, n, args, kw, st, node):
    v = argstr(I, args, st) if args else strv(".")
    vn = VN("glob", v.vn)
    I.emit("glob", node, st, path=v, pattern=v)
    return listval(I, st, node, StrVal(None, VN("globelem", vn),
                                         ptags(v, ("unsorted", "glob"))),
                   VN("unsorted", vn), nfiles(I))


# ---------------------------------------------------------------- handles
def fsrec(st, path):
    return st.heap.get(VN("fs", path.vn))


def mk_handle(I, st, node, cls, path, mode):
    vn = VN("handle", cls, path.vn)
    b = I.new_obj(st, node, ObjRec(cls, (
        ("path", path), ("open", TRUE), ("mode", mode)), vn))
    I.emit("hopen", node, st, ref=b, cls=cls)
    return b


def mode_of(v):
    if isinstance(v, StrVal):
        return v.const()
    return None


@h("h5py.File")
def h5_file(I, f, n, args, kw, st, node):
    path = argstr(I, args, st) if args else argstr(I, [kw["name"]], st)
    mv = args[1] if len(args) > 1 else kw.get("mode", strv("r"))
    mode = mode_of(mv)
    if mode is None or mode != "r":
        I.emit("fwrite", node, st, path=path, how="h5py.File",
               mode=mode, dir_ok=dir_known(st, path))
    else:
        I.emit("fread", node, st, path=path)
    may_fail(I, st, node, "OSError")
    return mk_handle(I, st, node, "h5file", path, mv)


def may_fail(I, st, node, exc):
    """An external call may raise: that path leaves the function."""
    if I.opts.get("io_fail"):
        I.exc_out[-1].append((exc, st.copy(), node))


@h("builtins.open", "io.open")
def b_open(I, f, n, args, kw, st, node):
    path = argstr(I, args, st)
    return do_open(I, path, args[1] if len(args) > 1 else kw.get("mode"), st,
                   node)


def do_open(I, path, mv, st, node):
    mode = mode_of(mv) if mv is not None else "r"
    if mode is None or any(ch in mode for ch in "wax+"):
        I.emit("fwrite", node, st, path=path, how="open", mode=mode,
               dir_ok=dir_known(st, path))
    else:
        I.emit("fread", node, st, path=path)
    may_fail(I, st, node, "OSError")
    return mk_handle(I, st, node, "file", path, strv(mode or "?"))


@h("PIL.Image.open")
def pil_open(I, f, n, args, kw, st, node):
    path = argstr(I, args, st)
    I.emit("fread", node, st, path=path)
    may_fail(I, st, node, "OSError")
    return I.new_obj(st, node, ObjRec("pil", (("path", path),),
                                      VN("pil", path.vn)))


@h("PIL.Image.fromarray")
def pil_from(I, f, n, args, kw, st, node):
    o = op_of(I, args[0], st)
    return I.new_obj(st, node, ObjRec("pilimg", (("data", args[0]),),
                                      VN("pilimg", o.vn)))


def img_shape(I):
    if I.opts.get("tif_shape"):
        return I.opts["tif_shape"][1:]
    for nm in ("imgH", "imgW"):
        if nm not in S.SYMS:
            S.declare(nm, 8, INF, True)
    return (Poly.atom(("s", "imgH")), Poly.atom(("s", "imgW")))


def h5_shape(I, path, key):
    cb = I.opts.get("h5_shape")
    if cb is not None:
        r = cb(path, key)
        if r is not None:
            return r
    c = key.const() if isinstance(key, StrVal) else None
    for nm in ("hD", "hH", "hW"):
        if nm not in S.SYMS:
            S.declare(nm, 3 if nm == "hD" else 8, INF, True)
    if c is not None and "image_key" in c:
        return (Poly.atom(("s", "hD")),)
    if isinstance(key, StrVal) and (
            ("user", "image_key") in key.tags or any(
                isinstance(t, tuple) and t[0] == "has" and
                "image_key" in t[1] for t in key.tags)):
        return (Poly.atom(("s", "hD")),)
    return tuple(Poly.atom(("s", nm)) for nm in ("hD", "hH", "hW"))


def mk_dset(I, st, node, shape, vn, fid, tag="", dtype="f4", tags=None):
    i = I.alloc_id(node, "dsetarr" + tag)
    st.heap[i] = ArrRec(shape, dtype, vn=vn,
                        tags=frozenset(["dset", "meas"]) if tags is None
                        else tags)
    a = Ref(i, "arr")
    attrs = (("arr", a), ("shape", Tup(
        Num(d, isint=True, ispy=True) for d in shape)))
    if fid is not None:
        attrs += (("file", fid),)
    return I.new_obj(st, node, ObjRec("dset", attrs, vn), "dset" + tag)


def obj_sub(I, b, r, idx, st, node):
    if r.cls in ("h5file", "group"):
        path = r.get("path")
        key = idx if isinstance(idx, StrVal) else StrVal(
            None, I.vnum(st, idx))
        use_open(I, b, r, st, node)
        fid = b if r.cls == "h5file" else r.get("file")
        vn = VN("h5", path.vn if path is not None else r.vn, key.vn)
        fs = fsrec(st, path) if path is not None else None
        if fs is not None:
            d = fs.get(str(key.vn))
            if d is not None:
                shape = tuple(x.sym for x in d.elts)
                return mk_dset(I, st, node, shape, vn, fid)
        d = mk_dset(I, st, node, h5_shape(I, path, key), vn, fid)
        st.heap[d.id] = st.heap[d.id].set("key", key)
        return d
    if r.cls == "dset":
        fid = r.get("file")
        if isinstance(fid, Ref) and isinstance(st.heap.get(fid.id), ObjRec):
            use_open(I, fid, st.heap[fid.id], st, node)
        a = r.get("arr")
        if not isinstance(a, Ref):
            return Top(VN("dsub", r.vn, I.vnum(st, idx)))
        ar = st.heap.get(a.id)
        full = is_full(I, idx, ar, st)
        v = M.subscript(I, a, idx, st, node, tag="ds")
        rr = st.heap.get(v.id) if isinstance(v, Ref) else None
        I.emit("dset_read", node, st, ref=b, idx=idx, full=full,
               shape=ar.shape, key=r.get("key"), arr=a.id,
               out=rr.shape if isinstance(rr, ArrRec) else None,
               file=file_vn(r, st))
        if isinstance(v, Ref):
            rr = st.heap.get(v.id)
            if isinstance(rr, ArrRec):
                st.heap[v.id] = rr.upd(
                    roots=frozenset(), parent=None, view=None,
                    tags=rr.tags - {"dset"})
        return v
    if r.cls == "repo":
        m = repo_method(I, r, "__getitem__")
        if m is not None:
            return I.call(Func(m, self_=b), [idx], {}, st, node)
    return Top(VN("osub", r.vn, I.vnum(st, idx)))


def file_vn(r, st):
    """Value number of the path of the file a dataset lives in."""
    fid = r.get("file")
    fr = st.heap.get(fid.id) if isinstance(fid, Ref) else None
    p = fr.get("path") if isinstance(fr, ObjRec) else None
    return p.vn if p is not None else None


def is_full(I, idx, ar, st):
    """Does this subscript read the complete dataset?"""
    items = M.index_list(idx)
    if ar.shape is None:
        return None
    if len(ar.shape) < 3:
        return False
    i = 0
    for x in items:
        if M.is_ellipsis(x):
            return len(items) == 1
        if isinstance(x, SliceVal):
            if i < len(ar.shape):
                a, cnt, stp = M.slice_bounds(I, x, ar.shape[i], st)
                if cnt is None or cnt != ar.shape[i]:
                    return False
        else:
            return False
        i += 1
    return True


def use_open(I, b, r, st, node):
    o = r.get("open")
    if isinstance(o, BoolVal) and o.b is False:
        I.emit("closed_use", node, st, ref=b)


def obj_store(I, b, r, idx, v, st, node, aug):
    if r.cls == "dset":
        a = r.get("arr")
        I.emit("dset_write", node, st, ref=b, idx=idx, value=v,
               arr=a.id if isinstance(a, Ref) else None,
               file=file_vn(r, st))
        fid = r.get("file")
        if isinstance(fid, Ref) and isinstance(st.heap.get(fid.id), ObjRec):
            use_open(I, fid, st.heap[fid.id], st, node)
        if isinstance(a, Ref):
            M.store_sub(I, a, idx, v, st, node, aug)
        return
    if r.cls == "repo":
        m = repo_method(I, r, "__setitem__")
        if m is not None:
            I.call(Func(m, self_=b), [idx, v], {}, st, node)
            return
    I.mutate(st, b, node, "[]=")


def obj_attr(I, b, r, name, st, node):
    if r.cls == "dset":
        a = r.get("arr")
        if name == "shape":
            return r.get("shape")
        if name == "ndim":
            sh = r.get("shape")
            return num(len(sh.elts)) if isinstance(sh, Tup) else Top(
                VN("ndim", r.vn))
        if name == "size" and isinstance(a, Ref):
            return M.attr(I, a, "size", st, node)
        if name == "dtype":
            return Top(VN("dtype", r.vn))
        if name == "name":
            return StrVal(None, VN("dsname", r.vn))
        if name == "file":
            return r.get("file") or Top(VN("dsfile", r.vn))
        if name in ("len", "close", "astype", "read_direct", "resize",
                    "flush"):
            return Func("dset." + name, self_=b)
        if name == "nbytes":
            return Num(named_opaque("nbytes%d" % r.vn), ONE, None, True)
        return Top(VN("dsattr", r.vn, name))
    if r.cls == "tmpdir":
        return r.get("name") if name == "name" else Func(
            "obj." + name, self_=b)
    if r.cls in ("h5file", "group", "file", "ctx"):
        if name == "closed":
            return Top(VN("closed", r.vn))
        if name in ("name", "filename"):
            return r.get("path") or Top(VN("hname", r.vn))
        return Func(r.cls + "." + name, self_=b)
    if r.cls in ("pil", "pilimg"):
        if name == "size":
            hh, ww = img_shape(I)
            return Tup([Num(ww, isint=True, ispy=True),
                        Num(hh, isint=True, ispy=True)])
        if name == "mode":
            return StrVal(None, VN("pilmode", r.vn))
        return Func("pil." + name, self_=b)
    if r.cls == "repo":
        v = r.get(name)
        if v is not None:
            return v
        m = repo_method(I, r, name)
        if m is not None:
            if "property" in m.decorators:
                return I.call(Func(m, self_=b), [], {}, st, node)
            return Func(m, self_=b)
        return Top(VN("rattr", r.vn, name))
    v = r.get(name)
    if v is not None:
        return v
    if r.cls == "spline" or r.cls.startswith("interp"):
        return Func("obj." + name, self_=b)
    return Func("obj." + name, self_=b)


def repo_method(I, r, name):
    cls = r.get("__class__")
    if isinstance(cls, Func) and isinstance(cls.fn, tuple):
        _, mod, cname = cls.fn
        m = I.p.modules.get(mod)
        if m is not None and cname in m.classes:
            return m.classes[cname][1].get(name)
    return None


def make_instance(I, fn_, args, kwargs, st, node, star):
    _, mod, cname = fn_
    m = I.p.modules.get(mod)
    if m is None or cname not in m.classes:
        return Top(VN("inst", mod, cname))
    b = I.new_obj(st, node, ObjRec("repo", (("__class__", Func(fn_)),),
                                   VN("inst", mod, cname, tuple(
                                       I.vnum(st, a) for a in args))))
    init = m.classes[cname][1].get("__init__")
    if init is not None:
        I.call(Func(init, self_=b), args, kwargs, st, node, star)
    return b


def closeh(I, b, st, node):
    r = st.heap.get(b.id)
    if isinstance(r, ObjRec):
        I.emit("close", node, st, ref=b)
        st.heap[b.id] = r.set("open", FALSE)


def obj_method(I, f, n, args, kw, st, node):
    b = f.self_
    cls, m = n.split(".", 1)
    r = st.heap.get(b.id) if isinstance(b, Ref) else None
    if r is None:
        return Top(VN("om", n))
    if m in ("close", "__exit__"):
        closeh(I, b, st, node)
        return NONE
    if cls in ("h5file", "group"):
        path = r.get("path")
        if m in ("create_dataset", "require_dataset"):
            return create_dataset(I, b, r, args, kw, st, node)
        if m in ("create_group", "require_group"):
            return I.new_obj(st, node, ObjRec("group", (
                ("path", path), ("file", b)), VN("group", r.vn)))
        if m in ("keys", "values", "items"):
            vn = VN("h5keys", r.vn, m)
            k = StrVal(None, VN("h5key", r.vn))
            if m == "keys":
                return listval(I, st, node, k, vn)
            v = Top(VN("h5val", r.vn))
            return listval(I, st, node, v if m == "values" else Tup([k, v]),
                           vn)
        if m in ("visit", "visititems"):
            if args and isinstance(args[0], Func):
                k = StrVal(None, VN("h5key", r.vn))
                if args[0].fn == "list.append":
                    lr = args[0].self_
                    if isinstance(lr, Ref):
                        st.heap[lr.id] = ListRec(None, None, k, frozenset(),
                                                 VN("visited", r.vn))
                else:
                    aa = [k] if m == "visit" else [k, Top(VN("h5val", r.vn))]
                    I.call(args[0], aa, {}, st, node)
            return NONE
        if m == "get":
            return obj_sub(I, b, r, args[0], st, node)
        if m == "flush":
            return NONE
        return Top(VN("h5m", m, r.vn))
    if cls == "file":
        path = r.get("path")
        use_open(I, b, r, st, node)
        if m in ("read", "readline"):
            return StrVal(None, VN("text", path.vn))
        if m == "readlines":
            return listval(I, st, node, StrVal(None, VN("line", path.vn)),
                           VN("lines", path.vn))
        if m in ("write", "writelines"):
            return NONE
        return Top(VN("fm", m))
    if cls == "dset":
        if m == "len":
            sh = r.get("shape")
            return sh.elts[0]
        if m == "astype":
            return b
        return NONE
    if cls == "pil":
        if m == "save":
            path = argstr(I, args, st)
            I.emit("fwrite", node, st, path=path, how="image.save",
                   mode="w", dir_ok=dir_known(st, path),
                   data=r.get("data"), data_vn=I.vnum(st, r.get("data")))
            may_fail(I, st, node, "OSError")
            return NONE
        if m in ("load", "seek", "verify"):
            return NONE
        return Top(VN("pil", m, r.vn))
    if cls == "ctx":
        return NONE
    if cls == "obj":
        if r.cls == "tmpdir" and m == "cleanup":
            delete(I, r.get("name"), st, node, "TemporaryDirectory")
            return NONE
        if r.cls == "deque":
            return Top(VN("dq", m))
        from . import npmodel
        if m in ("ev",) or r.cls in ("spline",):
            return npmodel.spline_call(I, b, r, args, kw, st, node, m)
    return Top(VN("om", n, r.vn))


def create_dataset(I, b, r, args, kw, st, node):
    key = args[0] if args else kw.get("name", NONE)
    key = key if isinstance(key, StrVal) else StrVal(None, I.vnum(st, key))
    shv = args[1] if len(args) > 1 else kw.get("shape")
    data = kw.get("data", args[3] if len(args) > 3 else None)
    path = r.get("path")
    vn = VN("newdset", path.vn if path is not None else r.vn, key.vn)
    shape = None
    if shv is not None:
        from . import npmodel
        shape = npmodel.shape_arg(I, shv, st)
    elif data is not None:
        o = op_of(I, data, st)
        shape = o.shape
        vn = VN("dsetof", o.vn)
    I.emit("create_dataset", node, st, file=b, key=key, shape=shape,
           data=data)
    if shape is None or any(d is None for d in shape):
        return I.new_obj(st, node, ObjRec("dset", (
            ("file", b), ("arr", I.new_arr(st, node, ArrRec(
                None, "f4", vn=vn, tags=frozenset(["dset"])), "cd"))), vn),
            "cd2")
    d = mk_dset(I, st, node, tuple(shape), vn, b, "cd",
                tags=frozenset(["dset"]))
    if path is not None:
        i = VN("fs", path.vn)
        fs = st.heap.get(i)
        if not isinstance(fs, ObjRec):
            fs = ObjRec("fs", (), i)
        st.heap[i] = fs.set(str(key.vn), Tup(Num(x, isint=True)
                                             for x in shape))
    return d


def obj_to_array(I, v, r, st, node, n, kw):
    """np.asarray / np.array / reductions of a file-backed object."""
    if r.cls == "dset":
        a = r.get("arr")
        ar = st.heap.get(a.id) if isinstance(a, Ref) else None
        if ar is None:
            return Top(VN("dsarr", r.vn))
        I.emit("dset_read", node, st, ref=v, idx=None,
               full=None if ar.shape is None else len(ar.shape) >= 3,
               shape=ar.shape, key=r.get("key"), out=ar.shape)
        from . import npmodel
        dt = npmodel.dtype_arg(kw.get("dtype"))
        return I.new_arr(st, node, ar.upd(
            dtype=dt or ar.dtype, roots=frozenset(), parent=None, view=None,
            tags=ar.tags - {"dset"}), "dsfull")
    if r.cls in ("pil",):
        path = r.get("path")
        from . import npmodel
        dt = npmodel.dtype_arg(kw.get("dtype"))
        return I.new_arr(st, node, ArrRec(
            img_shape(I), dt or "?", vn=VN("img", path.vn),
            tags=frozenset(["meas"])))
    if r.cls == "pilimg":
        return r.get("data")
    if r.cls == "repo":
        return Top(VN("repoarr", r.vn))
    return Top(VN("objarr", r.vn))


def call_obj(I, f, args, kwargs, st, node, star):
    from . import npmodel
    r = st.heap.get(f.id)
    if isinstance(r, ObjRec):
        if r.cls == "repo":
            m = repo_method(I, r, "__call__")
            if m is not None:
                return I.call(Func(m, self_=f), args, kwargs, st, node, star)
        return npmodel.spline_call(I, f, r, args, kwargs, st, node,
                                   "__call__")
    return Top(VN("callobj", I.vnum(st, f), tuple(
        I.vnum(st, a) for a in args)))


def enter(I, v, st, node):
    if isinstance(v, Ref):
        r = st.heap.get(v.id)
        if isinstance(r, ObjRec) and r.cls == "repo":
            m = repo_method(I, r, "__enter__")
            if m is not None:
                return I.call(Func(m, self_=v), [], {}, st, node)
        if isinstance(r, ObjRec) and r.cls == "tmpdir":
            return r.get("name")
    return v


def exit_(I, v, st, node):
    for a in alts_of(v):
        if isinstance(a, Ref):
            r = st.heap.get(a.id)
            if isinstance(r, ObjRec) and r.cls in ("h5file", "file", "pil"):
                closeh(I, a, st, node)
            if isinstance(r, ObjRec) and r.cls == "tmpdir":
                delete(I, r.get("name"), st, node, "TemporaryDirectory")


# ------------------------------------------------------------------ astra
def astra(I, f, n, args, kw, st, node):
    vn = VN(n, tuple(I.vnum(st, a) for a in args))
    I.emit("astra", node, st, name=n, args=args)
    if n.endswith(("data2d.create", "create_projector",
                   "algorithm.create", "data3d.create")):
        return I.new_obj(st, node, ObjRec("astra_id", (
            ("open", TRUE), ("what", strv(n))), vn))
    if n.endswith(".delete") and args:
        for a in alts_of(args[0]):
            if isinstance(a, Ref):
                closeh(I, a, st, node)
        return NONE
    if n.endswith("astra_dict"):
        return I.new_dict(st, node, DictRec((), False, vn=vn))
    if n.endswith("data2d.get"):
        return I.new_arr(st, node, ArrRec(None, "f4", vn=vn))
    return Top(vn)
