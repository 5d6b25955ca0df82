"""Source model: modules of the package under analysis, their functions and
imports.  Nothing here imports or runs the analysed code."""
import ast
import os


class FuncInfo:
    __slots__ = ("module", "name", "qualname", "node", "params", "defaults",
                 "vararg", "kwarg", "kwonly", "decorators", "cls", "doc")

    def __init__(self, module, node, cls=None):
        self.module = module
        self.node = node
        self.cls = cls
        self.name = node.name
        self.qualname = (cls + "." if cls else "") + node.name
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        nd = len(a.defaults)
        self.defaults = {}
        for p, d in zip(self.params[len(self.params) - nd:], a.defaults):
            self.defaults[p] = d
        self.kwonly = [x.arg for x in a.kwonlyargs]
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                self.defaults[x.arg] = d
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.decorators = [ast.unparse(d) for d in node.decorator_list]
        self.doc = ast.get_docstring(node)

    @property
    def is_public(self):
        return not self.name.startswith("_")

    @property
    def full(self):
        return self.module.name + "." + self.qualname

    @property
    def short(self):
        return self.module.short + "." + self.qualname

    def kernel_kind(self):
        for d in self.decorators:
            if d.startswith("cuda.jit"):
                return "device" if "device=True" in d.replace(" ", "") else "cuda"
            if d.startswith("jit") or d.startswith("njit") or \
                    d.startswith("numba."):
                return "jit"
        return None

    def __repr__(self):
        return "<fn %s>" % self.short


class Module:
    def __init__(self, name, path, rel):
        self.name = name
        self.path = path
        self.rel = rel
        self.short = name.split(".")[-1]
        with open(path, encoding="utf-8") as f:
            self.source = f.read()
        self.tree = ast.parse(self.source, path)
        self.functions = {}
        self.classes = {}
        self.imports = {}
        self.globals = {}
        self.all_functions = []
        self._index()

    def _index(self):
        for st in ast.walk(self.tree):
            if isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.imports[a.asname] = ("mod", a.name)
                    else:
                        self.imports[a.name.split(".")[0]] = (
                            "mod", a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ""
                if st.level:
                    parts = self.name.split(".")[:-st.level]
                    base = ".".join(parts + ([base] if base else []))
                for a in st.names:
                    self.imports[a.asname or a.name] = ("from", base, a.name)
        for st in self._toplevel(self.tree.body):
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(self, st)
                self.functions[st.name] = fi
                self.all_functions.append(fi)
            elif isinstance(st, ast.ClassDef):
                methods = {}
                for m in st.body:
                    if isinstance(m, ast.FunctionDef):
                        fi = FuncInfo(self, m, cls=st.name)
                        methods[m.name] = fi
                        self.all_functions.append(fi)
                self.classes[st.name] = (st, methods)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.globals[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and st.value is not None:
                if isinstance(st.target, ast.Name):
                    self.globals[st.target.id] = st.value

    def _toplevel(self, body):
        for st in body:
            yield st
            if isinstance(st, (ast.If, ast.Try)):
                for b in (st.body, st.orelse, getattr(st, "finalbody", [])):
                    yield from self._toplevel(b)
                for h in getattr(st, "handlers", []):
                    yield from self._toplevel(h.body)


class Project:
    def __init__(self, repo):
        self.repo = repo
        self.modules = {}
        root = os.path.join(repo, "algotom")
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, repo)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[:-9]
                self.modules[name] = Module(name, p, rel)
        self.all_functions = [f for m in self.modules.values()
                              for f in m.all_functions]

    def by_short(self, short):
        """'removal.remove_blob' -> FuncInfo or None"""
        m, _, f = short.partition(".")
        for mod in self.modules.values():
            if mod.short == m:
                if f in mod.functions:
                    return mod.functions[f]
                if "." in f:
                    c, _, me = f.partition(".")
                    if c in mod.classes and me in mod.classes[c][1]:
                        return mod.classes[c][1][me]
        return None

    def public_functions(self):
        out = []
        for m in self.modules.values():
            for f in m.all_functions:
                if f.cls is None and f.is_public:
                    out.append(f)
        return out

    # -------------------------------------------- mentions (over-approximate)
    def mentions(self, fi):
        """All names that occur in the function or in any function of the
        project whose name occurs there (transitively)."""
        if not hasattr(self, "_men"):
            self._men = {}
            self._byname = {}
            for f in self.all_functions:
                self._byname.setdefault(f.node.name, []).append(f)
            for m in self.modules.values():
                for c, (_, ms) in m.classes.items():
                    self._byname.setdefault(c, []).extend(ms.values())
        if fi in self._men:
            return self._men[fi]
        seen, todo, names = {fi}, [fi], set()
        while todo:
            f = todo.pop()
            for n in ast.walk(f.node):
                x = None
                if isinstance(n, ast.Name):
                    x = n.id
                    g = f.module.globals.get(x)
                    if g is not None:
                        for y in ast.walk(g):
                            if isinstance(y, ast.Name):
                                names.add(y.id)
                                for z in self._byname.get(y.id, ()):
                                    if z not in seen:
                                        seen.add(z)
                                        todo.append(z)
                elif isinstance(n, ast.Attribute):
                    x = n.attr
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for a in n.names:
                        names.update(a.name.split("."))
                if x is not None:
                    names.add(x)
                    imp = f.module.imports.get(x)
                    if imp:
                        for part in imp[1:]:
                            names.update(part.split("."))
                            x2 = part.split(".")[-1]
                            for z in self._byname.get(x2, ()):
                                if z not in seen:
                                    seen.add(z)
                                    todo.append(z)
                    for z in self._byname.get(x, ()):
                        if z not in seen:
                            seen.add(z)
                            todo.append(z)
        self._men[fi] = names
        return names

    def resolve(self, module, name, depth=0):
        """Resolve a module-level name: ('func', FuncInfo) | ('class', ...) |
        ('ext', 'numpy.fft') | ('mod', Module) | ('global', Module, ast) |
        None."""
        if depth > 8:
            return None
        if name in module.functions:
            return ("func", module.functions[name])
        if name in module.classes:
            return ("class", module, name)
        if name in module.imports:
            imp = module.imports[name]
            if imp[0] == "mod":
                if imp[1] in self.modules:
                    return ("mod", self.modules[imp[1]])
                return ("ext", imp[1])
            base, attr = imp[1], imp[2]
            full = base + "." + attr
            if full in self.modules:
                return ("mod", self.modules[full])
            if base in self.modules:
                r = self.resolve(self.modules[base], attr, depth + 1)
                if r:
                    return r
                return None
            return ("ext", full)
        if name in module.globals:
            return ("global", module, name)
        return None
