"""Program model: every analysed module of the ttp package, its functions,
classes, import tables and the plugin registry (the names under which plugin
functions can be called from templates)."""
import ast
import hashlib
import os

REPO = os.environ.get("TSA_REPO", "/repo")


class AnalysisBroken(Exception):
    """An anchor the analysis needs is gone: error exit, never a silent pass."""


class FunctionInfo:
    __slots__ = ("module", "qualname", "name", "node", "cls", "parent", "nested")

    def __init__(self, module, qualname, node, cls=None, parent=None):
        self.module = module
        self.qualname = qualname
        self.name = getattr(node, "name", "<lambda>")
        self.node = node
        self.cls = cls
        self.parent = parent
        self.nested = {}

    @property
    def key(self):
        return "{}:{}".format(self.module.name, self.qualname)

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in (a.posonlyargs + a.args)]

    def __repr__(self):
        return "<fn {}>".format(self.key)


class ClassInfo:
    def __init__(self, module, node):
        self.module = module
        self.node = node
        self.name = node.name
        self.methods = {}
        self.bases = [ast.unparse(b) for b in node.bases]


class Module:
    def __init__(self, name, path, rel):
        self.name = name
        self.path = path
        self.rel = rel
        with open(path, encoding="utf-8") as f:
            self.source = f.read()
        self.tree = ast.parse(self.source, filename=path)
        self.functions = {}
        self.classes = {}
        self.imports = {}      # local name -> dotted external/internal name
        self.assigns = {}      # module level simple assignments name -> last expr
        self.rebound = set()   # module level names assigned more than once
        self.name_map = {}
        self._collect()

    def _collect(self):
        for node in _walk_module_level(self.tree.body):
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions[node.name] = self._fn(node, node.name)
            elif isinstance(node, ast.ClassDef):
                c = ClassInfo(self, node)
                self.classes[node.name] = c
                for m in node.body:
                    if isinstance(m, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        c.methods[m.name] = self._fn(m, node.name + "." + m.name, c)
            elif isinstance(node, ast.Import):
                for a in node.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        self.imports[a.name.split(".")[0]] = a.name.split(".")[0]
            elif isinstance(node, ast.ImportFrom):
                base = resolve_relative(self.name, node)
                for a in node.names:
                    self.imports[a.asname or a.name] = base + "." + a.name
            elif isinstance(node, ast.Assign):
                for t in node.targets:
                    if isinstance(t, ast.Name):
                        if t.id in self.assigns:
                            self.rebound.add(t.id)
                        self.assigns[t.id] = node.value
            elif isinstance(node, ast.AnnAssign) and node.value is not None:
                if isinstance(node.target, ast.Name):
                    self.assigns[node.target.id] = node.value
        for node in ast.walk(self.tree):
            if isinstance(node, ast.Global):
                self.rebound.update(node.names)
        self.fixed = self._never_written()
        self.body = self.body_function()
        nm = self.assigns.get("_name_map_")
        if isinstance(nm, ast.Dict):
            for k, v in zip(nm.keys, nm.values):
                if isinstance(k, ast.Constant) and isinstance(v, ast.Constant):
                    self.name_map[k.value] = v.value

    def _never_written(self):
        """names bound once at module level whose object no statement of the module changes"""
        out = {n for n in self.assigns if n not in self.rebound}
        for node in ast.walk(self.tree):
            tg = None
            if isinstance(node, (ast.Subscript, ast.Attribute)) and isinstance(node.ctx, (ast.Store, ast.Del)):
                tg = node.value
            elif isinstance(node, ast.AugAssign):
                tg = node.target
            elif isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in (
                    "append", "extend", "insert", "remove", "pop", "popitem", "clear", "update", "setdefault",
                    "add", "discard", "sort", "reverse"):
                tg = node.func.value
            while isinstance(tg, (ast.Subscript, ast.Attribute)):
                tg = tg.value
            if isinstance(tg, ast.Name):
                out.discard(tg.id)
        return out

    def body_function(self, only=None):
        """what importing the module does, as a function returning its globals"""
        skip = (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)
        body = [n for n in self.tree.body if not isinstance(n, skip)
                and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant))]
        names = sorted(n for n in self.assigns if n not in ("log", "logger") and (only is None or n in only))
        if not names:
            return None
        ret = ast.Return(value=ast.Dict(keys=[ast.Constant(value=n) for n in names],
                                        values=[ast.Name(id=n, ctx=ast.Load()) for n in names]))
        node = ast.FunctionDef(name="<module>", args=ast.arguments(
            posonlyargs=[], args=[], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]),
            body=body + [ret], decorator_list=[], returns=None, type_comment=None, type_params=[])
        node.lineno, node.col_offset = 1, 0
        for n in ast.walk(ret):
            n.lineno, n.col_offset = 1, 0
        return FunctionInfo(self, "<module>", node, None, None)

    def _fn(self, node, qual, cls=None, parent=None):
        fi = FunctionInfo(self, qual, node, cls, parent)
        for sub in own_nodes(node):
            if isinstance(sub, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi.nested[sub.name] = self._fn(
                    sub, qual + ".<locals>." + sub.name, cls, fi
                )
        return fi

    def all_functions(self):
        stack = list(self.functions.values())
        if self.body is not None:
            stack.append(self.body)
        for c in self.classes.values():
            stack.extend(c.methods.values())
        while stack:
            f = stack.pop()
            yield f
            stack.extend(f.nested.values())


def _walk_module_level(body):
    """module level statements, including those under if/try/with/for"""
    for node in body:
        yield node
        for field in ("body", "orelse", "finalbody"):
            if isinstance(node, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                yield from _walk_module_level(getattr(node, field, []) or [])
        if isinstance(node, ast.Try):
            for h in node.handlers:
                yield from _walk_module_level(h.body)


def own_nodes(fn_node):
    """all nodes of a function excluding the bodies of nested functions/classes
    (nested definitions themselves are yielded, lambdas are entered)"""
    stack = list(ast.iter_child_nodes(fn_node))
    if isinstance(fn_node, (ast.FunctionDef, ast.AsyncFunctionDef)):
        stack = list(fn_node.body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def resolve_relative(modname, node):
    if node.level:
        base = modname.split(".")[: -node.level]
        if node.module:
            base = base + [node.module]
        return ".".join(base)
    return node.module or ""


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.root = os.path.join(self.repo, "ttp")
        self.modules = {}
        self.by_rel = {}
        if not os.path.isdir(self.root):
            raise AnalysisBroken("package directory {} not found".format(self.root))
        for d, dirs, files in os.walk(self.root):
            dirs.sort()
            dirs[:] = [x for x in dirs if x != "__pycache__"]
            for f in sorted(files):
                if not f.endswith(".py") or f.endswith("_py2.py"):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, self.repo)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[: -len(".__init__")]
                m = Module(name, path, rel)
                self.modules[name] = m
                self.by_rel[rel] = m
        self.registry = {}
        for m in self.modules.values():
            fname = os.path.basename(m.path)
            if fname.startswith("_") or fname == "ttp.py":
                continue
            scope = os.path.basename(os.path.dirname(m.path))
            for n in m.tree.body:
                if isinstance(n, ast.FunctionDef) and not n.name.startswith("_"):
                    pub = m.name_map.get(n.name, n.name)
                    self.registry.setdefault(scope, {}).setdefault(pub, []).append(
                        m.functions[n.name]
                    )

    def core(self):
        m = self.modules.get("ttp.ttp")
        if m is None:
            raise AnalysisBroken("core module ttp/ttp.py not found")
        return m

    def plugin(self, scope, name):
        c = self.registry.get(scope, {}).get(name)
        return c[-1] if c else None

    def cls(self, name):
        c = self.core().classes.get(name)
        if c is None:
            raise AnalysisBroken("class {} not found in ttp/ttp.py".format(name))
        return c

    def resolve_dotted(self, dotted):
        """dotted name of something inside the package -> FunctionInfo/ClassInfo/Module"""
        if dotted in self.modules:
            return self.modules[dotted]
        if "." in dotted:
            base, attr = dotted.rsplit(".", 1)
            m = self.modules.get(base)
            if m is not None:
                if attr in m.functions:
                    return m.functions[attr]
                if attr in m.classes:
                    return m.classes[attr]
                if attr in m.imports and m.imports[attr] != dotted:
                    return self.resolve_dotted(m.imports[attr])
        return None

    def all_functions(self):
        for m in self.modules.values():
            yield from m.all_functions()

    def digest(self):
        h = hashlib.sha256()
        for rel in sorted(self.by_rel):
            h.update(rel.encode())
            h.update(self.by_rel[rel].source.encode())
        return h.hexdigest()[:16]

    def loc(self, fn, node):
        return "{}:{} ({})".format(
            fn.module.rel, getattr(node, "lineno", "?"), fn.qualname
        )
