"""Which external names, module globals and in-package functions each function
refers to: the name resolution, call graph and attribution the direct rules share."""
import ast
import builtins

from .program import own_nodes, resolve_relative, FunctionInfo

BUILTINS = set(dir(builtins))


def local_imports(fi):
    """names bound by import statements of a function or the functions around it"""
    out = {}
    f = fi
    chain = []
    while f is not None:
        chain.append(f)
        f = f.parent
    for f in reversed(chain):
        for n in own_nodes(f.node):
            if isinstance(n, ast.Import):
                for a in n.names:
                    out[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom):
                base = resolve_relative(f.module.name, n)
                for a in n.names:
                    out[a.asname or a.name] = base + "." + a.name
    return out


def bound_names(fi):
    """names a function binds other than by import (they hide globals)"""
    out = set()
    a = fi.node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        out.add(x.arg)
    for x in (a.vararg, a.kwarg):
        if x is not None:
            out.add(x.arg)
    glob = set()
    for n in own_nodes(fi.node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Lambda):
            for x in n.args.args + n.args.kwonlyargs:
                out.add(x.arg)
    return out - glob


class Scope:
    """name resolution inside one function"""

    def __init__(self, program, fi):
        self.p = program
        self.fi = fi
        self.imports = dict(fi.module.imports)
        self.hidden = set()
        f = fi
        while f is not None:
            self.hidden |= bound_names(f)
            f = f.parent
        self.imports = {k: v for k, v in self.imports.items() if k not in self.hidden}
        self.imports.update(local_imports(fi))
        # names bound once to an external name: f = os.chdir
        self.alias = {}
        for n in own_nodes(fi.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                d = self.dotted(n.value)
                if d:
                    self.alias.setdefault(n.targets[0].id, set()).add(d)

    def dotted(self, node):
        """dotted external name an expression denotes, or None"""
        parts = []
        while isinstance(node, ast.Attribute):
            parts.append(node.attr)
            node = node.value
        if not isinstance(node, ast.Name):
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ("__import__",) \
                    and node.args and isinstance(node.args[0], ast.Constant):
                return ".".join([str(node.args[0].value)] + list(reversed(parts)))
            return None
        n = node.id
        if n in self.imports:
            base = self.imports[n]
        elif n in self.hidden:
            al = getattr(self, "alias", {}).get(n)
            if al and len(al) == 1 and parts:
                base = next(iter(al))
            elif al and len(al) == 1:
                base = next(iter(al))
            else:
                return None
        elif n in BUILTINS and n not in self.fi.module.functions and n not in self.fi.module.assigns \
                and n not in self.fi.module.classes:
            base = "builtins." + n
        else:
            return None
        return ".".join([base] + list(reversed(parts)))


class Effects:
    def __init__(self, program, ref):
        self.p = program
        self.ref_keys = {f.key for f in ref.all_functions()}
        self.functions = [f for f in program.all_functions()]
        self.scopes = {f.key: Scope(program, f) for f in self.functions}
        self._callers = None
        self.by_method = {}
        for f in self.functions:
            if f.cls is not None and "<locals>" not in f.qualname:
                self.by_method.setdefault(f.name, []).append(f)

    # ---------------------------------------------------------------- references
    def external_refs(self, fi):
        """(dotted name, node, parent) of every external name the function mentions"""
        sc = self.scopes[fi.key]
        parents = {}
        nodes = list(own_nodes(fi.node))
        extra = list(fi.node.args.defaults) + [d for d in fi.node.args.kw_defaults if d is not None]
        for d in extra:
            nodes.extend(ast.walk(d))
        for n in nodes:
            for c in ast.iter_child_nodes(n):
                parents[c] = n
        for n in nodes:
            if isinstance(n, (ast.Name, ast.Attribute)):
                up = parents.get(n)
                if isinstance(up, ast.Attribute) and up.value is n:
                    continue        # only the longest chain
                m = n
                d = sc.dotted(m)
                # a chain through an unknown object still names its prefix
                while d is None and isinstance(m, ast.Attribute):
                    m = m.value
                    d = sc.dotted(m)
                if d:
                    yield d, n, up

    # ---------------------------------------------------------------- call graph
    def callees(self, fi):
        sc = self.scopes[fi.key]
        out = set()
        for n in own_nodes(fi.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                g = fi
                hit = None
                while g is not None:
                    if n.id in g.nested:
                        hit = g.nested[n.id]
                        break
                    g = g.parent
                if hit is None and n.id in fi.module.functions and n.id not in bound_names(fi):
                    hit = fi.module.functions[n.id]
                if hit is None and n.id in sc.imports:
                    hit = self.p.resolve_dotted(sc.imports[n.id])
                if isinstance(hit, FunctionInfo):
                    out.add(hit.key)
                elif hit is not None and hasattr(hit, "methods") and "__init__" in hit.methods:
                    out.add(hit.methods["__init__"].key)
                elif n.id in fi.module.classes and "__init__" in fi.module.classes[n.id].methods:
                    out.add(fi.module.classes[n.id].methods["__init__"].key)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                if isinstance(n.value, ast.Name) and n.value.id == "self" and fi.cls is not None:
                    name = n.attr
                    mt = fi.cls.methods.get(name)
                    if mt is not None:
                        out.add(mt.key)
                        continue
                for mt in self.by_method.get(n.attr, ()):
                    out.add(mt.key)
                hit = None
                d = sc.dotted(n)
                if d:
                    hit = self.p.resolve_dotted(d)
                if isinstance(hit, FunctionInfo):
                    out.add(hit.key)
            elif isinstance(n, ast.Subscript) and isinstance(n.value, ast.Subscript):
                a, b = n.value, n
                if isinstance(a.value, ast.Name) and a.value.id == "_ttp_" and isinstance(a.slice, ast.Constant) \
                        and isinstance(b.slice, ast.Constant):
                    g = self.p.plugin(a.slice.value, b.slice.value)
                    if g is not None:
                        out.add(g.key)
        return out

    def callers(self):
        if self._callers is None:
            self._callers = {}
            for f in self.functions:
                for c in self.callees(f):
                    self._callers.setdefault(c, set()).add(f.key)
        return self._callers

    def responsible(self, fi):
        """the known functions a construct of fi is attributed to: fi itself when the
        reviewed tree has a function of that name, else the known functions that reach it"""
        if fi.key in self.ref_keys:
            return {fi.key}
        out, seen, todo = set(), set(), [fi.key]
        if fi.parent is not None:
            todo.append(fi.parent.key)
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            if k in self.ref_keys:
                out.add(k)
                continue
            todo.extend(self.callers().get(k, ()))
        return out
