"""Shared-state analysis (C26): no function writes to an object that outlives the parser
object it works for: module level names, class attributes, attributes of functions or
modules, default argument objects, or results memoised per process."""
import ast

from ..effects import Effects, bound_names
from ..program import own_nodes

MUTATORS = {"append", "extend", "insert", "remove", "pop", "popitem", "clear", "update", "setdefault", "sort",
            "reverse", "add", "discard", "__setitem__"}
MEMO = {"functools.lru_cache", "functools.cache", "functools.cached_property"}
MUTABLE = (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)
MUTABLE_CALLS = {"list", "dict", "set", "defaultdict", "OrderedDict", "deque", "Counter"}


def is_mutable_expr(n):
    return isinstance(n, MUTABLE) or isinstance(n, ast.Call) and (
        isinstance(n.func, ast.Name) and n.func.id in MUTABLE_CALLS
        or isinstance(n.func, ast.Attribute) and n.func.attr in MUTABLE_CALLS)


def root(n):
    while isinstance(n, (ast.Attribute, ast.Subscript)):
        n = n.value
    return n


def writes(fi):
    """(target expression whose object is changed, node)"""
    for n in own_nodes(fi.node):
        if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
            yield n.value, n
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
            yield n.func.value, n
        elif isinstance(n, ast.AugAssign):
            yield n.target, n
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "delattr") and n.args:
            yield n.args[0], n


def aliases_of(fi, is_source):
    """local names that may denote the object of a source expression"""
    names = set()
    for _ in range(3):
        for n in own_nodes(fi.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                v = n.value
                vs = [v]
                if isinstance(v, ast.IfExp):
                    vs = [v.body, v.orelse]
                for v in vs:
                    if is_source(v) or isinstance(v, ast.Name) and v.id in names:
                        names.add(n.targets[0].id)
    return names


def run(ctx):
    e = Effects(ctx.p, ctx.ref)
    for fi in e.functions:
        if fi.name == "<module>":
            continue
        ctx.count("functions_scanned")
        m = fi.module
        sc = e.scopes[fi.key]
        hidden = sc.hidden
        globs = set()
        for n in own_nodes(fi.node):
            if isinstance(n, ast.Global):
                globs.update(n.names)
        for n in own_nodes(fi.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id in globs:
                ctx.report("shared_state", ctx.at(fi, n), "assigns the module level name {}, shared by all parser "
                           "objects".format(n.id), "shared_state:{}:global {}".format(fi.key, n.id))

        def module_object(x):
            return isinstance(x, ast.Name) and x.id not in hidden and x.id not in sc.imports and (
                x.id in m.assigns or x.id in m.classes or x.id in m.functions) and x.id != "_ttp_"

        def class_object(x):
            if isinstance(x, ast.Attribute) and x.attr == "__class__":
                return True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "type" and len(x.args) == 1:
                return True
            return isinstance(x, ast.Name) and x.id == "cls" and x.id in fi.params

        shared = aliases_of(fi, module_object)
        # parameters with a mutable default object
        a = fi.node.args
        pos = a.posonlyargs + a.args
        defaults = {}
        for arg, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            defaults[arg.arg] = d
        for arg, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[arg.arg] = d
        mut = {k for k, d in defaults.items() if is_mutable_expr(d)}
        rebound = {n.id for n in own_nodes(fi.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        mut_alias = aliases_of(fi, lambda v: isinstance(v, ast.Name) and v.id in mut - rebound)
        ctx.count("default_objects", len(mut))
        for target, n in writes(fi):
            ctx.count("writes_classified")
            r = root(target)
            if module_object(r) and (always_set(e, fi, r.id, n) or reset_before(e, fi, r.id)):
                ctx.count("module_objects_set_before_each_use")
                continue
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                if n.target.id in globs:
                    continue            # reported above
                if n.target.id in mut:
                    ctx.report("shared_state", ctx.at(fi, n), "changes the default object of parameter {}, shared by "
                               "all calls".format(n.target.id), "shared_state:{}:default {}".format(fi.key, n.target.id))
                continue
            if module_object(r) or isinstance(r, ast.Name) and r.id in shared:
                ctx.report("shared_state", ctx.at(fi, n), "changes the module level object {}, shared by all parser "
                           "objects".format(r.id), "shared_state:{}:{}".format(fi.key, r.id))
            elif any(class_object(x) for x in chain(target)):
                ctx.report("shared_state", ctx.at(fi, n), "changes an attribute of the class, shared by all objects",
                           "shared_state:{}:class".format(fi.key))
            elif isinstance(r, ast.Name) and (r.id in mut - rebound or r.id in mut_alias):
                ctx.report("shared_state", ctx.at(fi, n), "changes the default object of parameter {}, shared by all "
                           "calls".format(r.id), "shared_state:{}:default {}".format(fi.key, r.id))
            elif isinstance(r, ast.Name) and r.id == "self" and fi.cls is not None and isinstance(target, (ast.Attribute, ast.Subscript)):
                # an object held by the class, not by the instance
                att = first_attr(target)
                own = class_level(fi.cls)
                if att in own and is_mutable_expr(own[att]) and not assigned_on_self(fi.cls, att):
                    ctx.report("shared_state", ctx.at(fi, n), "changes {}.{}, an object shared by all instances".format(
                        fi.cls.name, att), "shared_state:{}:{}".format(fi.key, att))
            elif isinstance(r, ast.Name):
                d = sc.dotted(r)
                module = isinstance(target, ast.Name) and d and (d in ctx.p.modules)
                imp = local_module(fi, r) if isinstance(target, ast.Name) else None
                if module or imp:
                    for who in sorted(e.responsible(fi)) or [fi.key]:
                        ctx.report("shared_state", ctx.at(fi, n), "sets an attribute of an imported module, shared by "
                                   "all parser objects", "shared_state:{}:module".format(who))
        # default objects kept or handed out
        for n in own_nodes(fi.node):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) for t in n.targets) \
                    and isinstance(n.value, ast.Name) and n.value.id in mut - rebound:
                ctx.report("shared_state", ctx.at(fi, n), "keeps the default object of parameter {} in an attribute, "
                           "shared by all calls".format(n.value.id),
                           "shared_state:{}:default {}".format(fi.key, n.value.id))
        for d in fi.node.decorator_list:
            f = d.func if isinstance(d, ast.Call) else d
            if sc.dotted(f) in MEMO or ast.unparse(f).split(".")[-1] in ("lru_cache", "cache"):
                reads = {x.id for x in own_nodes(fi.node) if isinstance(x, ast.Name)}
                if "_ttp_" in reads or fi.cls is not None or fi.key.startswith("ttp.ttp:"):
                    ctx.report("shared_state", ctx.at(fi, d), "answers are remembered for the whole process",
                               "shared_state:{}:memo".format(fi.key))


def stores(st, name, attr):
    """the statement, run as one of the function's own, sets the attribute of the object"""
    if isinstance(st, (ast.If, ast.For, ast.While, ast.Try, ast.FunctionDef, ast.With)):
        return False
    return any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == attr
               and isinstance(n.value, ast.Name) and n.value.id == name for n in ast.walk(st))


def calls_of(e, fi, st):
    """functions of the same module the statement calls, whatever the conditions"""
    if isinstance(st, (ast.If, ast.While)):
        st = st.test
    elif isinstance(st, (ast.For, ast.Try, ast.FunctionDef, ast.With)):
        return
    for n in ast.walk(st):
        if isinstance(n, (ast.IfExp, ast.BoolOp, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)):
            return
    for n in ast.walk(st):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in fi.module.functions:
            yield fi.module.functions[n.func.id]


def set_line(e, fi, name, attr, depth=0):
    """first line from which the attribute is set on every path through the function"""
    for st in fi.node.body:
        if stores(st, name, attr):
            return st.lineno
        if depth < 4 and any(always_before_return(e, g, name, attr, depth + 1) for g in calls_of(e, fi, st)):
            return st.lineno
    return None


def always_before_return(e, fi, name, attr, depth):
    line = set_line(e, fi, name, attr, depth)
    return line is not None and not any(isinstance(n, ast.Return) and n.lineno < line for n in own_nodes(fi.node))


def covered(e, f, name, attr, depth=0):
    """what the function does with the object comes after the attribute was set"""
    uses = [n for n in own_nodes(f.node) if isinstance(n, ast.Name) and n.id == name]
    line = set_line(e, f, name, attr)
    if all(line is not None and n.lineno >= line for n in uses):
        return True
    if depth > 3:
        return False
    cs = [e_by(e, c) for c in e.callers().get(f.key, ())]
    for c in cs:
        line = set_line(e, c, name, attr)
        at = [n.lineno for n in own_nodes(c.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == f.name]
        if not (at and line is not None and all(a >= line for a in at)) and not covered_call(e, c, name, attr, depth + 1):
            return False
    return bool(cs)


def covered_call(e, c, name, attr, depth):
    cs = [e_by(e, x) for x in e.callers().get(c.key, ())]
    return depth < 4 and bool(cs) and all(
        set_line(e, x, name, attr) is not None or covered_call(e, x, name, attr, depth + 1) for x in cs)


def always_set(e, fi, name, node):
    """attribute of a module level object that is set, whatever the conditions, before anything
    else is done with the object: no call sees another's value"""
    if not (isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Store)):
        return False
    for f in fi.module.all_functions():
        if f.name == "<module>" or name in bound_names(f):
            continue
        if any(isinstance(n, ast.Name) and n.id == name for n in own_nodes(f.node)) and not covered(e, f, name, node.attr):
            return False
    return True


def e_by(e, key):
    return next(f for f in e.functions if f.key == key)


def clears(f, name):
    for st in f.node.body:
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) \
                and st.value.func.attr == "clear" and isinstance(st.value.func.value, ast.Name) \
                and st.value.func.value.id == name:
            return True
        if isinstance(st, (ast.If, ast.For, ast.While, ast.Try, ast.With, ast.Return)):
            break
    return False


def reset_before(e, fi, name, depth=0):
    """the object is emptied before anything else by the function or by all who call it"""
    if clears(fi, name):
        return True
    cs = e.callers().get(fi.key, ())
    return depth < 4 and bool(cs) and all(reset_before(e, e_by(e, c), name, depth + 1) for c in cs)


def chain(n):
    while isinstance(n, (ast.Attribute, ast.Subscript)):
        yield n
        n = n.value
    yield n


def first_attr(n):
    last = None
    for x in chain(n):
        if isinstance(x, ast.Attribute):
            last = x.attr
    return last


def class_level(cls):
    out = {}
    for n in cls.node.body:
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    out[t.id] = n.value
    return out


def assigned_on_self(cls, att):
    """the constructor gives each instance its own object"""
    init = cls.methods.get("__init__")
    if init is None:
        return False
    for n in own_nodes(init.node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == att \
                and isinstance(n.value, ast.Name) and n.value.id == "self":
            return True
    return False


def local_module(fi, name):
    """the name holds a module returned by an import call"""
    for n in own_nodes(fi.node):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and any(
                isinstance(t, ast.Name) and t.id == name.id for t in n.targets):
            s = ast.unparse(n.value.func)
            if s == "__import__" or s.endswith("import_module"):
                return True
    return False
