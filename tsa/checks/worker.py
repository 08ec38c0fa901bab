"""Worker state analysis (C11): every entry of _ttp_ that code running in a worker process (match,
group, input, variable, lookup and utils functions, the parser and results classes) reads and
the parent process sets up must also be set up by the worker or by what both share."""
import ast

from ..effects import Effects
from ..program import own_nodes

C = "ttp.ttp:"
PARENT = ("ttp.", "_template_class.", "_input_class.", "_group_class.", "_variable_class.")
WORKER = ("_worker.", "_parser_class.", "_results_class.")
SCOPES = ("ttp.match.", "ttp.group.", "ttp.variable.", "ttp.input.", "ttp.lookup.", "ttp.patterns.", "ttp.utils.")


def ttp_key(n):
    """'key' for _ttp_["key"] and self._ttp_["key"], .get("key") and the like"""
    if isinstance(n, ast.Subscript):
        base, k = n.value, n.slice
    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("get", "setdefault", "pop") and n.args:
        base, k = n.func.value, n.args[0]
    else:
        return None
    name = base.id if isinstance(base, ast.Name) else base.attr if isinstance(base, ast.Attribute) else None
    if name == "_ttp_" and isinstance(k, ast.Constant) and isinstance(k.value, str):
        return k.value
    return None


def side(key):
    """which process the function runs in"""
    if key.startswith(C):
        q = key[len(C):]
        if q.startswith(WORKER):
            return "worker"
        if q.startswith(PARENT):
            return "parent"
        return None
    return "worker" if key.startswith(SCOPES) else None


def run(ctx):
    e = Effects(ctx.p, ctx.ref)
    reads, sets = {}, {"worker": set(), "parent": set()}
    for fi in e.functions:
        sides = {side(k) for k in e.responsible(fi)} - {None}
        if not sides:
            continue
        ctx.count("functions_scanned")
        for n in own_nodes(fi.node):
            k = ttp_key(n)
            if k is None:
                # self._ttp_["macro"].update(...) and _ttp_.update(macro=...)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "update":
                    k2 = ttp_key(n.func.value)
                    for s in sides if k2 else ():
                        sets[s].add(k2)
                    b = n.func.value
                    nm = b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else None
                    if nm == "_ttp_":
                        for s in sides:
                            sets[s].update(x.arg for x in n.keywords if x.arg)
                            for d in n.args:
                                if isinstance(d, ast.Dict):
                                    sets[s].update(x.value for x in d.keys if isinstance(x, ast.Constant))
                continue
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                for s in sides:
                    sets[s].add(k)
            elif "worker" in sides:
                ctx.count("reads")
                reads.setdefault(k, []).append((fi, n))
    only_parent = sets["parent"] - sets["worker"]
    ctx.coverage["entries_set_in_workers"] = sorted(sets["worker"])
    ctx.coverage["entries_set_in_parent_only"] = sorted(only_parent)
    for k in sorted(only_parent & set(reads)):
        done = set()
        for fi, n in reads[k]:
            for r in sorted(e.responsible(fi)):
                if r in done or side(r) != "worker":
                    continue
                done.add(r)
                ctx.report("worker", ctx.at(fi, n), "{} reads _ttp_[{!r}], which worker processes never set".format(r, k),
                           "worker:{}:{}".format(r, k))
