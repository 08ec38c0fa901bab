"""Tag alias analysis (C16, C33): wherever tag names are compared with a literal collection, tested
one by one or used as keys of a dispatch table, all aliases of a tag occur together, and a dispatch
table gives all of them the same handler."""
import ast

from ..program import own_nodes

GROUPS = [{"v", "vars", "variables"}, {"g", "grp", "group"}, {"o", "out", "output"}, {"i", "in", "input"}]
SINGLE = {"lookup", "macro", "template", "doc", "extend"}
SHORT = {"v", "g", "grp", "o", "out", "i", "in", "variables"}
UNIVERSE = set().union(SINGLE, *GROUPS)


def strings(n):
    if isinstance(n, (ast.List, ast.Tuple, ast.Set)):
        if n.elts and all(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in n.elts):
            return [x.value for x in n.elts]
    return None


def is_tag(n):
    """x.tag, x.tag.lower(), or a name called tag"""
    while isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
        n = n.func.value
    return isinstance(n, ast.Attribute) and n.attr == "tag" or isinstance(n, ast.Name) and n.id in ("tag", "tag_name")


def missing(names):
    for g in GROUPS:
        have = g & set(names)
        if have and have != g:
            yield sorted(have), sorted(g - have)


def run(ctx):
    mod = ctx.p.modules["ttp.ttp"]
    fns = [f for f in ctx.p.all_functions() if f.module is mod]
    for fi in fns:
        ors, compared = [], {}
        for n in own_nodes(fi.node):
            lit = strings(n)
            if lit and set(lit) <= UNIVERSE and set(lit) & SHORT:
                ctx.count("collections_of_tags")
                for have, no in missing(lit):
                    ctx.report("aliases", ctx.at(fi, n), "tags {} are handled here but not {}".format(
                        ", ".join(have), ", ".join(no)), "aliases:{}:{}".format(fi.key, no[0]))
            if isinstance(n, ast.Dict):
                keys = [k.value for k in n.keys if isinstance(k, ast.Constant) and isinstance(k.value, str)]
                if set(keys) & (SHORT - {"variables"}):
                    ctx.count("dispatch_tables")
                    for have, no in missing(keys):
                        ctx.report("aliases", ctx.at(fi, n), "tags {} are dispatched but not {}".format(
                            ", ".join(have), ", ".join(no)), "aliases:{}:{}".format(fi.key, no[0]))
                    val = {k.value: v for k, v in zip(n.keys, n.values) if isinstance(k, ast.Constant)}
                    for g in GROUPS:
                        vs = {k: ast.dump(val[k]) for k in g if k in val}
                        lam = {k for k in vs if isinstance(val[k], ast.Lambda)}
                        if len(set(vs.values())) > 1 and len(lam) in (0, len(vs)):
                            ctx.report("aliases", ctx.at(fi, n), "tags {} have different handlers".format(
                                ", ".join(sorted(vs))), "aliases:{}:handlers".format(fi.key))
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq)) and is_tag(n.left) \
                    and isinstance(n.comparators[0], ast.Constant):
                compared.setdefault(n.comparators[0].value, n)
        # tags tested one by one
        one = {x for x in compared if isinstance(x, str)}
        for have, no in missing(one & UNIVERSE):
            ctx.count("single_comparisons")
            ctx.report("aliases", ctx.at(fi, compared[have[0]]), "tag {} is tested for, its aliases {} are not".format(
                ", ".join(have), ", ".join(no)), "aliases:{}:{}".format(fi.key, no[0]))
    for name, node in mod.assigns.items():
        for n in ast.walk(node) if isinstance(node, ast.AST) else ():
            lit = strings(n)
            if lit and set(lit) <= UNIVERSE and set(lit) & SHORT:
                ctx.count("collections_of_tags")
                for have, no in missing(lit):
                    ctx.report("aliases", "{}:{}".format(mod.rel, n.lineno), "tags {} but not {} in {}".format(
                        ", ".join(have), ", ".join(no), name), "aliases:{}:{}".format(name, no[0]))
