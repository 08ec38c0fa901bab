"""Purity of filters (C02): on every path of every filter function the first part of the
answer is the very data parameter and nothing reachable from parameters, template variables
or module state is written to."""
from ..absint import show
from ..tables import rows_of, root

MATCH = ["contains", "equal", "notequal", "exclude", "isdigit", "notdigit", "greaterthan", "lessthan", "startswith_re",
         "endswith_re", "contains_re", "notstartswith_re", "notendswith_re", "exclude_re", "is_ip", "cidr_match"]
GROUP = ["contains", "contains_val", "containsall", "equal", "exclude", "exclude_val", "excludeall", "void"]


def visible(t):
    r, path = root(t)
    return r[:1] in (("s",), ("g",), ("global",)) or r[:1] == ("a",) and r[1] in ("global", "mod")


def run(ctx):
    for scope, names in (("match", MATCH), ("group", GROUP)):
        for name in names:
            fi = ctx.p.plugin(scope, name)
            if fi is None:
                continue        # C15 reports functions that are gone
            t = rows_of(ctx.p, fi)
            if t is None:
                ctx.count("functions_beyond_budget")
                continue
            ctx.count("functions")
            a = fi.node.args
            params = [x.arg for x in a.posonlyargs + a.args]
            first = ("s", params[0] if params else a.vararg.arg if a.vararg else "data")
            seen = set()
            for facts, comp, node in t[0]:
                for k in comp:
                    if k[0] == "obj" and visible(k[1]):
                        seen.add((show(k[1])[:80] + " is changed", node))
                if comp.get(("kind",)) != "return":
                    continue
                ctx.count("return_paths")
                v = comp[("value",)]
                if v[0] == "tup" and len(v) == 3 and v[1] != first:
                    if v[1][0] == "k" or v[1][0] == "lit" or v[1][0] == "a" and v[1][1] not in ("lv", "ite"):
                        seen.add(("the data is replaced by " + show(v[1])[:80], node))
                    elif v[1][0] == "ver":
                        seen.add(("the data is changed", node))
                    else:
                        ctx.count("return_values_not_understood")
            for nm, facts, comp, node in t[1]:
                ctx.count("loop_paths")
                for k in comp:
                    if k[0] == "obj" and visible(k[1]):
                        seen.add((show(k[1])[:80] + " is changed in a loop", node))
            for text in sorted({x for x, _ in seen}):
                node = next(n for x, n in seen if x == text)
                ctx.report("filters_pure", ctx.at(fi, node), "{} filter {}: {}".format(scope, name, text),
                           "filters_pure:{}:{}".format(scope, name))
