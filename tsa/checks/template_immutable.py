"""Effect analysis (C08): which objects each template function writes to. Match, group, input and
variable functions may write to the record they are given; of the parser state they reach
through _ttp_ only record, count and gpvlookup (with record) write, and only to the
variables documented."""
from ..absint import show
from ..tables import rows_of, root

# (scope, function) -> _ttp_ tables it is documented to write
ALLOWED = {
    ("match", "record"): {"vars", "global_vars"}, ("group", "record"): {"vars", "global_vars"},
    ("match", "count"): {"vars", "global_vars"}, ("match", "gpvlookup"): {"vars", "global_vars"},
    ("group", "itemize"): {"results_object"},
}
DATA_WRITERS = {"del", "cerberus", "validate", "itemize", "items2dict", "lookup", "set", "sformat", "to_int", "to_ip",
                "expand", "str_to_unicode"}


def run(ctx):
    for scope in ("match", "group", "input", "variable"):
        for name in sorted(ctx.p.registry.get(scope, {})):
            fi = ctx.p.plugin(scope, name)
            t = rows_of(ctx.p, fi)
            if t is None:
                ctx.count("functions_beyond_budget")
                continue
            ctx.count("functions")
            params = [x.arg for x in fi.node.args.posonlyargs + fi.node.args.args]
            seen = {}
            for comp, node in [(c, n) for _, c, n in t[0]] + [(c, n) for _, _, c, n in t[1]]:
                for k in comp:
                    if k[0] != "obj":
                        continue
                    r, path = root(k[1])
                    if r == ("s", "_ttp_"):
                        ctx.count("state_writes")
                        tab = path[0][1] if path else None
                        tab = tab[2] if tab and tab[:1] == ("k",) else None
                        if tab not in ALLOWED.get((scope, name), ()):
                            seen.setdefault("writes to _ttp_[{!r}]: {}".format(tab, show(k[1])[:80]), node)
                    elif r[:1] == ("s",) and r[1] in params:
                        ctx.count("argument_writes")
                        if r[1] == params[0] and scope == "group" and name in DATA_WRITERS:
                            continue
                        seen.setdefault("changes its argument {}".format(show(k[1])[:80]), node)
            for text, node in sorted(seen.items()):
                ctx.report("template_immutable", ctx.at(fi, node), "{} function {} {}".format(scope, name, text),
                           "template_immutable:{}:{}".format(scope, name))
