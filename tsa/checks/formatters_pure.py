"""Effect analysis (C09): no formatter, returner or output function writes to the results it is
given (except deepdiff adding its documented field), to its settings or to the parser; the self
returner only sets what asks for results to be handed back."""
from ..absint import show
from ..tables import rows_of, root

SLOW = {("output", "validate_yangson"), ("formatters", "excel")}     # many paths: thorough tier


def allowed(scope, name, r, path, writes):
    if (scope, name) == ("output", "deepdiff") and r == ("s", "data"):
        # the difference is added under add_field, or appended to the results
        return all(w[:2] == ("set", ("s", "add_field")) or w[0] == "append" for w in writes if isinstance(w, tuple))
    if (scope, name) == ("returners", "self"):
        return all(w[:2] == ("attr", "return_to_self") for w in writes if isinstance(w, tuple))
    return False


def run(ctx):
    for scope in ("formatters", "returners", "output"):
        for name in sorted(ctx.p.registry.get(scope, {})):
            fi = ctx.p.plugin(scope, name)
            if (scope, name) in SLOW and ctx.tier == "quick":
                continue
            t = rows_of(ctx.p, fi)
            if t is None:
                ctx.count("functions_beyond_budget")
                continue
            ctx.count("functions")
            a = fi.node.args
            params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
            seen = {}
            for comp, node in [(c, n) for _, c, n in t[0]] + [(c, n) for _, _, c, n in t[1]]:
                for k in comp:
                    if k[0] != "obj":
                        continue
                    r, path = root(k[1])
                    if r == ("s", "_ttp_") or r[:1] == ("s",) and r[1] in params:
                        ctx.count("writes_examined")
                        if not allowed(scope, name, r, path, comp[k]):
                            seen.setdefault("writes to {}".format(show(k[1])[:80]), node)
            for text, node in sorted(seen.items()):
                ctx.report("formatters_pure", ctx.at(fi, node), "{} {} {}".format(scope, name, text),
                           "formatters_pure:{}:{}".format(scope, name))
