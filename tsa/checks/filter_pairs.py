"""Complement analysis (C03): the decision tables of a filter and of its negation are joined on
their conditions; no combination of conditions may be kept by both or rejected by both."""
from ..absint import show, TRUE, FALSE, NONE
from ..absint import replace_term as rename_params
from ..tables import rows_of

PAIRS = [("match", "equal", "notequal"), ("match", "isdigit", "notdigit"),
         ("match", "startswith_re", "notstartswith_re"), ("match", "endswith_re", "notendswith_re"),
         ("match", "contains_re", "exclude_re")]


def table(ctx, fi, t):
    """[(facts, kept?)] with parameters named by position"""
    a = fi.node.args
    ren = {("s", x.arg): ("s", "#%d" % i) for i, x in enumerate(a.posonlyargs + a.args)}
    out = []
    for facts, comp, node in t[0]:
        if comp.get(("kind",)) != "return":
            continue
        v = comp[("value",)]
        if v[0] != "tup" or len(v) != 3:
            continue
        f = {rename_params(k, ren): x for k, x in facts.items()}
        w = rename_params(v[2], ren)
        if w in (TRUE, NONE):
            out.append((f, True, node))
        elif w == FALSE:
            out.append((f, False, node))
        elif w[0] == "a":
            for x in (True, False):
                if f.get(w, x) == x:
                    out.append((dict(f, **{}), x, node) if w in f else ({**f, w: x}, x, node))
    return out


def run(ctx):
    for scope, pos, neg in PAIRS:
        a, b = ctx.p.plugin(scope, pos), ctx.p.plugin(scope, neg)
        if a is None or b is None:
            continue
        ta, tb = rows_of(ctx.p, a), rows_of(ctx.p, b)
        if ta is None or tb is None:
            ctx.count("functions_beyond_budget")
            continue
        ra, rb = table(ctx, a, ta), table(ctx, b, tb)
        ctx.count("pairs")
        for fa, ka, na in ra:
            for fb, kb, nb in rb:
                if not fa or not fb or set(fa) != set(fb) or fa != fb:
                    continue
                ctx.count("condition_combinations")
                if ka == kb:
                    ctx.report("filter_pairs", ctx.at(b, nb), "{} and {} both {} data when {}".format(
                        pos, neg, "keep" if ka else "reject",
                        ", ".join("{} is {}".format(show(k), v) for k, v in fa.items())[:200]),
                        "filter_pairs:{}:{}".format(scope, neg))
