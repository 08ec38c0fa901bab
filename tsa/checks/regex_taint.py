"""Taint analysis (C05): in the decision tables of every match, group, input and variable function
and of the dynamic path substitution, text that comes from the data (matched value, input
text, record) reaches the pattern or replacement position of a regular expression function
only through re.escape, or through a function used as replacement."""
from ..absint import show, subterms
from ..tables import rows_of

PATTERN_FNS = {"re.search", "re.match", "re.fullmatch", "re.compile", "re.split", "re.findall", "re.finditer", "re.sub",
               "re.subn"}
# a second parameter that is data too
EXTRA = {}


def tainted(t, sources):
    """a source occurs in the term, outside re.escape"""
    stack = [t]
    while stack:
        x = stack.pop()
        if not isinstance(x, tuple):
            continue
        if x in sources:
            return True
        if x[:2] == ("a", "call:re.escape") or x[:2] == ("a", "lamv") or x[:1] == ("lamv",):
            continue
        # number of something, truth of something: no text
        if x[:2] in (("a", "len"), ("a", "isnone"), ("a", "in"), ("a", "eq")):
            continue
        stack.extend(x)
    return False


def run(ctx):
    jobs = []
    for scope in ("match", "group", "input", "variable"):
        for name in sorted(ctx.p.registry.get(scope, {})):
            fi = ctx.p.plugin(scope, name)
            a = fi.node.args
            ps = a.posonlyargs + a.args
            if ps:
                jobs.append(("{} function {}".format(scope, name), fi, {("s", ps[0].arg)}))
    for fi in ctx.p.all_functions():
        if fi.key == "ttp.ttp:_results_class.form_path":
            jobs.append((fi.qualname, fi, {("s", "self")}))
    for what, fi, sources in jobs:
        t = rows_of(ctx.p, fi)
        if t is None:
            ctx.count("functions_beyond_budget")
            continue
        ctx.count("functions")
        seen = {}
        for facts, comp, node in [(f, c, n) for f, c, n in t[0]] + [(f, c, n) for _, f, c, n in t[1]]:
            terms = list(facts) + [k[1] for k in comp if k[0] == "obj"] + list(comp.values())
            for x in subterms(tuple(terms)):
                if len(x) > 2 and x[0] == "a" and isinstance(x[1], str) and x[1].startswith("call:") \
                        and x[1][5:] in PATTERN_FNS:
                    ctx.count("regex_calls")
                    if tainted(x[2], sources):
                        seen.setdefault("{} gets a pattern made of data: {}".format(x[1][5:], show(x[2])[:100]), node)
                    if x[1][5:] in ("re.sub", "re.subn") and len(x) > 3 and tainted(x[3], sources):
                        seen.setdefault("{} gets a replacement template made of data: {}".format(
                            x[1][5:], show(x[3])[:100]), node)
        for text, node in sorted(seen.items()):
            ctx.report("regex_taint", ctx.at(fi, node), what + ": " + text, "regex_taint:{}:{}".format(fi.key, text[:7]))
