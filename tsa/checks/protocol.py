"""Answer protocol (C01): on every path of every registered match, group and input function
the value returned is a pair, and its second part is None, True, False, a truth value or a
dictionary holding new_field only."""
from ..absint import show
from ..tables import rows_of

# the path that falls off the end cannot be taken: an index is in range, or beyond one end
REVIEWED = {("match", "item", "k")}
BARE_CALLS = {"call:int", "call:float", "call:str", "call:list", "call:dict", "call:bool", "call:sorted", "len", "cat",
              "fmt", "map", "isnone", "eq", "in", "not"}


def verdict(t):
    """None when fine or not understood, else what is wrong"""
    if t[0] == "k":
        return None if t[1] in ("NoneType", "bool") else "verdict is " + show(t)
    if t[:2] == ("lit", "dict") and t[2][:1] == ("pairs",) and not t[3]:
        keys = [k for k, _ in t[2][1:]]
        bad = [k for k in keys if k[:1] == ("k",) and k[2] != "new_field"]
        if bad:
            return "verdict dictionary has key {}".format(show(bad[0]))
        if not keys:
            return None
    if t[:1] in (("tup",), ("s",)) or t[:2] in (("lit", "list"), ("lit", "str")):
        return "verdict is " + show(t)[:80]
    return None


def run(ctx):
    for scope in ("match", "group", "input"):
        for name in sorted(ctx.p.registry.get(scope, {})):
            fi = ctx.p.plugin(scope, name)
            t = rows_of(ctx.p, fi)
            if t is None:
                ctx.count("functions_beyond_budget")
                continue
            ctx.count("functions")
            seen = set()
            for facts, comp, node in t[0]:
                if comp.get(("kind",)) != "return":
                    continue
                ctx.count("return_paths")
                v = comp[("value",)]
                bad = None
                if v[0] == "tup":
                    if len(v) != 3:
                        bad = "a tuple of {} is returned".format(len(v) - 1)
                    else:
                        bad = verdict(v[2])
                elif v[0] in ("k", "s", "lit") or v[0] == "a" and v[1] in BARE_CALLS:
                    if (scope, name, v[0]) not in REVIEWED:
                        bad = "{} is returned instead of a pair".format(show(v)[:80])
                else:
                    ctx.count("return_values_not_understood")
                if bad and bad not in seen:
                    seen.add(bad)
                    ctx.report("protocol", ctx.at(fi, node), "{} function {}: {}".format(scope, name, bad),
                               "protocol:{}:{}".format(scope, name))
