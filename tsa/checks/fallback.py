"""Fallback values (C04): on no path of a conversion or lookup function is the matched value
replaced by nothing; a conversion tried on the data (int, float, ipaddress, indexing of tables)
inside a handler ends, when it fails, with the original data."""
from ..absint import show
from ..tables import rows_of

MATCH = ["to_int", "to_float", "to_str", "to_list", "to_unicode", "to_ip", "to_net", "to_cidr", "ip_info", "mac_eui",
         "unrange", "uptimeparse", "item", "geoip_lookup", "dns", "rdns", "lookup", "rlookup", "gpvlookup", "replaceall",
         "resub", "resuball", "truncate", "append", "prepend", "join", "sformat"]
GROUP = ["to_int", "to_ip", "lookup", "items2dict", "itemize", "str_to_unicode"]
CONV = {"call:int", "call:float", "call:ipaddress.ip_address", "call:ipaddress.IPv4Address", "call:ipaddress.IPv6Address",
        "call:ipaddress.ip_network", "call:ipaddress.IPv4Network", "call:ipaddress.IPv6Network",
        "call:ipaddress.ip_interface", "call:ipaddress.IPv4Interface", "call:ipaddress.IPv6Interface"}


def run(ctx):
    for scope, names in (("match", MATCH), ("group", GROUP)):
        for name in names:
            fi = ctx.p.plugin(scope, name)
            if fi is None:
                continue
            t = rows_of(ctx.p, fi)
            if t is None:
                ctx.count("functions_beyond_budget")
                continue
            ctx.count("functions")
            params = [x.arg for x in fi.node.args.posonlyargs + fi.node.args.args]
            data = ("s", params[0]) if params else None
            seen = {}
            for facts, comp, node in t[0]:
                if comp.get(("kind",)) != "return":
                    continue
                v = comp[("value",)]
                if v[0] != "tup" or len(v) != 3:
                    continue
                ctx.count("return_paths")
                if v[1] == ("k", "NoneType", None) or v[1][0] == "k":
                    seen.setdefault("the value is replaced by " + show(v[1]), node)
                if v[1][:2] == ("lit", "list") and v[1][2] == ("items",) and not v[1][3]:
                    seen.setdefault("the value is replaced by an empty list", node)
                # all conversions of the data failed on this path
                conv = [(a, x) for a, x in facts.items() if a[:2] == ("a", "raises") and a[2][0] == "a"
                        and a[2][1] in CONV and data in a[2][2:]]
                if conv and scope == "match" and any(x for _, x in conv):
                    failed = {a[2] for a, x in conv if x}
                    if v[1] in failed:
                        seen.setdefault("a failed conversion {} is returned".format(show(v[1])[:60]), node)
                    ctx.count("failed_conversion_paths")
            for text, node in sorted(seen.items()):
                ctx.report("fallback", ctx.at(fi, node), "{} function {}: {}".format(scope, name, text),
                           "fallback:{}:{}".format(scope, name))
