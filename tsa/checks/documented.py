"""Registry analysis (C15): every function name the documentation of a scope has a section for and
the reviewed tree registers is registered (file name, or _name_map_), once; it accepts the
same arguments, by position and by name, with the same defaults where they are optional."""
import ast
import os
import re

DOCS = {"match": "Match Variables/Functions.rst", "group": "Groups/Functions.rst", "input": "Inputs/Functions.rst",
        "output": "Outputs/Functions.rst", "formatters": "Outputs/Formatters.rst", "returners": "Outputs/Returners.rst",
        "variable": "Template Variables/Getters.rst"}


def headings(path):
    with open(path, encoding="utf-8") as f:
        lines = f.read().splitlines()
    for a, b in zip(lines, lines[1:]):
        if len(b) > 3 and set(b) <= {"-"} and re.fullmatch(r"[A-Za-z_0-9]+", a.strip()):
            yield a.strip()


def signature(fi):
    a = fi.node.args
    pos = a.posonlyargs + a.args
    d = [None] * (len(pos) - len(a.defaults)) + list(a.defaults)
    return [(x.arg, y) for x, y in zip(pos, d)], bool(a.vararg), bool(a.kwarg), \
        {x.arg: y for x, y in zip(a.kwonlyargs, a.kw_defaults)}


def run(ctx):
    docs = os.path.join(ctx.p.repo, "docs", "source")
    for scope in sorted(ctx.ref.registry):
        names = set(ctx.ref.registry[scope])
        doc = DOCS.get(scope)
        if doc and os.path.exists(os.path.join(docs, doc)):
            listed = set(headings(os.path.join(docs, doc)))
            ctx.count("documented_names_found", len(listed & names))
        for name in sorted(names):
            r, c = ctx.ref.plugin(scope, name), ctx.p.plugin(scope, name)
            ctx.count("functions_looked_up")
            if c is None:
                ctx.report("documented", "ttp/{}/".format(scope), "{} function {} is not registered".format(scope, name),
                           "documented:{}:{}".format(scope, name))
                continue
            if len(ctx.p.registry[scope][name]) > 1:
                ctx.report("documented", ctx.at(c), "{} function {} is registered by several files".format(scope, name),
                           "documented:{}:{}:twice".format(scope, name))
            rs, rv, rk, ro = signature(r)
            cs, cv, ck, co = signature(c)
            bad = None
            cnames = [x for x, _ in cs]
            for i, (n, d) in enumerate(rs):
                ctx.count("arguments_compared")
                if n in cnames:
                    if cnames.index(n) != i:
                        bad = "argument {} moved".format(n)
                    elif d is not None and cs[i][1] is None:
                        bad = "argument {} became mandatory".format(n)
                elif i == 0 and cs:
                    continue        # the data, never given by name
                elif n in co or (ck and d is not None):
                    continue
                elif i < len(cs) and not (rk or ck):
                    bad = "argument {} is not accepted by name".format(n)
                elif i >= len(cs) and not cv:
                    bad = "argument {} is not accepted".format(n)
            if not bad:
                extra = [n for (n, d) in cs[len(rs):] if d is None]
                if extra:
                    bad = "argument {} became mandatory".format(extra[0])
                if rv and not cv:
                    bad = "any number of arguments is no longer accepted"
                if rk and not ck:
                    bad = "any named argument is no longer accepted"
                for n in ro:
                    if n not in co and n not in cnames and not ck:
                        bad = "argument {} is not accepted".format(n)
            if bad:
                ctx.report("documented", ctx.at(c), "{} function {}: {}".format(scope, name, bad),
                           "documented:{}:{}:args".format(scope, name))
        for name in sorted(set(ctx.p.registry.get(scope, {})) - names):
            ctx.count("functions_not_in_reference")
