"""Option analysis (C19): every option of the command line parser has its own destination, that
destination is read by the tool, and every option the documentation lists exists."""
import ast
import os
import re

from ..effects import Effects
from ..program import own_nodes

KEY = "ttp.ttp:cli_tool"


def run(ctx):
    e = Effects(ctx.p, ctx.ref)
    fns = [f for f in e.functions if KEY in e.responsible(f) or f.key.startswith(KEY)]
    opts, dests, reads, whole = {}, {}, set(), False
    for fi in fns:
        for n in own_nodes(fi.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "add_argument":
                names = [a.value for a in n.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
                dest = next((k.value.value for k in n.keywords if k.arg == "dest" and isinstance(k.value, ast.Constant)), None)
                if not names:
                    continue
                if dest is None:
                    long = [x for x in names if x.startswith("--")]
                    dest = (long or names)[0].lstrip("-").replace("-", "_")
                for x in names:
                    opts[x] = dest
                dests.setdefault(dest, []).append((names, fi, n))
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                reads.add(n.attr)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                reads.add("'" + n.value)
    ctx.coverage["options"] = len(opts)
    if not opts:
        ctx.count("no_literal_options")
        return
    for d, uses in sorted(dests.items()):
        if len(uses) > 1:
            ctx.report("cli", ctx.at(uses[1][1], uses[1][2]), "options {} share a destination".format(
                ", ".join(u[0][-1] for u in uses)), "cli:share:" + d)
        used = d in reads or sum(1 for fi in fns for n in own_nodes(fi.node)
                                 if isinstance(n, ast.Constant) and n.value == d) > 1
        ctx.count("destinations_checked")
        if not used:
            ctx.report("cli", ctx.at(uses[0][1], uses[0][2]), "option {} is read by nothing".format(uses[0][0][-1]),
                       "cli:unused:" + d)
    doc = os.path.join(ctx.p.repo, "docs", "source", "CLI tool.rst")
    if os.path.exists(doc):
        with open(doc, encoding="utf-8") as f:
            text = f.read()
        for m in re.finditer(r"^\* ``(.+?)``", text, re.M):
            for o in re.split(r",\s*", m.group(1).strip()):
                if o.startswith("-"):
                    ctx.count("documented_options_checked")
                    if o not in opts:
                        ctx.report("cli", ctx.at(fns[0]), "documented option {} does not exist".format(o), "cli:doc:" + o)
