"""Typestate analysis (C21): every file or socket opened is the context of a with
statement, is closed in a finally block that covers everything done with it, or is handed
to the caller by a function documented to do so; files are opened for writing only where
documented."""
import ast

from ..effects import Effects
from ..program import own_nodes
from .global_effects import writing_mode

OPENERS = {"builtins.open", "io.open", "codecs.open", "gzip.open", "bz2.open", "lzma.open", "os.fdopen",
           "socket.socket", "socket.create_connection", "zipfile.ZipFile", "tarfile.open", "sqlite3.connect",
           "urllib.request.urlopen", "tempfile.NamedTemporaryFile", "tempfile.TemporaryFile", "os.open"}
CLOSERS = {"contextlib.closing"}


def parents_of(fn):
    up = {}
    for n in own_nodes(fn):
        for c in ast.iter_child_nodes(n):
            up[c] = n
    for s in fn.body:
        up.setdefault(s, fn)
    return up


def closes(stmts, name):
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "close" \
                    and isinstance(n.func.value, ast.Name) and n.func.value.id == name:
                return True
    return False


def released(fn, name, call, up):
    """the variable is used as a with item or closed in a finally covering its uses"""
    blocks = []
    for n in own_nodes(fn):
        if isinstance(n, (ast.With, ast.AsyncWith)):
            for it in n.items:
                x = it.context_expr
                if isinstance(x, ast.Name) and x.id == name:
                    blocks.append(n)
                if isinstance(x, ast.Call) and any(isinstance(a, ast.Name) and a.id == name for a in x.args):
                    blocks.append(n)
        if isinstance(n, ast.Try) and closes(n.finalbody, name):
            blocks.append(n)
    if not blocks:
        return False
    # nothing that can fail happens to it outside those blocks, other than opening it
    for n in own_nodes(fn):
        if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load):
            x = n
            inside = False
            while x in up:
                x = up[x]
                if x in blocks:
                    inside = True
                    break
            if not inside and not any(isinstance(b, (ast.With, ast.AsyncWith)) for b in blocks):
                return False
    return True


def run(ctx):
    e = Effects(ctx.p, ctx.ref)
    for fi in e.functions:
        ctx.count("functions_scanned")
        sc = e.scopes[fi.key]
        up = None
        for n in own_nodes(fi.node):
            if not (isinstance(n, ast.Call) and sc.dotted(n.func) in OPENERS):
                continue
            if up is None:
                up = parents_of(fi.node)
            ctx.count("resources_opened")
            x = up.get(n)
            ok = False
            node = n
            # with open(..) / with closing(open(..)) / stack.enter_context(open(..))
            while isinstance(x, (ast.Call, ast.IfExp)):
                f = x.func if isinstance(x, ast.Call) else None
                if f is not None and (sc.dotted(f) in CLOSERS or isinstance(f, ast.Attribute) and f.attr in (
                        "enter_context", "push", "callback")):
                    ok = isinstance(f, ast.Attribute)
                elif f is not None and node is not x.func:
                    break
                node, x = x, up.get(x)
            if isinstance(x, ast.withitem):
                ok = True
            elif isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                ok = ok or released(fi.node, x.targets[0].id, n, up)
                if not ok:
                    # handed to the caller: judged there
                    name = x.targets[0].id
                    ok = any(isinstance(r, ast.Return) and isinstance(r.value, ast.Name) and r.value.id == name
                             for r in own_nodes(fi.node)) and fi.key not in e.ref_keys
            elif isinstance(x, ast.Return) and fi.key not in e.ref_keys:
                ok = True
            if not ok:
                ctx.report("closed", ctx.at(fi, n), "what is opened here is not closed on every way out",
                           "closed:{}".format(fi.key))
            else:
                ctx.sample("closed: {}".format(ctx.at(fi, n)))
