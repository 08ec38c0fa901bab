"""Import analysis (C22): every import of a package outside the standard library must be
guarded by a handler for its absence or belong to a function documented to need that
package; importing any module of ttp never needs it."""
import ast
import sys

from ..effects import Effects
from ..program import own_nodes, resolve_relative

STD = set(sys.stdlib_module_names) | {"ConfigParser", "StringIO", "__future__", "commands", "cPickle", "imp", "cElementTree"}
# functions whose documentation names a package; it may fail there without it
NEEDS = {
    "N2G": {"ttp.formatters.n2g_formatter:n2g"}, "openpyxl": {"ttp.formatters.excel_formatter:excel_formatter"},
    "jinja2": {"ttp.formatters.jinja2_formatter:jinja2_formatter"},
    "tabulate": {"ttp.formatters.tabulate_formatter:tabulate_formatter"},
    "yaml": {"ttp.formatters.yaml_formatter:yaml_formatter", "ttp.utils.loaders:load_yaml"},
    "deepdiff": {"ttp.output.deepdiffer:deepdiff_func"}, "cerberus": {"ttp.output.validate_cerberus:validate",
                                                                      "ttp.group.validate_cerberus:validate"},
    "dns": {"ttp.match.dns_lookups:dns_forward", "ttp.match.dns_lookups:dns_reverse"},
    "geoip2": {"ttp.lookup.geoip2:geoip2_db_loader", "ttp.match.geoip_lookup:geoip_lookup"},
    "yangson": {"ttp.output.validate_yangson:validate_yangson", "ttp.output.validate_yangson:_module_entry",
                "ttp.output.validate_yangson:_make_library"},
    "colorama": {"ttp.returners.terminal_returner:terminal_returner"}, "psutil": {"ttp.ttp:cli_tool"},
    "ttp_templates": {"ttp.utils.loaders:load_files", "ttp.ttp:ttp.get_template"},
    "ipaddress": None,
}


def catches_absence(t):
    for h in t.handlers:
        if h.type is None:
            return True
        names = [h.type] if not isinstance(h.type, ast.Tuple) else h.type.elts
        for n in names:
            s = ast.unparse(n).split(".")[-1]
            if s in ("ImportError", "ModuleNotFoundError", "Exception", "BaseException"):
                return True
    return False


def guarded_imports(body, guarded=False):
    """(import node, guarded) of a block, nested functions and classes excluded"""
    for n in body:
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            yield n, guarded
        elif isinstance(n, ast.Try):
            yield from guarded_imports(n.body, guarded or catches_absence(n))
            for h in n.handlers:
                yield from guarded_imports(h.body, guarded)
            yield from guarded_imports(n.orelse, guarded)
            yield from guarded_imports(n.finalbody, guarded)
        elif isinstance(n, (ast.If, ast.For, ast.While, ast.With)):
            # if TYPE_CHECKING: never runs
            if isinstance(n, ast.If) and "TYPE_CHECKING" in ast.unparse(n.test):
                yield from guarded_imports(n.orelse, guarded)
                continue
            old = old_python(n.test) if isinstance(n, ast.If) else None
            if old is not None:
                yield from guarded_imports(n.orelse if old else n.body, guarded)
                continue
            yield from guarded_imports(n.body, guarded)
            yield from guarded_imports(getattr(n, "orelse", []) or [], guarded)
        elif isinstance(n, ast.ClassDef):
            yield from guarded_imports(n.body, guarded)


def packages(m, n):
    if isinstance(n, ast.Import):
        return [a.name.split(".")[0] for a in n.names]
    if n.level:
        return ["ttp"]
    return [(n.module or "ttp").split(".")[0]]


def old_python(test):
    """True/False when the test is that of python 2 / python 3"""
    s = ast.unparse(test).replace(" ", "")
    if "version_info" not in s and "python_major_version" not in s:
        return None
    if s.endswith("==2") or s.endswith("<3") or s.endswith("!=3"):
        return True
    if s.endswith("==3") or s.endswith(">2") or s.endswith(">=3") or s.endswith("!=2"):
        return False
    return None


def run(ctx):
    e = Effects(ctx.p, ctx.ref)
    for m in ctx.p.modules.values():
        for n, g in guarded_imports(m.tree.body):
            for pk in packages(m, n):
                ctx.count("imports_checked")
                if pk in STD or pk == "ttp" or g:
                    continue
                # a module all of whose functions are documented to need the package
                users = {f.key for f in m.functions.values() if not f.name.startswith("_")}
                if users and users <= (NEEDS.get(pk) or set()):
                    continue
                ctx.report("imports", "{}:{} (module)".format(m.rel, n.lineno), "importing this module needs {}, which "
                           "is not in the standard library".format(pk), "imports:{}:{}".format(m.name, pk))
    for fi in e.functions:
        if fi.name == "<module>":
            continue
        for n, g in guarded_imports(fi.node.body):
            for pk in packages(fi.module, n):
                ctx.count("imports_checked")
                if pk in STD or pk == "ttp" or g:
                    continue
                allowed = NEEDS.get(pk, set())
                if allowed is None:
                    continue
                bad = sorted(o for o in e.responsible(fi) if o not in allowed)
                if bad:
                    ctx.report("imports", ctx.at(fi, n), "{} needs {}, which its documentation does not name and the "
                               "import is not guarded".format(", ".join(bad), pk), "imports:{}:{}".format(fi.key, pk))
