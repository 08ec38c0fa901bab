"""Effect analysis (C18): every mention of a process-wide setter, of file creation or
removal, of the terminal or of the network anywhere in the package is resolved through
imports and aliases and must belong to a function documented to have that effect; a
helper is judged by the known functions that reach it in the call graph."""
import ast

from ..effects import Effects
from ..program import own_nodes

# referring to one of these is an effect on the whole process
FORBIDDEN = {
    "os.chdir", "os.fchdir", "os.putenv", "os.unsetenv", "os.umask", "os.nice", "os.setuid", "os.setgid", "os.setsid",
    "os.chroot", "os.kill", "os.killpg", "os._exit", "os.abort", "os.setpriority", "os.sched_setaffinity", "os.dup2",
    "os.setpgrp", "os.environb",
    "locale.setlocale", "signal.signal", "signal.alarm", "signal.setitimer", "signal.pthread_sigmask",
    "warnings.simplefilter", "warnings.filterwarnings", "warnings.resetwarnings", "warnings.catch_warnings",
    "sys.setrecursionlimit", "sys.setswitchinterval", "sys.settrace", "sys.setprofile", "sys.setdlopenflags",
    "sys.set_int_max_str_digits", "sys.stdin", "sys.stdout.reconfigure", "sys.stderr.reconfigure",
    "random.seed", "random.setstate", "atexit.register", "atexit.unregister", "gc.disable", "gc.enable", "gc.freeze",
    "gc.set_threshold", "time.tzset", "socket.setdefaulttimeout", "faulthandler.enable", "faulthandler.register",
    "logging.disable", "logging.captureWarnings", "logging.shutdown", "logging.setLoggerClass",
    "logging.setLogRecordFactory", "logging.addLevelName", "logging.root", "logging.config.dictConfig",
    "logging.config.fileConfig", "multiprocessing.set_start_method", "multiprocessing.set_executable",
    "csv.field_size_limit", "csv.register_dialect", "decimal.setcontext", "decimal.getcontext",
    "threading.settrace", "threading.stack_size", "asyncio.set_event_loop", "resource.setrlimit", "sys.addaudithook",
    "re.purge", "linecache.clearcache", "builtins.input", "tempfile.tempdir", "importlib.reload",
    "importlib.invalidate_caches", "site.addsitedir", "readline.parse_and_bind", "codecs.register",
    "codecs.register_error", "copyreg.pickle", "xml.etree.ElementTree.register_namespace",
    "xml.etree.cElementTree.register_namespace", "mimetypes.init",
}
C = "ttp.ttp:"
# effect -> functions documented to have it
ALLOWED = {
    "logging.basicConfig": {C + "logging_config"},
    "builtins.print": {C + "cli_tool", C + "cli_tool.<locals>.timing", "ttp.input.test:test", "ttp.match.string:sprint",
                       "ttp.output.validate_yangson:_make_library", "ttp.returners.terminal_returner:terminal_returner",
                       "ttp.output.validate_yangson:validate_yangson"},
    "sys.stdout.write": {"ttp.returners.terminal_returner:terminal_returner"},
    "os.mkdir": {"ttp.returners.file_returner:file_returner", "ttp.formatters.excel_formatter:excel_formatter"},
    "os.makedirs": {"ttp.returners.file_returner:file_returner", "ttp.formatters.excel_formatter:excel_formatter",
                    C + "lazy_import_functions"},
    "colorama.init": {"ttp.returners.terminal_returner:terminal_returner"},
    "logging.handlers.SysLogHandler": {"ttp.returners.syslog_returner:syslog"},
    "time.sleep": {"ttp.returners.syslog_returner:syslog"},
    "os.replace": {C + "lazy_import_functions", "ttp.returners.file_returner:file_returner"},
    "os.rename": {C + "lazy_import_functions", "ttp.returners.file_returner:file_returner"},
    "os.remove": {C + "lazy_import_functions"},
    "os.unlink": {C + "lazy_import_functions"},
    "os.rmdir": set(), "os.removedirs": set(), "os.renames": set(), "os.truncate": set(), "os.chmod": set(),
    "os.chown": set(), "os.symlink": set(), "os.link": set(), "os.utime": set(), "os.mkfifo": set(),
    "shutil.rmtree": set(), "shutil.move": {C + "lazy_import_functions"}, "shutil.copy": set(), "shutil.copyfile": set(),
    "shutil.copytree": set(), "sys.stdout": {"ttp.returners.terminal_returner:terminal_returner"}, "sys.stderr": set(),
    "tempfile.NamedTemporaryFile": {C + "lazy_import_functions"}, "tempfile.mkstemp": {C + "lazy_import_functions"},
    "tempfile.mkdtemp": set(), "tempfile.TemporaryDirectory": set(), "tempfile.TemporaryFile": set(),
    "socket.socket": set(), "socket.create_connection": set(), "urllib.request.urlopen": set(),
    "http.client.HTTPConnection": set(), "smtplib.SMTP": set(), "logging.FileHandler": {C + "logging_config"},
    "logging.StreamHandler": set(), "logging.handlers.RotatingFileHandler": set(),
    "pprint.pprint": {"ttp.returners.terminal_returner:terminal_returner"},
    "traceback.print_exc": set(), "traceback.print_stack": set(), "traceback.print_exception": set(),
}
WRITES_FILES = {C + "lazy_import_functions", "ttp.returners.file_returner:file_returner",
                "ttp.output.validate_yangson:_make_library", "ttp.formatters.excel_formatter:excel_formatter"}
# objects of the interpreter whose content belongs to the application
PROCESS_OBJECTS = {"os.environ": "environment variables", "sys.path": "the import path", "sys.modules": "loaded modules",
                   "sys.meta_path": "import hooks", "sys.path_hooks": "import hooks", "sys.argv": "program arguments",
                   "sys.warnoptions": "warning options", "warnings.filters": "warning filters",
                   "sys.path_importer_cache": "import caches", "logging.root.handlers": "log handlers",
                   "os.path": "os.path", "builtins": "builtins", "signal": "signal", "locale": "locale"}
MUTATORS = {"append", "extend", "insert", "remove", "pop", "popitem", "clear", "update", "setdefault", "sort",
            "reverse", "add", "discard", "__setitem__", "__delitem__"}
LOG_SETTERS = {"setLevel", "addHandler", "removeHandler", "addFilter", "removeFilter"}


def open_mode(call):
    mode = None
    if len(call.args) > 1:
        mode = call.args[1]
    for k in call.keywords:
        if k.arg == "mode":
            mode = k.value
    return mode


def writing_mode(call):
    m = open_mode(call)
    if m is None:
        return False
    if isinstance(m, ast.Constant) and isinstance(m.value, str):
        return any(c in m.value for c in "wax+")
    return None     # unknown


def run(ctx):
    e = Effects(ctx.p, ctx.ref)
    for fi in e.functions:
        ctx.count("functions_scanned")
        who = None

        def owners():
            nonlocal who
            if who is None:
                who = e.responsible(fi)
            return who
        sc = e.scopes[fi.key]
        for d, node, up in e.external_refs(fi):
            ctx.count("external_names_resolved")
            hit = next((x for x in (d, d.rsplit(".", 1)[0] if "." in d else d) if x in FORBIDDEN), None)
            if hit:
                ctx.report("global_effects", ctx.at(fi, node),
                           "{} changes state of the whole process".format(hit), "global_effects:{}:{}".format(fi.key, hit))
                continue
            hit = next((x for x in (d, d.rsplit(".", 1)[0] if "." in d else d) if x in ALLOWED), None)
            if hit:
                bad = sorted(o for o in owners() if o not in ALLOWED[hit])
                ctx.count("effect_sites")
                if bad:
                    ctx.report("global_effects", ctx.at(fi, node), "{} used by {}, which is not documented to have "
                               "this effect".format(hit, ", ".join(bad)), "global_effects:{}:{}".format(fi.key, hit))
            base = next((x for x in (d, d.rsplit(".", 1)[0]) if x in PROCESS_OBJECTS), None)
            if base:
                written = False
                if isinstance(node.ctx, (ast.Store, ast.Del)):
                    written = True
                if isinstance(up, ast.Subscript) and up.value is node and isinstance(up.ctx, (ast.Store, ast.Del)):
                    written = True
                if d != base and d.rsplit(".", 1)[1] in MUTATORS:
                    written = True
                if written:
                    ctx.report("global_effects", ctx.at(fi, node), "changes {} of the process ({})".format(
                        PROCESS_OBJECTS[base], base), "global_effects:{}:{}".format(fi.key, base))
        for n in own_nodes(fi.node):
            # attributes of imported modules
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                d = sc.dotted(n.value)
                if d and not d.startswith("builtins.") and not d.startswith("ttp."):
                    ctx.report("global_effects", ctx.at(fi, n), "assigns attribute {} of {}, shared by the whole "
                               "process".format(n.attr, d), "global_effects:{}:{}.{}".format(fi.key, d, n.attr))
            if not isinstance(n, ast.Call):
                continue
            d = sc.dotted(n.func)
            if d == "builtins.setattr" and n.args:
                t = sc.dotted(n.args[0])
                if t and not t.startswith("ttp"):
                    ctx.report("global_effects", ctx.at(fi, n), "sets an attribute of {}".format(t),
                               "global_effects:{}:setattr {}".format(fi.key, t))
            if d in ("builtins.open", "io.open", "codecs.open", "os.fdopen"):
                ctx.count("effect_sites")
                if writing_mode(n) is True:
                    bad = sorted(o for o in owners() if o not in WRITES_FILES)
                    if bad:
                        ctx.report("global_effects", ctx.at(fi, n), "writes a file on behalf of {}, which is not "
                                   "documented to do so".format(", ".join(bad)), "global_effects:{}:open".format(fi.key))
            if isinstance(n.func, ast.Attribute) and n.func.attr in LOG_SETTERS:
                # a logger of this package or the root logger
                recv = n.func.value
                rd = sc.dotted(recv.func) if isinstance(recv, ast.Call) else None
                root = rd in ("logging.getLogger",) and not recv.args
                own = isinstance(recv, ast.Name) and recv.id in ("log", "logger") and recv.id in fi.module.assigns
                if root or own:
                    bad = sorted(o for o in owners() if o != C + "logging_config")
                    if bad:
                        ctx.report("global_effects", ctx.at(fi, n), "configures a logger of the application",
                                   "global_effects:{}:{}".format(fi.key, n.func.attr))
