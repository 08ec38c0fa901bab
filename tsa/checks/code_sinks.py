"""Sink analysis (C06): every mention of a function that executes, imports or unpickles
text, resolved through imports and aliases, must belong to one of the reviewed places
(python loaders, function cache, plugin import, template attributes); the python loaders
are reached only from macro and python variable loading."""
import ast

from ..effects import Effects
from ..program import own_nodes

C = "ttp.ttp:"
LPE = "ttp.utils.load_python_exec_py3:load_python_exec"
GA = "ttp.utils.get_attributes:get_attributes"
SINKS = {
    "builtins.eval": {LPE, GA}, "builtins.exec": {LPE}, "builtins.compile": {LPE},
    "builtins.__import__": {C + "CachedModule.load"}, "importlib.import_module": {C + "CachedModule.load"},
    "pickle.load": {C + "lazy_import_functions"}, "pickle.loads": set(), "pickle.Unpickler": set(),
    "cPickle.load": set(), "cPickle.loads": set(), "_pickle.loads": set(), "marshal.load": set(), "marshal.loads": set(),
    "shelve.open": set(), "dill.load": set(), "dill.loads": set(), "joblib.load": set(), "cloudpickle.load": set(),
    "os.system": set(), "os.popen": set(), "os.execv": set(), "os.execve": set(), "os.execvp": set(), "os.spawnl": set(),
    "os.spawnv": set(), "os.posix_spawn": set(), "os.startfile": set(), "subprocess.*": set(), "commands.getoutput": set(),
    "pty.spawn": set(), "code.interact": set(), "code.InteractiveInterpreter": set(), "runpy.run_path": set(),
    "runpy.run_module": set(), "imp.load_source": set(), "imp.load_module": set(), "ctypes.*": set(),
    "importlib.util.spec_from_file_location": set(), "importlib.machinery.SourceFileLoader": set(),
    "zipimport.zipimporter": set(), "timeit.timeit": set(), "types.FunctionType": set(), "types.CodeType": set(),
    "yaml.load": set(), "yaml.load_all": set(), "yaml.unsafe_load": set(), "yaml.full_load": set(),
    "yaml.unsafe_load_all": set(), "yaml.full_load_all": set(), "yaml.Loader": set(), "yaml.UnsafeLoader": set(),
    "yaml.FullLoader": set(), "yaml.CLoader": set(), "jsonpickle.decode": set(), "pandas.eval": set(),
    "numpy.load": set(), "logging.config.listen": set(), "xml.sax.parse": set(), "multiprocessing.connection.Client": set(),
    "builtins.breakpoint": set(), "pdb.set_trace": set(), "string.Formatter": set(), "jinja2.Template": set(),
    "jinja2.Environment": {"ttp.formatters.jinja2_formatter:jinja2_formatter"},
}
# who may ask for python text to be executed
LOADER_USERS = {C + "_template_class.parse_macro", C + "_worker.load_functions", "ttp.utils.loaders:load_python"}


def run(ctx):
    e = Effects(ctx.p, ctx.ref)
    for fi in e.functions:
        ctx.count("functions_scanned")
        for d, node, up in e.external_refs(fi):
            ctx.count("external_names_resolved")
            hit = d if d in SINKS else next((s for s in SINKS if s.endswith(".*") and d.startswith(s[:-1])), None)
            if hit is None and "." in d and d.rsplit(".", 1)[0] in SINKS:
                hit = d.rsplit(".", 1)[0]
            if hit is None:
                continue
            ctx.count("sink_sites")
            bad = sorted(o for o in e.responsible(fi) if o not in SINKS[hit])
            if bad:
                ctx.report("code_sinks", ctx.at(fi, node), "{} is used by {}".format(d, ", ".join(bad)),
                           "code_sinks:{}:{}".format(fi.key, hit))
            else:
                ctx.sample("{} allowed at {}".format(d, ctx.at(fi, node)))
        for n in own_nodes(fi.node):
            # text asked to be executed
            loader = isinstance(n, ast.Constant) and n.value == "load_python_exec" or \
                isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id == "load_python_exec"
            if loader and fi.name != "<module>":
                ctx.count("loader_uses")
                bad = sorted(o for o in e.responsible(fi) if o not in LOADER_USERS)
                if bad:
                    ctx.report("code_sinks", ctx.at(fi, n), "python text is executed on behalf of {}".format(
                        ", ".join(bad)), "code_sinks:{}:loader".format(fi.key))
            # keyword that makes a subprocess or loader unsafe
            if isinstance(n, ast.keyword) and n.arg == "shell" and isinstance(n.value, ast.Constant) and n.value.value is True:
                ctx.report("code_sinks", ctx.at(fi, n.value), "a shell is used", "code_sinks:{}:shell".format(fi.key))
