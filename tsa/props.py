"""The property table: statements, anchors in the analysed tree and the analyses
that decide each property.  properties.jsonl and MANIFEST.json are generated
from it (tools/gen.py)."""

import os

PROPS = []
_CHECKS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks")


def prop(id, title, statement, over, text, why, files, mechanism, contracts=(), rules=(), note="",
         observe=(), components=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=mechanism, contracts=list(contracts), rules=[r for r in rules if os.path.exists(os.path.join(_CHECKS, r + ".py"))], note=note,
                      observe=list(observe), components=components))


CORE = "ttp/ttp.py"
R = "core:_results_class."
MATCH_FILTERS = ["contains", "equal", "notequal", "exclude", "isdigit", "notdigit", "greaterthan", "lessthan",
                 "startswith_re", "endswith_re", "contains_re", "notstartswith_re", "notendswith_re",
                 "exclude_re", "is_ip", "cidr_match"]
GROUP_FILTERS = ["contains", "contains_val", "containsall", "equal", "exclude", "exclude_val", "excludeall",
                 "void"]
MATCH_CONV = ["to_int", "to_float", "to_str", "to_list", "to_unicode", "to_ip", "to_net", "to_cidr", "ip_info",
              "mac_eui", "unrange", "uptimeparse", "item", "geoip_lookup", "dns", "rdns", "lookup", "rlookup",
              "gpvlookup", "replaceall", "resub", "resuball", "truncate"]
SAVE = [R + n for n in ("make_results", "start", "startempty", "add", "join", "end", "save_curelements",
                        "reconstruct_last_element", "_merge_recursively", "processgrp", "__init__")]
PATHS = [R + n for n in ("form_path", "value_to_list", "list_to_dict_fwd", "dict_by_path", "save_curelements",
                         "save_vars", "reconstruct_last_element", "_merge_recursively")]


def m(names):
    return ["match/" + n for n in names]


def g(names):
    return ["group/" + n for n in names]


prop("C01", "Template functions answer with a value and a verdict, and are obeyed",
     "Every built-in match variable or group function answers any value and arguments with a pair: the data to use "
     "next and a verdict that is nothing, True, False or (match variables) fields to add to the results. The parser "
     "honours it: the returned value replaces the matched one, False discards the match or group record, True or "
     "nothing keeps it, and returned fields are added to the same result.",
     ["inputs", "programs"],
     "every built-in function, every value of every type it can be handed by the previous function of the chain, "
     "every way through the function",
     "Tests call each function with one or two typical values; the error, empty and unusual-type paths of ~70 "
     "functions, where a bare value or nothing is returned by mistake, are not reached.",
     ["ttp/match", "ttp/group", CORE],
     [("function chain of a match", "ttp/ttp.py check_matches"), ("group functions", "ttp/ttp.py processgrp"),
      ("answers of the plugins", "ttp/match/*.py, ttp/group/*.py")],
     contracts=["core:_parser_class.parse.<locals>.check_matches", R + "processgrp",
                "core:_parser_class.run_var_functions", "match/item", "match/let", "match/raise", "match/void",
                "match/copy", "match/print", "match/joinmatches", "match/macro", "group/macro", "group/validate",
                "group/cerberus", "match/sformat", "group/sformat"],
     rules=["protocol"])

prop("C02", "Filter functions never alter the data they look at",
     "A built-in function that only tests a matched value or a group record (contains, equal, exclude, isdigit, "
     "greaterthan, is_ip, startswith_re, containsall, exclude_val, void and their relatives) hands back exactly the "
     "data it was given, whatever its verdict. It does not change the record, its defaults, template variables or "
     "other parser state as a side effect.",
     ["inputs", "programs"],
     "every filter function, every value or record and every argument",
     "Tests look at the records that pass the filter; a filter that rewrites, strips or removes data does so on the "
     "values no test looks at, or visibly only in a later function of the chain.",
     ["ttp/match", "ttp/group"],
     [("match filters", "ttp/match/string.py, ttp/match/re_.py, ttp/match/ip.py"),
      ("group filters", "ttp/group/*.py")],
     contracts=m(MATCH_FILTERS) + g(GROUP_FILTERS),
     rules=["filters_pure"])

prop("C03", "Filter verdicts match the documented condition",
     "Each filter function keeps data exactly when its documented condition holds and discards it otherwise: for any "
     "value, any number of arguments, arguments naming template variables, group values that are only defaults, and "
     "values of unusual type or length. Negated filters (notequal, exclude, notdigit, notstartswith_re, exclude_val "
     "...) are the exact complement of what they negate.",
     ["inputs", "configurations"],
     "all values, argument lists, variable tables and group defaults",
     "Each filter has one or two test templates; combinations of several arguments, variables, defaults and boundary "
     "values are not tried.",
     ["ttp/match/string.py", "ttp/match/re_.py", "ttp/match/ip.py", "ttp/group"],
     [("condition of each filter", "ttp/match/*.py, ttp/group/*.py")],
     contracts=m(MATCH_FILTERS) + g(GROUP_FILTERS),
     rules=["filter_pairs"])

prop("C04", "Failed conversions and lookups keep the original value",
     "When a conversion, IP, MAC, range, uptime, lookup or name-resolution function cannot do its job (text not in the "
     "expected form, key not in the table, index out of range, no such variable or table), it hands back the value it "
     "was given unchanged and keeps the match, or discards the match where it is documented to validate. It never "
     "replaces the value with nothing, a partial result or an error.",
     ["inputs", "configurations"],
     "every conversion and lookup function, every value it cannot convert and every table lacking the key",
     "Tests feed convertible values; the failure paths depend on the type and form of arbitrary device output.",
     ["ttp/match", "ttp/group"],
     [("conversions", "ttp/match/to.py, ttp/match/ip.py, ttp/match/mac_eui.py, ttp/match/unrange.py"),
      ("lookups", "ttp/match/lookup.py, ttp/group/lookup.py, ttp/match/dns_lookups.py")],
     contracts=m(MATCH_CONV) + g(["to_int", "to_ip", "lookup", "items2dict", "itemize", "str_to_unicode"]),
     rules=["fallback"])

prop("C05", "Input text is never used as a regular expression or replacement template",
     "Values matched in the input, host names, file names and command texts are only ever searched, compared and "
     "copied literally: characters that are special in regular expressions, in regex replacement text or in dynamic "
     "path markers have no special effect when they occur in data. Only template text can define a pattern.",
     ["inputs"],
     "all input texts, including ones with backslashes, brackets, stars, braces and percent signs",
     "Test data are ordinary device outputs without special characters in the places that reach a pattern.",
     [CORE, "ttp/match", "ttp/input/commands.py", "ttp/variable/gethostname.py"],
     [("dynamic path substitution", "ttp/ttp.py form_path"),
      ("prompt regex of commands extraction", "ttp/input/commands.py"),
      ("regex functions take the pattern from the template", "ttp/match/re_.py")],
     contracts=[R + "form_path", "input/extract_commands", "variable/gethostname", "match/replaceall",
                "match/resub", "match/resuball", "match/contains", "match/sformat", "match/unrange",
                "match/contains_re", "core:_variable_class.form_regex", "match/mac_eui",
                "core:_parser_class.parse.<locals>.run_re"],
     rules=["regex_taint"])

prop("C06", "Input data is never executed or deserialised as code",
     "Parsing, transforming and returning results never evaluates, compiles, imports, unpickles or passes to a shell "
     "any text that comes from the data being parsed. Code runs only when the template author asked for it (macro, "
     "python loaders), and the pickled function cache is the only thing ever unpickled.",
     ["inputs", "configurations"],
     "all input data, all templates without macro or python loaders",
     "Tests contain no hostile data; an unsafe loader or evaluation behaves the same on harmless text.",
     ["ttp"],
     [("only places that execute code", "ttp/utils/load_python_exec*.py"),
      ("safe loaders", "ttp/utils/loaders.py"), ("function cache", "ttp/ttp.py lazy_import_functions")],
     contracts=["ttp.utils.load_python_exec_py3:load_python_exec", "utils/load_yaml", "utils/load_python",
                "core:_template_class.parse_macro", "utils/get_attributes",
                "ttp.utils.get_attributes:_get_args_kwargs"],
     rules=["code_sinks"])

prop("C07", "Template lines are turned into regexes that match them as written",
     "Text of a template line outside match variables is matched literally (special characters escaped, any run of "
     "digits or of spaces generalised as documented), the whole line is anchored between line ends, and each match "
     "variable captures with its own pattern or the documented default. Line indicators such as _start_, _end_, "
     "_line_, _exact_, _exact_space_, _headers_, ignore and ROW/PHRASE style patterns act on their own line or "
     "variable only.",
     ["programs", "inputs"],
     "all template lines: any literal text, any mix of variables, patterns and indicators",
     "Tests use a fixed set of templates; literal text with special characters and mixes of indicators on a line are "
     "only sampled.",
     [CORE, "ttp/patterns/get_pattern.py"],
     [("line to regex", "ttp/ttp.py _variable_class.form_regex"),
      ("regexes of a group", "ttp/ttp.py _group_class.get_regexes"),
      ("indicators", "ttp/ttp.py _variable_class.extract_functions")],
     contracts=["core:_variable_class.form_regex", "core:_variable_class.form_regex.*", "core:_group_class.get_regexes",
                "core:_variable_class.extract_functions", "core:_variable_class.extract_functions.*",
                "core:_variable_class.__init__", "patterns/get"],
     rules=[])

prop("C08", "Parsing leaves the loaded template unchanged",
     "Parsing data, even several inputs or several times with the same parser object, never alters what the template "
     "defined: its groups, regexes, function arguments, default values, variables, lookup tables, input and output "
     "settings. Parsing the same data again after clearing results gives the same results as the first time.",
     ["histories", "inputs"],
     "every sequence of add_input / parse / clear_result on one parser object",
     "Tests parse once per parser object; state leaking into the template shows only on a later parse.",
     [CORE, "ttp/match", "ttp/group"],
     [("per-parse copies of variables and defaults", "ttp/ttp.py set_data, update_runs, set_runs, start"),
      ("functions using template data read-only", "ttp/match/*.py, ttp/group/*.py")],
     contracts=["core:_parser_class.set_data", "core:_parser_class.update_groups_runs", "core:_group_class.update_runs",
                "core:_group_class.set_runs", R + "start", R + "startempty", R + "add", R + "join", R + "save_vars",
                R + "__init__", "core:_parser_class.__init__", "match/append", "match/prepend", "match/set",
                "group/set", "match/record", "group/record", "match/let", "match/lookup", "match/gpvlookup",
                "group/lookup", "core:_parser_class.run_var_functions", "core:_parser_class.parse",
                "core:_template_class.form_results", "match/macro", "group/sformat"],
     rules=["template_immutable"])

prop("C09", "Formatting and returning leaves results and settings unchanged",
     "Running outputs, formatters and returners, or asking for results in some format, reads the results: results "
     "stored in the parser are not changed by a formatter, returner or comparison, and asking for results again in "
     "any format gives the same answer. Output settings defined in the template are not modified by running them, so "
     "each run of an output sees the same settings.",
     ["histories", "inputs", "configurations"],
     "every sequence of result() calls in any format and structure, every output run on every result",
     "Tests ask for results once; damage shows only when the results or settings are used a second time.",
     [CORE, "ttp/formatters", "ttp/returners", "ttp/output"],
     [("output run on the results", "ttp/ttp.py _outputter_class.run"), ("formatters", "ttp/formatters/*.py"),
      ("output functions", "ttp/output/*.py")],
     contracts=["core:_outputter_class.run", "core:_template_class.run_outputs", "core:ttp.result",
                "core:ttp.clear_result", "output/dict_to_list", "output/traverse", "ttp.output.transform:_set_data",
                "output/is_equal", "output/validate", "ttp.output.validate_cerberus:_run_validation",
                "output/deepdiff", "formatters/csv", "formatters/table", "formatters/tabulate", "formatters/json",
                "formatters/yaml", "formatters/pprint", "formatters/jinja2", "formatters/raw", "formatters/excel",
                "formatters/n2g", "returners/file", "returners/self", "returners/terminal"],
     rules=["formatters_pure"])

prop("C10", "Results never depend on unordered sources",
     "For the same template and data the results, their order and the generated files are the same on every run, "
     "interpreter and machine: nothing that reaches them is taken from the iteration order of a set, from directory "
     "listing order or from hash values. Groups, inputs, outputs, macros and lookups are processed in template order.",
     ["configurations", "inputs"],
     "all hash seeds, all directory listing orders, all templates and data",
     "A test run sees one hash seed and one file system order.",
     ["ttp"],
     [("sorting of matches by position", "ttp/ttp.py parse, form_results"),
      ("ordered directory reads", "ttp/utils/loaders.py"), ("groups of inputs", "ttp/ttp.py update_input")],
     contracts=["core:_template_class.form_results", "core:_template_class.update_input",
                "core:_template_class.update_inputs_with_groups", "utils/load_files", "core:_input_class.load_data",
                R + "save_vars", "core:_worker.load_functions", "formatters/csv", "formatters/table",
                "core:lazy_import_functions"],
     rules=["unordered"])

prop("C11", "Multi-process parsing gives the same results as single-process",
     "For templates with results per input, parsing the inputs in several processes gives the same results, in the "
     "same order and structure, as parsing them in one process: every input is parsed exactly once, by its own groups, "
     "with the same variables, lookups, custom functions and macros, and an error while parsing surfaces the same way. "
     "Which mode is used depends only on the requested mode and on the amount of data.",
     ["schedules", "inputs", "configurations"],
     "all numbers of inputs, templates and workers, all completion orders",
     "Tests parse a handful of files in multi-process mode, with one completion order.",
     [CORE],
     [("distribution and collection of jobs", "ttp/ttp.py __parse_in_multiprocess"),
      ("worker set-up", "ttp/ttp.py _worker"), ("choice of mode", "ttp/ttp.py parse")],
     contracts=["core:ttp.parse", "core:ttp.__parse_in_multiprocess", "core:ttp.__parse_in_one_process",
                "core:_worker.__init__", "core:_worker.run", "core:_worker.load_functions",
                "core:ttp._calculate_overall_data_size", "core:_template_class.form_results"],
     rules=["worker"])

prop("C12", "Every started group record is saved exactly once",
     "Each match of a group start line begins a new record; each record that passes its group functions appears in the "
     "results exactly once, at its group's path, including the last record of the input and records without any "
     "further matches. Lines matched after a record was saved are merged into that record and do not create, drop or "
     "duplicate records.",
     ["inputs", "histories"],
     "every sequence of start, add, join, line and end matches of nested groups",
     "Tests hold some dozens of match sequences of the unbounded number nested groups allow.",
     [CORE],
     [("record state machine", "ttp/ttp.py _results_class")],
     contracts=SAVE + [R + "dict_by_path", R + "value_to_list", R + "list_to_dict_fwd",
                       "core:_template_class.form_results"],
     rules=["record_typestate"])

prop("C13", "Invalidated matches and groups never reach the results",
     "When a function of a start match or of the group itself rejects the data, or the group's path cannot be formed, "
     "that group's record is not saved, and following matches that belong to it or to its child groups are ignored "
     "until the group starts again. A rejected ordinary match is dropped without affecting the rest of the record, "
     "and an _end_ line stops matches from being added to its group.",
     ["inputs", "histories"],
     "every sequence of valid and rejected matches of nested groups",
     "Tests reject a few matches in simple templates; the interplay of rejected parents, children, restarts and "
     "several candidate lines is not sampled.",
     [CORE],
     [("rejected match", "ttp/ttp.py check_matches, make_results"), ("ended groups", "ttp/ttp.py _results_class.end")],
     contracts=[R + "make_results", R + "processgrp", R + "end", R + "start", R + "startempty", R + "form_path",
                "core:_parser_class.parse.<locals>.check_matches", R + "save_vars"],
     rules=["reject_typestate"])

prop("C14", "A results path denotes one place, created and found by the same keys",
     "A group path, however it is formed (static names, dynamic names from matches or variables, lists with *, merged "
     "dictionaries with **, null path _ , integer keys option), names one place in the results. The place is created, "
     "found again, turned into a list and merged into under the same keys and in the same structure every time.",
     ["inputs", "programs"],
     "all paths: any depth, any position of *, ** and _, any matched text as path item",
     "Tests use a small set of paths; the four routines that walk paths must agree on all of them.",
     [CORE],
     [("path walking", "ttp/ttp.py form_path, dict_by_path, list_to_dict_fwd, value_to_list"),
      ("path of groups", "ttp/ttp.py _group_class.set_anonymous_path, extract_name")],
     contracts=PATHS + ["core:_group_class.set_anonymous_path", "core:_group_class.get_attributes.<locals>.extract_name",
                        "core:_group_class.__init__",
                        "core:_template_class.get_template_attributes.<locals>.extract_base_path",
                        "core:_template_class.get_template_attributes.<locals>.extract_pathchar"],
     rules=["path_keys"])

prop("C15", "Every documented template function exists under its documented name",
     "Each function, formatter, returner and loader named in the documentation can be used from a template under that "
     "name and scope, and accepts the documented arguments. Every built-in function is registered under exactly one "
     "name, and none hides another.",
     ["programs"],
     "every documented function of every scope",
     "Tests exercise most functions through one template each; names and optional arguments not used in tests can "
     "disappear unnoticed.",
     ["ttp", "docs/source"],
     [("registration", "ttp/ttp.py lazy_import_functions, _name_map_ of the plugins")],
     contracts=["core:lazy_import_functions", "core:CachedModule.__init__"],
     rules=["documented"])

prop("C16", "Tag aliases and attribute forms are interchangeable",
     "The short and long names of template tags (in, input; out, output; g, grp, group; v, vars; template, ...) "
     "behave identically everywhere a tag is allowed: at the top of a template, nested in template tags, nested in "
     "groups, and in extended templates. Tags are processed in the order they appear and unknown tags are reported "
     "instead of silently changing the template.",
     ["programs"],
     "all templates, written with any mix of tag aliases, nesting and order",
     "Tests mostly use one alias for each tag and a few nestings.",
     [CORE],
     [("tag dispatch", "ttp/ttp.py _template_class.collect_tags, parse_hierarch_tmplt, handle_extend, get_children")],
     contracts=["core:_template_class.collect_tags", "core:_template_class.parse_hierarch_tmplt",
                "core:_template_class.load_template_xml", "core:_template_class.construct_etree",
                "core:_template_class.handle_extend", "core:_group_class.get_children",
                "core:_template_class.parse_group", "core:_template_class.parse_template",
                "core:_template_class.parse_vars", "core:_template_class.parse_lookup",
                "core:_template_class.parse_doc", "core:_template_class.invalid", "core:_template_class.__init__"],
     rules=["aliases"])

prop("C17", "A stale, damaged or unwritable function cache never breaks the parser",
     "Whatever state the on-disk cache of available functions is in (missing, unreadable, truncated, written by another "
     "version or interpreter, foreign content, unwritable location), creating a parser succeeds and offers the same "
     "functions as without a cache. The cache is optional for correctness and used only when it matches the installed "
     "version.",
     ["crash_points", "configurations"],
     "all contents and permissions of the cache file, including one left half-written by a crash",
     "Tests run with either no cache or the one written by the same version a moment before.",
     [CORE],
     [("cache read and write", "ttp/ttp.py lazy_import_functions"), ("lazily loaded functions", "ttp/ttp.py CachedModule")],
     contracts=["core:lazy_import_functions", "core:CachedModule.__init__", "core:CachedModule.load",
                "core:CachedModule.__call__"],
     rules=["cache"])

prop("C18", "Using the library has no process-wide side effects",
     "Importing the package, creating parsers, parsing and getting results do not change process-wide state of the "
     "application: working directory, environment variables, import path, locale, signal handlers, warning filters, "
     "recursion limit, random state, standard streams or loggers not configured by request. Only documented outputs "
     "write files, print to the terminal or open connections.",
     ["histories", "configurations"],
     "all uses of the library",
     "Tests do not look at process state, and a leak affects the next test silently.",
     ["ttp"],
     [("no global setters", "ttp/**"), ("logging on request only", "ttp/ttp.py logging_config")],
     contracts=["core:logging_config", "core:ttp.__init__"],
     rules=["global_effects"])

prop("C19", "Command line options take effect as documented",
     "Each option of the command line tool has exactly its documented effect (data, template, variables, outputter, "
     "log settings, number of processes, timing, results structure) for any combination of options, and defaults "
     "apply otherwise. Data given as text, file or directory is parsed with the chosen template and results are "
     "printed in the chosen format.",
     ["configurations"],
     "all combinations of command line options",
     "No test runs the command line tool with more than a few option combinations.",
     [CORE],
     [("argument parser and dispatch", "ttp/ttp.py cli_tool")],
     contracts=["core:cli_tool", "core:cli_tool.*", "core:logging_config"],
     rules=["cli"])

prop("C20", "Function chains run in the order written, each function once, until one rejects",
     "The functions given for a match variable, group, input, output or template variable run in the order they are "
     "written, once each, every one receiving the result of the one before, with exactly the arguments written in the "
     "template. A rejection stops the chain; nothing else does.",
     ["programs", "inputs"],
     "all chains of functions, including repeated functions, chains taken from variables and attribute-style functions",
     "Tests use chains of a few functions in which a change of order or a repeated run rarely shows.",
     [CORE, "ttp/utils/get_attributes.py"],
     [("parsing of the chain", "ttp/utils/get_attributes.py"),
      ("running of the chain", "ttp/ttp.py check_matches, run_var_functions, processgrp, _outputter_class.run")],
     contracts=["utils/get_attributes", "ttp.utils.get_attributes:_get_args_kwargs",
                "ttp.utils.get_attributes:_UndefSubst.__missing__", "core:_parser_class.parse.<locals>.check_matches",
                R + "processgrp", "core:_outputter_class.run", "core:_parser_class.run_var_functions",
                "core:_variable_class.extract_functions", "core:_variable_class.extract_functions.*",
                "core:_group_class.get_attributes", "core:_group_class.get_attributes.*",
                "core:_outputter_class.get_attributes", "core:_outputter_class.get_attributes.*",
                "core:_input_class.get_attributes", "core:_input_class.get_attributes.*",
                "core:_template_class.get_var_functions", "core:_parser_class.set_data",
                "core:_template_class.run_outputs"],
     rules=["chain"])

prop("C21", "Files and connections are closed on every way out",
     "Every file, socket or database the library opens for its own use is closed again on every way out of the "
     "operation, including when reading, parsing or formatting fails half way. Files are opened with the mode the "
     "operation documents, so that an existing file is overwritten or appended to only when asked.",
     ["fault_sequences", "inputs"],
     "all failures between opening and closing",
     "Tests do not inject failures while a file is open.",
     ["ttp"],
     [("context managers around open", "ttp/utils/loaders.py, ttp/returners/file_returner.py, ttp/ttp.py")],
     contracts=["returners/file", "ttp.utils.loaders:_load_template_file", "utils/load_files", "utils/load_csv",
                "utils/load_text"],
     rules=["closed"])

prop("C22", "The core works with the standard library alone",
     "Importing the package, creating a parser, and using any function whose documentation names no third-party "
     "package needs only the Python standard library. Optional packages are imported only when a feature needing them "
     "is used, and their absence is reported or handled there, without affecting anything else.",
     ["configurations"],
     "all sets of installed optional packages",
     "The test environment has one set of packages installed.",
     ["ttp"],
     [("imports inside functions or guarded", "ttp/**")],
     contracts=["core:CachedModule.load"],
     rules=["imports"])

prop("C23", "Variables recorded, counted and set hold the value documented",
     "record stores the matched value under its own or the given name for later set and for template variables; set "
     "uses the recorded value, else the template variable, else the default, else the given text; count increments by "
     "one on each match; let assigns a value or adds a variable. The same rules hold for groups, and values recorded "
     "in one input are visible to later ones only where documented.",
     ["histories", "inputs"],
     "every sequence of record, set, count and let over several inputs",
     "Tests use each function in one template with one input.",
     ["ttp/match", "ttp/group", CORE],
     [("match variable functions", "ttp/match/record.py, set_.py, count.py, let.py"),
      ("group functions", "ttp/group/record.py, set_.py"), ("variable tables", "ttp/ttp.py _parser_class.set_data")],
     contracts=["match/record", "match/set", "match/count", "match/let", "match/append", "match/prepend", "match/copy",
                "group/record", "group/set", "core:_parser_class.set_data", "core:_parser_class.run_var_functions",
                "core:_template_class.form_results", "core:ttp.add_vars", "core:_template_class.add_vars",
                R + "save_vars", "core:_template_class.parse_vars"],
     rules=[])

prop("C24", "Asking for results returns every template's results in the asked structure",
     "Results are returned for every template (or exactly the ones named), in template order, as a list of per-template "
     "results, a dictionary keyed by template name or a flat list as asked. Results are kept per input or per template "
     "as the template says, the requested format and returner are applied to each once, and clearing results forgets "
     "results only.",
     ["configurations", "histories"],
     "all numbers of templates and inputs, all structures, formats, template selections and results modes",
     "Tests use one or two templates and mostly the default structure.",
     [CORE],
     [("result selection", "ttp/ttp.py ttp.result"), ("collection", "ttp/ttp.py _template_class.form_results")],
     contracts=["core:ttp.result", "core:_template_class.form_results", "core:_template_class.run_outputs",
                "core:ttp.clear_result", "core:ttp.__parse_in_one_process",
                "core:_template_class.get_template_attributes", "core:_template_class.get_template_attributes.*",
                "core:_template_class.update_groups_with_outputs", "core:_outputter_class.run"],
     rules=[])

prop("C25", "Earlier matched values win over later ones, and any match wins over defaults",
     "Within one record the first value matched for a variable is kept; joinmatches collects all of them in order; "
     "defaults fill only variables that did not match and never replace a matched value. Default values of groups and "
     "variables, including ones taken from template variables, apply to each record separately.",
     ["inputs", "histories"],
     "every order and repetition of matches within and across records",
     "Tests have few templates in which a variable matches several times or has a default.",
     [CORE],
     [("merging of matches", "ttp/ttp.py add, join, processgrp, save_curelements"),
      ("defaults", "ttp/ttp.py set_runs, update_runs")],
     contracts=[R + "add", R + "join", R + "processgrp", R + "start", R + "startempty", R + "save_curelements",
                R + "_merge_recursively", R + "reconstruct_last_element",
                "core:_group_class.set_runs", "core:_group_class.update_runs", "core:_parser_class.update_groups_runs",
                "core:_group_class.get_attributes.<locals>.extract_default",
                "core:_variable_class.extract_functions.<locals>.extract_default", "match/joinmatches",
                "core:_group_class.get_regexes", "core:_parser_class.parse.<locals>.check_matches"],
     rules=[])

prop("C26", "Parser objects are independent of each other",
     "Several parser objects in one process do not influence each other: templates, inputs, variables, lookups, custom "
     "functions, macros and results given to one are invisible to the others, whatever the order in which they are "
     "created and used. Defaults of constructors and methods are the same on every call.",
     ["histories"],
     "every interleaving of uses of several parser objects",
     "Tests create parser objects one after another and never go back to an earlier one.",
     ["ttp"],
     [("per-object function and data tables", "ttp/ttp.py ttp.__init__, lazy_import_functions")],
     contracts=["core:ttp.__init__", "core:ttp.add_function", "core:ttp.add_template", "core:ttp.add_lookup",
                "core:ttp.add_vars", "core:_template_class.parse_macro", "core:CachedModule.load",
                "core:lazy_import_functions", "core:_template_class.parse_template", "core:_template_class.add_lookup",
                "core:_template_class.add_vars"],
     rules=["shared_state"])

prop("C27", "Named patterns match the text they are documented to match",
     "Each named pattern (WORD, PHRASE, ORPHRASE, DIGIT, IP, PREFIX, IPV6, PREFIXV6, MAC, re, _line_, ROW, ROW1 and "
     "the default) matches exactly the texts its documentation describes, and user-defined patterns passed with re() "
     "take precedence over built-in names.",
     ["inputs"],
     "all texts",
     "Tests match a few typical addresses, words and lines; the language of a pattern is infinite.",
     ["ttp/patterns/get_pattern.py", CORE],
     [("pattern table", "ttp/patterns/get_pattern.py")],
     contracts=["patterns/get", "core:_variable_class.extract_functions.<locals>.extract_re",
                "core:_variable_class.extract_functions.<locals>.extract__line_"],
     rules=["patterns"])

prop("C28", "Loaders deliver exactly the data in the text or file they are given",
     "Text of variables, lookups, inputs and outputs in csv, ini, json, yaml, python or plain form is loaded into the "
     "documented structure with nothing lost, merged or reordered, from the tag or from the file named by include. "
     "Files and directories of data are read completely, filtered by extension and name only as asked, and text that "
     "is not a path is taken as data.",
     ["inputs", "configurations"],
     "all texts, files and directories, all loader options",
     "Tests load small tables; keys, empty fields, filters and includes in other combinations are not sampled.",
     ["ttp/utils/loaders.py", "ttp/lookup"],
     [("loaders", "ttp/utils/loaders.py")],
     contracts=["utils/load_csv", "utils/load_ini", "utils/load_json", "utils/load_yaml", "utils/load_python",
                "utils/load_text", "utils/load_struct", "utils/load_files", "ttp.utils.loaders:_get_include_data",
                "ttp.utils.loaders:_load_template_file", "core:_template_class.parse_lookup",
                "core:_template_class.parse_vars", "core:_input_class.load_data", "lookup/geoip2_db_loader"],
     rules=[])

prop("C29", "Each input is parsed by its own groups, each datum once",
     "Every input of a template is parsed by exactly the groups it names, or that name it, and data without input "
     "definition by all groups that name none. Each piece of data is parsed once per template; adding, replacing and "
     "clearing inputs affects the named templates and inputs only.",
     ["configurations", "histories"],
     "all templates with any number of inputs and groups and every sequence of adding, setting and clearing inputs",
     "Tests bind inputs to groups in a few templates; sequences of input operations are not sampled.",
     [CORE],
     [("inputs of groups", "ttp/ttp.py update_inputs_with_groups, update_input"),
      ("input handling", "ttp/ttp.py ttp.add_input, set_input, clear_input")],
     contracts=["core:_template_class.update_inputs_with_groups", "core:_template_class.update_input",
                "core:ttp.add_input", "core:ttp.set_input", "core:ttp.clear_input", "core:ttp.get_input_load",
                "core:_input_class.__init__", "core:_input_class.load_data", "core:_input_class.get_attributes",
                "core:_input_class.get_attributes.*", "core:ttp.__parse_in_one_process",
                "core:_group_class.get_attributes.<locals>.extract_input", "input/extract_commands", "input/test",
                "core:_template_class.__init__"],
     rules=[])

prop("C30", "Outputs and returners deliver the complete results to their destination",
     "An output runs when its condition holds and not otherwise, on the results of its template or groups; a returner "
     "hands on exactly what the formatter produced: to the named file in overwrite or append mode, to the terminal, "
     "to syslog servers or back to the caller. File names, folders and settings are the ones given in the template.",
     ["configurations", "inputs"],
     "all output definitions and results",
     "Tests write a few files and look at the returned results only.",
     [CORE, "ttp/returners"],
     [("output settings", "ttp/ttp.py _outputter_class.get_attributes"), ("returners", "ttp/returners/*.py")],
     contracts=["core:_outputter_class.run", "core:_outputter_class.get_attributes",
                "core:_outputter_class.get_attributes.*", "core:_outputter_class.extract_load",
                "core:_outputter_class.__init__", "core:_template_class.run_outputs",
                "core:_template_class.update_groups_with_outputs", "returners/file", "returners/self",
                "returners/terminal", "returners/syslog", "ttp.returners.syslog_returner:syslog"],
     rules=["returners"])

prop("C31", "Formatters render every record and every field",
     "Each formatter renders all records and all fields of the results it is given, in order, under the right column "
     "or key: path, headers, missing-value, separator, quote and key options act as documented for any number of "
     "records, missing and extra fields, nested dictionaries and lists. No record or field is dropped, duplicated or "
     "moved to another column.",
     ["inputs", "configurations"],
     "all results structures and formatter options",
     "Tests format a handful of tables.",
     ["ttp/formatters"],
     [("table building", "ttp/formatters/table_formatter.py"), ("text formats", "ttp/formatters/*.py")],
     contracts=["formatters/table", "formatters/csv", "formatters/tabulate", "formatters/json", "formatters/yaml",
                "formatters/pprint", "formatters/jinja2", "formatters/raw", "formatters/excel", "formatters/n2g",
                "output/traverse", "output/dict_to_list"],
     rules=[])

prop("C32", "When several template lines match a line, the documented one wins",
     "Every line of the input is tried against every template line of its groups; when several match the same place, "
     "start lines are preferred over ordinary lines, ordinary lines over _line_, and within a kind the line of the "
     "current, a child or an already started group. Matches are processed in input order, and group start matches with "
     "the same span cannot mask each other.",
     ["inputs", "programs"],
     "all templates with overlapping lines and all inputs",
     "Tests contain a few overlapping templates.",
     [CORE],
     [("collection of matches", "ttp/ttp.py parse, run_re, check_matches"),
      ("choice between them", "ttp/ttp.py make_results")],
     contracts=[R + "make_results", "core:_parser_class.parse", "core:_parser_class.parse.*",
                "core:_template_class.form_results", "core:_group_class.get_regexes",
                "core:_variable_class.extract_functions.*"],
     rules=[])

prop("C33", "Extending a template equals writing its content in place",
     "An extend tag is equivalent to writing the extended template's tags at that place, wherever it is allowed (top "
     "level, template, group, nested to any depth), with filters selecting exactly the named groups, inputs, outputs, "
     "variables, lookups and macros. Tags not selected are left out and the others keep their order and attributes.",
     ["programs"],
     "all templates with extend tags and filters at any nesting",
     "Tests extend a few templates, mostly one level deep.",
     [CORE],
     [("extend handling", "ttp/ttp.py handle_extend, filter_extend, construct_etree")],
     contracts=["core:_template_class.handle_extend", "core:_template_class.filter_extend",
                "core:_template_class.load_template_xml", "core:_template_class.construct_etree",
                "ttp.utils.loaders:_load_template_file"],
     rules=["aliases"])

prop("C34", "The convenience API behaves like the parser it wraps",
     "quick_parse, guess, get_template and the parser constructor give the same result as the sequence of parser calls "
     "they stand for: data, template, variables, lookups, functions, mode and result options are all passed on. "
     "Looking up or loading a template by path, name or repository location returns its text.",
     ["configurations"],
     "all combinations of arguments",
     "Tests call each helper with one set of arguments.",
     [CORE, "ttp/utils/quick_parse.py", "ttp/utils/guess.py"],
     [("helpers", "ttp/utils/quick_parse.py, ttp/utils/guess.py"), ("constructor", "ttp/ttp.py ttp.__init__")],
     contracts=["utils/quick_parse", "utils/guess", "core:ttp.get_template", "core:ttp.__init__",
                "core:ttp.add_function", "core:ttp.add_template", "core:ttp.add_lookup", "core:ttp.add_vars",
                "core:ttp.add_input", "core:_template_class.add_vars", "core:_template_class.add_lookup",
                "core:ttp.get_input_load"],
     rules=["passthrough"])

prop("C35", "Template variables hold the documented time, host and file values",
     "Variables computed with get_time, get_date, get_timestamp, get_timestamp_ms, get_timestamp_iso, get_time_ns, "
     "gethostname and getfilename hold the documented value for the input being parsed, recomputed for each input, and "
     "are saved to the results where the template names them. Other template variables reach functions unchanged.",
     ["inputs", "histories"],
     "all inputs and host name prompts",
     "Tests check a few prompts, and times only by their form.",
     ["ttp/variable", CORE],
     [("variable functions", "ttp/variable/*.py"), ("running them", "ttp/ttp.py run_var_functions, save_vars")],
     contracts=["variable/gethostname", "variable/getfilename", "variable/get_time", "variable/get_date",
                "variable/get_timestamp", "variable/get_timestamp_ms", "variable/get_timestamp_iso",
                "variable/get_time_ns", "core:_parser_class.run_var_functions", R + "save_vars",
                "core:_template_class.get_var_functions", "core:_parser_class.set_data"],
     rules=[])

prop("C36", "Macros run with the data of their place and answer by the documented rule",
     "A macro used in a match, group, input or output receives the data at that place, and its answer is applied by "
     "the documented rule: True or False is a verdict on unchanged data, nothing keeps the data, a pair adds fields, "
     "anything else replaces the data. All macro tags of a template are available to it, errors in one macro text do "
     "not lose the others, and a missing macro leaves data unchanged.",
     ["programs", "inputs"],
     "all macros and all answers",
     "Tests run a few macros per scope.",
     ["ttp/match/macro.py", "ttp/group/macro.py", "ttp/input/macro.py", "ttp/output/macro.py", CORE],
     [("macro functions", "ttp/*/macro.py"), ("macro loading", "ttp/ttp.py parse_macro, ttp/utils/load_python_exec*.py")],
     contracts=["match/macro", "group/macro", "input/macro", "output/macro", "core:_template_class.parse_macro",
                "ttp.utils.load_python_exec_py3:load_python_exec", "core:_worker.load_functions"],
     rules=[])

prop("C37", "Lookups find exactly the entry the table holds",
     "lookup, rlookup, gpvlookup and the group lookup return the entry the named table (or group results) holds for "
     "the value, replace the value or add it under the given name as asked, and update the record as documented. "
     "Nested table paths are followed to any depth and tables are never modified.",
     ["inputs", "configurations"],
     "all tables, nesting, keys and options",
     "Tests look up a few keys in small tables.",
     ["ttp/match/lookup.py", "ttp/group/lookup.py", CORE],
     [("lookups", "ttp/match/lookup.py, ttp/group/lookup.py")],
     contracts=["match/lookup", "match/rlookup", "match/gpvlookup", "group/lookup", "match/geoip_lookup",
                "core:_template_class.parse_lookup", "core:ttp.add_lookup", "core:_template_class.add_lookup",
                "lookup/geoip2_db_loader", "match/dns", "match/rdns"],
     rules=[])

prop("C38", "IP and MAC functions give the documented form of the address",
     "to_ip, to_net, to_cidr, ip_info, is_ip, cidr_match, mac_eui and the group to_ip interpret addresses, masks and "
     "prefixes of both versions as documented and return the documented object, form or fields.",
     ["inputs"],
     "all addresses, masks and prefixes of both versions",
     "Tests convert a few addresses.",
     ["ttp/match/ip.py", "ttp/match/mac_eui.py", "ttp/group/to_ip.py"],
     [("address functions", "ttp/match/ip.py, ttp/match/mac_eui.py")],
     contracts=["match/to_ip", "match/to_net", "match/to_cidr", "match/ip_info", "match/is_ip", "match/cidr_match",
                "match/mac_eui", "group/to_ip"],
     rules=[])

prop("C39", "String and list functions transform values exactly as documented",
     "append, prepend, join, truncate, replaceall, resub, resuball, sformat, unrange, uptimeparse, to_list, to_str, "
     "item, copy and print produce the documented value for any matched text, list value, argument count, template "
     "variable or lookup named as argument, and change nothing else.",
     ["inputs", "configurations"],
     "all values and arguments",
     "Tests apply each function to one or two values.",
     ["ttp/match"],
     [("string functions", "ttp/match/string.py, ttp/match/re_.py"),
      ("other transformations", "ttp/match/unrange.py, uptimeparse.py, item.py")],
     contracts=m(["append", "prepend", "join", "truncate", "replaceall", "resub", "resuball", "sformat", "unrange",
                  "uptimeparse", "to_list", "to_str", "to_unicode", "to_int", "to_float", "item", "copy", "print"]),
     rules=[])

prop("C40", "Group functions transform the record exactly as documented",
     "del, expand, itemize, items2dict, set, record, sformat, to_int, to_ip, str_to_unicode, validate and lookup "
     "change exactly the documented fields of a group record, for any set of fields present, and leave every other "
     "field as it was.",
     ["inputs"],
     "all group records",
     "Tests apply each function to records that have the expected fields.",
     ["ttp/group"],
     [("group functions", "ttp/group/*.py")],
     contracts=g(["del", "expand", "itemize", "items2dict", "set", "record", "sformat", "to_int", "to_ip",
                  "str_to_unicode", "validate", "cerberus", "lookup", "macro", "void"]),
     rules=[])

prop("C41", "Output functions transform or compare the whole results as documented",
     "is_equal, dict_to_list, traverse, deepdiff, validate, validate_yangson and output macro process all of the "
     "results at the documented path, report every difference or failed validation, and their options act as "
     "documented for results of any structure and mode.",
     ["inputs", "configurations"],
     "all results structures and options",
     "Tests run each output function on one or two results.",
     ["ttp/output"],
     [("output functions", "ttp/output/*.py")],
     contracts=["output/is_equal", "output/dict_to_list", "output/traverse", "output/deepdiff", "output/validate",
                "output/validate_yangson", "output/macro", "ttp.output.transform:_set_data",
                "ttp.output.validate_cerberus:_run_validation", "ttp.output.validate_yangson:_make_library",
                "ttp.output.validate_yangson:_module_entry"],
     rules=[])

prop("C42", "Tag attributes are taken as written and configure their own tag only",
     "Every documented attribute of template, group, input, output, vars, lookup and macro tags is recognised wherever "
     "the tag is allowed, with the documented default when absent; unknown attributes are treated as functions or "
     "reported as documented. Attributes of one tag never apply to another, except where inheritance is documented.",
     ["programs"],
     "all tags with any set of attributes",
     "Tests use most attributes once.",
     [CORE],
     [("attribute extraction", "ttp/ttp.py get_attributes of templates, groups, inputs and outputs")],
     contracts=["core:_template_class.get_template_attributes", "core:_template_class.get_template_attributes.*",
                "core:_group_class.get_attributes", "core:_group_class.get_attributes.*",
                "core:_input_class.get_attributes", "core:_input_class.get_attributes.*",
                "core:_outputter_class.get_attributes", "core:_outputter_class.get_attributes.*",
                "core:_group_class.__init__", "core:_input_class.__init__", "core:_outputter_class.__init__",
                "core:_template_class.__init__", "core:_group_class.get_children", "core:_group_class.update_runs",
                "core:_group_class.set_runs", "core:_group_class.set_anonymous_path",
                "core:_template_class.parse_vars", "core:_template_class.parse_lookup"],
     rules=[])

P = "core:_parser_class."
T = "core:_template_class."
GR = "core:_group_class."
# functions further from the anchor through which the property can be broken as well
ALSO = {
    "C01": ["core:_parser_class.set_data", R + "make_results", R + "add", R + "start"] + g(["contains_val", "equal", "del", "set"]),
    "C08": [R + n for n in ("end", "processgrp", "form_path", "make_results", "save_curelements", "value_to_list",
                            "dict_by_path", "list_to_dict_fwd", "reconstruct_last_element", "_merge_recursively")]
    + [P + "parse.<locals>.check_matches", P + "parse.<locals>.run_re", "core:ttp.clear_result", "core:ttp.parse",
       "core:ttp.__parse_in_one_process", "core:_input_class.load_data", "input/macro", "input/extract_commands",
       "match/resuball", "match/replaceall", "match/join", "match/joinmatches", "match/contains", "match/dns", "match/rdns",
       "match/sformat", "group/itemize", "group/lookup", "group/del", "group/expand", "group/contains", "group/containsall",
       "group/exclude", "group/excludeall", "group/to_int", "group/macro", "core:_outputter_class.run"],
    "C09": ["core:_outputter_class.__init__", T + "form_results", "returners/syslog", "output/macro"],
    "C10": [T + "collect_tags", T + "parse_hierarch_tmplt", T + "handle_extend", T + "filter_extend", GR + "get_children",
            "core:_input_class.__init__", R + "make_results", P + "parse", T + "run_outputs", "core:ttp.result",
            "formatters/json", "formatters/yaml", "formatters/pprint", "ttp.output.validate_yangson:_make_library",
            "match/unrange", "match/dns", T + "parse_macro", GR + "get_regexes", "core:ttp.__parse_in_multiprocess"],
    "C11": [P + "set_data", P + "__init__", "core:ttp.add_function", "core:lazy_import_functions",
            "core:CachedModule.__init__", "core:CachedModule.load", "core:CachedModule.__call__", T + "parse_macro",
            R + "__init__", "core:ttp.add_lookup", "core:ttp.add_vars", "core:_input_class.load_data",
            T + "update_inputs_with_groups", P + "parse"],
    "C12": [R + "form_path", P + "parse", P + "parse.<locals>.run_re", R + "save_vars", GR + "set_anonymous_path",
            "group/itemize"],
    "C13": [R + "add", R + "join", R + "save_curelements", R + "__init__", P + "parse"],
    "C14": [R + "start", R + "startempty", R + "add", R + "join", R + "end", R + "__init__", "group/itemize",
            "core:ttp.__init__", "core:_worker.__init__", GR + "get_children"],
    "C15": ["core:CachedModule.load", "core:CachedModule.__call__", "core:ttp.add_function", "ttp.ttp:<module>"],
    "C17": ["ttp.ttp:<module>"],
    "C18": ["ttp.ttp:<module>", "ttp:<module>", "core:_worker.__init__", "core:ttp.parse"],
    "C19": ["core:ttp.__init__", "core:ttp.get_input_load", "core:ttp.add_input", "core:ttp.parse", "core:ttp.result",
            "ttp.ttp:<module>"],
    "C20": [P + "parse", GR + "get_regexes", R + "make_results"],
    "C22": ["core:lazy_import_functions", "ttp.ttp:<module>"],
    "C23": [P + "__init__", R + "__init__", R + "processgrp", "core:_worker.__init__", T + "form_results"],
    "C24": ["core:ttp.parse", "core:ttp.__parse_in_multiprocess", T + "__init__", "core:ttp.__init__",
            "returners/self"],
    "C25": [R + "make_results", R + "form_path", P + "set_data"],
    "C26": ["core:ttp.parse", T + "__init__", P + "__init__", "core:ttp.clear_result", "core:_input_class.__init__",
            "core:_outputter_class.__init__", GR + "__init__", "core:_variable_class.__init__", R + "__init__",
            "core:ttp.add_input", "core:ttp.set_input", "core:ttp.clear_input", "utils/quick_parse", "utils/guess",
            "core:_worker.__init__", "core:CachedModule.__init__", "core:CachedModule.__call__", "match/dns", "match/rdns",
            "match/record", "match/count", "match/geoip_lookup", "core:logging_config", "ttp.ttp:<module>"],
    "C27": ["core:_variable_class.form_regex", "core:_variable_class.extract_functions",
            "core:_variable_class.extract_functions.*"],
    "C28": [T + "parse_template", "core:_outputter_class.extract_load", "core:_input_class.get_attributes.*",
            "core:ttp.get_input_load", T + "load_template_xml"],
    "C29": ["core:ttp.__parse_in_multiprocess", T + "parse_template", T + "parse_hierarch_tmplt", P + "parse",
            P + "set_data", "core:ttp.add_template", "core:ttp.__init__", GR + "get_attributes"],
    "C30": ["core:ttp.result", T + "form_results", "output/is_equal"],
    "C32": [R + n for n in ("start", "startempty", "add", "join", "end", "save_curelements")]
    + ["core:_variable_class.form_regex", P + "parse.<locals>.check_matches"],
    "C33": [GR + "get_children", T + "collect_tags", T + "parse_hierarch_tmplt", "core:ttp.get_template",
            T + "parse_template"],
    "C34": ["ttp:<module>", "ttp.ttp:<module>", "core:ttp.parse", "core:ttp.result", T + "update_input"],
    "C35": [T + "form_results", T + "parse_vars", R + "make_results", R + "__init__"],
    "C36": [P + "parse.<locals>.check_matches", R + "processgrp", "core:_outputter_class.run",
            "core:ttp.__parse_in_one_process", "core:_worker.__init__", "core:ttp.add_function", T + "parse_template",
            P + "set_data", T + "__init__"],
    "C37": [P + "__init__", "core:ttp.__parse_in_one_process", T + "form_results", "core:_worker.__init__"],
    "C42": [T + "collect_tags", T + "parse_template", T + "parse_group", T + "parse_macro", GR + "get_regexes",
            "core:_outputter_class.run", P + "parse"],
}
CHK, RUN = P + "parse.<locals>.check_matches", P + "parse.<locals>.run_re"
O, I, V, TT = "core:_outputter_class.", "core:_input_class.", "core:_variable_class.", "core:ttp."
ATTRS = [c + x for c in (GR, I, O) for x in ("get_attributes", "get_attributes.*")]
for _id, _more in {
    "C03": [CHK, R + "processgrp"],
    "C04": [CHK, R + "processgrp"],
    "C07": [RUN, P + "set_data", P + "parse"],
    "C11": [R + "make_results", T + "__init__", T + "parse_template", TT + "clear_result"],
    "C12": [CHK, GR + "get_regexes", GR + "__init__", T + "form_results"],
    "C13": [RUN, T + "form_results"],
    "C14": [GR + "get_attributes", O + "run", T + "form_results"],
    "C16": ATTRS + [T + "get_template_attributes", T + "get_template_attributes.*", T + "filter_extend"],
    "C20": [V + "__init__"],
    "C23": [CHK, T + "get_var_functions", GR + "update_runs", GR + "set_runs", P + "update_groups_runs", P + "parse",
            R + "save_curelements", R + "start"],
    "C24": [T + "parse_template", T + "parse_hierarch_tmplt", TT + "add_template", TT + "get_template"],
    "C25": [P + "parse", R + "__init__", "group/set", V + "extract_functions.<locals>.extract_set"],
    "C26": [P + "set_data", I + "load_data", T + "form_results", TT + "add_template", TT + "get_template",
            TT + "__parse_in_one_process"],
    "C27": [GR + "get_regexes"],
    "C28": [I + "__init__", TT + "add_input", TT + "set_input", P + "set_data"],
    "C29": [T + "form_results", T + "__init__", T + "parse_group", TT + "clear_result"],
    "C30": [T + "parse_template", TT + "clear_result"],
    "C31": [O + "run", O + "get_attributes", O + "get_attributes.*"],
    "C32": [V + "__init__", R + "processgrp", T + "parse_group", GR + "get_children", P + "set_data"],
    "C33": [T + "parse_group", T + "parse_vars", T + "parse_lookup", T + "parse_macro", T + "__init__",
            T + "update_inputs_with_groups"],
    "C34": [TT + "clear_result", TT + "clear_input", TT + "set_input"],
    "C36": [P + "parse", V + "extract_functions"],
    "C37": [CHK, R + "processgrp"],
    "C38": [CHK],
    "C39": [CHK],
    "C40": [R + "processgrp", GR + "get_attributes", GR + "get_attributes.*"],
    "C41": [O + "run", O + "get_attributes", O + "get_attributes.*", T + "run_outputs"],
}.items():
    ALSO[_id] = ALSO.get(_id, []) + _more
for _p in PROPS:
    _p["contracts"] += [x for x in ALSO.get(_p["id"], ()) if x not in _p["contracts"]]

NOT_APPLICABLE = []


def na(id, title, statement, over, text, why, files, mechanism, reason):
    NOT_APPLICABLE.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                               mechanism=mechanism, reason=reason))


na("C90", "Parsing time grows no worse than linearly with the input size",
   "For a fixed template without nested quantifiers, the time to parse is proportional to the size of the input, and "
   "no ordinary line of input makes a built-in pattern backtrack exponentially.",
   ["inputs"], "all inputs of any size", "Tests measure no time.", [CORE],
   [("regex scan", "ttp/ttp.py run_re")],
   "the bound is on running time of the regex engine over runtime data; no sound static cost argument for user "
   "templates is in reach, and measuring it would be a runtime test")
na("C91", "Formatted results can be read back to the same results",
   "Text produced by the json, yaml and csv formatters, read back with the matching loader, gives the results that "
   "were formatted.",
   ["inputs"], "all results", "Tests compare a few texts.", ["ttp/formatters", "ttp/utils/loaders.py"],
   [("formatters", "ttp/formatters/*.py")],
   "depends on the value semantics of third-party serialisers (json, PyYAML, quoting of csv) over unbounded runtime "
   "values; which arguments are passed to them is covered under C31, their inverse property is not decidable from "
   "this source")
na("C92", "The results equal what a human reading template and text would extract",
   "For every template and input the set of captured values is the one the template language reference defines, line "
   "by line.",
   ["inputs", "programs"], "all templates and inputs", "Tests sample templates.", [CORE],
   [("whole parser", "ttp/ttp.py")],
   "needs an executable semantics of templates run against inputs (differential testing or symbolic execution), which "
   "is another family; the pieces of it that are visible in the source are covered under C07, C12-C14, C25 and C32")
na("C93", "A parser killed while parsing in several processes leaves no worker behind",
   "If the parent process dies or a worker fails while parsing in several processes, no worker process is left running "
   "and the parent never waits forever.",
   ["crash_points", "schedules"], "all crash points", "Tests do not kill processes.", [CORE],
   [("worker processes", "ttp/ttp.py __parse_in_multiprocess")],
   "quantifies over crash points of operating system processes and the queue implementation of the standard library; "
   "nothing in this source bounds it")
