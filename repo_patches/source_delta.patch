From 83632f58139760b6abf97f4f3ca26f74daca157c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:39 +0000
Subject: [PATCH 01/24] fix: use one key form for a path item when results are
 created, found and converted to a list

---
 ttp/ttp.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index c96f224..144597b 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2899,6 +2899,9 @@ class _results_class:
                 else:  # have more path items, need to skip null path,
                     _ = PATH.pop(0)  # remove null path item to skip it
                     name = PATH[0][0]
+            if self._ttp_["dynamic_path_key_to_int"]:
+                # convert key to integer if it is integer, same as dict_by_path
+                name = int(name) if name.isdigit() else name
             if isinstance(DATA, dict):
                 if name in DATA:
                     DATA[name] = self.value_to_list(DATA[name], PATH[1:], result)
@@ -2928,7 +2931,7 @@ class _results_class:
         """
         if KEYS:  # check if list is not empty:
             # add support for null path
-            if KEYS[0] == "_":
+            if KEYS[0][0] == "_":
                 if len(KEYS) == 1:
                     return {}
                 else:
@@ -2961,9 +2964,6 @@ class _results_class:
             return ELEMENT  # check if PATH is empty, if so - stop and return ELEMENT
         elif isinstance(ELEMENT, dict):
             name = PATH[0][0]
-            if self._ttp_["dynamic_path_key_to_int"]:
-                # convert key to integer if it is integer
-                name = int(name) if name.isdigit() else name
             # add support for null path
             if name == "_":
                 if len(PATH) == 1:  # reached end of PATH, need to return ELEMENT
@@ -2971,6 +2971,9 @@ class _results_class:
                 else:  # have more path items, need to skip null path,
                     _ = PATH.pop(0)  # remove null path item to skip it
                     name = PATH[0][0]
+            if self._ttp_["dynamic_path_key_to_int"]:
+                # convert key to integer if it is integer
+                name = int(name) if name.isdigit() else name
             if name in ELEMENT:  # check if first element of the list is in ELEMENT
                 return self.dict_by_path(
                     PATH[1:], ELEMENT[name]
-- 
2.43.0


From 58134cdfc7f08bd31fce268fd1b074629a6d06b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:39 +0000
Subject: [PATCH 02/24] fix: save dynamic path values as is, do not process
 them as regex replacement template

---
 ttp/ttp.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 144597b..0e1240f 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3214,23 +3214,19 @@ class _results_class:
             match = re.findall(r"{{\s*(\S+)\s*}}", path_item)
             if match:
                 for m in match:
-                    pattern = r"{{\s*" + m + r"\s*}}"
+                    pattern = r"{{\s*" + re.escape(m) + r"\s*}}"
                     if m in self.record["result"]:
                         self.dyn_path_cache[m] = self.record["result"][m]
                         repl = str(self.record["result"].pop(m))
-                        # try re replacement first
-                        try:
-                            path_item = re.sub(pattern, repl, path_item)
-                        # might fail if match contains '\', try string replace
-                        except re.error:
-                            path_item = re.sub(pattern, "__replace_me__", path_item)
-                            path_item = path_item.replace("__replace_me__", repl)
                     elif m in self.dyn_path_cache:
-                        path_item = re.sub(pattern, self.dyn_path_cache[m], path_item)
+                        repl = str(self.dyn_path_cache[m])
                     elif m in self.variables:
-                        path_item = re.sub(pattern, str(self.variables[m]), path_item)
+                        repl = str(self.variables[m])
                     else:
                         return False
+                    # use function to save replacement text as is, otherwise
+                    # re.sub processes backslash escapes within it
+                    path_item = re.sub(pattern, lambda _, repl=repl: repl, path_item)
             path[index] = (
                 path_item,
                 asterisk_count * "*",
-- 
2.43.0


From 7f8b8714b8813fa17c6424c55392523eedeb17ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:39 +0000
Subject: [PATCH 03/24] fix: escape hostname and command text in
 extract_commands regex

---
 ttp/input/commands.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttp/input/commands.py b/ttp/input/commands.py
index 3ec0c85..f6a9ae7 100644
--- a/ttp/input/commands.py
+++ b/ttp/input/commands.py
@@ -1,4 +1,4 @@
-from re import search
+from re import escape, search
 
 
 def extract_commands(data, *commands):
@@ -8,7 +8,7 @@ def extract_commands(data, *commands):
     if hostname:
         for command in commands:
             regex = r"{}[#>] *{} *\n([\S\s]+?)(?={}[#>]|$)".format(
-                hostname, command, hostname
+                escape(hostname), escape(command), escape(hostname)
             )
             match = search(regex, data)
             if match:
-- 
2.43.0


From 36e894b234869d22de0fa827f73aa97a9c0c35ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 04/24] fix: keep built-in functions in worker processes when
 custom functions added

---
 ttp/ttp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 0e1240f..4c2cf46 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -834,7 +834,8 @@ class _worker(Process):
     ):
         Process.__init__(self)
         self._ttp_ = lazy_import_functions()
-        self._ttp_.update(custom_functions)
+        for scope, functions in custom_functions.items():
+            self._ttp_.setdefault(scope, {}).update(functions)
         self._ttp_["dynamic_path_key_to_int"] = dynamic_path_key_to_int
         self.task_queue = task_queue
         self.results_queue = results_queue
-- 
2.43.0


From 1e2a0eba4102d1eda369de3f8b8a5535fefa49f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 05/24] fix: do not share macro functions between templates,
 pass custom macro to child templates

---
 ttp/ttp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 4c2cf46..598cf25 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -924,7 +924,8 @@ class _template_class:
         self.base_path = base_path
         self.results = []
         self.name = name
-        self.macro = ttp_macro  # dictionary of macro name to function mapping
+        self.ttp_macro = ttp_macro  # need to save it to pass to child templates
+        self.macro = dict(ttp_macro)  # dictionary of macro name to function mapping
         self.results_method = "per_input"  # how to join results
         self.macro_text = (
             set()
@@ -1192,6 +1193,7 @@ class _template_class:
                 base_path=self.base_path,
                 ttp_vars=self.ttp_vars,
                 name=str(template_index),
+                ttp_macro=self.ttp_macro,
                 _ttp_=self._ttp_,
             )
         )
-- 
2.43.0


From 2aa27fd48def8d6c0c196a8bc7b9071bfb944ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 06/24] fix: do not modify results in dict_to_list output
 function

---
 ttp/output/transform.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ttp/output/transform.py b/ttp/output/transform.py
index 9cec30d..a65f768 100644
--- a/ttp/output/transform.py
+++ b/ttp/output/transform.py
@@ -57,8 +57,7 @@ def dict_to_list(data, key_name="key", path=None, strict=False):
         for k, v in traversed_data.items():
             if not isinstance(v, dict):
                 return traversed_data
-            v.update({key_name: k})
-            result.append(v)
+            result.append(dict(v, **{key_name: k}))
     elif isinstance(traversed_data, list):
         # run recusrsion
         result = [dict_to_list(data=item, key_name=key_name) for item in traversed_data]
-- 
2.43.0


From 7528389e1b79d5b3ae67993ca91baa7fde0d8b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 07/24] fix: do not modify results in validate output function

---
 ttp/output/validate_cerberus.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ttp/output/validate_cerberus.py b/ttp/output/validate_cerberus.py
index 9ea1a48..060efd0 100644
--- a/ttp/output/validate_cerberus.py
+++ b/ttp/output/validate_cerberus.py
@@ -20,7 +20,9 @@ def _run_validation(data, schema_data, info, errors, result, validator_engine):
     ret = {result: validator_engine.validate(document=data, schema=schema_data)}
     if info:
         try:
-            formatted, _ = _ttp_["group"]["sformat"](data, string=info, add_field="inf")
+            formatted, _ = _ttp_["group"]["sformat"](
+                data.copy(), string=info, add_field="inf"
+            )
             ret["info"] = formatted["inf"]
         except:
             ret["info"] = info
-- 
2.43.0


From 87ca396b93bb898b8a765195c48bb0b5f310300c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 08/24] fix: do not modify output attributes in excel formatter

---
 ttp/formatters/excel_formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/formatters/excel_formatter.py b/ttp/formatters/excel_formatter.py
index 06ec250..843d90e 100644
--- a/ttp/formatters/excel_formatter.py
+++ b/ttp/formatters/excel_formatter.py
@@ -36,7 +36,7 @@ def excel_formatter(data, **kwargs):
     table_tabs = []
     for index, tab_det in enumerate(table):
         tab_name = (
-            tab_det.pop("tab_name")
+            tab_det["tab_name"]
             if "tab_name" in tab_det
             else "Sheet{}".format(index)
         )
-- 
2.43.0


From def32b0324c26b91f8b0b81739862cc7a5c07185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 09/24] fix: to_float returns original data if fails to convert
 it

---
 ttp/match/to.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttp/match/to.py b/ttp/match/to.py
index 997cd4b..01aeddd 100644
--- a/ttp/match/to.py
+++ b/ttp/match/to.py
@@ -26,9 +26,9 @@ def to_int(data):
 def to_float(data):
     try:
         return float(data), None
-    except TypeError:
+    except (TypeError, ValueError):
         log.error(
-            "ttp.to_int: TypeError, failed to convert value '{}' to float".format(data)
+            "ttp.to_float: failed to convert value '{}' to float".format(data)
         )
         return data, None
 
-- 
2.43.0


From 9a64bb9dee0c613f0a76dcbdf31c2e9a8e5c2743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 10/24] fix: append and prepend honour global variables and do
 not modify lookup or variables lists in place

---
 ttp/match/string.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/ttp/match/string.py b/ttp/match/string.py
index 740b518..aaf7ba6 100644
--- a/ttp/match/string.py
+++ b/ttp/match/string.py
@@ -62,12 +62,11 @@ def append(data, char):
     # try to get char from global variables
     char_value = _ttp_["global_vars"].get(char, char)
     # try to get from input specific variables
-    char_value = _ttp_["vars"].get(char, char)
+    char_value = _ttp_["vars"].get(char, char_value)
     if isinstance(data, str):
         return (data + char_value), None
     elif isinstance(data, list):
-        data.append(char_value)
-        return data, None
+        return data + [char_value], None
     else:
         return data, None
 
@@ -76,12 +75,11 @@ def prepend(data, char):
     # try to get char from global variables
     char_value = _ttp_["global_vars"].get(char, char)
     # try to get from input specific variables
-    char_value = _ttp_["vars"].get(char, char)
+    char_value = _ttp_["vars"].get(char, char_value)
     if isinstance(data, str):
         return (char_value + data), None
     elif isinstance(data, list):
-        data.insert(0, char_value)
-        return data, None
+        return [char_value] + data, None
     else:
         return data, None
 
-- 
2.43.0


From 9b88bd9a8934627d198941182418e3a7e943a53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 11/24] fix: load files from directory in deterministic order

---
 ttp/utils/loaders.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ttp/utils/loaders.py b/ttp/utils/loaders.py
index 99d6b17..e3f0834 100644
--- a/ttp/utils/loaders.py
+++ b/ttp/utils/loaders.py
@@ -69,7 +69,9 @@ def load_files(path, extensions=None, filters=None, read=False):
     elif os.path.isdir(path[0:5000]):
         from re import search as re_search
 
-        files = [f for f in os.listdir(path) if os.path.isfile(os.path.join(path, f))]
+        files = [
+            f for f in sorted(os.listdir(path)) if os.path.isfile(os.path.join(path, f))
+        ]
         if extensions:
             files = [f for f in files if f.split(".")[-1] in extensions]
         for filter in filters:
-- 
2.43.0


From 20d7d5abc24f96d894c40ad45943f988c8cfe068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 12/24] fix: keep template order of groups for input updated
 with more data

---
 ttp/ttp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 598cf25..1ce1d47 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1049,7 +1049,7 @@ class _template_class:
         if input_obj.name in self.inputs:
             self.inputs[input_obj.name].load_data(data=input_obj.data)
             self.inputs[input_obj.name].groups_indexes += input_obj.groups_indexes
-            self.inputs[input_obj.name].groups_indexes = list(
+            self.inputs[input_obj.name].groups_indexes = sorted(
                 set(self.inputs[input_obj.name].groups_indexes)
             )
             del input_obj
-- 
2.43.0


From 5e3ae8deb55ac28fec31ac3fb63664b5a5e048ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 13/24] fix: load macro in the order of their definition in
 worker processes

---
 ttp/ttp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 1ce1d47..440d904 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -928,8 +928,8 @@ class _template_class:
         self.macro = dict(ttp_macro)  # dictionary of macro name to function mapping
         self.results_method = "per_input"  # how to join results
         self.macro_text = (
-            set()
-        )  # set to contain macro functions text to transfer into other processes
+            []
+        )  # list to contain macro functions text to transfer into other processes
         self.filters = filters  # list that contains names of child templates to extract
         self.__doc__ = ""  # string to contain template doc/description
         self.template = template_text  # attribute to store template text
@@ -1171,7 +1171,7 @@ class _template_class:
             )
             self.macro.update(funcs)
             # save macro text to be able to restore macro functions within another process
-            self.macro_text.add(element.text)
+            self.macro_text.append(element.text)
         except SyntaxError as e:
             log.error(
                 "template.parse_macro: syntax error, failed to load macro: \n{},\nError: {}".format(
-- 
2.43.0


From 399b589b879d16dcb2c17e4d316a5baf2ae5a0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 14/24] fix: preserve order of inputs for results parsed in
 multiple processes

---
 ttp/ttp.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 440d904..5201bb5 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -480,6 +480,7 @@ class ttp:
             for input_name, input_obj in template.inputs.items():
                 for datum in input_obj.data:
                     task_dict = {
+                        "index": num_jobs,
                         "data": datum,
                         "groups_indexes": input_obj.groups_indexes,
                         "input_functions": input_obj.functions,
@@ -491,9 +492,10 @@ class ttp:
             # wait for all tasks to complete
             tasks.join()
 
-            for i in range(num_jobs):
-                result = results_queue.get()
-                template.form_results(result)
+            # workers finish in any order, save results in the order of inputs
+            results = dict(results_queue.get() for i in range(num_jobs))
+            for index in sorted(results):
+                template.form_results(results[index])
 
     def __parse_in_one_process(self):
         """Method to parse data in single process, each data item parsed
@@ -879,7 +881,7 @@ class _worker(Process):
             result = self.parserObj.main_results
             # put results in the queue and finish task
             self.task_queue.task_done()
-            self.results_queue.put(result)
+            self.results_queue.put((next_task["index"], result))
         return
 
 
-- 
2.43.0


From ac7627a40932666537d5519a165a3537e47154e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 15/24] fix: handle extend tags nested within g and grp group
 tags

---
 ttp/ttp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 5201bb5..1f15a22 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1371,7 +1371,7 @@ class _template_class:
                     # save extended elements as parent children
                     template_ET[index : index + 1] = filtered_ET
             # run recursion for child groups looking for extend tags
-            elif child.tag == "group":
+            elif child.tag in ["g", "grp", "group"]:
                 self.handle_extend(template_ET=child, top=False)
 
         if top:
-- 
2.43.0


From c0a0aa8588c7c9534668f04f20a29ce45be5db09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 16/24] fix: clear results transformed by outputs, do not clear
 results already returned

---
 ttp/ttp.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 1f15a22..331a87c 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -707,14 +707,11 @@ class ttp:
         # filter templates objects to clear results for
         templates = [templates] if isinstance(templates, str) else templates
         # clear results
-        if templates:
-            [
-                t_obj.results.clear()
-                for t_obj in self._templates
-                if t_obj.name in templates
-            ]
-        else:
-            [t_obj.results.clear() for t_obj in self._templates]
+        for t_obj in self._templates:
+            if not templates or t_obj.name in templates:
+                # assign new list, results can be of any type after outputs run
+                # and could have been given to the user already
+                t_obj.results = []
 
     def add_function(self, fun, scope, name=None, add_ttp=False):
         """Method to add custom function in ``_ttp_`` dictionary.
-- 
2.43.0


From 07e6740405acf91f0ed1b23509401485975f2898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 17/24] fix: discard functions cache with unexpected content

---
 ttp/ttp.py | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 331a87c..8c6209d 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -80,6 +80,7 @@ def lazy_import_functions():
         "global_vars": {},
         "template_obj": {},
         "vars": {},
+        "__version__": __version__,
     }
     log.info("ttp.lazy_import_functions: starting functions lazy import")
 
@@ -89,26 +90,17 @@ def lazy_import_functions():
     try:
         if os.path.isfile(cache_file):
             with open(cache_file, "rb") as f:
-                _ttp_ = pickle.load(f)
-            # use unpickled _ttp_ dictionary if it of the same python version
+                cached = pickle.load(f)
+            # use unpickled _ttp_ dictionary if it of the same python version,
+            # it is rebuilt otherwise
             if (
-                _ttp_["python_major_version"] == version_info.major
-                and _ttp_.get("__version__") == __version__
+                cached["python_major_version"] == version_info.major
+                and cached.get("__version__") == __version__
             ):
                 log.info(
                     "ttp.lazy_import_functions: loaded _ttp_ dictionary from ttp_dict_cache.pickle"
                 )
-                return _ttp_
-            # rebuilt _ttp_ dictionary as it is of different version
-            else:
-                _ttp_ = {
-                    "macro": {},
-                    "python_major_version": version_info.major,
-                    "global_vars": {},
-                    "template_obj": {},
-                    "vars": {},
-                    "__version__": __version__,
-                }
+                return cached
     except Exception as e:
         log.warning(
             "ttp.lazy_import_functions: failed load ttp_dict_cache.pickle, loading functions directly, error '{}'".format(
-- 
2.43.0


From 98b7d51b1e58df3b2e4640b8523ddb1281e33628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 18/24] fix: close plugin file if it fails to parse

---
 ttp/ttp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 8c6209d..2740cfe 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -127,7 +127,8 @@ def lazy_import_functions():
             except:
                 # in some versions of python open() does not support encoding
                 module_file = open("{}/{}".format(root, f), mode="r")
-            node = ast.parse(module_file.read())
+            with module_file:
+                node = ast.parse(module_file.read())
             assignments = [n for n in node.body if isinstance(n, ast.Assign)]
             functions = [n.name for n in node.body if isinstance(n, ast.FunctionDef)]
             functions = [f for f in functions if (not f.startswith("_"))]
@@ -154,7 +155,6 @@ def lazy_import_functions():
                 _ttp_.setdefault(parent_dir, {})[name] = CachedModule(
                     path, parent_dir, name, functions, _ttp_
                 )
-            module_file.close()
     # try to cache/pickle _ttp_ to a file for future use
     try:
         with open(cache_file, "wb") as f:
-- 
2.43.0


From 4b89e69fe793990a321d714ca80bc31ba11f7e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 19/24] fix: CLI tool without template and with outputter name
 in upper case

---
 ttp/ttp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 2740cfe..163c788 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3671,6 +3671,7 @@ def cli_tool():
     parser_Obj = ttp(base_path=BASE_PATH, vars=ttp_vars)
 
     # load templates file
+    ttp_template = ""
     if TEMPLATE_FILE:
         ttp_template = _ttp_["utils"]["load_files"](TEMPLATE_FILE, read=True)[0][1]
         if TEMPLATE_NAME:
@@ -3703,7 +3704,7 @@ def cli_tool():
             )
             OUTPUTTER = "json"
         results = parser_Obj.result(structure=STRUCTURE, templates=OUT_TEMPLATE)
-        print(_ttp_["formatters"][OUTPUTTER](results))
+        print(_ttp_["formatters"][OUTPUTTER.lower()](results))
         timing("{} dumped".format(OUTPUTTER))
     timing("Done")
 
-- 
2.43.0


From f129ba6c0a7e0118e648ccf755de9c9d71e94dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:59 +0000
Subject: [PATCH 20/24] fix: CLI tool run without template

---
 ttp/ttp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 163c788..79570f4 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3680,7 +3680,8 @@ def cli_tool():
             )
             ttp_template = ttp_template[TEMPLATE_NAME]
     # add data and templates
-    parser_Obj.add_template(template=ttp_template)
+    if ttp_template:
+        parser_Obj.add_template(template=ttp_template)
     if DATA:
         parser_Obj.set_input(data=DATA)
         timing("Data descriptors loaded")
-- 
2.43.0


From e734e47fff4f6229844d0f6618b0d0f66b92622c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:59 +0000
Subject: [PATCH 21/24] fix: yangson library only includes modules of given
 directory, in deterministic order

---
 ttp/output/validate_yangson.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ttp/output/validate_yangson.py b/ttp/output/validate_yangson.py
index de85206..7d9b86e 100644
--- a/ttp/output/validate_yangson.py
+++ b/ttp/output/validate_yangson.py
@@ -98,7 +98,10 @@ def _make_library(ydir):
     Args:
         ydir (str): Name of the directory with YANG (sub)modules.
     """
-    for infile in os.listdir(ydir):
+    # forget modules of previously made libraries
+    modmap.clear()
+    submodmap.clear()
+    for infile in sorted(os.listdir(ydir)):
         if not infile.endswith(".yang"):
             continue
         with open(
-- 
2.43.0


From d1a834069370cdaaf5870002615d3f4705660b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:50 +0000
Subject: [PATCH 22/24] fix: servers given to one dns lookup were used by all
 later ones

---
 ttp/match/dns_lookups.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ttp/match/dns_lookups.py b/ttp/match/dns_lookups.py
index 544b768..8709b61 100644
--- a/ttp/match/dns_lookups.py
+++ b/ttp/match/dns_lookups.py
@@ -3,12 +3,12 @@ import dns.reversename
 
 _name_map_ = {"dns_forward": "dns", "dns_reverse": "rdns"}
 
-dns_resolver_obj = dnspython.dns.resolver.Resolver()
-
 
 def dns_forward(data, record="A", timeout=1, servers=None, add_field=False):
-    """Performs forward dns lookup using dns_resolver_obj global object"""
+    """Performs forward dns lookup"""
     servers = servers or []
+    # make own resolver, servers given to one lookup must not be used by others
+    dns_resolver_obj = dnspython.dns.resolver.Resolver()
     dns_resolver_obj.timeout = timeout
     if servers:
         if isinstance(servers, str):
@@ -26,17 +26,17 @@ def dns_forward(data, record="A", timeout=1, servers=None, add_field=False):
     except dnspython.dns.resolver.NoAnswer:
         pass
     except dnspython.dns.exception.Timeout:
-        # re-initialize dns_resolver object, as it will fail to resolve names for
-        # whatever reason after it timeouts
-        globals()["dns_resolver_obj"] = dnspython.dns.resolver.Resolver()
+        pass
     return data, None
 
 
 def dns_reverse(data, timeout=1, servers=None, add_field=False):
-    """Performs reverse dns lookup using global dns_resolver_obj
+    """Performs reverse dns lookup
     data - ip address string, e.g. 192.168.0.1
     """
     servers = servers or []
+    # make own resolver, servers given to one lookup must not be used by others
+    dns_resolver_obj = dnspython.dns.resolver.Resolver()
     dns_resolver_obj.timeout = timeout
     if servers:
         if isinstance(servers, str):
@@ -55,5 +55,5 @@ def dns_reverse(data, timeout=1, servers=None, add_field=False):
     except dnspython.dns.resolver.NoAnswer:
         pass
     except dnspython.dns.exception.Timeout:
-        globals()["dns_resolver_obj"] = dnspython.dns.resolver.Resolver()
+        pass
     return data, None
-- 
2.43.0


From 2a889163d062eb1405805649dafd5d8b39422189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:07 +0000
Subject: [PATCH 23/24] fix: error in a worker process left the parser waiting
 forever

---
 ttp/ttp.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 79570f4..1ef7ba3 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -487,6 +487,8 @@ class ttp:
             # workers finish in any order, save results in the order of inputs
             results = dict(results_queue.get() for i in range(num_jobs))
             for index in sorted(results):
+                if isinstance(results[index], Exception):
+                    raise results[index]
                 template.form_results(results[index])
 
     def __parse_in_one_process(self):
@@ -859,15 +861,19 @@ class _worker(Process):
             if next_task is None:
                 self.task_queue.task_done()
                 break
-            # set parser object parameters
-            self.parserObj.set_data(
-                next_task["data"],
-                main_results={},
-                input_functions=next_task["input_functions"],
-            )
-            # parse and get results
-            self.parserObj.parse(groups_indexes=next_task["groups_indexes"])
-            result = self.parserObj.main_results
+            try:
+                # set parser object parameters
+                self.parserObj.set_data(
+                    next_task["data"],
+                    main_results={},
+                    input_functions=next_task["input_functions"],
+                )
+                # parse and get results
+                self.parserObj.parse(groups_indexes=next_task["groups_indexes"])
+                result = self.parserObj.main_results
+            except Exception as e:
+                # send error to the main process to raise it there
+                result = e
             # put results in the queue and finish task
             self.task_queue.task_done()
             self.results_queue.put((next_task["index"], result))
-- 
2.43.0


From e51aaf91ed861c7de6fe3d284945c7c5f79cc6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:00 +0000
Subject: [PATCH 24/24] fix: contains, exclude and excludeall group functions
 treat variables as absent only when they hold their default value

---
 ttp/group/contains.py   | 2 +-
 ttp/group/exclude.py    | 3 ++-
 ttp/group/excludeall.py | 3 ++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/ttp/group/contains.py b/ttp/group/contains.py
index bccb22d..b589ae4 100644
--- a/ttp/group/contains.py
+++ b/ttp/group/contains.py
@@ -4,6 +4,6 @@ def contains(data, *args):
         if var in data:
             if var in _ttp_["results_object"].record["DEFAULTS"]:
                 if _ttp_["results_object"].record["DEFAULTS"][var] == data[var]:
-                    return data, False
+                    continue
             return data, True
     return data, False
diff --git a/ttp/group/exclude.py b/ttp/group/exclude.py
index 548f682..db4c1ed 100644
--- a/ttp/group/exclude.py
+++ b/ttp/group/exclude.py
@@ -3,6 +3,7 @@ def exclude(data, *args):
     for var in args:
         if var in data:
             if var in _ttp_["results_object"].record["DEFAULTS"]:
-                continue
+                if _ttp_["results_object"].record["DEFAULTS"][var] == data[var]:
+                    continue
             return data, False
     return data, True
diff --git a/ttp/group/excludeall.py b/ttp/group/excludeall.py
index bedfa15..03817d7 100644
--- a/ttp/group/excludeall.py
+++ b/ttp/group/excludeall.py
@@ -4,7 +4,8 @@ def excludeall(data, *args):
     for var in args:
         if var in data:
             if var in _ttp_["results_object"].record["DEFAULTS"]:
-                continue
+                if _ttp_["results_object"].record["DEFAULTS"][var] == data[var]:
+                    continue
             found_vars.append(var)
     if list(args) == found_vars:
         return data, False
-- 
2.43.0

