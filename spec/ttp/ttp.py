__version__ = '0.9.5'
import re
import os
import logging
import copy
import ast
import pickle
from xml.etree import cElementTree as ET
from multiprocessing import Process, cpu_count, JoinableQueue, Queue
from sys import version_info
from sys import getsizeof
from collections import OrderedDict
log = logging.getLogger(__name__)
'\n==============================================================================\nTTP LAZY IMPORT SYSTEM\n==============================================================================\n'

class CachedModule:

    def __init__(self, import_path, parent_dir, function_name, functions, _ttp_):
        self.import_path = import_path
        self.parent_dir = parent_dir
        self.function_name = function_name
        self.parent_module_functions = functions
        self._ttp_ = _ttp_

    def load(self):
        abs_import = 'ttp.'
        if __name__ in ('__main__', '__mp_main__'):
            abs_import = ''
        path = '{abs}{imp}'.format(abs=abs_import, imp=self.import_path)
        module = __import__(path, fromlist=[None])
        setattr(module, '_ttp_', self._ttp_)
        try:
            _name_map_ = getattr(module, '_name_map_')
        except AttributeError:
            _name_map_ = {}
        for func_name in self.parent_module_functions:
            name = _name_map_.get(func_name, func_name)
            self._ttp_[self.parent_dir][name] = getattr(module, func_name)

    def __call__(self, *args, **kwargs):
        log.info("calling CachedModule: module '{}', function '{}'".format(self.import_path, self.function_name))
        self.load()
        return self._ttp_[self.parent_dir][self.function_name](*args, **kwargs)

def lazy_import_functions():
    _ttp_ = {'macro': {}, 'python_major_version': version_info.major, 'global_vars': {}, 'template_obj': {}, 'vars': {}, '__version__': __version__}
    log.info('ttp.lazy_import_functions: starting functions lazy import')
    path_to_cache = os.getenv('TTPCACHEFOLDER', os.path.dirname(__file__))
    cache_file = os.path.join(path_to_cache, 'ttp_dict_cache.pickle')
    try:
        if os.path.isfile(cache_file):
            with open(cache_file, 'rb') as f:
                cached = pickle.load(f)
            if cached['python_major_version'] == version_info.major and cached.get('__version__') == __version__:
                log.info('ttp.lazy_import_functions: loaded _ttp_ dictionary from ttp_dict_cache.pickle')
                return cached
    except Exception as e:
        log.warning("ttp.lazy_import_functions: failed load ttp_dict_cache.pickle, loading functions directly, error '{}'".format(e))
    exclude = '_py3.py' if _ttp_['python_major_version'] == 2 else '_py2.py'
    exclude_modules = ['ttp.py']
    log.info('ttp.lazy_import_functions: loading files for ast parsing')
    for item in os.walk(os.path.dirname(__file__)):
        root, dirs, files = item
        for f in files:
            if not (f.endswith('.py') and (not f.startswith('_')) and (not f.endswith(exclude)) and (f not in exclude_modules)):
                continue
            try:
                module_file = open('{}/{}'.format(root, f), mode='r', encoding='utf-8')
            except:
                module_file = open('{}/{}'.format(root, f), mode='r')
            with module_file:
                node = ast.parse(module_file.read())
            assignments = [n for n in node.body if isinstance(n, ast.Assign)]
            functions = [n.name for n in node.body if isinstance(n, ast.FunctionDef)]
            functions = [f for f in functions if not f.startswith('_')]
            _name_map_ = {}
            for assignment in assignments:
                if _name_map_:
                    break
                for target in assignment.targets:
                    if target.id == '_name_map_':
                        _name_map_.update({key.s: assignment.value.values[index].s for index, key in enumerate(assignment.value.keys)})
            parent_path, filename = os.path.split(module_file.name)
            _, parent_dir = os.path.split(parent_path)
            for func_name in functions:
                name = _name_map_.get(func_name, func_name)
                path = '{}.{}'.format(parent_dir, filename.replace('.py', ''))
                _ttp_.setdefault(parent_dir, {})[name] = CachedModule(path, parent_dir, name, functions, _ttp_)
    try:
        with open(cache_file, 'wb') as f:
            pickle.dump(_ttp_, f)
    except Exception as e:
        log.warning("ttp.lazy_import_functions: failed to save cache at '{}', error '{}'".format(cache_file, e))
    log.info('ttp.lazy_import_functions: finished functions lazy import')
    return _ttp_
'\n==============================================================================\nMAIN TTP CLASS\n==============================================================================\n'

class ttp:

    def __init__(self, data='', template='', log_level='WARNING', log_file=None, base_path='', vars=None, dynamic_path_key_to_int=False):
        self.__data_size = 0
        self.__datums_count = 0
        self._templates = []
        self.base_path = base_path
        self.multiproc_threshold = 5242880
        self.vars = vars or {}
        self.lookups = {}
        logging_config(log_level, log_file)
        self._ttp_ = lazy_import_functions()
        self._ttp_['ttp_object'] = self
        self._ttp_['dynamic_path_key_to_int'] = dynamic_path_key_to_int
        if template != '':
            self.add_template(template=template)
        if data != '':
            self.add_input(data=data, template_name='_all_')

    def add_input(self, data, input_name='Default_Input', template_name='_root_template_', groups=None):
        groups = groups or ['all']
        if not self._templates:
            log.warning('ttp.add_input: no TTP templates to associate input data with, load template(s) first.')
        data_items = self._ttp_['utils']['load_files'](path=data, read=False)
        if data_items:
            [template.update_input(data=data_items, input_name=input_name, groups=groups) for template in self._templates if template.name == template_name or template_name == '_all_']

    def set_input(self, data, input_name='Default_Input', template_name='_root_template_', groups=None):
        groups = groups or ['all']
        if not self._templates:
            log.warning('ttp.set_input: no TTP templates to associate input data with, load template(s) first.')
        self.clear_input(template_name=template_name)
        self.add_input(data=data, input_name=input_name, groups=groups, template_name=template_name)

    def clear_input(self, template_name='_all_'):
        self.__data_size = 0
        self.__datums_count = 0
        for template in self._templates:
            if template.name == template_name or template_name == '_all_':
                template.inputs = {}

    def _calculate_overall_data_size(self):
        self.__data_size = 0
        self.__datums_count = 0
        for template in self._templates:
            for input_name, input_obj in template.inputs.items():
                self.__datums_count += len(input_obj.data)
                for i in input_obj.data:
                    if i[0] == 'file_name':
                        self.__data_size += os.path.getsize(i[1])
                    elif i[0] == 'text_data':
                        self.__data_size += getsizeof(i[1])

    def add_template(self, template, template_name='_root_template_', filters=None):
        filters = filters or []
        log.debug("ttp.add_template - loading template '{}'".format(template_name))
        items = self._ttp_['utils']['load_files'](path=template, read=True)
        for i in items:
            template_obj = _template_class(template_text=i[1], base_path=self.base_path, ttp_vars=self.vars, name=template_name, filters=filters, ttp_macro=self._ttp_.get('_custom_functions_', {}).get('macro', {}), _ttp_=self._ttp_)
            self._templates += template_obj.templates if template_obj.templates else [template_obj]

    def add_lookup(self, name, text_data='', include=None, load='python', key=None):
        lookup_data = self._ttp_['utils']['load_struct'](text_data=text_data, include=include, load=load, key=key)
        self.lookups.update({name: lookup_data})
        [template.add_lookup({name: lookup_data}) for template in self._templates]

    def add_vars(self, vars):
        if isinstance(vars, dict):
            self.vars.update(vars)
            [template.add_vars(vars) for template in self._templates]

    def parse(self, one=False, multi=False):
        self._calculate_overall_data_size()
        log.info('ttp.parse: loaded datums - {}, overall size - {} bytes'.format(self.__datums_count, self.__data_size))
        if one is True and multi is True:
            log.critical('ttp.parse - choose one or multiprocess parsing')
            raise SystemExit()
        elif one is True:
            self.__parse_in_one_process()
        elif multi is True:
            self.__parse_in_multiprocess()
        elif self.__data_size > self.multiproc_threshold and self.__datums_count >= 2:
            self.__parse_in_multiprocess()
        else:
            self.__parse_in_one_process()
        [template.run_outputs() for template in self._templates]

    def __parse_in_multiprocess(self):
        log.info('ttp.parse: parse using multiple processes')
        num_processes = cpu_count()
        for template in self._templates:
            num_jobs = 0
            tasks = JoinableQueue()
            results_queue = Queue()
            workers = [_worker(tasks, results_queue, lookups=template.lookups, vars=template.vars, groups=template.groups, macro_text=template.macro_text, custom_functions=self._ttp_.get('_custom_functions_', {}), dynamic_path_key_to_int=self._ttp_['dynamic_path_key_to_int']) for i in range(num_processes)]
            [w.start() for w in workers]
            for input_name, input_obj in template.inputs.items():
                for datum in input_obj.data:
                    task_dict = {'index': num_jobs, 'data': datum, 'groups_indexes': input_obj.groups_indexes, 'input_functions': input_obj.functions}
                    tasks.put(task_dict)
                    num_jobs += 1
            [tasks.put(None) for i in range(num_processes)]
            tasks.join()
            results = dict((results_queue.get() for i in range(num_jobs)))
            for index in sorted(results):
                if isinstance(results[index], Exception):
                    raise results[index]
                template.form_results(results[index])

    def __parse_in_one_process(self):
        log.info('ttp.parse: parse using single process')
        for template in self._templates:
            self._ttp_['macro'] = template.macro
            self._ttp_['template_obj'] = template
            parserObj = _parser_class(lookups=template.lookups, vars=template.vars, groups=template.groups, _ttp_=self._ttp_)
            if template.results_method.lower() == 'per_input':
                for input_name, input_obj in template.inputs.items():
                    for datum in input_obj.data:
                        parserObj.set_data(datum, main_results={}, input_functions=input_obj.functions)
                        parserObj.parse(groups_indexes=input_obj.groups_indexes)
                        result = parserObj.main_results
                        template.form_results(result)
            elif template.results_method.lower() == 'per_template':
                results_data = {}
                for input_name, input_obj in template.inputs.items():
                    for datum in input_obj.data:
                        parserObj.set_data(datum, main_results=results_data, input_functions=input_obj.functions)
                        parserObj.parse(groups_indexes=input_obj.groups_indexes)
                        results_data = parserObj.main_results
                template.form_results(results_data)

    def result(self, templates=None, structure='list', **kwargs):
        templates = templates or []
        templates = [templates] if isinstance(templates, str) else templates
        templates_obj = self._templates
        if templates:
            templates_obj = [template for template in self._templates if template.name in templates]
        if kwargs:
            kwargs.setdefault('returner', 'self')
            outputter = _outputter_class(_ttp_=self._ttp_, **kwargs)
        if structure.lower() == 'list':
            if kwargs:
                return [outputter.run(template.results, macro=template.macro) for template in templates_obj]
            return [template.results for template in templates_obj]
        elif structure.lower() == 'dictionary':
            if kwargs:
                return {template.name: outputter.run(template.results, macro=template.macro) for template in templates_obj if template.name}
            return {template.name: template.results for template in templates_obj if template.name}
        elif structure.lower() == 'flat_list':
            ret = []
            for template in templates_obj:
                rslt = outputter.run(template.results, macro=template.macro) if kwargs else template.results
                if isinstance(rslt, list):
                    for item in rslt:
                        if isinstance(item, list):
                            ret += item
                        else:
                            ret.append(item)
                else:
                    ret.append(rslt)
            return ret

    def get_input_load(self):
        ret = {}
        for template_obj in self._templates:
            ret[template_obj.name] = {}
            for input_name, input_obj in template_obj.inputs.items():
                ret[template_obj.name][input_name] = input_obj.parameters
        return ret

    def clear_result(self, templates=None):
        templates = templates or []
        templates = [templates] if isinstance(templates, str) else templates
        for t_obj in self._templates:
            if not templates or t_obj.name in templates:
                t_obj.results = []

    def add_function(self, fun, scope, name=None, add_ttp=False):
        name = name if name else fun.__name__
        if add_ttp:
            fun.__globals__['_ttp_'] = self._ttp_
        self._ttp_[scope][name] = fun
        self._ttp_.setdefault('_custom_functions_', {}).setdefault(scope, {})[name] = fun

    def get_template(self):
        return '\n'.join((t.template for t in self._templates))
'\n==============================================================================\nTTP PARSER MULTIPROCESSING WORKER\n==============================================================================\n'

class _worker(Process):

    def __init__(self, task_queue, results_queue, lookups, vars, groups, macro_text, custom_functions, dynamic_path_key_to_int):
        Process.__init__(self)
        self._ttp_ = lazy_import_functions()
        for scope, functions in custom_functions.items():
            self._ttp_.setdefault(scope, {}).update(functions)
        self._ttp_['dynamic_path_key_to_int'] = dynamic_path_key_to_int
        self.task_queue = task_queue
        self.results_queue = results_queue
        self.macro_text = macro_text
        self.parserObj = _parser_class(lookups, vars, groups, _ttp_=self._ttp_)

    def load_functions(self):
        funcs = {}
        for macro_text in self.macro_text:
            try:
                funcs = self._ttp_['utils']['load_python_exec'](macro_text, builtins=__builtins__)
                self._ttp_['macro'].update(funcs)
            except SyntaxError as e:
                log.error('multiprocess_worker.load_functions: syntax error, failed to load macro: \n{},\nError: {}'.format(macro_text, e))

    def run(self):
        self.load_functions()
        while True:
            next_task = self.task_queue.get()
            if next_task is None:
                self.task_queue.task_done()
                break
            try:
                self.parserObj.set_data(next_task['data'], main_results={}, input_functions=next_task['input_functions'])
                self.parserObj.parse(groups_indexes=next_task['groups_indexes'])
                result = self.parserObj.main_results
            except Exception as e:
                result = e
            self.task_queue.task_done()
            self.results_queue.put((next_task['index'], result))
        return
'\n==============================================================================\nTTP TEMPLATE CLASS\n==============================================================================\n'

class _template_class:

    def __init__(self, template_text, _ttp_, base_path='', ttp_vars=None, name='_root_template_', filters=None, ttp_macro=None):
        self._ttp_ = _ttp_
        ttp_vars = ttp_vars or {}
        filters = filters or []
        ttp_macro = ttp_macro or {}
        self.PATHCHAR = '.'
        self.vars = {'_vars_to_results_': {}, '_var_functions_': {}}
        self.ttp_vars = ttp_vars
        self.vars.update(ttp_vars)
        self.outputs = []
        self.groups_outputs = []
        self.groups = []
        self.inputs = OrderedDict()
        self.lookups = {}
        self.templates = []
        self.base_path = base_path
        self.results = []
        self.name = name
        self.ttp_macro = ttp_macro
        self.macro = dict(ttp_macro)
        self.results_method = 'per_input'
        self.macro_text = []
        self.filters = filters
        self.__doc__ = ''
        self.template = template_text
        self.tags = {'vars': [], 'groups': [], 'inputs': [], 'outputs': [], 'lookups': [], 'macro': [], 'template': [], 'extend': []}
        self.template = self.handle_extend(template_text)
        self.load_template_xml(self.template)
        self.update_inputs_with_groups()
        self.update_groups_with_outputs()
        self.get_var_functions()
        if log.isEnabledFor(logging.DEBUG):
            self.debug()
            [template_obj.debug for template_obj in self.templates]
            [input.debug() for input in self.inputs.values()]
            [group.debug() for group in self.groups]
            [output_obj.debug() for output_obj in self.outputs]

    def debug(self):
        from pprint import pformat
        attributes = dict(vars(self))
        _ = attributes.pop('_ttp_')
        text = "Template Object {}, Template name '{}' content:\n{}".format(self, self.name, pformat(attributes, indent=4))
        log.debug(text)

    def add_lookup(self, data):
        self.lookups.update(data)
        [template.add_lookup(data) for template in self.templates]

    def add_vars(self, data):
        if isinstance(data, dict):
            self.vars.update(data)
            [template.add_vars(data) for template in self.templates]

    def run_outputs(self):
        for output in self.outputs:
            self.results = output.run(self.results, macro=self.macro)

    def form_results(self, result):
        datum = []
        if '_anonymous_' in result:
            datum = result.pop('_anonymous_')
            if result:
                if isinstance(result, list):
                    datum += result
                else:
                    datum.append(result)
        else:
            datum = result
        if self.results_method == 'per_template':
            self.results = datum
        elif self.results_method == 'per_input':
            self.results.append(datum)

    def get_var_functions(self):
        for var_name, var_value in self.vars.items():
            if not isinstance(var_value, str):
                continue
            if var_value in self._ttp_['variable']:
                self.vars['_var_functions_'][var_name] = var_value
        [self.vars.pop(var_name) for var_name in self.vars['_var_functions_'].keys()]

    def update_input(self, element=None, data=None, input_name='Default_Input', groups=None):
        groups = groups or ['all']
        input_obj = _input_class(element=element, input_name=input_name, template_obj=self, groups=groups, data=data, _ttp_=self._ttp_)
        if input_obj.name in self.inputs:
            self.inputs[input_obj.name].load_data(data=input_obj.data)
            self.inputs[input_obj.name].groups_indexes += input_obj.groups_indexes
            self.inputs[input_obj.name].groups_indexes = sorted(set(self.inputs[input_obj.name].groups_indexes))
            del input_obj
        else:
            self.inputs[input_obj.name] = input_obj

    def update_inputs_with_groups(self):
        for G in self.groups:
            for input_name in G.inputs:
                if input_name not in self.inputs:
                    url = self.base_path + input_name
                    data_items = self._ttp_['utils']['load_files'](path=url, read=False)
                    data = [i for i in data_items if 'text_data' not in i[0]]
                    self.update_input(data=data, input_name=input_name)

    def update_groups_with_outputs(self):
        for G in self.groups:
            for output_index, grp_output in enumerate(G.outputs):
                group_output_found = False
                for glob_index, glob_output in enumerate(self.outputs):
                    if glob_output.name == grp_output:
                        self.groups_outputs.append(self.outputs.pop(glob_index))
                        G.outputs[output_index] = self.groups_outputs[-1]
                        group_output_found = True
                if group_output_found:
                    continue
                for index, output in enumerate(self.groups_outputs):
                    if output.name == grp_output:
                        G.outputs[output_index] = output
                        group_output_found = True
                if not group_output_found:
                    G.outputs.pop(output_index)
                    log.error("template.update_groups_with_outputs: group '{}' - output '{}' not found.".format(G.name, grp_output))

    def get_template_attributes(self, element):

        def extract_name(O):
            self.name = O

        def extract_base_path(O):
            self.base_path = O

        def extract_results_method(O):
            self.results_method = O

        def extract_pathchar(O):
            self.PATHCHAR = str(O)
        opt_funcs = {'name': extract_name, 'base_path': extract_base_path, 'results': extract_results_method, 'pathchar': extract_pathchar}
        for name, options in element.attrib.items():
            if name in opt_funcs:
                opt_funcs[name](options)

    def collect_tags(self, element):
        tags_funcs = {'v': lambda C: self.tags['vars'].append(C), 'vars': lambda C: self.tags['vars'].append(C), 'variables': lambda C: self.tags['vars'].append(C), 'g': lambda C: self.tags['groups'].append(C), 'grp': lambda C: self.tags['groups'].append(C), 'group': lambda C: self.tags['groups'].append(C), 'o': lambda C: self.tags['outputs'].append(C), 'out': lambda C: self.tags['outputs'].append(C), 'output': lambda C: self.tags['outputs'].append(C), 'i': lambda C: self.tags['inputs'].append(C), 'in': lambda C: self.tags['inputs'].append(C), 'input': lambda C: self.tags['inputs'].append(C), 'lookup': lambda C: self.tags['lookups'].append(C), 'template': lambda C: self.tags['template'].append(C), 'macro': self.parse_macro, 'doc': self.parse_doc}
        for child in list(element):
            tags_funcs.get(child.tag.lower(), self.invalid)(child)

    def invalid(self, C):
        log.warning("template.parse: invalid tag '{}'".format(C.tag))

    def parse_macro(self, element):
        funcs = {}
        try:
            funcs = self._ttp_['utils']['load_python_exec'](element.text, builtins=__builtins__)
            self.macro.update(funcs)
            self.macro_text.append(element.text)
        except SyntaxError as e:
            log.error('template.parse_macro: syntax error, failed to load macro: \n{},\nError: {}'.format(element.text, e))

    def parse_doc(self, element):
        self.__doc__ += element.text + '\n'

    def parse_template(self, element, template_index):
        if self.filters:
            if not element.attrib.get('name', None) in self.filters:
                return
        self.templates.append(_template_class(template_text=ET.tostring(element, encoding='UTF-8'), base_path=self.base_path, ttp_vars=self.ttp_vars, name=str(template_index), ttp_macro=self.ttp_macro, _ttp_=self._ttp_))

    def parse_vars(self, element):
        vars = self._ttp_['utils']['load_struct'](element.text, **element.attrib)
        if vars:
            self.vars.update(vars)
        if 'name' in element.attrib:
            path = element.attrib['name']
            for key in vars.keys():
                self.vars['_vars_to_results_'].setdefault(path, []).append(key)

    def parse_lookup(self, element):
        if 'name' not in element.attrib:
            log.warning("Lookup 'name' attribute not provided, skipping")
            return
        lookup_data = self._ttp_['utils']['load_struct'](element.text, **element.attrib)
        if lookup_data is None:
            return
        if element.attrib.get('database', '').lower() == 'geoip2':
            lookup_data = self._ttp_['lookup']['geoip2_db_loader'](lookup_data)
        self.lookups[element.attrib['name']] = lookup_data

    def parse_group(self, element, grp_index):
        self.groups.append(_group_class(element, top=True, pathchar=self.PATHCHAR, vars=self.vars, grp_index=grp_index, _ttp_=self._ttp_))

    def parse_hierarch_tmplt(self, element):
        self.collect_tags(element)
        for t_index, t in enumerate(self.tags['template']):
            self.parse_template(t, t_index)
        for v in self.tags['vars']:
            self.parse_vars(v)
        for o in self.tags['outputs']:
            self.outputs.append(_outputter_class(o, _ttp_=self._ttp_, template_obj=self))
        for L in self.tags['lookups']:
            self.parse_lookup(L)
        for grp_index, g in enumerate(self.tags['groups']):
            self.parse_group(g, grp_index)
        for i in self.tags['inputs']:
            self.update_input(element=i)

    def filter_extend(self, extend_template, extend_tag, top):
        if top and len(extend_tag.attrib) == 1:
            return extend_template
        ret = []
        grp_index = 0
        groups = [i.strip() for i in extend_tag.get('groups', '').split(',') if i.strip()]
        if top:
            inputs = [i.strip() for i in extend_tag.get('inputs', '').split(',') if i.strip()]
            tvars = [i.strip() for i in extend_tag.get('vars', '').split(',') if i.strip()]
            lookups = [i.strip() for i in extend_tag.get('lookups', '').split(',') if i.strip()]
            outputs = [i.strip() for i in extend_tag.get('outputs', '').split(',') if i.strip()]
            for t in extend_template:
                tag_name = t.attrib.get('name')
                if inputs and t.tag in ['i', 'in', 'input']:
                    if tag_name in inputs:
                        ret.append(t)
                elif tvars and t.tag in ['v', 'vars', 'variables']:
                    if tag_name in tvars:
                        ret.append(t)
                elif groups and t.tag in ['g', 'grp', 'group']:
                    if tag_name in groups or str(grp_index) in groups:
                        ret.append(t)
                    grp_index += 1
                elif lookups and t.tag == 'lookup':
                    if tag_name in lookups:
                        ret.append(t)
                elif outputs and t.tag in ['o', 'out', 'output']:
                    if tag_name in outputs:
                        ret.append(t)
                else:
                    ret.append(t)
        else:
            for t in extend_template:
                tag_name = t.attrib.get('name')
                if t.tag in ['g', 'grp', 'group']:
                    if groups:
                        if tag_name in groups or str(grp_index) in groups:
                            ret.append(t)
                        grp_index += 1
                    else:
                        ret.append(t)
                elif t.tag == 'extend':
                    ret.append(t)
        return ret

    def handle_extend(self, template_text=None, template_ET=None, top=True):
        if template_text:
            template_ET = self.construct_etree(template_text)
        if top == True:
            for child in template_ET:
                if child.tag == 'macro':
                    self.parse_macro(child)
        for index, child in enumerate(template_ET):
            if child.tag == 'extend':
                path_to_template = child.attrib.get('template', '')
                content = self._ttp_['utils']['load_files'](path_to_template, read=True)
                if content[0][1] == path_to_template:
                    raise FileNotFoundError('template.extend: failed load extend tag content at path: {}'.format(path_to_template))
                template_content = content[0][1]
                if child.attrib.get('macro') in self.macro:
                    template_content = self.macro[child.attrib['macro']](content[0][1])
                extend_ET = self.construct_etree(template_content)
                if len(extend_ET) == 1 and extend_ET[0].attrib.get('name') == '_anonymous_':
                    template_ET.text += extend_ET[0].text
                    template_ET.remove(child)
                else:
                    filtered_ET = self.filter_extend(extend_template=extend_ET, extend_tag=child, top=top)
                    self.handle_extend(template_ET=filtered_ET, top=False)
                    template_ET[index:index + 1] = filtered_ET
            elif child.tag in ['g', 'grp', 'group']:
                self.handle_extend(template_ET=child, top=False)
        if top:
            return ET.tostring(template_ET).decode()

    def construct_etree(self, template_text):
        try:
            template_ET = ET.XML(template_text)
            if template_ET.tag.lower() != 'template':
                template_ET = ET.XML('<template>\n{}\n</template>'.format(template_text))
        except ET.ParseError as e:
            template_ET = ET.XML('<template>\n{}\n</template>'.format(template_text))
        if not list(template_ET):
            template_ET = ET.XML('<template><group name="_anonymous_">\n{}\n</group></template>'.format(template_text))
        return template_ET

    def load_template_xml(self, template_text):
        template_ET = self.construct_etree(template_text)
        self.get_template_attributes(template_ET)
        if self.filters and self.name not in self.filters:
            return
        self.parse_hierarch_tmplt(template_ET)
'\n==============================================================================\nTTP INPUT CLASS\n==============================================================================\n'

class _input_class:

    def __init__(self, _ttp_, element=None, template_obj=None, data=None, input_name='Default_Input', groups='all'):
        self._ttp_ = _ttp_
        self.attributes = {'load': 'python', 'extensions': [], 'filters': [], 'urls': []}
        self.template_obj = template_obj
        self.parameters = {}
        self.data = []
        self.groups_indexes = []
        self.group_inputs = []
        self.input_groups = groups
        self.functions = []
        if element is not None:
            self.name = element.attrib.get('name', input_name).strip()
            element.attrib.setdefault('groups', groups)
            element.attrib.setdefault('load', 'python')
            self.get_attributes(data=element.attrib, element_text=element.text)
            self.load_data(element_text=element.text)
        else:
            self.name = input_name
            self.get_attributes(data={'groups': groups, 'load': 'python'})
            self.load_data(data=data)

    def get_attributes(self, data, element_text=''):

        def extract_name(O):
            self.name = O.strip()

        def extract_load(O):
            self.attributes['load'] = O.strip()
            if self.attributes['load'] != 'text':
                attribs = self._ttp_['utils']['load_struct'](element_text, **data)
                if attribs:
                    self.parameters = attribs
                    self.get_attributes(data=attribs)

        def extract_groups(O):
            if isinstance(O, list):
                groups_list = O
            else:
                groups_list = [i.strip() for i in O.split(',')]
            if 'all' in groups_list:
                self.input_groups = [grp_obj.grp_index for grp_obj in self.template_obj.groups if not grp_obj.inputs]
            else:
                self.input_groups = [grp_obj.grp_index for grp_obj in self.template_obj.groups if grp_obj.name in groups_list and (not grp_obj.inputs)]
            self.group_inputs = [grp_obj.grp_index for grp_obj in self.template_obj.groups if self.name in grp_obj.inputs]
            if self.group_inputs:
                self.groups_indexes = sorted(list(set(self.group_inputs)))
            else:
                self.groups_indexes = sorted(list(set(self.input_groups)))

        def extract_extensions(O):
            if isinstance(O, str):
                self.attributes['extensions'] = [O]
            else:
                self.attributes['extensions'] = O

        def extract_filters(O):
            if isinstance(O, str):
                self.attributes['filters'] = [O]
            else:
                self.attributes['filters'] = O

        def extract_urls(O):
            if isinstance(O, str):
                self.attributes['urls'] = [O]
            else:
                self.attributes['urls'] = O

        def extract_functions(O):
            funcs = self._ttp_['utils']['get_attributes'](O)
            for i in funcs:
                func_name = i['name']
                if func_name in functions:
                    functions[func_name](i)
                elif func_name in self._ttp_['input']:
                    self.functions.append(i)
                else:
                    similar_funcs = self._ttp_['utils']['guess'](func_name, list(self._ttp_['input'].keys()))
                    if similar_funcs:
                        log.error("input.get_attributes: unknown input function: '{}', most similar function(s) - {}".format(func_name, ', '.join(similar_funcs)))
                    else:
                        log.error('input.get_attributes: unknown input function: "{}"'.format(func_name))

        def extract_function(func_name, args_kwargs):
            attribs = self._ttp_['utils']['get_attributes']('{}({})'.format(func_name, args_kwargs))
            self.functions.append(attribs[0])

        def extract_commands(O):
            if isinstance(O, str):
                self.functions.append({'name': 'extract_commands', 'args': [i.strip() for i in O.split(',') if i.strip()], 'kwargs': {}})
            elif isinstance(O, dict):
                self.functions.append(O)
        options = {'name': extract_name, 'load': extract_load, 'groups': extract_groups, 'extensions': extract_extensions, 'filters': extract_filters, 'url': extract_urls}
        functions = {'functions': extract_functions, 'extract_commands': extract_commands}
        for attr_name, attributes in data.items():
            if attr_name.lower() in options:
                options[attr_name.lower()](attributes)
            elif attr_name.lower() in functions:
                functions[attr_name.lower()](attributes)
            elif attr_name in self._ttp_['input']:
                extract_function(attr_name, attributes)
            else:
                self.attributes[attr_name] = attributes

    def load_data(self, element_text=None, data=None):
        if self.attributes['load'] == 'text' and element_text:
            self.data = [('text_data', element_text)]
            return
        elif data:
            for d_item in data:
                if not d_item in self.data:
                    self.data.append(d_item)
            return
        for url in self.attributes['urls']:
            url = self.template_obj.base_path + url
            datums = self._ttp_['utils']['load_files'](path=url, extensions=self.attributes['extensions'], filters=self.attributes['filters'], read=False)
            self.data += datums

    def debug(self):
        from pprint import pformat
        text = "Template object {}, Template name '{}', Input name '{}' content:\n{}".format(self.template_obj, self.template_obj.name, self.name, pformat(vars(self), indent=4))
        log.debug(text)
'\n==============================================================================\nGROUP CLASS\n==============================================================================\n'

class _group_class:

    def __init__(self, element, _ttp_, grp_index=0, top=False, path=None, pathchar='.', vars=None, parent_group_id=None):
        self._ttp_ = _ttp_
        self.pathchar = pathchar
        self.top = top
        self.path = list(path or [])
        self.defaults = {}
        self.runs = {}
        self.default = '_Not_Given_'
        self.has_start_re_default = False
        self.outputs = []
        self.funcs = []
        self.method = 'group'
        self.start_re = []
        self.end_re = []
        self.re = []
        self.children = []
        self.name = ''
        self.group_id = ''
        self.parent_group_id = parent_group_id
        self.vars = vars or {}
        self.grp_index = grp_index
        self.inputs = []
        self.attributes = {}
        self.get_attributes(element.attrib)
        self.set_anonymous_path()
        self.get_regexes(element.text)
        self.get_children(list(element))

    def set_anonymous_path(self):
        if self.name == '':
            self.path = ['_anonymous_*'] if self.top else self.path
            self.name = '.'.join(self.path)
            self.group_id = (self.name + '._anonymous_', self.grp_index)

    def get_attributes(self, data):

        def extract_default(O):
            self.default = self.vars.get(O, O)

        def extract_method(O):
            self.method = O.lower().strip()

        def extract_input(O):
            if self.top:
                self.inputs = [i.strip() for i in O.split(',')]

        def extract_output(O):
            if self.top:
                self.outputs = [i.strip() for i in O.split(',')]

        def extract_name(O):
            if O.startswith('/'):
                if '_anonymous_' in self.path:
                    self.path = ['_anonymous_*'] + O.lstrip('/').split(self.pathchar)
                elif O == '/':
                    self.path = ['_anonymous_*']
                else:
                    self.path = O.lstrip('/').split(self.pathchar)
            else:
                self.path = self.path + O.split(self.pathchar)
            self.name = '.'.join(self.path)
            self.group_id = (self.name, self.grp_index)

        def extract_chain(var_name):
            variable_value = self.vars.get(var_name, var_name)
            if isinstance(variable_value, str):
                attributes = self._ttp_['utils']['get_attributes'](variable_value)
            elif isinstance(variable_value, list):
                attributes = []
                for i in variable_value:
                    i_attribs = self._ttp_['utils']['get_attributes'](i)
                    attributes += i_attribs
            for i in attributes:
                func_name = i['name']
                if func_name in options:
                    options[func_name](i)
                elif func_name in self._ttp_['group']:
                    self.funcs.append(i)
                else:
                    similar_funcs = self._ttp_['utils']['guess'](func_name, list(self._ttp_['group'].keys()))
                    if similar_funcs:
                        log.error("group.extract_chain: unknown group function: '{}', most similar function(s) - {}".format(func_name, ', '.join(similar_funcs)))
                    else:
                        log.error('group.extract_chain: unknown group function: "{}"'.format(func_name))

        def extract_function(func_name, args_kwargs):
            attribs = self._ttp_['utils']['get_attributes']('{}({})'.format(func_name, args_kwargs))
            self.funcs.append(attribs[0])
        options = {'method': extract_method, 'input': extract_input, 'output': extract_output, 'name': extract_name, 'default': extract_default, 'chain': extract_chain, 'functions': extract_chain}
        for attr_name, attributes in data.items():
            if attr_name.lower() in options:
                options[attr_name.lower()](attributes)
            else:
                extract_function(attr_name, attributes)

    def get_regexes(self, data, tail=False):
        varaibles_matches = []
        regexes = []
        for line in data.splitlines():
            if not line.strip():
                continue
            elif line.lstrip().startswith('##'):
                continue
            line = line.rstrip()
            match = re.findall('{{([\\S\\s]+?)}}', line)
            if not match:
                log.warning("group.get_regexes: variable not found in line: '{}'".format(line))
                continue
            varaibles_matches.append({'variables': match, 'line': line})
        for i in varaibles_matches:
            regex = ''
            variables = {}
            action = 'add'
            is_line = False
            skip_regex = False
            for variable in i['variables']:
                variableObj = _variable_class(variable, i['line'], group=self, _ttp_=self._ttp_)
                if variableObj.skip_regex_dict == True:
                    skip_regex = True
                    continue
                if variableObj.skip_variable_dict is False:
                    variables[variableObj.var_name] = variableObj
                    variables[variableObj.var_name_original] = variableObj
                regex = variableObj.form_regex(regex)
                if variableObj.sub_variables:
                    variables.update(variableObj.sub_variables)
                if is_line == False:
                    is_line = variableObj.IS_LINE
                if not 'start' in action and (not variableObj.var_name in ['ignore']):
                    action = variableObj.SAVEACTION
            if skip_regex is True:
                continue
            regexes.append({'REGEX': re.compile(regex), 'VARIABLES': variables, 'ACTION': action, 'GROUP': self, 'IS_LINE': is_line})
        for index, re_dict in enumerate(regexes):
            if 'end' in re_dict['ACTION']:
                self.end_re.append(re_dict)
            elif tail == True:
                self.re.append(re_dict)
            elif index == 0:
                if not 'start' in re_dict['ACTION']:
                    re_dict['ACTION'] = 'start'
                self.start_re.append(re_dict)
            elif self.method == 'table':
                if not 'start' in re_dict['ACTION']:
                    re_dict['ACTION'] = 'start'
                self.start_re.append(re_dict)
            elif 'start' in re_dict['ACTION']:
                self.start_re.append(re_dict)
            else:
                self.re.append(re_dict)
        if isinstance(self.default, dict):
            self.defaults.update(self.default)
            if self.start_re == []:
                self.has_start_re_default = True
        for start_re in self.start_re:
            if self.has_start_re_default:
                break
            for start_re_var_name in start_re['VARIABLES'].keys():
                if start_re_var_name in self.defaults:
                    self.has_start_re_default = True
                    break

    def get_children(self, child_groups):
        for g_index, group in enumerate(child_groups):
            self.children.append(_group_class(element=group, top=False, path=self.path, pathchar=self.pathchar, vars=self.vars, grp_index=g_index, parent_group_id=self.group_id, _ttp_=self._ttp_))
            if group.tail.strip():
                self.get_regexes(data=group.tail, tail=True)

    def set_runs(self):
        self.runs = copy.deepcopy(self.defaults)
        for child in self.children:
            child.set_runs()

    def update_runs(self, data):
        for k, v in data.items():
            for dk, dv in self.runs.items():
                if dv == k:
                    self.runs[dk] = v
        for child in self.children:
            child.update_runs(data)

    def debug(self):
        from pprint import pformat
        attributes = dict(vars(self))
        _ = attributes.pop('_ttp_')
        text = "Group object {}, Group name '{}' content:\n{}".format(self, self.name, pformat(attributes, indent=4))
        log.debug(text)
        for re_dict in self.start_re:
            for var_name, var_obj in re_dict['VARIABLES'].items():
                var_obj.debug()
        for re_dict in self.re:
            for var_name, var_obj in re_dict['VARIABLES'].items():
                var_obj.debug()
        for re_dict in self.end_re:
            for var_name, var_obj in re_dict['VARIABLES'].items():
                var_obj.debug()
        for group in self.children:
            group.debug()
'\n==============================================================================\nTTP MATCH VARIABLE CLASS\n==============================================================================\n'

class _variable_class:

    def __init__(self, variable, line, _ttp_, group=''):
        self._ttp_ = _ttp_
        self.variable = variable
        self.LINE = line
        self.functions = []
        self.SAVEACTION = 'add'
        self.group = group
        self.IS_LINE = False
        self.skip_variable_dict = False
        self.skip_regex_dict = False
        self.var_res = []
        self.sub_variables = {}
        self.regex = ''
        self.attributes = self._ttp_['utils']['get_attributes'](variable)
        self.var_dict = self.attributes.pop(0)
        self.var_name = self.var_dict['name']
        self.var_name_original = str(self.var_name)
        self.var_name = re.sub('\\W+|^(?=\\d)', '_', self.var_name)
        self.skip_defaults = ['_end_', '_line_', 'ignore', '_start_']
        if self.group.default != '_Not_Given_' and isinstance(self.group.default, str):
            if self.var_name_original not in self.group.defaults:
                if self.var_name_original not in self.skip_defaults:
                    self.group.defaults.update({self.var_name_original: self.group.default})
        self.extract_functions()

    def extract_functions(self):

        def extract__start_(data):
            self.SAVEACTION = 'start'
            if self.var_name == '_start_':
                self.SAVEACTION = 'startempty'

        def extract__end_(data):
            self.SAVEACTION = 'end'

        def extract_set(data):
            match_line = re.sub('{{([\\S\\s]+?)}}', '', self.LINE).rstrip()
            if match_line:
                data['kwargs']['match_line'] = '\n' + match_line
                self.functions.append(data)
            else:
                self.group.defaults.update({self.var_name_original: data['args'][0]})
                self.skip_regex_dict = True

        def extract_default(data):
            if self.var_name_original in self.skip_defaults:
                return
            if len(data['args']) == 1:
                self.group.defaults.update({self.var_name_original: data['args'][0]})
            else:
                self.group.defaults.update({self.var_name_original: 'None'})

        def extract_joinmatches(data):
            self.functions.append(data)
            self.SAVEACTION = 'join'

        def extract__line_(data):
            self.SAVEACTION = 'join'
            self.IS_LINE = True
            extract_re(data)

        def extract_ignore(data):
            self.skip_variable_dict = True

        def extract_chain(data):
            variable_value = self.group.vars.get(data['args'][0], None)
            if variable_value is None:
                log.error("match_variable.extract_chain: match variable - '{}', chain var '{}' not found".format(self.var_name, data['args'][0]))
                return
            if isinstance(variable_value, str):
                attributes = self._ttp_['utils']['get_attributes'](variable_value)
            elif isinstance(variable_value, list):
                attributes = []
                for i in variable_value:
                    i_attribs = self._ttp_['utils']['get_attributes'](i)
                    attributes += i_attribs
            for i in attributes:
                name = i['name']
                if name in extract_funcs:
                    extract_funcs[name](i)
                elif self._ttp_['patterns']['get'](name=name):
                    extract_re(i)
                else:
                    self.functions.append(i)

        def extract_re(data):
            try:
                regex = data['args'][0]
            except IndexError:
                regex = data['name']
            re_from_var = self.group.vars.get(regex, None)
            re_from_patterns = self._ttp_['patterns']['get'](name=regex)
            if re_from_var:
                self.var_res.append(re_from_var)
            elif re_from_patterns:
                self.var_res.append(re_from_patterns)
            else:
                self.var_res.append(regex)

        def get_arg_from_vars(data):
            if len(data['args']) == 1:
                value = data['args'][0]
                data['args'] = (self.group.vars.get(value, value),)
            elif len(data['args']) > 1:
                data['args'] = tuple([self.group.vars.get(i, i) for i in data['args']])
            self.functions.append(data)

        def extract__headers_(data):
            self.SAVEACTION = 'start'

        def skip(data):
            pass
        extract_funcs = {'ignore': extract_ignore, '_start_': extract__start_, '_end_': extract__end_, '_line_': extract__line_, '_exact_': skip, '_exact_space_': skip, '_headers_': extract__headers_, 'columns': skip, 'chain': extract_chain, 'set': extract_set, 'default': extract_default, 'joinmatches': extract_joinmatches, 're': extract_re, 'contains_re': get_arg_from_vars, 'startswith_re': get_arg_from_vars, 'endswith_re': get_arg_from_vars, 'notstartswith_re': get_arg_from_vars, 'notendswith_re': get_arg_from_vars, 'exclude_re': get_arg_from_vars, 'exclude': get_arg_from_vars, 'contains': get_arg_from_vars, 'equal': get_arg_from_vars, 'notequal': get_arg_from_vars, 'sformat': get_arg_from_vars}
        if self.var_name in extract_funcs:
            extract_funcs[self.var_name](self.var_dict)
        for i in self.attributes:
            name = i['name']
            if name in extract_funcs:
                extract_funcs[name](i)
            elif self._ttp_['patterns']['get'](name=name):
                extract_re(i)
            else:
                self.functions.append(i)

    def form_regex(self, regex):
        line_chunks = []
        no_indent_line = self.LINE.lstrip()
        llen = len(self.LINE)
        vars_spans = [(0, 0)] + [i.span() for i in re.finditer('{{([\\S\\s]+?)}}', no_indent_line)] + [(llen, llen)]
        for index, var_span in enumerate(vars_spans[1:]):
            previous_var_span = vars_spans[index]
            string_before_var = no_indent_line[previous_var_span[1]:var_span[0]]
            if string_before_var:
                string_before_var = re.escape(string_before_var)
                if not '_exact_space_' in self.LINE:
                    string_before_var = re.sub('(\\\\ |\\\\\\t)+', '[ \\\\t]+', string_before_var)
                if not '_exact_' in self.LINE:
                    string_before_var = re.sub('\\d+', '\\\\d+', string_before_var)
                line_chunks.append(string_before_var)
            line_chunks.append(no_indent_line[var_span[0]:var_span[1]])
        esc_line = ''.join(line_chunks)
        esc_var = '{{' + self.variable + '}}'
        if regex == '':
            first_non_space_char_index = len(self.LINE) - len(self.LINE.lstrip())
            indent = self.LINE[:first_non_space_char_index]
            self.regex = esc_line
            self.regex = indent + self.regex
            self.regex = '\\n' + self.regex + '[\\t ]*(?=\\n|\\r\\n)'
        else:
            self.regex = regex

        def regex_ignore(data):
            if len(data['args']) == 0:
                self.regex = self.regex.replace(esc_var, '\\S+', 1)
            elif len(data['args']) == 1:
                pattern = data['args'][0]
                re_from_patterns = self._ttp_['patterns']['get'](name=pattern)
                re_from_var = self.group.vars.get(pattern, None)
                if re_from_var:
                    self.regex = self.regex.replace(esc_var, '(?:{})'.format(re_from_var), 1)
                elif re_from_patterns:
                    self.regex = self.regex.replace(esc_var, '(?:{})'.format(re_from_patterns), 1)
                else:
                    self.regex = self.regex.replace(esc_var, '(?:{})'.format(pattern), 1)

        def regex_deleteVar(data):
            result = None
            if esc_var in self.regex:
                index = self.regex.find(esc_var)
                result = self.regex[:index]
                result = re.sub('(\\[ \\\\t\\]\\+)$', '', result) + '[\\t ]*(?=\\n|\\r\\n)'
            if result:
                self.regex = result

        def regex_headers(data):
            index = self.LINE.find(esc_var)
            self.regex = self.LINE[:index].rstrip()
            headers = re.findall('(\\S+\\s+|\\S+)', self.regex)
            columns = len(headers) - 2
            for attribute in self.attributes:
                if attribute['name'] == 'columns':
                    columns = max(1, int(attribute['args'][0]))
                    columns = min(columns, len(headers))
            self.regex = re.sub('\\t', ' ' * 4, self.regex)
            headers[0] = ' ' * (len(self.regex) - len(self.regex.lstrip())) + headers[0]
            row_re = ['(?P<{}>.{{{}}})'.format(header.strip(), len(header)) for header in headers[:columns - 1]]
            row_re.append('(?P<{}>.{{1,{}}})'.format(headers[columns - 1].strip(), len(headers[columns - 1])))
            row_re.extend(['(?P<{}>.{{0,{}}})'.format(header.strip(), len(header)) for header in headers[columns:]])
            if columns >= len(headers):
                row_re[-1] = '(?P<{}>.{{1,}})'.format(headers[-1].strip())
            else:
                row_re[-1] = '(?P<{}>.*)'.format(headers[-1].strip())
            self.regex = '\\n' + ''.join(row_re) + '(?=\\n|\\r\\n)'
            self.sub_variables = {var.strip(): _variable_class('{var} | strip | exclude({var})'.format(var=var.strip()), line='', _ttp_=self._ttp_, group=self.group) for var in headers}
        regexFuncsVar = {'ignore': regex_ignore, '_start_': regex_deleteVar, '_end_': regex_deleteVar, '_headers_': regex_headers}
        if self.var_name in regexFuncsVar:
            regexFuncsVar[self.var_name](self.var_dict)
        regexFuncs = {'set': regex_deleteVar}
        for i in self.functions:
            if i['name'] in regexFuncs:
                regexFuncs[i['name']](i)
        if self.var_res == []:
            self.var_res.append(self._ttp_['patterns']['get'](name='WORD'))
        if self.var_name != 'ignore':
            self.regex = self.regex.replace(esc_var, '(?P<{}>(?:{}))'.format(self.var_name, ')|(?:'.join(self.var_res)), 1)
        if log.isEnabledFor(logging.DEBUG) == False:
            del self.attributes, esc_line
            del self.LINE, self.skip_defaults
            del self.var_dict, self.var_res
        return self.regex

    def debug(self):
        from pprint import pformat
        attributes = dict(vars(self))
        _ = attributes.pop('_ttp_')
        text = "Variable object {}, Variable name '{}' content:\n{}".format(self, self.var_name, pformat(attributes, indent=4))
        log.debug(text)
'\n==============================================================================\nTTP PARSER OBJECT\n==============================================================================\n'

class _parser_class:

    def __init__(self, lookups, vars, groups, _ttp_):
        self.lookups = lookups
        self.original_vars = vars
        self.groups = groups
        self.main_results = {}
        self.DATATEXT = ''
        self.DATANAME = ''
        self._ttp_ = _ttp_

    def set_data(self, D, main_results=None, input_functions=None):
        main_results = main_results or {}
        input_functions = input_functions or []
        self.main_results = main_results
        if D[0] == 'text_data':
            self.DATATEXT = '\n' + D[1] + '\n\n'
            self.DATANAME = 'text_data'
        elif D[0] == 'structured_data':
            self.DATATEXT = D[1]
            self.DATANAME = 'structured_data'
        else:
            data = self._ttp_['utils']['load_files'](path=D[1], read=True)
            self.DATATEXT = '\n' + data[0][1] + '\n\n'
            self.DATANAME = D[1]
        self.vars = self.original_vars.copy()
        self._ttp_['vars'] = self.vars
        self.run_var_functions()
        for G in self.groups:
            G.set_runs()
        self._ttp_['parser_object'] = self
        for item in input_functions:
            func_name, args, kwargs = (item['name'], item.get('args', []), item.get('kwargs', {}))
            self.DATATEXT, flags = self._ttp_['input'][func_name](self.DATATEXT, *args, **kwargs)
            if flags == False:
                break

    def update_groups_runs(self, D):
        for G in self.groups:
            G.update_runs(D)

    def run_var_functions(self):
        for VARname, VARvalue in self.vars['_var_functions_'].items():
            try:
                result = self._ttp_['variable'][VARvalue](self.DATATEXT, self.DATANAME)
                if result:
                    self.vars.update({VARname: result})
            except:
                log.error("ttp_parser.run_var_functions: '{}' variable function failed".format(VARvalue))

    def parse(self, groups_indexes):
        unsort_rslts = []
        raw_results = []
        grps_unsort_rslts = []
        grps_raw_results = []

        def check_matches(regex, matches, results, start):
            for match in matches:
                result = {}
                temp = {}
                if match.groupdict():
                    temp = match.groupdict()
                else:
                    temp = {key: match.group() for key in regex['VARIABLES'].keys()}
                for var_name, data in temp.items():
                    flags = {}
                    for item in regex['VARIABLES'][var_name].functions:
                        func_name = item['name']
                        args = item['args']
                        kwargs = item['kwargs']
                        try:
                            data, flag = self._ttp_['match'][func_name](data, *args, **kwargs)
                        except KeyError:
                            try:
                                attrib = getattr(data, func_name)
                                if callable(attrib):
                                    run_result = attrib(*args, **kwargs)
                                else:
                                    run_result = attrib
                                if run_result is False:
                                    flag = False
                                elif run_result is True:
                                    flag = True
                                else:
                                    data = run_result
                                    flag = None
                            except AttributeError as e:
                                flag = None
                                log.error("ttp_parser.check_matches: match variable function '{}' failed, data '{}', error '{}'".format(func_name, data, e))
                                similar_funcs = self._ttp_['utils']['guess'](func_name, list(self._ttp_['match'].keys()))
                                if similar_funcs:
                                    log.error('ttp_parser.check_matches: the most similar match variable function(s) - {}'.format(', '.join(similar_funcs)))
                        if flag is False:
                            result = False
                            break
                        elif isinstance(flag, dict):
                            if 'new_field' in flags and 'new_field' in flag:
                                flags['new_field'].update(flag['new_field'])
                            else:
                                flags.update(flag)
                    if result is False:
                        break
                    result.update({regex['VARIABLES'][var_name].var_name_original: data})
                    if 'new_field' in flags:
                        result.update(flags['new_field'])
                if result is False and (not regex['ACTION'].startswith('start')):
                    continue
                span_start = start + match.span()[0]
                if span_start not in results:
                    results[span_start] = [(regex, result)]
                else:
                    results[span_start].append((regex, result))

        def run_re(group, results, start=0, end=-1):
            s = 0
            se = 0
            e = -1
            group_start_found = False
            for R in group.start_re:
                start_matches = list(R['REGEX'].finditer(self.DATATEXT[start:end]))
                if not start_matches:
                    continue
                check_matches(R, start_matches, results, start)
                if s > start_matches[0].span()[0] or group_start_found is False:
                    group_start_found = True
                    s = start_matches[0].span()[0]
                if se < start_matches[-1].span()[0] and (not R['IS_LINE']):
                    se = start_matches[-1].span()[1] + start
            start = start + s
            if not group_start_found:
                if group.has_start_re_default:
                    key = 10000000
                    start_re = {'ACTION': 'start', 'VARIABLES': group.runs, 'GROUP': group} if group.start_re == [] else group.start_re[0]
                    while key in results:
                        key += 1
                    else:
                        results[key] = [(start_re, {})]
                for child_group in group.children:
                    if group.start_re == [] or child_group.has_start_re_default:
                        run_re(child_group, results, start, end)
                return results
            for R in group.end_re:
                end_matches = list(R['REGEX'].finditer(self.DATATEXT[start:end]))
                if not end_matches:
                    continue
                check_matches(R, end_matches, results, start)
                if e < end_matches[-1].span()[1] and end_matches[-1].span()[1] > se:
                    e = end_matches[-1].span()[1]
            if e != -1:
                end = start + e
                empty_matches_keys = []
                for span_start, mathches in results.items():
                    for item in mathches:
                        if item[0]['GROUP'] is group and span_start > end:
                            mathches.remove(item)
                    if mathches == []:
                        empty_matches_keys.append(span_start)
                for key in empty_matches_keys:
                    results.pop(key)
            for R in group.re:
                check_matches(R, list(R['REGEX'].finditer(self.DATATEXT[start:end])), results, start)
            for child_group in group.children:
                run_re(child_group, results, start, end)
            return results
        for group_index in groups_indexes:
            group = self.groups[group_index]
            if group.outputs == []:
                unsort_rslts.append(run_re(group, results={}))
            else:
                grps_unsort_rslts.append((run_re(group, results={}), group.outputs))
        self.update_groups_runs(self._ttp_['global_vars'])
        self.update_groups_runs(self.vars)
        for group_result in unsort_rslts:
            if group_result:
                raw_results.append([group_result[key] for key in sorted(list(group_result.keys()))])
        RSLTSOBJ = _results_class(self._ttp_)
        RSLTSOBJ.make_results(self.vars, raw_results, main_results=self.main_results)
        self.main_results = RSLTSOBJ.results
        for group_result in grps_unsort_rslts:
            if group_result[0]:
                grps_raw_results.append(([group_result[0][key] for key in sorted(list(group_result[0].keys()))], group_result[1]))
        for grp_raw_result in grps_raw_results:
            RSLTSOBJ = _results_class(self._ttp_)
            RSLTSOBJ.make_results(self.vars, [grp_raw_result[0]], main_results={})
            grp_result = RSLTSOBJ.results
            for output in grp_raw_result[1]:
                grp_result = output.run(data=grp_result)
            if isinstance(self.main_results, dict):
                if self.main_results:
                    self.main_results = [self.main_results]
                else:
                    self.main_results = []
            self.main_results.append(grp_result)
'\n==============================================================================\nTTP results FORMATTER OBJECT\n==============================================================================\n'

class _results_class:

    def __init__(self, _ttp_):
        self._ttp_ = _ttp_
        self.results = {}
        self.started_groups = []
        self.ended_groups = set()
        self.record = {'result': {}, 'PATH': [], 'FUNCTIONS': [], 'DEFAULTS': {}, 'GRP_ID': None}
        self.dyn_path_cache = {}
        self._ttp_['results_object'] = self

    def make_results(self, variables, raw_results, main_results):
        self.results = main_results
        self.variables = variables
        saveFuncs = {'start': self.start, 'add': self.add, 'startempty': self.startempty, 'end': self.end, 'join': self.join}
        if raw_results:
            self.save_vars(variables)
        for group_results in raw_results:
            for result in group_results:
                if len(result) == 1:
                    re_ = result[0][0]
                    result_data = result[0][1]
                else:
                    re_ = None
                    startempty_re, start_re, normal_re, line_re = ([], [], [], [])
                    for index, item in enumerate(result):
                        if item[0]['IS_LINE'] == True:
                            line_re.append(index)
                        elif item[0]['ACTION'] == 'start':
                            start_re.append(index)
                        elif item[0]['ACTION'] == 'startempty':
                            startempty_re.append(index)
                        else:
                            normal_re.append(index)
                    if startempty_re:
                        for index in startempty_re:
                            re_ = result[index][0]
                            result_data = result[index][1]
                            if result_data == False:
                                continue
                            elif re_['GROUP'].group_id == self.record['GRP_ID']:
                                break
                        else:
                            for index in startempty_re:
                                re_ = result[index][0]
                                result_data = result[index][1]
                                if result_data == False:
                                    continue
                                elif self.record['GRP_ID'] and re_['GROUP'].group_id[0].startswith(self.record['GRP_ID'][0]):
                                    break
                                elif re_['GROUP'].parent_group_id in self.started_groups:
                                    break
                    elif start_re:
                        for index in start_re:
                            re_ = result[index][0]
                            result_data = result[index][1]
                            if result_data == False:
                                continue
                            elif re_['GROUP'].group_id == self.record['GRP_ID']:
                                break
                        else:
                            for index in start_re:
                                re_ = result[index][0]
                                result_data = result[index][1]
                                if result_data == False:
                                    continue
                                elif self.record['GRP_ID'] and re_['GROUP'].group_id[0].startswith(self.record['GRP_ID'][0]):
                                    break
                                elif re_['GROUP'].parent_group_id in self.started_groups:
                                    break
                    elif normal_re:
                        for index in normal_re:
                            re_ = result[index][0]
                            result_data = result[index][1]
                            if re_['GROUP'].group_id == self.record['GRP_ID']:
                                break
                        else:
                            for index in normal_re:
                                re_ = result[index][0]
                                result_data = result[index][1]
                                if re_['GROUP'].group_id in self.started_groups:
                                    break
                    elif line_re:
                        for index in line_re:
                            re_ = result[index][0]
                            result_data = result[index][1]
                            if re_['GROUP'].group_id == self.record['GRP_ID']:
                                break
                group = re_['GROUP']
                if result_data == False:
                    self.ended_groups.add(re_['GROUP'].group_id)
                    continue
                elif re_['GROUP'].parent_group_id in self.ended_groups:
                    continue
                elif re_['GROUP'].group_id in self.ended_groups:
                    if re_['ACTION'].startswith('start'):
                        self.ended_groups.remove(re_['GROUP'].group_id)
                    else:
                        continue
                saveFuncs[re_['ACTION']](result=result_data, PATH=list(group.path), DEFAULTS=group.runs, FUNCTIONS=group.funcs, REDICT=re_)
        if self.processgrp() is not False:
            self.save_curelements(result_data=self.record['result'], result_path=self.record['PATH'])

    def save_vars(self, variables):
        sorted_pathes = sorted(list(variables['_vars_to_results_'].keys()))
        for path_item in sorted_pathes:
            if not path_item:
                continue
            vars_names = variables['_vars_to_results_'][path_item]
            result = {}
            for var_name in vars_names:
                if var_name in variables:
                    result[var_name] = variables[var_name]
            self.record = {'result': result, 'PATH': [i.strip() for i in path_item.split('.')], 'DEFAULTS': {}}
            processed_path = self.form_path(self.record['PATH'])
            if processed_path:
                self.record['PATH'] = processed_path
            else:
                continue
            self.save_curelements(result_data=self.record['result'], result_path=self.record['PATH'])
        self.record = {'result': {}, 'PATH': [], 'FUNCTIONS': [], 'DEFAULTS': {}, 'GRP_ID': None}

    def value_to_list(self, DATA, PATH, result):
        if PATH:
            name = PATH[0][0]
            if name == '_':
                if len(PATH) == 1:
                    if isinstance(DATA, dict):
                        DATA.update(result)
                    elif isinstance(DATA, list):
                        DATA[-1].update(result)
                    return DATA
                else:
                    _ = PATH.pop(0)
                    name = PATH[0][0]
            if self._ttp_['dynamic_path_key_to_int']:
                name = int(name) if name.isdigit() else name
            if isinstance(DATA, dict):
                if name in DATA:
                    DATA[name] = self.value_to_list(DATA[name], PATH[1:], result)
                    return DATA
            elif isinstance(DATA, list):
                if name in DATA[-1]:
                    DATA[-1][name] = self.value_to_list(DATA[-1][name], PATH[1:], result)
                    return DATA
        else:
            return [DATA, result]

    def list_to_dict_fwd(self, KEYS):
        if KEYS:
            if KEYS[0][0] == '_':
                if len(KEYS) == 1:
                    return {}
                else:
                    _ = KEYS.pop(0)
            name = KEYS[0][0]
            asterisk_count = KEYS[0][1]
            if self._ttp_['dynamic_path_key_to_int']:
                name = int(name) if name.isdigit() else name
            if asterisk_count == '*':
                if len(KEYS) == 1:
                    return {name: []}
                else:
                    return {name: [self.list_to_dict_fwd(KEYS[1:])]}
            else:
                return {name: self.list_to_dict_fwd(KEYS[1:])}
        return {}

    def dict_by_path(self, PATH, ELEMENT):
        if PATH == []:
            return ELEMENT
        elif isinstance(ELEMENT, dict):
            name = PATH[0][0]
            if name == '_':
                if len(PATH) == 1:
                    return ELEMENT
                else:
                    _ = PATH.pop(0)
                    name = PATH[0][0]
            if self._ttp_['dynamic_path_key_to_int']:
                name = int(name) if name.isdigit() else name
            if name in ELEMENT:
                return self.dict_by_path(PATH[1:], ELEMENT[name])
            else:
                ELEMENT.update(self.list_to_dict_fwd(PATH))
                return self.dict_by_path(PATH[1:], ELEMENT[name])
        elif isinstance(ELEMENT, list):
            if ELEMENT == []:
                ELEMENT.append(self.list_to_dict_fwd(PATH))
            return self.dict_by_path(PATH, ELEMENT[-1])

    def _merge_recursively(self, element, result_data):
        for nk, nd in result_data.items():
            if element.get(nk) and isinstance(nd, dict):
                self._merge_recursively(element[nk], nd)
            else:
                element[nk] = nd

    def save_curelements(self, result_data, result_path):
        E = self.dict_by_path(PATH=result_path, ELEMENT=self.results)
        if isinstance(E, list) and result_data:
            if self.record.get('merge_with_last'):
                self._merge_recursively(E[-1], result_data)
            else:
                E.append(result_data)
        elif isinstance(E, dict):
            if self.record.get('merge_with_last'):
                self._merge_recursively(E, result_data)
            elif result_path[-1][1] == '**':
                result_data.update(E)
                E.update(result_data)
            elif E != {}:
                self.results = self.value_to_list(DATA=self.results, PATH=result_path, result=result_data)
            else:
                E.update(result_data)

    def reconstruct_last_element(self, result_data, result_path):
        E = self.dict_by_path(PATH=result_path, ELEMENT=self.results)
        if isinstance(E, list):
            copied = E[-1].copy()
        elif isinstance(E, dict):
            copied = E.copy()
        copied.update(result_data)
        return copied

    def start(self, result, PATH, DEFAULTS=None, FUNCTIONS=None, REDICT=''):
        DEFAULTS = DEFAULTS or {}
        FUNCTIONS = FUNCTIONS or []
        while self.started_groups:
            if REDICT['GROUP'].parent_group_id == self.started_groups[-1]:
                self.started_groups.append(REDICT['GROUP'].group_id)
                break
            if REDICT.get('IS_LINE'):
                self.started_groups.append(REDICT['GROUP'].group_id)
                break
            _ = self.started_groups.pop()
        else:
            if REDICT['GROUP'].group_id not in self.started_groups:
                self.started_groups.append(REDICT['GROUP'].group_id)
        if self.processgrp() != False:
            self.save_curelements(result_data=self.record['result'], result_path=self.record['PATH'])
        self.record = {'result': result, 'DEFAULTS': DEFAULTS.copy(), 'PATH': PATH, 'FUNCTIONS': FUNCTIONS, 'GRP_ID': REDICT['GROUP'].group_id}

    def startempty(self, result, PATH, DEFAULTS=None, FUNCTIONS=None, REDICT=''):
        DEFAULTS = DEFAULTS or {}
        FUNCTIONS = FUNCTIONS or []
        while self.started_groups:
            if REDICT['GROUP'].parent_group_id == self.started_groups[-1]:
                self.started_groups.append(REDICT['GROUP'].group_id)
                break
            if REDICT.get('IS_LINE'):
                self.started_groups.append(REDICT['GROUP'].group_id)
                break
            _ = self.started_groups.pop()
        else:
            if REDICT['GROUP'].group_id not in self.started_groups:
                self.started_groups.append(REDICT['GROUP'].group_id)
        if self.processgrp() != False:
            self.save_curelements(result_data=self.record['result'], result_path=self.record['PATH'])
        self.record = {'result': {}, 'DEFAULTS': DEFAULTS.copy(), 'PATH': PATH, 'FUNCTIONS': FUNCTIONS, 'GRP_ID': REDICT['GROUP'].group_id}

    def add(self, result, PATH, DEFAULTS=None, FUNCTIONS=None, REDICT=''):
        DEFAULTS = DEFAULTS or {}
        FUNCTIONS = FUNCTIONS or []
        if self.record['PATH'] == PATH:
            result.update(self.record['result'])
            self.record['result'] = result
        elif REDICT['GROUP'].group_id in self.started_groups:
            self.start(result=result, PATH=PATH, DEFAULTS=DEFAULTS, FUNCTIONS=FUNCTIONS, REDICT=REDICT)
            self.record['merge_with_last'] = True
            self.record['DEFAULTS'] = {}

    def join(self, result, PATH, DEFAULTS=None, FUNCTIONS=None, REDICT=''):
        DEFAULTS = DEFAULTS or {}
        FUNCTIONS = FUNCTIONS or []
        if self.record['PATH'] == PATH:
            joinchar = '\n'
            for varname, varvalue in result.items():
                if not varname in REDICT['VARIABLES']:
                    continue
                for item in REDICT['VARIABLES'][varname].functions:
                    if item['name'] == 'joinmatches':
                        joinchar = item['args'][0] if item['args'] else joinchar
                        break
            for k in result.keys():
                if k in self.record['result']:
                    if isinstance(self.record['result'][k], str):
                        self.record['result'][k] += joinchar + result[k]
                    elif isinstance(self.record['result'][k], list):
                        if isinstance(result[k], list):
                            self.record['result'][k] += result[k]
                        else:
                            self.record['result'][k].append(result[k])
                    else:
                        self.record['result'][k] = [self.record['result'][k], result[k]]
                else:
                    self.record['result'][k] = result[k]
        elif REDICT['GROUP'].group_id in self.started_groups:
            self.start(result=result, PATH=PATH, DEFAULTS=DEFAULTS, FUNCTIONS=FUNCTIONS, REDICT=REDICT)
            self.record['merge_with_last'] = True
            self.record['DEFAULTS'] = {}

    def end(self, result, PATH, DEFAULTS=None, FUNCTIONS=None, REDICT=''):
        DEFAULTS = DEFAULTS or {}
        FUNCTIONS = FUNCTIONS or []
        if self.record['PATH'] != PATH and REDICT['GROUP'].group_id == self.started_groups[-1]:
            return
        self.ended_groups.add(REDICT['GROUP'].group_id)

    def form_path(self, path):
        for index, path_item in enumerate(path):
            asterisk_count = len(path_item) - len(path_item.rstrip('*'))
            path_item = path_item.rstrip('*')
            match = re.findall('{{\\s*(\\S+)\\s*}}', path_item)
            if match:
                for m in match:
                    pattern = '{{\\s*' + re.escape(m) + '\\s*}}'
                    if m in self.record['result']:
                        self.dyn_path_cache[m] = self.record['result'][m]
                        repl = str(self.record['result'].pop(m))
                    elif m in self.dyn_path_cache:
                        repl = str(self.dyn_path_cache[m])
                    elif m in self.variables:
                        repl = str(self.variables[m])
                    else:
                        return False
                    path_item = re.sub(pattern, lambda _, repl=repl: repl, path_item)
            path[index] = (path_item, asterisk_count * '*')
        return path

    def processgrp(self):
        for k, v in self.record['DEFAULTS'].items():
            self.record['result'].setdefault(k, v)
        if self.record.get('merge_with_last') is True:
            processed_path = self.form_path(list(self.record['PATH']))
            if processed_path:
                self.record['result'] = self.reconstruct_last_element(self.record['result'], processed_path)
        for item in self.record['FUNCTIONS']:
            func_name = item['name']
            args = item.get('args', [])
            kwargs = item.get('kwargs', {})
            self.record['result'], flags = self._ttp_['group'][func_name](self.record['result'], *args, **kwargs)
            if flags == False:
                return False
        processed_path = self.form_path(self.record['PATH'])
        if processed_path:
            self.record['PATH'] = processed_path
        else:
            return False
'\n==============================================================================\nTTP OUTPUTTER CLASS\n==============================================================================\n'

class _outputter_class:

    def __init__(self, element=None, template_obj=None, _ttp_=None, **kwargs):
        self._ttp_ = _ttp_
        self.attributes = {'returner': 'self', 'format': 'raw', 'load': 'python'}
        self.tag_load = {}
        self.template_obj = template_obj
        self.name = None
        self.return_to_self = False
        self.funcs = []
        if element is not None:
            self.element = element
            self.attributes.update(element.attrib)
            self.extract_load(element)
        elif kwargs:
            self.attributes.update(kwargs)
        self.get_attributes(self.attributes.copy())

    def extract_load(self, element):
        if self.attributes.get('format') == 'jinja2':
            self.attributes['load'] = 'text'
        attribs = self._ttp_['utils']['load_struct'](element.text, **self.attributes)
        self.tag_load = attribs if attribs else element.text
        if isinstance(attribs, dict):
            self.attributes.update(attribs)

    def get_attributes(self, data):

        def extract_name(O):
            self.name = O

        def extract_returner(O):
            self.attributes['returner'] = [i.strip() for i in O.split(',')]

        def extract_filename(O):
            from time import strftime
            self.attributes['filename'] = strftime(O)

        def extract_format_attributes(O):
            format_attributes = self._ttp_['utils']['get_attributes']('format_attributes({})'.format(O))
            self.attributes['format_attributes'] = {'args': format_attributes[0]['args'], 'kwargs': format_attributes[0]['kwargs']}

        def extract_path(O):
            self.attributes['path'] = [i.strip() for i in O.split('.')]

        def extract_headers(O):
            if isinstance(O, str):
                self.attributes['headers'] = [i.strip() for i in O.split(',')]
            else:
                self.attributes['headers'] = O

        def extract_condition(O):
            condition_attributes = self._ttp_['utils']['get_attributes']('condition({})'.format(O))
            self.attributes['condition'] = condition_attributes[0]['args']

        def extract_functions(O):
            funcs = self._ttp_['utils']['get_attributes'](O)
            for i in funcs:
                name = i['name']
                if name in functions:
                    functions[name](i)
                elif name in self._ttp_['output']:
                    self.funcs.append(i)
                else:
                    similar_funcs = self._ttp_['utils']['guess'](name, list(self._ttp_['output'].keys()))
                    if similar_funcs:
                        log.error("output.extract_functions: unknown output function: '{}', most similar function(s) - {}".format(name, ', '.join(similar_funcs)))
                    else:
                        log.error('output.extract_functions: unknown output function: "{}"'.format(name))

        def extract_function(func_name, args_kwargs):
            attribs = self._ttp_['utils']['get_attributes']('{}({})'.format(func_name, args_kwargs))
            self.funcs.append(attribs[0])
        options = {'name': extract_name, 'returner': extract_returner, 'filename': extract_filename, 'format_attributes': extract_format_attributes, 'path': extract_path, 'headers': extract_headers, 'condition': extract_condition}
        functions = {'functions': extract_functions}
        for attr_name, attributes in data.items():
            if attr_name.lower() in options:
                options[attr_name.lower()](attributes)
            elif attr_name.lower() in functions:
                functions[attr_name.lower()](attributes)
            elif attr_name in self._ttp_['output']:
                extract_function(attr_name, attributes)
            else:
                self.attributes[attr_name] = attributes

    def run(self, data, macro=None):
        marco = macro or {}
        self._ttp_['output_object'] = self
        if macro:
            self._ttp_['macro'] = macro
        format_type = self.attributes['format']
        results = data
        if self.attributes.get('condition'):
            condition_var_name, condition_var_value = self.attributes['condition']
            var_value = self.template_obj.vars.get(condition_var_name, '_undef_')
            if not var_value == condition_var_value:
                return data
        for item in self.funcs:
            func_name = item['name']
            args = item.get('args', [])
            kwargs = item.get('kwargs', {})
            results = self._ttp_['output'][func_name](results, *args, **kwargs)
        if format_type in self._ttp_['formatters']:
            results = self._ttp_['formatters'][format_type](results, **self.attributes)
        else:
            log.warning("output.run: unsupported formatter '{}', use one of: {}".format(format_type, list(self._ttp_['formatters'].keys())))
        for returner in self.attributes['returner']:
            if returner in self._ttp_['returners']:
                _ = self._ttp_['returners'][returner](results, **self.attributes)
            else:
                log.warning("output.run: unsupported returner '{}', use one of: {}".format(returner, list(self._ttp_['returners'].keys())))
        if self.return_to_self is True:
            return results
        return data

    def debug(self):
        from pprint import pformat
        text = "Output Object {}, Output name '{}' content:\n{}".format(self, self.name, pformat(vars(self), indent=4))
        log.debug(text)
'\n==============================================================================\nTTP LOGGING SETUP\n==============================================================================\n'

def logging_config(LOG_LEVEL, LOG_FILE, _ttp_=None):
    _ttp_ = _ttp_ or {}
    valid_log_levels = ['DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL']
    if not LOG_LEVEL.upper() in valid_log_levels:
        return
    if __name__ == '__main__' or _ttp_.get('_used_as_cli_tool_') == True:
        logging.basicConfig(format='%(asctime)s.%(msecs)d [TTP %(levelname)s] %(lineno)d; %(message)s', datefmt='%m/%d/%Y %I:%M:%S', level=LOG_LEVEL.upper(), filename=LOG_FILE, filemode='w')
    else:
        log.setLevel(LOG_LEVEL.upper())
'\n==============================================================================\nTTP CLI PROGRAMM\n==============================================================================\n'

def cli_tool():
    import argparse
    import time
    _ttp_ = lazy_import_functions()
    _ttp_['_used_as_cli_tool_'] = True
    description_text = '-d,  --data            Data files location\n-dp, --data-prefix     Prefix to add to template inputs\' urls\n-t,  --template        OS path to templates file\n-tn, --template-name   Name of the template in templates file\n-o,  --outputter       Specify output format - yaml, json, raw, pprint\n-ot, --out-template    Name of template to output results for\n-l,  --logging         Set logging level - "DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"\n-lf, --log-file        Path to save log file\n-T,  --Timing          Print simple timing info\n-s,  --structure       Final results structure - \'list\' or \'dictionary\'\n-v,  --vars            Json string containing variables to add to TTP object\n--one                  Parse using single process\n--multi                Parse using multiple processes'
    argparser = argparse.ArgumentParser(description='Template Text Parser, version {}'.format(__version__), formatter_class=argparse.RawDescriptionHelpFormatter)
    run_options = argparser.add_argument_group(description=description_text)
    run_options.add_argument('--one', action='store_true', dest='ONE', default=False, help=argparse.SUPPRESS)
    run_options.add_argument('--multi', action='store_true', dest='MULTI', default=False, help=argparse.SUPPRESS)
    run_options.add_argument('-T', '--Timing', action='store_true', dest='TIMING', default=False, help=argparse.SUPPRESS)
    run_options.add_argument('-d', '--data', action='store', dest='DATA', default='', type=str, help=argparse.SUPPRESS)
    run_options.add_argument('-dp', '--data-prefix', action='store', dest='data_prefix', default='', type=str, help=argparse.SUPPRESS)
    run_options.add_argument('-t', '--template', action='store', dest='TEMPLATE_FILE', default='', type=str, help=argparse.SUPPRESS)
    run_options.add_argument('-tn', '--template-name', action='store', dest='TEMPLATE_NAME', default='', type=str, help=argparse.SUPPRESS)
    run_options.add_argument('-o', '--outputter', action='store', dest='OUTPUTTER', default='', type=str, help=argparse.SUPPRESS)
    run_options.add_argument('-ot', '--out-template', action='store', dest='OUT_TEMPLATE', default='', type=str, help=argparse.SUPPRESS)
    run_options.add_argument('-l', '--logging', action='store', dest='LOG_LEVEL', default='WARNING', type=str, help=argparse.SUPPRESS)
    run_options.add_argument('-lf', '--log-file', action='store', dest='LOG_FILE', default=None, type=str, help=argparse.SUPPRESS)
    run_options.add_argument('-s', '--structure', action='store', dest='STRUCTURE', default='list', type=str, help=argparse.SUPPRESS)
    run_options.add_argument('-v', '--vars', action='store', dest='VARS', default='', type=str, help=argparse.SUPPRESS)
    args = argparser.parse_args()
    TEMPLATE_FILE = args.TEMPLATE_FILE
    TEMPLATE_NAME = args.TEMPLATE_NAME
    DATA = args.DATA
    OUTPUTTER = args.OUTPUTTER
    TIMING = args.TIMING
    BASE_PATH = args.data_prefix
    ONE = args.ONE
    MULTI = args.MULTI
    LOG_LEVEL = args.LOG_LEVEL
    LOG_FILE = args.LOG_FILE
    STRUCTURE = args.STRUCTURE
    OUT_TEMPLATE = args.OUT_TEMPLATE
    VARS = args.VARS
    supporrted_cli_tool_outputters = ['json', 'yaml', 'raw', 'pprint', '']

    def timing(message):
        if TIMING:
            print('{:<9} {:<25}; {} MByte of RAM in use'.format(round(time.time() - t0, 5), message, process.memory_info().rss / 1000000))
    logging_config(LOG_LEVEL, LOG_FILE, _ttp_)
    if TIMING:
        t0 = time.time()
        import psutil
        process = psutil.Process(os.getpid())
    else:
        t0 = 0
    ttp_vars = {}
    if VARS:
        from json import loads
        VARS = VARS.replace("'", '"')
        ttp_vars = loads(VARS)
        if not isinstance(ttp_vars, dict):
            log.error("cli_tool: Error with -v/--vars argument, value type is '{}', value is '{}', expecting dictionary, exiting...".format(type(ttp_vars), ttp_vars))
            raise SystemExit()
    parser_Obj = ttp(base_path=BASE_PATH, vars=ttp_vars)
    ttp_template = ''
    if TEMPLATE_FILE:
        ttp_template = _ttp_['utils']['load_files'](TEMPLATE_FILE, read=True)[0][1]
        if TEMPLATE_NAME:
            ttp_template = _ttp_['utils']['load_struct'](text_data=ttp_template, load='python')
            ttp_template = ttp_template[TEMPLATE_NAME]
    if ttp_template:
        parser_Obj.add_template(template=ttp_template)
    if DATA:
        parser_Obj.set_input(data=DATA)
        timing('Data descriptors loaded')
    timing('Template(s) loaded')
    parser_Obj.parse(one=ONE, multi=MULTI)
    timing('Data parsing finished')
    if OUTPUTTER:
        if not OUT_TEMPLATE:
            OUT_TEMPLATE = []
        else:
            OUT_TEMPLATE = [i.strip() for i in OUT_TEMPLATE.split(',')]
        if not OUTPUTTER.lower() in supporrted_cli_tool_outputters:
            log.error("ttp.cli: unsupported outputter '{}', supported: {}, will use 'json' outputter".format(OUTPUTTER, ', '.join(supporrted_cli_tool_outputters)))
            OUTPUTTER = 'json'
        results = parser_Obj.result(structure=STRUCTURE, templates=OUT_TEMPLATE)
        print(_ttp_['formatters'][OUTPUTTER.lower()](results))
        timing('{} dumped'.format(OUTPUTTER))
    timing('Done')
if __name__ == '__main__':
    cli_tool()
