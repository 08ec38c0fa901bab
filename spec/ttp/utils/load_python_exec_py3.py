def load_python_exec(text_data, builtins=None):
    data = {}
    globals_dict = {'__builtins__': builtins, '_ttp_': _ttp_, 'False': False, 'True': True, 'None': None}
    exec(compile(text_data, '<string>', 'exec'), globals_dict, data)
    globals_dict.update(data)
    if not data:
        data = eval(text_data, None, None)
    return data
