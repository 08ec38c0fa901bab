def record(data, source, target='_use_source_'):
    if source in data:
        source_var_value = data[source]
        if target == '_use_source_':
            target = source
        _ttp_['vars'].update({target: source_var_value})
        _ttp_['global_vars'].update({target: source_var_value})
    return (data, None)
