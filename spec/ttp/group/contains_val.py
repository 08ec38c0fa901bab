def contains_val(data, key, value):
    value = _ttp_['vars'].get(value, value)
    if not value in data.get(key, ''):
        return (data, False)
    return (data, None)
