def exclude_val(data, key, value):
    value = _ttp_['vars'].get(value, value)
    try:
        if data[key] == value:
            return (data, False)
        else:
            return (data, True)
    except KeyError:
        return (data, True)
