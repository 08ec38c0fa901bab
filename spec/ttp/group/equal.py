def equal(data, key, value):
    value = _ttp_['vars'].get(value, value)
    if data.get(key) != value:
        return (data, False)
    return (data, None)
