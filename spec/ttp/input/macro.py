def macro(data, macro_name):
    result = None
    if macro_name in _ttp_['macro']:
        result = _ttp_['macro'][macro_name](data)
    if result is True:
        return (data, True)
    elif result is False:
        return (data, False)
    elif result is None:
        return (data, None)
    return (result, None)
