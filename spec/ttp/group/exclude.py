def exclude(data, *args):
    for var in args:
        if var in data:
            if var in _ttp_['results_object'].record['DEFAULTS']:
                if _ttp_['results_object'].record['DEFAULTS'][var] == data[var]:
                    continue
            return (data, False)
    return (data, True)
