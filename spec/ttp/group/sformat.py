def sformat(data, string, add_field):
    try:
        data[add_field] = string.format(**data)
    except KeyError:
        kwargs = _ttp_['global_vars'].copy()
        kwargs.update(_ttp_['vars'])
        kwargs.update(data)
        try:
            data[add_field] = string.format(**kwargs)
        except KeyError:
            pass
    return (data, True)
