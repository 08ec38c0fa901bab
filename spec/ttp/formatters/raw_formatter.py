def raw(data, **kwargs):
    return data
