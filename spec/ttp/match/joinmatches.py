def joinmatches(data, *args, **kwargs):
    return (data, None)
