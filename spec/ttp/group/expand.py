def expand(data):
    if not isinstance(data, dict):
        return (data, True)
    ret = {}
    for key, value in data.items():
        ref = ret
        keys = key.split('.')
        while True:
            new_key = keys.pop(0)
            if not keys:
                if isinstance(ref, dict):
                    ref[new_key] = value
                break
            ref = ref.setdefault(new_key, {})
    del data
    return (ret, True)
