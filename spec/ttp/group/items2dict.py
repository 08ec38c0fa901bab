def items2dict(data, key_name, value_name):
    if key_name not in data or value_name not in data:
        return (data, False)
    data[data.pop(key_name)] = data.pop(value_name)
    return (data, None)
