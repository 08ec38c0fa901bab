import logging
log = logging.getLogger(__name__)

def traverse(data, path, strict=True):
    result = data
    if isinstance(path, str):
        path = [i.strip() for i in path.split('.')]
    if isinstance(data, dict):
        for i in path:
            result = result[i] if strict else result.get(i, {})
    elif isinstance(data, list):
        result = [traverse(i, path, strict) for i in data]
    return result

def _set_data(data, path, new_data):
    if isinstance(path, str):
        path = [i.strip() for i in path.split('.')]
    last_index = len(path) - 1
    datum = data
    for path_index, path_item in enumerate(path):
        if not isinstance(datum, dict):
            break
        if last_index == path_index:
            datum[path_item] = new_data
            break
        if path_item in datum:
            datum = datum[path_item]
        else:
            datum[path_item] = {}

def dict_to_list(data, key_name='key', path=None, strict=False):
    result = []
    traversed_data = data
    if path:
        traversed_data = traverse(data, path, strict)
    if isinstance(traversed_data, dict):
        for k, v in traversed_data.items():
            if not isinstance(v, dict):
                return traversed_data
            result.append(dict(v, **{key_name: k}))
    elif isinstance(traversed_data, list):
        result = [dict_to_list(data=item, key_name=key_name) for item in traversed_data]
    return result
