def table(data, path=None, missing='', key='', strict=True, headers=None, **kwargs):
    headers = headers or []
    path = path or []
    table = []
    data_to_table = []
    source_data = []
    if isinstance(data, list):
        source_data += data
    elif isinstance(data, dict):
        source_data.append(data)
    for datum in source_data:
        item = _ttp_['output']['traverse'](datum, path, strict)
        if not item:
            continue
        elif isinstance(item, list):
            data_to_table += item
        elif isinstance(item, dict):
            if key:
                data_to_table += _ttp_['output']['dict_to_list'](data=item, key_name=key)
            else:
                data_to_table.append(item)
    if not headers:
        headers = set()
        for item in data_to_table:
            headers.update(list(item.keys()))
        headers = sorted(list(headers))
    table.insert(0, headers)
    for item in data_to_table:
        row = [missing for _ in headers]
        for k, v in item.items():
            if k in headers:
                row[headers.index(k)] = v
        table.append(row)
    return table
