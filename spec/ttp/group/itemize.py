def itemize(data, key, path=''):
    if key in data and (not path):
        res_path = _ttp_['results_object'].record['PATH']
        if res_path[-1].endswith('**') or not res_path[-1].endswith('*'):
            res_path[-1] = '{}*'.format(res_path[-1].rstrip('*'))
        _ttp_['results_object'].record['PATH'] = res_path
        _ttp_['results_object'].dyn_path_cache.update(data)
        return (data.pop(key), None)
    elif key in data and path:
        _ttp_['results_object'].dyn_path_cache.update(data)
        path = [i.strip() for i in path.split('.')]
        if path[-1].endswith('**') or not path[-1].endswith('*'):
            path[-1] = '{}*'.format(path[-1].rstrip('*'))
        processed_path = _ttp_['results_object'].form_path(path)
        _ttp_['results_object'].save_curelements(result_data=data[key], result_path=processed_path)
    else:
        return (data, False)
    return (data, None)
