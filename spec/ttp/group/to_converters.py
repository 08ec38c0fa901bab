import logging
log = logging.getLogger(__name__)

def str_to_unicode(data):
    if _ttp_['python_major_version'] == 3:
        return (data, None)
    for key, value in data.items():
        if isinstance(value, str):
            data[key] = unicode(value)
    return (data, None)

def to_int(data, *keys, intlist=False):
    if not keys:
        keys = list(data.keys())
    for k in keys:
        try:
            v = data[k]
        except KeyError:
            continue
        try:
            data[k] = int(v)
        except:
            try:
                data[k] = float(v)
            except:
                pass
        if intlist is True and isinstance(data[k], list):
            converted_list = []
            for i in data[k]:
                try:
                    converted_list.append(int(i))
                except:
                    try:
                        converted_list.append(float(i))
                    except:
                        converted_list.append(i)
            data[k] = converted_list
    return (data, None)
