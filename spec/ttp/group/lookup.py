import logging
log = logging.getLogger(__name__)

def lookup(data, key, name=None, template=None, group=None, add_field=False, replace=True, update=False):
    found_value = None
    lookup_data = {}
    if name:
        path = [i.strip() for i in name.split('.')]
        lookup_data = _ttp_['parser_object'].lookups
    elif template:
        path = [i.strip() for i in template.split('.')]
        for template in _ttp_['ttp_object']._templates:
            if template.name == path[0]:
                if isinstance(template.results, list):
                    lookup_data = template.results[0]
                else:
                    lookup_data = template.results
                path = path[1:]
                break
    elif group:
        path = [i.strip() for i in group.split('.')]
        if path[0] in _ttp_['parser_object'].main_results:
            lookup_data = _ttp_['parser_object'].main_results[path[0]]
        else:
            for result in _ttp_['template_obj'].results:
                if path[0] in result:
                    lookup_data = result[path[0]]
                    break
        path = path[1:]
    else:
        log.info('ttp.group.lookup no lookup data found, doing nothing.')
        return (data, None)
    for i in path:
        lookup_data = lookup_data.get(i, {})
    try:
        if isinstance(lookup_data, dict):
            found_value = lookup_data[data[key]]
    except KeyError:
        return (data, None)
    if add_field:
        try:
            data[add_field] = found_value
        except:
            log.error("ttp.group.lookup failed to add new field '{}'".format(add_field))
    elif update is True and isinstance(found_value, dict):
        data.update(found_value)
    elif replace:
        data[key] = found_value
    else:
        log.warning('ttp.group.lookup nothing done, make sure action directives are correct')
    return (data, None)
