from ttp import ttp

def quick_parse(data=None, template=None, ttp_kwargs=None, parse_kwargs=None, result_kwargs=None):
    ttp_kwargs = ttp_kwargs or {}
    parse_kwargs = parse_kwargs or {}
    result_kwargs = result_kwargs or {}
    if data:
        parser = ttp(data=data, template=template, **ttp_kwargs)
    else:
        parser = ttp(template=template, **ttp_kwargs)
    parser.parse(**parse_kwargs)
    return parser.result(**result_kwargs)
