import logging
log = logging.getLogger(__name__)
_name_map_ = {'tabulate_formatter': 'tabulate'}

def tabulate_formatter(data, **kwargs):
    try:
        from tabulate import tabulate
    except ImportError:
        log.critical("output.formatter_tabulate: tabulate not installed, install: 'python -m pip install tabulate'. Exiting")
        raise SystemExit()
    table = _ttp_['formatters']['table'](data, **kwargs)
    headers = table.pop(0)
    attribs = _ttp_['output_object'].attributes.get('format_attributes', {'args': [], 'kwargs': {}})
    return tabulate(table, *attribs['args'], headers=headers, **attribs['kwargs'])
