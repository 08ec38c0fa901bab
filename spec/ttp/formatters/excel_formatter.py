import logging
import os
log = logging.getLogger(__name__)
try:
    from openpyxl import Workbook, load_workbook
except ImportError:
    log.critical("output.formatter_excel: openpyxl not installed, install: 'python -m pip install openpyxl'. Exiting")
    raise SystemExit()
_name_map_ = {'excel_formatter': 'excel'}

def excel_formatter(data, **kwargs):
    try:
        table = kwargs['table']
    except KeyError:
        log.critical('output.formatter_excel: output tag missing table definition. Exiting')
        raise SystemExit()
    update = kwargs.get('update')
    url = kwargs.get('url', './Output/')
    filename = kwargs.get('filename')
    if not filename.endswith('.xlsx'):
        filename = '{}.xlsx'.format(filename)
    table_tabs = []
    for index, tab_det in enumerate(table):
        tab_name = tab_det['tab_name'] if 'tab_name' in tab_det else 'Sheet{}'.format(index)
        headers = tab_det.get('headers', None)
        if isinstance(headers, str):
            headers = [i.strip() for i in headers.split(',')]
        tab_kwargs = {'path': [i.strip() for i in tab_det.get('path', '').split('.')], 'headers': headers, 'missing': tab_det.get('missing', ''), 'key': tab_det.get('key', ''), 'strict': tab_det.get('strict', True)}
        tab_table_data = _ttp_['formatters']['table'](data, **tab_kwargs)
        table_tabs.append({'name': tab_name, 'data': tab_table_data})
    if update and os.path.exists(os.path.join(url, filename)):
        wb = load_workbook(os.path.join(url, filename))
    else:
        wb = Workbook(write_only=True)
    for tab in table_tabs:
        if tab['name'] in wb and update:
            ws = wb[tab['name']]
            for row in tab['data'][1:]:
                ws.append(row)
        else:
            ws = wb.create_sheet(title=tab['name'])
            for row in tab['data']:
                ws.append(row)
    return wb
