from re import finditer
import logging
log = logging.getLogger(__name__)

def gethostname(data, *args, **kwargs):
    REs = [{'alu_sros': '\\n\\S{1,2}:(\\S+?)[>#].*(?=\\n)'}, {'ios_xr': '\\n\\S+:(\\S+)#.*(?=\\n)'}, {'ios_priv': '\\n(\\S+)#.*(?=\\n)'}, {'juniper': '\\n\\S*@(\\S+)>.*(?=\\n)'}, {'huawei': '\\n<(\\S+)>.*(?=\\n)'}, {'ios_exec': '\\n(\\S+)>.*(?=\\n)'}, {'fortigate': '\\n(\\S+ \\(\\S+\\)) #.*(?=\\n)'}]
    UTF_BOM = ['ï»¿', 'þÿ', 'ÿþ', '\ufeff']
    for item in REs:
        name, regex = list(item.items())[0]
        match_iter = finditer(regex, data)
        try:
            match = next(match_iter)
            hostname_match = match.group(1)
            for i in UTF_BOM:
                hostname_match = hostname_match.lstrip(i)
            return hostname_match
        except StopIteration:
            continue
    log.error('ttp.functions.variable_gethostname: "{}" file, Hostname not found'.format(args[0]))
    return False
