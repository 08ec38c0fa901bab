import re
YEARS = '(?P<years>\\d+)\\s*(?:ys?|yrs?.?|years?)'
MONTHS = '(?P<months>\\d+)\\s*(?:mos?.?|mths?.?|months?)'
WEEKS = '(?P<weeks>[\\d.]+)\\s*(?:w|wks?|weeks?)'
DAYS = '(?P<days>[\\d.]+)\\s*(?:d|dys?|days?)'
HOURS = '(?P<hours>[\\d.]+)\\s*(?:h|hrs?|hours?)'
MINS = '(?P<mins>[\\d.]+)\\s*(?:m|(mins?)|(minutes?))'
SECS = '(?P<secs>[\\d.]+)\\s*(?:s|secs?|seconds?)'
SEPARATORS = '[,/]'
OPT = lambda x: '(?:{x})?'.format(x=x)
OPTSEP = lambda x: '(?:{x}\\s*(?:{SEPARATORS}\\s*)?)?'.format(x=x, SEPARATORS=SEPARATORS)
TIMEFORMATS = ['{YEARS}\\s*{MONTHS}\\s*{WEEKS}\\s*{DAYS}\\s*{HOURS}\\s*{MINS}\\s*{SECS}'.format(YEARS=OPTSEP(YEARS), MONTHS=OPTSEP(MONTHS), WEEKS=OPTSEP(WEEKS), DAYS=OPTSEP(DAYS), HOURS=OPTSEP(HOURS), MINS=OPTSEP(MINS), SECS=OPT(SECS))]
COMPILED_TIMEFORMATS = [re.compile('\\s*' + timefmt + '\\s*$', re.I) for timefmt in TIMEFORMATS]
MULTIPLIERS = dict([('years', 60 * 60 * 24 * 365), ('months', 60 * 60 * 24 * 30), ('weeks', 60 * 60 * 24 * 7), ('days', 60 * 60 * 24), ('hours', 60 * 60), ('mins', 60), ('secs', 1)])

def uptimeparse(data, format='seconds'):
    for timefmt in COMPILED_TIMEFORMATS:
        match = timefmt.match(data)
        if match and match.group(0).strip():
            mdict = match.groupdict()
            if all((v.isdigit() for v in list(mdict.values()) if v)):
                if format == 'seconds':
                    return (sum([MULTIPLIERS[k] * int(v, 10) for k, v in list(mdict.items()) if v is not None]), None)
                elif format == 'dict':
                    return ({k: v for k, v in mdict.items() if v is not None}, None)
                break
    return (data, None)
