import re
import sys, traceback
import logging
log = logging.getLogger(__name__)

class _UndefSubst(dict):

    def __missing__(self, key):
        if key.lower() == 'false':
            return False
        elif key.lower() == 'true':
            return True
        elif key.lower() == 'none':
            return None
        else:
            return key

def _get_args_kwargs(*args, **kwargs):
    return {'args': args, 'kwargs': kwargs}

def get_attributes(line):
    result = []
    ATTRIBUTES = [i.strip() for i in line.split('|') if i.strip()]
    for item in ATTRIBUTES:
        opts = {'args': [], 'kwargs': {}, 'name': ''}
        try:
            itemDict = re.search('^(?P<name>\\S+?)\\s?(\\((?P<options>.*)\\))?$', item).groupdict()
        except AttributeError as e:
            log.critical("ttp.get_attributes failed to parse attributes for: '{}' with error: {};\nExiting...".format(item, e))
            raise SystemExit()
        opts['name'] = itemDict['name']
        options = itemDict['options']
        if options:
            try:
                args_kwargs = eval('_get_args_kwargs({})'.format(options), _UndefSubst(globals()))
            except:
                exc_type, exc_value, exc_traceback = sys.exc_info()
                traceback_error = ''.join(traceback.format_exception(exc_type, exc_value, exc_traceback))
                log.critical("Failed to load arg/kwargs from line '{}' for options '{}', traceback:\n{}".format(line, options, traceback_error))
                raise SystemExit()
            opts.update(args_kwargs)
        result.append(opts)
    return result
