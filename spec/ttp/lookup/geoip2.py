import logging
log = logging.getLogger(__name__)
try:
    import geoip2.database
    HAS_LIBS = True
except ImportError:
    log.error('ttp.lookup.geoip2: failed to import geoip2 library, install: pip install geoip2')
    HAS_LIBS = False

def geoip2_db_loader(lookup_tag_data):
    ret = {'city': None, 'asn': None, 'country': None}
    if HAS_LIBS:
        for dbname, path_to_db in lookup_tag_data.items():
            if dbname.lower() in ret:
                _ = ret.pop(dbname.lower())
                try:
                    ret[dbname] = geoip2.database.Reader(path_to_db)
                except:
                    log.error("ttp.lookup.geoip2: something went wrong, failed to load '{}' mmdb from '{}' path".format(dbname, path_to_db))
    return ret
