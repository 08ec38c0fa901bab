import time

def get_time(*args, **kwargs):
    strformat = '%H:%M:%S'
    return time.strftime(strformat)

def get_date(*args, **kwargs):
    strformat = '%Y-%m-%d'
    return time.strftime(strformat)

def get_timestamp_ms(*args, **kwargs):
    strformat = '%Y-%m-%d %H:%M:%S.{ms}'
    return time.strftime(strformat).format(ms=str(time.time()).split('.')[-1][:3])

def get_timestamp(*args, **kwargs):
    strformat = '%Y-%m-%d %H:%M:%S'
    return time.strftime(strformat)

def get_time_ns(*args, **kwargs):
    return time.time_ns()

def get_timestamp_iso(*args, **kwargs):
    import datetime

    class UTC(datetime.tzinfo):

        def utcoffset(self, dt):
            return datetime.timedelta(0)

        def tzname(self, dt):
            return 'UTC'

        def dst(self, dt):
            return datetime.timedelta(0)
    utc = UTC()
    return datetime.datetime.now(utc).isoformat()
