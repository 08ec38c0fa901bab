"""Decision tables of the plugin functions of the analysed tree, computed once."""
from .absint import TooComplex, show
from .contract import CallInfo, Side

_CACHE = {}


def rows_of(program, fi, opaque=()):
    """(rows of the function, rows of its loop bodies) or None when beyond budget"""
    key = (id(program), fi.key)
    if key not in _CACHE:
        ci = _CACHE.setdefault((id(program), "ci"), None) or CallInfo(program)
        _CACHE[(id(program), "ci")] = ci
        try:
            sd = Side(program, fi, set(opaque), ci)
            loops = [(name, f, c, n) for name, g in sd.loop_tables().items() for rows in g.values() for f, c, n in rows]
            _CACHE[key] = (sd.rows(), loops)
        except (TooComplex, RecursionError):
            _CACHE[key] = None
        except Exception as e:      # a construct the interpreter cannot model
            _CACHE[key] = None
    return _CACHE[key]


def root(t):
    """initial object an attribute/item path starts from, with the path"""
    path = []
    while isinstance(t, tuple) and t[:1] == ("a",) and t[1] in ("attr", "getitem", "ver", "each"):
        path.append((t[1], t[3] if len(t) > 3 else None))
        t = t[2]
    return t, list(reversed(path))
