"""Abstract interpretation of one entry function (callees of the package are
analysed in place) over a value-numbering domain: values are terms naming where
they come from, objects carry a log of the writes made to them, and the branch
conditions passed are kept as a set of facts.  States that agree on everything
but one branch condition are merged again, loops are closed by widening what
their body changes (with closed forms for the any/all/collect/flag/count
idioms), and beyond a bound on the number of states those are joined.  Nothing
is executed and no constraint is solved."""
import ast
import copy
import re
import builtins
import string
import time

from . import boolfn
from .program import FunctionInfo, ClassInfo, Module, AnalysisBroken, own_nodes

NONE = ("k", "NoneType", None)
TRUE = ("k", "bool", True)
FALSE = ("k", "bool", False)

BOOL_METHODS = {
    "startswith", "endswith", "isdigit", "isnumeric", "isdecimal", "isalpha",
    "isalnum", "isspace", "islower", "isupper", "istitle", "issubset",
    "issuperset", "isdisjoint", "is_integer", "__contains__", "overlaps",
}
BOOL_CALLS = {"isinstance", "hasattr", "callable", "issubclass", "os.path.isfile",
              "os.path.isdir", "os.path.exists", "fnmatch.fnmatch"}
MUTATORS = {
    "append", "extend", "insert", "remove", "pop", "popitem", "clear", "sort",
    "reverse", "update", "setdefault", "add", "discard", "intersection_update",
    "difference_update", "symmetric_difference_update", "__setitem__",
    "__delitem__", "move_to_end", "appendleft", "popleft", "put", "write",
}
STR_METHODS = {
    "strip", "lstrip", "rstrip", "lower", "upper", "title", "capitalize", "format",
    "split", "rsplit", "splitlines", "replace", "join", "startswith", "endswith",
    "find", "rfind", "count", "isdigit", "zfill", "ljust", "rjust", "center",
    "encode", "partition", "rpartition", "swapcase", "casefold", "isnumeric",
    "isdecimal", "isalpha", "isalnum", "isspace", "translate", "expandtabs",
}
BUILTIN_NAMES = set(dir(builtins))
RE_FUNCS = {"re.search", "re.match", "re.fullmatch"}
LOGGER_METHODS = {"debug", "info", "warning", "warn", "error", "critical", "exception", "log"}

MUTABLE_TYPES = {"list", "dict", "set", "OrderedDict", "defaultdict"}


def K(v):
    return ("k", type(v).__name__, v)


def is_k(t):
    return isinstance(t, tuple) and len(t) == 3 and t[0] == "k"


def S(name):
    return ("s", name)


def subterms(t):
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            yield x
            stack.extend(x)


def mentions(t, pred):
    return any(pred(x) for x in subterms(t))


def replace_term(t, mapping):
    if t in mapping:
        return mapping[t]
    if isinstance(t, tuple):
        return tuple(replace_term(x, mapping) for x in t)
    return t


def exc_class(name):
    c = getattr(builtins, name, None)
    return c if isinstance(c, type) and issubclass(c, BaseException) else None


EXTRA_EXC = {"ModuleNotFoundError": "ImportError", "error": "Exception",
             "AddressValueError": "ValueError"}


def handler_catches(hname, ename):
    """'yes' | 'no' | 'maybe'"""
    if hname is None:
        return "yes"
    h, e = exc_class(hname), exc_class(ename)
    if e is None and ename in EXTRA_EXC:
        e = exc_class(EXTRA_EXC[ename])
        if h is not None and issubclass(e, h):
            return "yes"
        return "maybe" if hname not in EXTRA_EXC else ("yes" if hname == ename else "maybe")
    if h is None or e is None:
        return "yes" if hname == ename else "no"
    if issubclass(e, h):
        return "yes"
    if issubclass(h, e):
        return "maybe"
    return "no"


class State:
    __slots__ = ("env", "heap", "facts", "events", "_key")

    def __init__(self, env=None, heap=None, facts=None, events=()):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.facts = facts if facts is not None else {}
        self.events = events
        self._key = None

    def setvar(self, k, v):
        if self.env.get(k) == v:
            return self
        e = dict(self.env)
        e[k] = v
        return State(e, self.heap, self.facts, self.events)

    def delvar(self, k):
        if k not in self.env:
            return self
        e = dict(self.env)
        e.pop(k)
        return State(e, self.heap, self.facts, self.events)

    def fact(self, atom, val):
        if self.facts.get(atom) == val:
            return self
        f = dict(self.facts)
        f[atom] = val
        return State(self.env, self.heap, f, self.events)

    def with_facts(self, facts):
        return State(self.env, self.heap, facts, self.events)

    def log(self, obj):
        return self.heap.get(obj, ())

    def write(self, obj, entry):
        h = dict(self.heap)
        h[obj] = h.get(obj, ()) + (entry,)
        return State(self.env, h, self.facts, self.events)

    def setlog(self, obj, log):
        h = dict(self.heap)
        if log:
            h[obj] = tuple(log)
        else:
            h.pop(obj, None)
        return State(self.env, h, self.facts, self.events)

    def event(self, ev):
        return State(self.env, self.heap, self.facts, self.events + (ev,))

    def base_key(self):
        return (frozenset(self.env.items()), frozenset(self.heap.items()), self.events)

    def key(self):
        if self._key is None:
            self._key = (self.base_key(), frozenset(self.facts.items()))
        return self._key


class Flow:
    __slots__ = ("normal", "ret", "brk", "cont")

    def __init__(self, normal=None):
        self.normal = normal if normal is not None else []
        self.ret = []
        self.brk = []
        self.cont = []

    def absorb(self, other):
        self.ret.extend(other.ret)
        self.brk.extend(other.brk)
        self.cont.extend(other.cont)


class Outcome:
    __slots__ = ("kind", "state", "value", "node", "types")

    def __init__(self, kind, state, value=None, node=None, types=None):
        self.kind = kind
        self.state = state
        self.value = value
        self.node = node
        self.types = types

    def __repr__(self):
        return "<{} {} facts={} {}>".format(
            self.kind, show(self.value) if self.value is not None else self.types,
            [("" if v else "not ") + show(a) for a, v in self.state.facts.items()],
            {show(k): v for k, v in self.state.heap.items() if k[0] != "new"},
        )


class TooComplex(Exception):
    pass


def show(t):
    if not isinstance(t, tuple):
        return repr(t)
    if is_k(t):
        return repr(t[2])
    if not t:
        return "()"
    if t[0] == "s":
        return t[1]
    if t[0] == "a":
        op = t[1]
        if isinstance(op, str):
            if op == "getitem":
                return "{}[{}]".format(show(t[2]), show(t[3]))
            if op == "attr":
                return "{}.{}".format(show(t[2]), t[3])
            if op in ("in", "==", "<", "is", "+"):
                return "({} {} {})".format(show(t[2]), op, show(t[3]))
            if op in ("exists",):
                return "exists[{}]({})".format(show(t[2]), show_fn(t[3]))
            return "{}({})".format(op, ", ".join(show(x) for x in t[2:]))
    if t[0] == "new":
        return "new{}".format(t[2])
    if t[0] == "tup":
        return "(" + ", ".join(show(x) for x in t[1:]) + ")"
    if t[0] == "el":
        return "each({})".format(show(t[1]))
    if t[0] == "bv":
        return "e"
    return "<" + " ".join(show(x) if isinstance(x, tuple) else str(x) for x in t) + ">"


def show_fn(fn):
    if fn[0] == "tt":
        return "{}:{}".format(",".join(show(a) for a in fn[1]), "".join("01"[b] for b in fn[2]))
    return str(fn[0])


def _disjoint_nodes(a, b):
    """two classes of syntax tree nodes none of which is the other"""
    if a == b or not (a.startswith("ast.") and b.startswith("ast.")):
        return False
    x, y = getattr(ast, a[4:], None), getattr(ast, b[4:], None)
    return isinstance(x, type) and isinstance(y, type) and not issubclass(x, y) and not issubclass(y, x)


class Interp:
    scale = 1       # the thorough tier takes longer

    def __init__(self, program, intercepts=None, cap=400, max_depth=7, inline=True,
                 opaque_fns=(), consts=None, loop_passes=4, self_types=None,
                 track_raises=True, watch=(), callinfo=None, budget=60):
        self.p = program
        self.intercepts = intercepts or {}
        self.cap = cap
        self.max_depth = max_depth
        self.inline = inline
        self.opaque_fns = set(opaque_fns)
        self.types = dict(self_types or {})   # term -> ClassInfo
        self.consts = consts or {}
        self.stack = []            # (FunctionInfo, fid)
        self.raises = [[]]
        self.try_depth = 0
        self.lam_depth = 0
        self.closures = {}
        self.init = {}             # new-object id -> initial content
        self.alloc_count = {}
        self.imprecise = []
        self.loop_passes = loop_passes
        self._plain = {}
        self.shrinks = set()       # loops that only take things out of what they change
        self.nested_src = {}       # list made by a nested comprehension -> (comprehension, state before)
        self.watch = set(watch)    # terms (without the places of loops)/atoms whose exceptions are told apart everywhere
        self.callinfo = callinfo   # function key -> names it may read/write
        self.loops = []            # what every loop body does in one iteration
        self.loopnames = {}
        self.inits = {}            # loop -> variable -> values it may have when the loop starts
        self.track_raises = track_raises
        self.steps = 0
        self.max_term = 3000
        self._sizes = {}
        self.deadline = time.process_time() + budget * self.scale
        self.fid_counter = 0
        self.inlined = set()
        self.unresolved = set()
        self.havoc_attrs = {}      # (loop, object) -> attributes the loop assigns, None: anything
        self.bool_params = set()   # parameters that are flags: their default is True or False
        self.answer_cache = {}     # function key -> constants it can answer

    # ------------------------------------------------------------------ util
    @property
    def fn(self):
        return self.stack[-1][0]

    @property
    def fid(self):
        return self.stack[-1][1]

    def imp(self, why, node=None):
        self.imprecise.append((why, getattr(node, "lineno", None)))

    def fresh(self, why, node, *extra):
        return ("u", why, self.site(node)) + tuple(extra)

    def site(self, node):
        return (self.stack[-1][0].key if self.stack else "",
                getattr(node, "lineno", 0), getattr(node, "col_offset", 0))

    def new(self, kind, content, node, state):
        # allocation identity: site + number of live objects of this site
        site = self.site(node) + (self.fid,)
        n = 0
        while ("new", site + (n,), kind) in self.init and self._live(
            ("new", site + (n,), kind), state, content
        ):
            n += 1
            if n > 40:
                break
        t = ("new", site + (n,), kind)
        self.init[t] = content
        return t

    def _live(self, t, state, content):
        # the same initial content and no write in this state: same object value
        if self.init[t] == content and t not in state.heap and not self._reachable(t, state):
            return False
        return True

    def _reachable(self, t, state):
        for v in state.env.values():
            if v == t or (isinstance(v, tuple) and self._mentions(v, t)):
                return True
        for o, log in state.heap.items():
            if self._mentions(log, t):
                return True
        return False

    @staticmethod
    def _mentions(v, t):
        for x in subterms(v):
            if x == t:
                return True
        return False

    def dedupe(self, states):
        groups = {}
        for s in states:
            groups.setdefault(s.base_key(), []).append(s)
        out = []
        for g in groups.values():
            if len(g) == 1:
                out.append(g[0])
                continue
            uniq = {frozenset(s.facts.items()): s for s in g}
            if len(uniq) == 1:
                out.append(g[0])
            elif len(uniq) <= 48:
                for f in boolfn.merge_facts([s.facts for s in uniq.values()]):
                    out.append(g[0].with_facts(f))
            else:
                common = dict(set.intersection(*[set(s.facts.items()) for s in uniq.values()]))
                self.imp("facts joined")
                out.append(g[0].with_facts(common))
        if len(out) > self.cap:
            self.imp("states joined ({})".format(len(out)))
            # join facts per (env,heap,events)
            groups = {}
            for s in out:
                groups.setdefault(s.base_key(), []).append(s)
            out = []
            for g in groups.values():
                common = dict(set.intersection(*[set(s.facts.items()) for s in g]))
                out.append(g[0].with_facts(common))
            if len(out) > self.cap:
                out = self.join_env(out)
        return out

    def join_env(self, states):
        groups = {}
        for s in states:
            groups.setdefault((frozenset(s.heap.items()), s.events), []).append(s)
        out = []
        for g in groups.values():
            env = {}
            for k in set.intersection(*[set(s.env) for s in g]):
                vals = {s.env[k] for s in g}
                env[k] = vals.pop() if len(vals) == 1 else ("u", "join", k)
            common = dict(set.intersection(*[set(s.facts.items()) for s in g]))
            out.append(State(env, g[0].heap, common, g[0].events))
        if len(out) > self.cap * 3:
            raise TooComplex("{} states".format(len(out)))
        return out

    # ------------------------------------------------------------ reification
    def reify(self, t, state, depth=0):
        r = self.reify_(t, state, depth)
        if r is not t and isinstance(r, tuple) and self.size(r) > self.max_term:
            return ("u", "big")
        return r

    def reify_(self, t, state, depth=0):
        """canonical immutable description of the current value of t"""
        if not isinstance(t, tuple) or not t:
            return t
        if depth > 12:
            return ("deep",)
        if t[0] == "k" or t[0] == "s":
            lg = state.heap.get(t) if t[0] == "s" else None
            if lg:
                return ("ver", t, tuple(self.reify_entry(e, state, depth + 1) for e in lg))
            return t
        if t[0] == "new":
            content = self.reify_content(self.init.get(t, ("?",)), state, depth + 1)
            lg = tuple(self.reify_entry(e, state, depth + 1) for e in state.heap.get(t, ()))
            lit = self.lit(t[2], content, lg)
            return lit
        lg = state.heap.get(t)
        if lg:
            return ("ver", t, tuple(self.reify_entry(e, state, depth + 1) for e in lg))
        if t[0] == "a" and len(t) > 2:
            if t[1] in ("attr", "getitem"):
                # names what was there at the start: later writes are not part of it
                return (t[0], t[1], self.reify_base(t[2], state, depth + 1)) + tuple(
                    self.reify(x, state, depth + 1) if isinstance(x, tuple) else x for x in t[3:]
                )
            return (t[0], t[1]) + tuple(
                self.reify(x, state, depth + 1) if isinstance(x, tuple) else x for x in t[2:]
            )
        if t[0] == "tup":
            return ("tup",) + tuple(self.reify(x, state, depth + 1) for x in t[1:])
        if t[0] == "el":
            return t
        return t

    def reify_base(self, b, state, depth):
        if not isinstance(b, tuple) or not b:
            return b
        if b[0] in ("s", "el", "ver"):
            return b
        if b[0] == "a" and len(b) > 3 and b[1] in ("attr", "getitem"):
            return (b[0], b[1], self.reify_base(b[2], state, depth + 1)) + tuple(
                self.reify(x, state, depth + 1) if isinstance(x, tuple) else x for x in b[3:])
        if b[0] == "a" and len(b) > 2:
            return (b[0], b[1]) + tuple(
                self.reify(x, state, depth + 1) if isinstance(x, tuple) else x for x in b[2:])
        return self.reify(b, state, depth)

    def reify_content(self, c, state, depth):
        if c and c[0] in ("items", "mixed"):
            return (c[0],) + tuple(self.reify(x, state, depth) if isinstance(x, tuple) else x for x in c[1:])
        if c and c[0] == "pairs":
            return (c[0],) + tuple((self.reify(k, state, depth), self.reify(v, state, depth)) for k, v in c[1:])
        return c if c and c[0] in ("copyof",) else self.reify(c, state, depth)

    def lit(self, kind, content, lg):
        # fold simple writes in literals
        if content and content[0] == "copyof" and isinstance(content[1], tuple) and content[1][:1] == ("lit",) \
                and len(content[1]) == 4:
            # a copy of a literal is that literal
            kind, content, lg = content[1][1], content[1][2], content[1][3] + lg
        if kind == "list" and content and content[0] == "items":
            items = list(content[1:])
            rest = []
            for e in lg:
                if not rest and e[0] == "append":
                    items.append(e[1])
                elif not rest and e[:2] == ("call", "insert") and len(e) == 3 and len(e[2]) == 2 and e[2][0] == K(0):
                    items.insert(0, e[2][1])
                elif not rest and e[0] == "ext" and e[1][:2] == ("lit", "list") and e[1][2][0] == "items" and not e[1][3]:
                    items.extend(e[1][2][1:])
                elif not items and not rest and e[0] in ("acc",):
                    return self.after_acc(e, lg[lg.index(e) + 1:])
                else:
                    rest.append(e)
            return ("lit", kind, ("items",) + tuple(items), tuple(rest))
        if kind == "dict" and content == ("pairs",) and lg and lg[0][0] == "upd" and len(lg[0]) == 2:
            # an empty dictionary updated with another one
            return self.lit(kind, ("copyof", lg[0][1]), lg[1:])
        if kind in ("dict", "OrderedDict") and content and content[0] == "pairs":
            pairs = list(content[1:])
            rest = []
            for e in lg:
                if not rest and e[0] == "set":
                    pairs = [(k, v) for k, v in pairs if k != e[1]] + [(e[1], e[2])]
                else:
                    rest.append(e)
            try:
                pairs = sorted(pairs, key=repr)
            except TypeError:
                pass
            return ("lit", "dict", ("pairs",) + tuple(pairs), tuple(rest))
        if kind == "list" and content and content[0] == "seq" and not lg:
            return ("a", "list", content[1])
        if content and content[0] == "map" and not lg:
            return ("a",) + content
        return ("lit", kind, content, lg)

    def extend(self, s, obj, arg, term):
        """adding the elements of a list whose elements are known is adding each of them"""
        if isinstance(arg, tuple) and (arg[:1] == ("tup",) or arg[:1] == ("new",) and arg[2] == "list") and arg != obj:
            items = self.concrete_items(arg, s)
            if items is not None and not any(isinstance(x, tuple) and x[:1] == ("star",) for x in items):
                for x in items:
                    s = s.write(obj, ("append", x))
                return s
        return s.write(obj, ("ext", term))

    def after_acc(self, e, rest):
        m = ("a", "map", e[1], e[2], e[3])
        if rest:
            return ("lit", "list", m[1:], tuple(rest))
        return m

    def reify_entry(self, e, state, depth):
        if e and e[0] in ("upd", "ext"):
            # the content was copied when the write was made
            return e
        return tuple(self.reify(x, state, depth) if isinstance(x, tuple) else x for x in e)

    # -------------------------------------------------------------- truth etc
    def strip_seq(self, t):
        """list(x)/tuple(x)/x.keys()/sorted... for iteration, len and membership"""
        while isinstance(t, tuple):
            if t[0] == "a" and t[1] in ("list", "tuple", "iter", "keys", "seqof"):
                t = t[2]
            elif t[0] == "lit" and len(t) == 4 and t[2] and t[2][0] == "seq" and not t[3]:
                t = t[2][1]
            else:
                break
        return t

    def is_bool(self, t):
        if is_k(t):
            return t[1] == "bool"
        if isinstance(t, tuple) and t and t[0] == "a":
            op = t[1]
            if op in ("in", "==", "<", "is", "isnone", "truth", "exists", "not", "eqset"):
                return True
            if op in ("boolfn",):
                return True
            if isinstance(op, str):
                if op.startswith("m:") and op[2:] in BOOL_METHODS:
                    return True
                if op.startswith("call:") and op[5:] in BOOL_CALLS:
                    return True
        return False

    def kind(self, t, state=None):
        """coarse type of a term or None"""
        if is_k(t):
            return t[1]
        if not isinstance(t, tuple) or not t:
            return None
        if t[0] == "new":
            return t[2]
        if t[0] == "lit":
            return t[1]
        if t[0] == "tup":
            return "tuple"
        if t[0] in ("fn", "clo", "bound", "lam"):
            return "function"
        if t[0] == "a":
            op = t[1]
            if op == "attr" and len(t) == 4:
                k = self.attr_kinds().get(t[3])
                if k:
                    return k
            if op in ("cat", "repr", "fmt", "call:re.sub", "call:re.escape", "call:os.path.join"):
                return "str"
            if op in ("len", "count") or (op == "call:int") or op == "call:abs" and self.kind(t[2]) == "int":
                return "int"
            if op == "map" or op == "list":
                return "list"
            if isinstance(op, str) and op.startswith("m:"):
                m = op[2:]
                if m in ("strip", "lstrip", "rstrip", "lower", "upper", "replace", "join", "title",
                         "capitalize", "zfill", "format"):
                    return "str"
                if m in ("split", "rsplit", "splitlines"):
                    return "list"
            if op == "call:str":
                return "str"
            if op == "call:float":
                return "float"
            if op == "keys" or op == "items" or op == "values":
                return "view"
            if self.is_bool(t):
                return "bool"
            if op == "+" :
                a, b = self.kind(t[2]), self.kind(t[3])
                return a if a == b else None
        if state is not None:
            for ty in ("str", "dict", "list", "int", "tuple", "bool"):
                if state.facts.get(("a", "call:isinstance", t, ("b", ty))):
                    return ty
        return None

    def attr_kinds(self):
        """attribute -> kind, for attributes that are only ever assigned new lists or dictionaries"""
        if not hasattr(self.p, "_attr_kinds"):
            kinds = {}
            for m in self.p.modules.values():
                for n in ast.walk(m.tree):
                    if not isinstance(n, (ast.Assign, ast.AnnAssign)) or n.value is None:
                        continue
                    for tg in n.targets if isinstance(n, ast.Assign) else [n.target]:
                        if isinstance(tg, ast.Attribute):
                            v = n.value
                            name = v.func.id if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) else None
                            k = "list" if isinstance(v, (ast.List, ast.ListComp)) or name == "list" else (
                                "dict" if isinstance(v, (ast.Dict, ast.DictComp)) or name in ("dict", "OrderedDict") else None)
                            kinds.setdefault(tg.attr, set()).add(k)
            self.p._attr_names = set(kinds)
            self.p._attr_kinds = {a: next(iter(k)) for a, k in kinds.items() if len(k) == 1}
        return self.p._attr_kinds

    def attr_names(self):
        self.attr_kinds()
        return self.p._attr_names

    def linear(self, t):
        """(term, const) with t = term + const for int terms"""
        if is_k(t) and t[1] in ("int", "bool"):
            return None, int(t[2])
        if isinstance(t, tuple) and t[0] == "a" and t[1] in ("+", "-") and len(t) == 4:
            if is_k(t[3]) and t[3][1] == "int":
                b, c = self.linear(t[2])
                return b, c + (t[3][2] if t[1] == "+" else -t[3][2])
            if t[1] == "+" and is_k(t[2]) and t[2][1] == "int":
                b, c = self.linear(t[3])
                return b, c + t[2][2]
        return t, 0

    def lin_term(self, b, c):
        if b is None:
            return K(c)
        if c == 0:
            return b
        return ("a", "+", b, K(c))

    def answers(self, t):
        """the set of None / True / False a call of a repository function can answer, or None"""
        if not (isinstance(t, tuple) and len(t) > 1 and t[0] == "a" and isinstance(t[1], str)
                and t[1].startswith("call:ttp.") and ":" in t[1][5:]):
            return None
        key = t[1][5:]
        if key not in self.answer_cache:
            fi = self.fn_by_key(key)
            vals = None
            if fi is not None and isinstance(fi.node, ast.FunctionDef):
                rets = [n for n in own_nodes(fi.node) if isinstance(n, ast.Return)]
                gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(fi.node))
                last = fi.node.body[-1]
                vals = set() if isinstance(last, (ast.Return, ast.Raise)) else {None}
                for n in rets:
                    v = n.value
                    if v is None:
                        vals.add(None)
                    elif isinstance(v, ast.Constant) and (v.value is None or isinstance(v.value, bool)):
                        vals.add(v.value)
                    else:
                        vals = None
                        break
                if gen:
                    vals = None
            self.answer_cache[key] = frozenset(vals) if vals else None
        return self.answer_cache[key]

    def answer_atom(self, op, args, vals):
        x = args[0]
        if op == "truth":
            want = True
        elif op == "isnone":
            want = None
        else:
            if not is_k(args[1]):
                return None
            want = args[1][2]
            if not (want is None or isinstance(want, bool)):
                return None if op == "==" else False
        if want not in vals or (want is not None and not any(v is want for v in vals)):
            return False
        if len(vals) == 1:
            return True
        base = ("a", "is", x, K(True)) if True in vals else ("a", "is", x, K(False))
        low = base[3][2]
        if want is low:
            return base, True
        if len(vals) == 2:
            return base, False
        if want is None:
            return ("a", "isnone", x), True
        return ("a", "is", x, K(want)), True

    def atom(self, op, *args):
        """normalised (atom, polarity) or bool"""
        if op == "isnone" and self.answers(args[0]) is None:
            x = args[0]
            if is_k(x):
                return x[2] is None
            if isinstance(x, tuple) and x[0] in ("new", "lit", "tup", "fn", "clo", "bound", "ext"):
                return False
            if isinstance(x, tuple) and x[0] == "a" and isinstance(x[1], str):
                if x[1].startswith("call:") and x[1][5:] in RE_FUNCS:
                    return ("a", "truth", x), False
                if x[1] == "getitem" and isinstance(x[2], tuple) and x[2][:2] == ("a", "attr") and x[2][3] == "attrib":
                    # the attributes of an XML element are text
                    return False
                if self.is_bool(x) or x[1] in ("cat", "len", "call:int", "call:str", "map"):
                    return False
            return ("a", "isnone", x), True
        if op in ("isnone", "truth", "==", "is"):
            vals = self.answers(args[0])
            if vals is None and op in ("==", "is") and self.answers(args[1]) is not None:
                args = (args[1], args[0])
                vals = self.answers(args[0])
            if vals is not None:
                r = self.answer_atom(op, args, vals)
                if r is not None:
                    return r
        if op == "truth":
            x = self.strip_seq(args[0])
            if is_k(x):
                return bool(x[2])
            if self.is_bool(x):
                return self.bool_atom(x)
            if isinstance(x, tuple):
                if x[0] == "tup":
                    return len(x) > 1
                if x[0] in ("fn", "clo", "bound"):
                    return True
                if x[0] == "lit" and not x[3]:
                    if x[2] and x[2][0] in ("items", "pairs"):
                        return len(x[2]) > 1
                if x[0] == "lit" and x[3] and all(e[0] in ("append", "set") for e in x[3]):
                    return True
                if x[0] == "ver" and len(x) == 3 and isinstance(x[2], tuple) and x[2] and isinstance(x[2][-1], tuple) \
                        and x[2][-1][:1] in (("append",), ("set",)):
                    return True
                if x[0] == "a" and x[1] == "map":
                    return self.quant(x[2], x[4])
                if x[0] == "a" and x[1] == "count":
                    return self.quant(x[2], x[3])
                if x[0] == "a" and x[1] == "len":
                    return self.atom("truth", x[2])
                if x[0] == "a" and x[1] == "cat":
                    if any(is_k(p) and p[2] for p in x[2:]):
                        return True
            return ("a", "truth", x), True
        if op == "is":
            a, b = args
            if is_k(b) and b[2] is None:
                return self.atom("isnone", a)
            if is_k(a) and a[2] is None:
                return self.atom("isnone", b)
            if a == b and not (isinstance(a, tuple) and a[0] == "lit"):
                return True
            if is_k(a) and not is_k(b):
                a, b = b, a
            if is_k(b) and b[1] == "bool":
                if is_k(a):
                    return a[1] == "bool" and a[2] == b[2]
                if a in self.bool_params:
                    return ("a", "truth", a), b[2]
                if self.is_bool(a):
                    r = self.bool_atom(a)
                    if isinstance(r, bool):
                        return r == b[2]
                    return r[0], r[1] == b[2]
                if isinstance(a, tuple) and a[0] in ("new", "lit", "tup", "fn", "clo"):
                    return False
                return ("a", "is", a, b), True
            if is_k(a) and is_k(b):
                if a[1] == "int" and b[1] == "int":
                    return a[2] == b[2]
                return a == b
            x, y = sorted((a, b), key=repr)
            return ("a", "is", x, y), True
        if op == "==":
            a, b = args
            if a == b:
                return True
            if is_k(a) and is_k(b):
                try:
                    return bool(a[2] == b[2])
                except Exception:
                    return False
            if is_k(a):
                a, b = b, a
            if is_k(b) and b[1] == "bool" and a in self.bool_params:
                return ("a", "truth", a), b[2]
            if is_k(b) and b[1] == "bool" and self.is_bool(a):
                r = self.bool_atom(a)
                if isinstance(r, bool):
                    return r == b[2]
                return r[0], r[1] == b[2]
            if is_k(b) and b[2] is None:
                return self.atom("isnone", a)
            if is_k(b) and isinstance(a, tuple) and a[0] in ("lit", "new", "tup") and b[1] in ("bool", "str", "int"):
                return False
            # len(x) == 0
            for u, v in ((a, b), (b, a)):
                if is_k(v) and v[1] == "str" and v[2] == "" and not is_k(u) and self.kind(u) == "str":
                    r = self.atom("truth", u)
                    return (not r) if isinstance(r, bool) else (r[0], not r[1])
                if is_k(v) and v[1] == "int" and v[2] == 0 and isinstance(u, tuple) and u[0] == "a" and u[1] in ("len", "count"):
                    r = self.atom("truth", u)
                    return (not r) if isinstance(r, bool) else (r[0], not r[1])
                if isinstance(v, tuple) and v[0] == "lit" and v[1] in ("list", "dict") and not v[3] and len(v[2]) == 1 and v[2][0] in ("items", "pairs"):
                    if isinstance(u, tuple) and (u[0] in ("lit", "new") or u[0] == "a" and u[1] == "map" or (
                            u[:2] == ("a", "attr") and len(u) == 4 and self.attr_kinds().get(u[3]) == v[1])):
                        r = self.atom("truth", u)
                        return (not r) if isinstance(r, bool) else (r[0], not r[1])
            a, b = self.strip_seq(a), self.strip_seq(b)
            for u, v in ((a, b), (b, a)):
                # [e for e in it if c] == it  <=> all c
                if isinstance(u, tuple) and u[0] == "a" and u[1] == "map" and self.strip_seq(u[2]) == v and u[3] == ("bv",):
                    r = self.quant(u[2], boolfn.tt_not(u[4]))
                    return (not r) if isinstance(r, bool) else (r[0], not r[1])
                if isinstance(u, tuple) and u[0] == "a" and u[1] in ("count", "len"):
                    it, body = None, None
                    if u[1] == "count":
                        it, body = u[2], u[3]
                    elif isinstance(u[2], tuple) and u[2][0] == "a" and u[2][1] == "map":
                        it, body = u[2][2], u[2][4]
                    if it is not None and v == ("a", "len", self.strip_seq(it)):
                        r = self.quant(it, boolfn.tt_not(body))
                        return (not r) if isinstance(r, bool) else (r[0], not r[1])
            la, lb = self.linear(a), self.linear(b)
            if (la[1] or lb[1]) and la[0] is not None and lb[0] is not None:
                if la[0] == lb[0]:
                    return la[1] == lb[1]
                a, b = self.lin_term(la[0], la[1] - lb[1]), lb[0]
            elif la[1] and lb[0] is None:
                a, b = la[0], K(lb[1] - la[1])
            x, y = sorted((a, b), key=repr)
            return ("a", "==", x, y), True
        if op == "<":
            a, b = args
            if is_k(a) and is_k(b):
                try:
                    return bool(a[2] < b[2])
                except TypeError:
                    return ("a", "<", a, b), True
            if a == b:
                return False
            la, lb = self.linear(a), self.linear(b)
            intish = self.kind(a) == "int" or self.kind(b) == "int" or la[1] or lb[1]
            if intish:
                if la[0] is not None and la[0] == lb[0]:
                    return la[1] < lb[1]
                # count/len against 0
                if la[0] is None and isinstance(lb[0], tuple) and lb[0][0] == "a" and lb[0][1] in ("len", "count"):
                    if la[1] - lb[1] == 0:
                        return self.atom("truth", lb[0])
                    if la[1] - lb[1] < 0:
                        return True
                if lb[0] is None and isinstance(la[0], tuple) and la[0][0] == "a" and la[0][1] in ("len", "count"):
                    c = lb[1] - la[1]
                    if c <= 0:
                        return False
                    if c == 1:
                        r = self.atom("truth", la[0])
                        return (not r) if isinstance(r, bool) else (r[0], not r[1])
                # a + c1 < b + c2  ->  not (b < a + (c1-c2+1) )  keep canonical: a < b + k, by order
                k = lb[1] - la[1]
                A, B = la[0], lb[0]
                if A is None:      # const < B  ->  not (B < const+1)
                    return ("a", "<", B, K(1 - k)), False
                if B is None:
                    return ("a", "<", A, K(k)), True
                if repr(A) <= repr(B):
                    return ("a", "<", A, self.lin_term(B, k)), True
                # A < B + k  <=> not (B < A - k + 1)
                return ("a", "<", B, self.lin_term(A, 1 - k)), False
            return ("a", "<", a, b), True
        if op == "in":
            a, d = args
            d = self.strip_seq(d)
            keys = const_keys(d)
            if keys is not None and len(keys) > 1 and not is_k(a):
                return ("a", "in", a, ("tup",) + keys), True
            if isinstance(d, tuple) and d[0] == "tup":
                if is_k(a) and all(is_k(x) for x in d[1:]):
                    return any(x[2] == a[2] for x in d[1:])
                if len(d) == 2:
                    return self.atom("==", a, d[1])
                if len(d) == 1:
                    return False
            if is_k(d) and is_k(a):
                try:
                    return bool(a[2] in d[2])
                except TypeError:
                    pass
            if isinstance(d, tuple) and d[0] == "lit" and not d[3]:
                if d[2] and d[2][0] == "items":
                    items = d[2][1:]
                    if not items:
                        return False
                    if is_k(a) and all(is_k(x) for x in items):
                        return any(x[2] == a[2] for x in items)
                    d = ("tup",) + tuple(items)
                    if len(items) == 1:
                        return self.atom("==", a, items[0])
                elif d[2] and d[2][0] == "pairs":
                    ks = [k for k, _ in d[2][1:]]
                    if a in ks:
                        return True
                    if not ks:
                        return False
                    if is_k(a) and all(is_k(x) for x in ks):
                        return any(x[2] == a[2] for x in ks)
            if isinstance(d, tuple) and d[0] == "a" and d[1] == "map" and d[3] == ("bv",):
                # a in [e for e in it if c(e)]  : a in it and c(a) -- only when it is membership stable
                body = d[4]
                if body == ("true",):
                    return self.atom("in", a, d[2])
            return ("a", "in", a, d), True
        raise AssertionError(op)

    def quant(self, it, body):
        """exists e in it: body   -> bool or (atom, polarity)"""
        it = self.strip_seq(it)
        if body == ("false",):
            return False
        if body == ("true",):
            return ("a", "truth", it), True
        # exists e in (map it2 f c) ...
        if isinstance(it, tuple) and it[0] == "a" and it[1] == "map":
            inner_it, f, c = it[2], it[3], it[4]
            mapped = replace_bv(body, f)
            conj = and_tt(mapped, c)
            if conj is not None:
                return self.quant(inner_it, conj)
        if body[0] == "tt" and len(body[1]) == 1:
            a, = body[1]
            # exists e in it: e == x  <=> x in it
            if a[0] == "a" and a[1] == "==" and body[2] == (False, True):
                if a[2] == ("bv",) and not mentions(a[3], lambda x: x == ("bv",)):
                    return self.atom("in", a[3], it)
                if a[3] == ("bv",) and not mentions(a[2], lambda x: x == ("bv",)):
                    return self.atom("in", a[2], it)
            if not mentions(a, lambda x: x == ("bv",)):
                pass
        return ("a", "exists", it, body), True

    def bool_atom(self, x):
        """x is a boolean typed term -> bool | (atom, pol)"""
        if is_k(x):
            return bool(x[2])
        op = x[1]
        if op == "not":
            r = self.atom("truth", x[2])
            return (not r) if isinstance(r, bool) else (r[0], not r[1])
        if op in ("in", "==", "<", "is"):
            return self.atom(op, x[2], x[3])
        if op == "isnone":
            return self.atom("isnone", x[2])
        if op == "truth":
            return self.atom("truth", x[2]) if not self.is_bool(x[2]) else self.bool_atom(x[2])
        if op == "exists":
            return x, True
        if op == "call:isinstance":
            k = self.kind(x[2])
            want = x[3]
            if k and isinstance(want, tuple) and want[0] == "b" and k not in ("view", "function"):
                py = {"str": str, "int": int, "bool": bool, "list": list, "dict": dict, "tuple": tuple,
                      "float": float, "set": set, "NoneType": type(None)}
                kk = {"OrderedDict": "dict"}.get(k, k)
                if kk in py and want[1] in py:
                    return issubclass(py[kk], py[want[1]])
            if isinstance(want, tuple) and want[0] == "tup" and len(want) == 2:
                return self.bool_atom(("a", "call:isinstance", x[2], want[1]))
        return x, True

    def implied(self, facts, atom):
        """truth of atom under facts: True/False/None"""
        if atom in facts:
            return facts[atom]
        if atom[0] != "a":
            return None
        op = atom[1]
        r = self.each_implied(facts, atom)
        if r is not None:
            return r
        if op == "truth":
            x = atom[2]
            if facts.get(("a", "isnone", x)) is True:
                return False
            r = self.sizes(facts, ("a", "len", x), lambda n: n > 0)
            if r is not None:
                return r
            for b in (True, False):
                if facts.get(("a", "is", x, K(b))) is True:
                    return b
            for a, v in facts.items():
                if v and a[0] == "a" and a[1] == "==" and len(a) == 4 and x in a[2:]:
                    o = a[3] if a[2] == x else a[2]
                    if is_k(o):
                        return bool(o[2])
                if v and a[0] == "a" and a[1] == "in" and a[3] == x:
                    return True
                if v and a[0] == "a" and a[1] == "exists" and a[2] == x:
                    return True
                if a[0] == "a" and a[1] == "==" and x in a[2:]:
                    e = empty_kind(a[3] if a[2] == x else a[2])
                    if e and v:
                        return False
                    if e and facts.get(("a", "call:isinstance", x, ("b", e))) is True:
                        return True
        if op == "isnone":
            x = atom[2]
            if facts.get(("a", "truth", x)) is True:
                return False
            for b in (True, False):
                if facts.get(("a", "is", x, K(b))) is True:
                    return False
            for a, v in facts.items():
                if v and a[0] == "a" and a[1] == "call:isinstance" and a[2] == x and a[3] != ("b", "object"):
                    return False
                if v and a[0] == "a" and a[1] == "==" and x in a[2:]:
                    o = a[3] if a[2] == x else a[2]
                    if is_k(o) and o[2] is not None:
                        return False
        if op == "is" and is_k(atom[3]) and atom[3][1] == "bool":
            x, b = atom[2], atom[3][2]
            if facts.get(("a", "is", x, K(not b))) is True:
                return False
            if facts.get(("a", "isnone", x)) is True:
                return False
            if b and facts.get(("a", "truth", x)) is False:
                return False
            if not b and facts.get(("a", "truth", x)) is True:
                return False
            e = ("a", "==") + tuple(sorted((x, K(b)), key=repr))
            if facts.get(e) is False:
                return False
        if op in ("==", "<") and len(atom) == 4:
            l, r = atom[2], atom[3]
            if is_k(r) and isinstance(r[2], int) and isinstance(l, tuple) and l[:2] == ("a", "len"):
                v = self.sizes(facts, l, (lambda n: n == r[2]) if op == "==" else (lambda n: n < r[2]), r[2])
                if v is not None:
                    return v
            elif is_k(l) and isinstance(l[2], int) and isinstance(r, tuple) and r[:2] == ("a", "len"):
                v = self.sizes(facts, r, (lambda n: n == l[2]) if op == "==" else (lambda n: l[2] < n), l[2])
                if v is not None:
                    return v
        if op == "==":
            l, r = atom[2], atom[3]
            for x, c in ((l, r), (r, l)):
                e = empty_kind(c)
                if e:
                    tr = facts.get(("a", "truth", x))
                    if tr is True:
                        return False
                    if tr is False and facts.get(("a", "call:isinstance", x, ("b", e))) is True:
                        return True
                    for a, v in facts.items():
                        if v and a[0] == "a" and a[1] == "call:isinstance" and a[2] == x and a[3][0] == "b" \
                                and _disjoint(a[3][1], e):
                            return False
                if not is_k(c):
                    continue
                if facts.get(("a", "isnone", x)) is True:
                    return c[2] is None
                for b in (True, False):
                    if facts.get(("a", "is", x, K(b))) is True:
                        return c[2] == b
                t = facts.get(("a", "truth", x))
                if t is not None and t != bool(c[2]):
                    return False
                for a, v in facts.items():
                    if v and a[0] == "a" and a[1] == "==" and x in a[2:]:
                        o = a[3] if a[2] == x else a[2]
                        if is_k(o) and o != c and not _same_const(o, c):
                            return False
            if facts.get(("a", "<", l, r)) or facts.get(("a", "<", r, l)):
                return False
        if op == "<":
            l, r = atom[2], atom[3]
            if facts.get(("a", "<", r, l)):
                return False
            v = self.differences(facts, atom)
            if v is not None:
                return v
            if facts.get(("a", "==") + tuple(sorted((l, r), key=repr))):
                return False
            if is_k(r) and isinstance(r[2], (int, float)):
                for a, v in facts.items():
                    if a[0] == "a" and a[1] == "<" and a[2] == l and is_k(a[3]) and isinstance(a[3][2], (int, float)):
                        if v and a[3][2] <= r[2]:
                            return True
                        if not v and a[3][2] >= r[2]:
                            return False
                    if v and a[0] == "a" and a[1] == "==" and l in a[2:]:
                        o = a[3] if a[2] == l else a[2]
                        if is_k(o) and isinstance(o[2], (int, float)):
                            return o[2] < r[2]
        if op == "raises" and isinstance(atom[2], tuple) and atom[2][:2] == ("a", "getitem") and len(atom[2]) == 4:
            if facts.get(("a", "in", atom[2][3], atom[2][2])) is True:
                return False
        if op == "raises" and isinstance(atom[2], tuple) and atom[3] in ("IndexError", "KeyError", "TypeError") and atom[2][:2] == ("a", "getitem") \
                and is_k(atom[2][3]) and atom[2][3][1] == "int" and atom[2][2][0] == "el" \
                and isinstance(atom[2][2][1], tuple) and atom[2][2][1][:1] == ("a",) and ":" in str(atom[2][2][1][1]):
            fi = self.fn_by_key(str(atom[2][2][1][1])[5:])
            if fi is not None and 0 <= atom[2][3][2] < self.item_width(fi):
                return False
        if op == "in" and self.shrinks:
            d = atom[3]
            if isinstance(d, tuple) and d and d[0] == "ver" and d[2] and d[2][-1][0] == "havoc" and d[2][-1][1] in self.shrinks:
                if facts.get(atom[:3] + (d[1] if len(d[2]) == 1 else d[:2] + (d[2][:-1],),)) is False:
                    return False
            for l in self.shrinks:
                if d[0] == "ver":
                    later = d[:2] + (d[2] + (("havoc", l),),)
                else:
                    later = ("ver", d, (("havoc", l),))
                if facts.get(atom[:3] + (later,)) is True:
                    return True
        if op == "in":
            for ty in ("KeyError", "IndexError"):
                if facts.get(("a", "raises", ("a", "getitem", atom[3], atom[2]), ty)) is True:
                    return False
        if op == "exists":
            it, body = atom[2], atom[3]
            if facts.get(("a", "truth", it)) is False:
                return False
            tr = [a[3] for a, v in facts.items() if v and a[0] == "a" and a[1] == "exists" and a[2] == it]
            fa = [a[3] for a, v in facts.items() if not v and a[0] == "a" and a[1] == "exists" and a[2] == it]
            # body implied false when every element violates it
            if fa and boolfn.contradiction_among([body], fa, lambda e: True):
                return False
            for t in tr:
                if boolfn.contradiction_among([t], [body] + fa, lambda e: True):
                    return True
        if op == "call:isinstance":
            x, ty = atom[2], atom[3]
            for a, v in facts.items():
                if v and a[0] == "a" and a[1] == "call:isinstance" and a[2] == x and a[3] != ty:
                    if a[3][0] == "b" and ty[0] == "b" and _disjoint(a[3][1], ty[1]):
                        return False
                    if a[3][0] == "ext" and ty[0] == "ext" and _disjoint_nodes(a[3][1], ty[1]):
                        return False
            if facts.get(("a", "isnone", x)):
                return False
        if op == "in":
            d = atom[3]
            if facts.get(("a", "truth", d)) is False:
                return False
            members = literal_members(d)
            if members and all(is_k(y) for y in members):
                mine = {(type(y[2]), y[2]) for y in members}
                for a, v in facts.items():
                    if a[0] == "a" and a[1] == "in" and a[2] == atom[2] and a[3] != d:
                        other = literal_members(a[3])
                        if not other or not all(is_k(y) for y in other):
                            continue
                        other = {(type(y[2]), y[2]) for y in other}
                        if v and other <= mine:
                            return True
                        if not v and mine <= other:
                            return False
                        if v and not other & mine:
                            return False
            if members:
                unknown = False
                for x in members:
                    r = self.atom("==", atom[2], x)
                    if not isinstance(r, bool):
                        r = self.implied_eq(facts, r)
                    if r is True:
                        return True
                    if r is None:
                        unknown = True
                if not unknown:
                    return False
        if op in ("==", "isnone"):
            # x in (a, b) together with what is known of x == a decides x == b
            pairs = [(atom[2], atom[3]), (atom[3], atom[2])] if op == "==" else [(atom[2], NONE)]
            for x, c in pairs:
                for a, v in facts.items():
                    if a[0] != "a" or a[1] != "in" or a[2] != x:
                        continue
                    members = literal_members(a[3])
                    if not members:
                        continue
                    inside = any(c == y or is_k(c) and is_k(y) and _same_const(c, y) for y in members)
                    if inside and not v:
                        return False
                    if not inside and v and is_k(c) and all(is_k(y) for y in members):
                        return False
                    if inside and v:
                        others = [self.atom("==", x, y) for y in members
                                  if not (c == y or is_k(c) and is_k(y) and _same_const(c, y))]
                        if all((r if isinstance(r, bool) else self.implied_eq(facts, r)) is False for r in others):
                            return True
        return None

    def item_width(self, fi):
        """n when fi only ever returns lists of tuples of n or more items, else 0"""
        memo = self.p.__dict__.setdefault("_item_width", {})
        if fi.key not in memo:
            memo[fi.key] = 0
            names = {}
            for n in own_nodes(fi.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            names.setdefault(t.id, []).append(n.value)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
                    if n.func.attr == "append" and len(n.args) == 1:
                        names.setdefault(n.func.value.id, []).append(ast.List(elts=[n.args[0]]))
                    elif n.func.attr in MUTATORS:
                        names.setdefault(n.func.value.id, []).append(n)
                elif isinstance(n, (ast.AugAssign, ast.For, ast.NamedExpr)) and isinstance(n.target, ast.Name):
                    names.setdefault(n.target.id, []).append(n)

            def width(e, seen=()):
                if isinstance(e, ast.ListComp):
                    return len(e.elt.elts) if isinstance(e.elt, ast.Tuple) else 0
                if isinstance(e, ast.List):
                    return min([len(x.elts) if isinstance(x, ast.Tuple) else 0 for x in e.elts] or [99])
                if isinstance(e, ast.Name) and e.id in names and e.id not in seen:
                    return min(width(v, seen + (e.id,)) for v in names[e.id])
                if isinstance(e, ast.IfExp):
                    return min(width(e.body, seen), width(e.orelse, seen))
                if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
                    f2 = self.fn_by_key(fi.key.split(":")[0] + ":" + e.func.id)
                    return self.item_width(f2) if f2 is not None else 0
                return 0

            rets = [n for n in own_nodes(fi.node) if isinstance(n, ast.Return) and n.value is not None]
            memo[fi.key] = min([width(n.value) for n in rets] or [0])
        return memo[fi.key]

    def each_implied(self, facts, atom):
        """what no item of a sequence does, the one at hand does not do"""
        for q, v in facts.items():
            if v or q[:2] != ("a", "exists") or len(q) != 4 or q[3][0] != "tt" or len(q[3][1]) != 1:
                continue
            for x in subterms(atom):
                if x and x[0] == "el" and x[1] == q[2]:
                    if replace_term(q[3][1][0], {("bv",): x}) == atom:
                        return q[3][2] == (True, False)
        return None

    def differences(self, facts, atom):
        """truth of x + a < y + b by the other comparisons of the kind"""
        edges = []
        for a, v in facts.items():
            if a[0] == "a" and len(a) == 4 and a[1] == "<":
                edges.append(self.edge(a, v))
        if not edges:
            return None
        edges = [e for e in edges if e]
        for want in (True, False):
            e = self.edge(atom, want)
            if e is None:
                return None
            if self.negative_cycle(edges + [e]):
                return not want
        return None

    def edge(self, a, v):
        """(x, y, c, strict): x - y < c, or <= c"""
        (x, c), (y, d) = self.linear(a[2]), self.linear(a[3])
        for t in (x, y):
            if is_k(t) and not isinstance(t[2], int):
                return None
        if not v:
            x, y, c, d = y, x, d, c
        c, strict = d - c, v
        if strict and all(t is None or self.kind(t) == "int" for t in (x, y)):
            c, strict = c - 1, False
        return x, y, c, strict

    @staticmethod
    def negative_cycle(edges):
        nodes = list(dict.fromkeys([n for e in edges for n in e[:2]]))
        if len(nodes) > 8:
            return False
        dist = {}
        for x, y, c, st in edges:
            k = (c, not st)
            if (x, y) not in dist or k < dist[(x, y)]:
                dist[(x, y)] = k
        for m in nodes:
            for i in nodes:
                for j in nodes:
                    p, q = dist.get((i, m)), dist.get((m, j))
                    if p and q:
                        k = (p[0] + q[0], p[1] and q[1])
                        if (i, j) not in dist or k < dist[(i, j)]:
                            dist[(i, j)] = k
        return any(dist.get((n, n), (0, True)) < (0, True) for n in nodes)

    def sizes(self, facts, ln, test, bound=0):
        """truth of test(n) for every length n = ln the facts allow; None when they allow both"""
        cons = []
        for a, v in facts.items():
            if a[0] != "a":
                continue
            if len(a) == 4 and a[1] in ("==", "<") and ln in a[2:]:
                l, r = a[2], a[3]
                if l == ln and is_k(r) and isinstance(r[2], int):
                    cons.append((a[1], False, r[2], v))
                elif r == ln and is_k(l) and isinstance(l[2], int):
                    cons.append((a[1], True, l[2], v))
            elif len(a) == 3 and a[1] == "truth" and a[2] == ln[2]:
                cons.append(("<", True, 0, v))
        if not cons:
            return None
        top = max([abs(c[2]) for c in cons] + [abs(bound)]) + 2
        if top > 64:
            return None
        seen = set()
        for n in range(top + 1):
            for op, swapped, k, v in cons:
                h = n == k if op == "==" else (k < n if swapped else n < k)
                if h is not v:
                    break
            else:
                seen.add(bool(test(n)))
        return seen.pop() if len(seen) == 1 else None

    def implied_eq(self, facts, r):
        """truth of a comparison already known from the facts themselves"""
        at, pol = r
        v = facts.get(at)
        if v is None and at[1] == "==":
            for x, c in ((at[2], at[3]), (at[3], at[2])):
                if is_k(c):
                    for a, w in facts.items():
                        if w and a[0] == "a" and a[1] == "==" and x in a[2:]:
                            o = a[3] if a[2] == x else a[2]
                            if is_k(o) and o != c and not _same_const(o, c):
                                v = False
        return None if v is None else v == pol

    def assume(self, state, r, want):
        """state with atom (r) taking truth want; None if contradictory"""
        if isinstance(r, bool):
            return state if r == want else None
        atom, pol = r
        val = want if pol else not want
        known = self.implied(state.facts, atom)
        if known is not None:
            return state if known == val else None
        # would the new fact contradict an older one?
        ns = state.fact(atom, val)
        if not self.consistent(ns.facts, atom):
            return None
        return ns

    def consistent(self, facts, newest=None):
        """check facts related to newest against the theory"""
        n = newest
        for a, v in facts.items():
            if a == n or not related(a, n):
                continue
            rest = dict(facts)
            rest.pop(a)
            k = self.implied(rest, a)
            if k is not None and k != v:
                return False
        return True

    def branch(self, state, term):
        """[(state, bool)]"""
        r = self.atom("truth", self.reify(term, state))
        if isinstance(r, bool):
            return [(state, r)]
        out = []
        for want in (True, False):
            s = self.assume(state, r, want)
            if s is not None:
                out.append((s, want))
        return out

    # ------------------------------------------------------------ conditions
    def cond(self, node, state):
        """[(state, bool)] evaluating node as a condition"""
        if isinstance(node, ast.BoolOp):
            isand = isinstance(node.op, ast.And)
            todo = [state]
            out = []
            for v in node.values:
                nxt = []
                for s in todo:
                    for s2, b in self.cond(v, s):
                        if b == isand:
                            nxt.append(s2)
                        else:
                            out.append((s2, b))
                todo = nxt
            out.extend((s, isand) for s in todo)
            return out
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return [(s, not b) for s, b in self.cond(node.operand, state)]
        if isinstance(node, ast.Compare):
            return self.cond_compare(node, state)
        if isinstance(node, ast.IfExp):
            out = []
            for s, b in self.cond(node.test, state):
                out.extend(self.cond(node.body if b else node.orelse, s))
            return out
        if isinstance(node, ast.Constant):
            return [(state, bool(node.value))]
        if isinstance(node, ast.NamedExpr):
            out = []
            for s, v in self.eval(node, state):
                out.extend(self.branch(s, v))
            return out
        out = []
        for s, v in self.eval(node, state):
            out.extend(self.branch(s, v))
        return out

    def cond_compare(self, node, state):
        out = []
        todo = self.eval(node.left, state)
        pairs = list(zip(node.ops, node.comparators))
        for i, (op, right) in enumerate(pairs):
            nxt = []
            for s, l in todo:
                for s2, r in self.eval(right, s):
                    for s3, b in self.compare(op, l, r, s2, node):
                        if not b:
                            out.append((s3, False))
                        elif i == len(pairs) - 1:
                            out.append((s3, True))
                        else:
                            nxt.append((s3, r))
            todo = nxt
        return out

    def compare(self, op, l, r, state, node):
        neg = False
        if isinstance(op, (ast.In, ast.NotIn)):
            neg = isinstance(op, ast.NotIn)
            return [(s, b != neg) for s, b in self.member(l, r, state, node)]
        L, R = self.reify(l, state), self.reify(r, state)
        if isinstance(op, (ast.Is, ast.IsNot)):
            neg = isinstance(op, ast.IsNot)
            if l[0] == "new" or r[0] == "new":
                at = (l == r)
            else:
                at = self.atom("is", L, R)
        elif isinstance(op, (ast.Eq, ast.NotEq)):
            neg = isinstance(op, ast.NotEq)
            fc = self.find_compare(L, R, "==")
            at = fc if fc is not None else self.atom("==", L, R)
        elif isinstance(op, ast.Lt):
            fc = self.find_compare(L, R, "<")
            at = fc if fc is not None else self.atom("<", L, R)
        elif isinstance(op, ast.Gt):
            fc = self.find_compare(L, R, ">")
            at = fc if fc is not None else self.atom("<", R, L)
        elif isinstance(op, ast.LtE):
            neg = True
            at = self.atom("<", R, L)
        elif isinstance(op, ast.GtE):
            fc = self.find_compare(L, R, ">=")
            if fc is not None:
                at = fc
            else:
                neg = True
                at = self.atom("<", L, R)
        else:
            raise AssertionError(op)
        out = []
        for want in (True, False):
            s = self.assume(state, at, want)
            if s is not None:
                out.append((s, want != neg))
        return out

    def find_compare(self, L, R, op):
        """x.find(p) == -1, >= 0, ... ; x.count(p) ..."""
        if not (isinstance(L, tuple) and L[0] == "a" and is_k(R)):
            return None
        if L[1] == "m:find" and len(L) == 4:
            inn = self.atom("in", L[3], L[2])
            neg = (not inn) if isinstance(inn, bool) else (inn[0], not inn[1])
            if op == "==" and R[2] == -1:
                return neg
            if op == ">=" and R[2] == 0:
                return inn
            if op == ">" and R[2] == -1:
                return inn
            if op == "<" and R[2] == 0:
                return neg
        if L[1] == "m:count" and len(L) == 4 and not isinstance(L[2], dict):
            inn = self.atom("in", L[3], L[2])
            neg = (not inn) if isinstance(inn, bool) else (inn[0], not inn[1])
            if op == "==" and R[2] == 0:
                return neg
            if op == ">" and R[2] == 0:
                return inn
            if op == ">=" and R[2] == 1:
                return inn
        return None

    def member(self, key, cont, state, node):
        """key in cont, aware of the write log of cont"""
        log = state.heap.get(cont, ())
        kind = self.kind(cont, state)
        if cont[0] == "new":
            content = self.init.get(cont)
            if content and content[0] in ("pairs", "items", "copyof", "seq") and all(
                e[0] in ("set", "del", "append") for e in log
            ):
                # newest first
                res = None
                maybe = False
                for e in reversed(log):
                    if e[0] in ("set", "del", "append"):
                        if e[1] == key:
                            res = e[0] != "del"
                            break
                        if not definitely_different(e[1], key):
                            maybe = True
                            break
                if res is not None:
                    return [(state, res)]
                if not maybe:
                    if content[0] == "pairs":
                        ks = [k for k, _ in content[1:]]
                        if key in ks:
                            return [(state, True)]
                        if all(definitely_different(k, key) for k in ks):
                            return [(state, False)]
                    elif content[0] in ("copyof", "seq"):
                        return self.member(key, content[1], state, node)
        elif log and cont[0] != "new":
            for e in reversed(log):
                if e[0] in ("set", "del", "pop", "append"):
                    if e[1] == key:
                        return [(state, e[0] in ("set", "append"))]
                    if definitely_different(e[1], key):
                        continue
                    break
                elif e[0] == "attr":
                    continue
                else:
                    break
            else:
                at = self.atom("in", self.reify(key, state), cont)
                return self._split(state, at)
        at = self.atom("in", self.reify(key, state), self.reify(cont, state))
        return self._split(state, at)

    def _split(self, state, at):
        out = []
        for want in (True, False):
            s = self.assume(state, at, want)
            if s is not None:
                out.append((s, want))
        return out

    # --------------------------------------------------------------- raising
    def plain(self, t):
        """a term without the source positions of the loops and literals it mentions"""
        if not isinstance(t, tuple):
            return t
        r = self._plain.get(t)
        if r is None:
            if t[:1] == ("el",) and len(t) == 3:
                r = ("el", self.plain(t[1]))
            elif t[:1] == ("loop",) and len(t) == 3 and isinstance(t[2], tuple):
                r = ("loop", t[2][1:])
            elif t[:1] == ("new",):
                r = ("new", t[2])
            else:
                r = tuple(self.plain(x) for x in t)
            self._plain[t] = r
        return r

    def may_raise(self, state, types, node, term=None):
        """record that evaluating `term` may leave through an exception; inside a
        try statement the two continuations are told apart by a fact"""
        if not self.track_raises:
            return state
        if term is None or not (self.try_depth or self.watch and self.plain(term) in self.watch):
            self.raises[-1].append((state, tuple(types), node, term, self.fn.key))
            return state
        for ty in types:
            at, pol = raise_atom(term, ty)
            if at is None:
                continue
            known = self.implied(state.facts, at)
            if known is (not pol):
                continue
            self.raises[-1].append((state.fact(at, pol), (ty,), node, term, self.fn.key))
            state = state.fact(at, not pol)
        return state

    # ------------------------------------------------------------ expressions
    def eval_many(self, nodes, state):
        todo = [(state, [])]
        for n in nodes:
            nxt = []
            for s, vs in todo:
                if isinstance(n, ast.Starred):
                    for s2, v in self.eval(n.value, s):
                        nxt.append((s2, vs + [("star", v)]))
                else:
                    for s2, v in self.eval(n, s):
                        nxt.append((s2, vs + [v]))
            todo = nxt
        return todo

    def eval(self, node, state):
        self.steps += 1
        if self.steps & 255 == 0 and time.process_time() > self.deadline:
            raise TooComplex("time budget")
        m = getattr(self, "e_" + type(node).__name__, None)
        if m is None:
            self.imp("expression " + type(node).__name__, node)
            return [(state, self.fresh("expr", node))]
        out = m(node, state)
        for i, (s, v) in enumerate(out):
            if len(v) > 2 and v[0] == "a" and self.size(v) > self.max_term:
                out[i] = (s, self.fresh("big", node))
        return out

    def size(self, t):
        """number of nodes of a term written out as a tree"""
        r = self._sizes.get(id(t))
        if r is not None and r[0] is t:
            return r[1]
        n = 1
        for x in t:
            if isinstance(x, tuple):
                n += self.size(x)
        self._sizes[id(t)] = (t, n)
        return n

    def e_Constant(self, node, state):
        v = node.value
        if isinstance(v, (str, int, float, bool, bytes)) or v is None or v is Ellipsis:
            return [(state, ("k", type(v).__name__, v))]
        return [(state, ("k", type(v).__name__, repr(v)))]

    def e_Name(self, node, state):
        return [(state, self.lookup(node.id, state, node))]

    def lookup(self, name, state, node=None):
        fi, fid, _sc = self.stack[-1]
        v = state.env.get((fid, name))
        if v is not None:
            return v
        # enclosing functions
        scopes = self.stack[-1][2]
        for f in scopes:
            v = state.env.get((f, name))
            if v is not None:
                return v
        # a nested function analysed on its own: names of the enclosing function
        par = fi.parent
        while par is not None:
            if name in par.nested:
                return ("clo", par.nested[name].key, ())
            a = par.node.args
            if name in [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] or self.assigned_in(par, name):
                if name == "self" and par.cls is not None:
                    self.types.setdefault(S(name), par.cls)
                return S(name)
            par = par.parent
        m = fi.module
        if name in self.consts:
            return self.consts[name]
        if name == "_ttp_":
            return S("_ttp_")
        if name in m.functions:
            return ("fn", m.functions[name].key)
        if name in m.classes:
            return ("cls", m.name, name)
        if name in m.imports:
            return self.imported(m.imports[name])
        if name in m.assigns:
            return self.module_const(m, name, state)
        if name in BUILTIN_NAMES:
            return ("b", name)
        if name == "__builtins__" or name == "__name__" or name == "__file__":
            return S(name)
        if self.assigned_in(fi, name):
            return ("unbound", name)
        return S("global:" + name)

    def assigned_in(self, fi, name):
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, (ast.Store, ast.Del)):
                return True
        return False

    def module_const(self, m, name, state=None):
        e = m.assigns[name]
        if name in m.rebound:
            t = S("global:{}.{}".format(m.name, name))
            if self.only_flags(m, name):
                self.bool_params.add(t)
            return t
        if isinstance(e, ast.Constant):
            return K(e.value)
        if isinstance(e, ast.Name) and e.id in m.functions:
            return ("fn", m.functions[e.id].key)
        if isinstance(e, (ast.Name, ast.Attribute)):
            # alias of an imported module or function
            try:
                parts = ast.unparse(e).split(".")
            except Exception:
                parts = []
            if parts and parts[0] in m.imports:
                return self.imported(".".join([m.imports[parts[0]]] + parts[1:]))
        if isinstance(e, ast.Tuple) and all(isinstance(x, ast.Constant) for x in e.elts):
            return ("tup",) + tuple(K(x.value) for x in e.elts)
        if state is not None and name in m.fixed and m.body is not None and self.static_expr(e, m, {name}):
            track, self.track_raises = self.track_raises, False
            self.stack.append((m.body, (m.body.key, 0), ()))
            try:
                return self.eval(e, state)[0][1]
            finally:
                self.stack.pop()
                self.track_raises = track
        return S("global:{}.{}".format(m.name, name))

    @staticmethod
    def only_flags(m, name):
        """a module level name that is only ever set to True or False"""
        memo = m.__dict__.setdefault("_flags", {})
        if name not in memo:
            vals, stores = 0, 0
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Name) and n.id == name and not isinstance(n.ctx, ast.Load):
                    stores += 1
                elif isinstance(n, ast.alias) and (n.asname or n.name) == name:
                    stores += 1
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, bool):
                    vals += sum(isinstance(x, ast.Name) and x.id == name for x in n.targets)
            memo[name] = vals > 0 and vals == stores
        return memo[name]

    def static_expr(self, e, m, busy):
        """a table or pattern written out at module level"""
        if isinstance(e, ast.Constant):
            return True
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            return all(self.static_expr(x, m, busy) for x in e.elts)
        if isinstance(e, ast.Dict):
            return all(k is not None and self.static_expr(k, m, busy) for k in e.keys) and all(
                self.static_expr(x, m, busy) for x in e.values)
        if isinstance(e, ast.BinOp):
            return self.static_expr(e.left, m, busy) and self.static_expr(e.right, m, busy)
        if isinstance(e, ast.Name):
            if e.id in m.functions or e.id in m.classes or e.id in m.imports:
                return True
            if e.id in m.assigns:
                return e.id not in busy and e.id in m.fixed and self.static_expr(m.assigns[e.id], m, busy | {e.id})
            return e.id in BUILTIN_NAMES
        if isinstance(e, ast.Attribute):
            return isinstance(e.value, ast.Name) and e.value.id in m.imports
        if isinstance(e, ast.Call) and not any(k.arg is None for k in e.keywords):
            name = ast.unparse(e.func)
            if name in ("re.compile", "frozenset", "set", "tuple", "list", "dict") and name.split(".")[0] not in m.functions:
                return all(self.static_expr(x, m, busy) for x in e.args) and all(
                    self.static_expr(k.value, m, busy) for k in e.keywords)
        return False

    def imported(self, dotted):
        t = self.p.resolve_dotted(dotted)
        if isinstance(t, FunctionInfo):
            return ("fn", t.key)
        if isinstance(t, ClassInfo):
            return ("cls", t.module.name, t.name)
        if isinstance(t, Module):
            return ("mod", t.name)
        return ("ext", dotted)

    def e_NamedExpr(self, node, state):
        out = []
        for s, v in self.eval(node.value, state):
            out.append((s.setvar((self.fid, node.target.id), v), v))
        return out

    def e_Tuple(self, node, state):
        out = []
        for s, vs in self.eval_many(node.elts, state):
            if any(v[0] == "star" for v in vs):
                out.append((s, ("a", "tuple*") + tuple(vs)))
            else:
                out.append((s, ("tup",) + tuple(vs)))
        return out

    def e_List(self, node, state):
        out = []
        for s, vs in self.eval_many(node.elts, state):
            if any(v[0] == "star" for v in vs):
                if len(vs) == 1:
                    out.append((s, self.new("list", ("seq", vs[0][1]), node, s)))
                    continue
                out.append((s, self.new("list", ("mixed",) + tuple(vs), node, s)))
            else:
                out.append((s, self.new("list", ("items",) + tuple(vs), node, s)))
        return out

    def e_Set(self, node, state):
        return [(s, self.new("set", ("items",) + tuple(vs), node, s))
                for s, vs in self.eval_many(node.elts, state)]

    def e_Dict(self, node, state):
        out = []
        keys = [k for k in node.keys]
        for s, vs in self.eval_many([k for k in keys if k is not None] + list(node.values), state):
            nk = [k for k in keys if k is not None]
            kv, vv = vs[: len(nk)], vs[len(nk):]
            if len(nk) == len(keys):
                out.append((s, self.new("dict", ("pairs",) + tuple(zip(kv, vv)), node, s)))
            else:
                # {**a, k: v}: copy of first + writes
                ki = iter(kv)
                d = None
                st = s
                for k, v in zip(keys, vv):
                    if k is None:
                        if d is None:
                            d = self.new("dict", ("copyof", self.reify(v, st)), node, st)
                        else:
                            st = st.write(d, ("upd", self.reify(v, st)))
                    else:
                        if d is None:
                            d = self.new("dict", ("pairs",), node, st)
                        st = st.write(d, ("set", next(ki), v))
                out.append((st, d))
        return out

    def e_JoinedStr(self, node, state):
        todo = [(state, [])]
        for v in node.values:
            nxt = []
            for s, parts in todo:
                if isinstance(v, ast.Constant):
                    nxt.append((s, parts + [K(v.value)]))
                else:
                    for s2, x in self.eval(v.value, s):
                        if v.format_spec is None and v.conversion in (-1, 115):
                            nxt.append((s2, parts + [self.to_str(x, s2)]))
                        else:
                            spec = ast.unparse(v.format_spec) if v.format_spec else ""
                            nxt.append((s2, parts + [("a", "fmtspec", self.reify(x, s2), K(spec), K(v.conversion))]))
            todo = nxt
        return [(s, cat(*parts)) for s, parts in todo]

    def to_str(self, x, state):
        x = self.reify(x, state)
        if is_k(x):
            return K(str(x[2]))
        if isinstance(x, tuple) and x[0] == "a" and x[1] == "call:str" and len(x) == 3:
            return x[2]
        return x

    def e_UnaryOp(self, node, state):
        if isinstance(node.op, ast.Not):
            return [(s, K(not b)) for s, b in self.cond(node.operand, state)]
        out = []
        for s, v in self.eval(node.operand, state):
            if is_k(v) and isinstance(node.op, ast.USub) and isinstance(v[2], (int, float)):
                out.append((s, K(-v[2])))
            else:
                out.append((s, ("a", type(node.op).__name__, self.reify(v, s))))
        return out

    def e_BoolOp(self, node, state):
        isand = isinstance(node.op, ast.And)
        out = []
        todo = [state]
        for i, v in enumerate(node.values):
            last = i == len(node.values) - 1
            nxt = []
            for s in todo:
                for s2, val in self.eval(v, s):
                    if last:
                        out.append((s2, val))
                        continue
                    for s3, b in self.branch(s2, val):
                        if b == isand:
                            nxt.append(s3)
                        else:
                            if self.is_bool(val):
                                val = K(b)
                            out.append((s3, val))
            todo = nxt
        return out

    def e_Compare(self, node, state):
        # keep single comparisons as terms resolved by branching
        return [(s, K(b)) for s, b in self.cond_compare(node, state)]

    def e_IfExp(self, node, state):
        out = []
        for s, b in self.cond(node.test, state):
            out.extend(self.eval(node.body if b else node.orelse, s))
        return out

    def e_BinOp(self, node, state):
        out = []
        op = type(node.op).__name__
        for s, (l, r) in self.eval_many([node.left, node.right], state):
            out.append((s, self.binop(op, l, r, s, node)))
        return out

    def binop(self, op, l, r, s, node):
        L, R = self.reify(l, s), self.reify(r, s)
        if is_k(L) and is_k(R) and not isinstance(L[2], bytes):
            try:
                if op == "Add":
                    return K(L[2] + R[2])
                if op == "Sub":
                    return K(L[2] - R[2])
                if op == "Mult" and isinstance(L[2], (int, float)) and isinstance(R[2], (int, float)):
                    return K(L[2] * R[2])
                if op == "Mult":
                    v = L[2] * R[2]
                    if len(v) < 1000:
                        return K(v)
            except Exception:
                pass
        if op == "Mod" and (is_k(L) and L[1] == "str"):
            return percent_format(L[2], R, self, s)
        if op in ("Add", "Sub") and R == K(0) and type(R[2]) is int:
            return l
        if op == "Add" and L == K(0) and type(L[2]) is int:
            return r
        if op == "Add":
            kl, kr = self.kind(l, s), self.kind(r, s)
            if kl == "str" or kr == "str":
                return cat(L, R)
            if kl == "list" or kr == "list":
                return self.new("list", ("concat", L, R), node, s)
            while isinstance(R, tuple) and R[:2] == ("a", "+") and len(R) == 4:
                # a + (b + c)
                L, R = self.binop_add(L, R[2]), R[3]
            return ("a", "+", L, R)
        if op == "Sub":
            return ("a", "-", L, R)
        return ("a", "op:" + op, L, R)

    @staticmethod
    def binop_add(L, R):
        while isinstance(R, tuple) and R[:2] == ("a", "+") and len(R) == 4:
            L, R = Interp.binop_add(L, R[2]), R[3]
        return ("a", "+", L, R)

    def e_Lambda(self, node, state):
        ent = (node, self.fn, (self.fid,) + self.stack[-1][2])
        key = ("lam",) + self.site(node) + (self.lambda_value(ent, state),)
        self.closures[key] = ent
        return [(state, key)]

    def lambda_value(self, ent, state):
        """what a lambda does, as a term: outcomes for symbolic arguments"""
        a = ent[0].args
        n = len(a.posonlyargs + a.args) - len(a.defaults)
        if a.vararg or a.kwarg or a.kwonlyargs or self.lam_depth > 2:
            return None
        track, self.track_raises = self.track_raises, False
        self.lam_depth += 1
        try:
            args = [("s", "arg{}.{}".format(self.lam_depth, i)) for i in range(n)]
            res = self.call_lambda(ent, args, [], state, ent[0])
            outs = []
            for s2, v in res:
                writes = []
                for o, lg in s2.heap.items():
                    if o[0] == "new" and o not in state.heap:
                        continue
                    old = state.heap.get(o, ())
                    if lg != old:
                        if lg[: len(old)] != old:
                            return None
                        name = self.reify(o, state) if o[0] == "new" else o
                        writes.append((name, tuple(self.reify_entry(e, s2, 0) for e in lg[len(old):])))
                ev = s2.events
                if ev[: len(state.events)] != state.events:
                    return None
                facts = tuple(sorted(((k, b) for k, b in s2.facts.items() if state.facts.get(k) != b), key=repr))
                outs.append((facts, tuple(sorted(writes, key=repr)), ev[len(state.events):], self.reify(v, s2)))
            return ("lamv", n) + tuple(sorted(set(outs), key=repr))
        finally:
            self.lam_depth -= 1
            self.track_raises = track

    def e_Starred(self, node, state):
        return [(s, ("star", v)) for s, v in self.eval(node.value, state)]

    def e_Await(self, node, state):
        return self.eval(node.value, state)

    def e_Yield(self, node, state):
        self.imp("generator", node)
        return [(state, self.fresh("yield", node))]

    def e_Slice(self, node, state):
        parts = [node.lower or ast.Constant(value=None), node.upper or ast.Constant(value=None),
                 node.step or ast.Constant(value=None)]
        out = []
        for s, vs in self.eval_many(parts, state):
            lo, hi, st = [self.reify(v, s) for v in vs]
            if lo == K(0):
                lo = NONE
            if st == K(1):
                st = NONE
            out.append((s, ("a", "slice", lo, hi, st)))
        return out

    def e_Subscript(self, node, state):
        out = []
        for s, (b, k) in self.eval_many([node.value, node.slice], state):
            out.extend(self.getitem(b, k, s, node))
        return out

    def getitem(self, b, k, s, node, raising=True):
        # tuples
        if b[0] == "tup" and is_k(k) and isinstance(k[2], int):
            i = k[2]
            if -len(b) + 1 <= i < len(b) - 1:
                return [(s, b[1:][i])]
        if is_k(b) and is_k(k) and b[1] == "str":
            try:
                return [(s, K(b[2][k[2]]))]
            except Exception:
                pass
        r = self.registry_item(b, k)
        if r is not None:
            return [(s, r)]
        if isinstance(k, tuple) and k[0] == "a" and k[1] == "slice":
            if k[2:] == (NONE, NONE, NONE):
                return [(s, self.new("list", ("seq", b), node, s))] if self.kind(b, s) != "str" else [(s, b)]
            kb = self.kind(b, s)
            if kb in MUTABLE_TYPES:
                return [(s, self.new("list", ("slice", self.reify(b, s), k), node, s))]
            return [(s, ("a", "getitem", self.reify(b, s), k))]
        log = s.heap.get(b, ())
        K_ = self.reify(k, s)
        table = self.init.get(b) if b[0] == "new" and b[2] == "dict" and not log else None
        if table and table[0] == "pairs" and 1 < len(table) <= 41 and not is_k(K_) and all(
                is_k(kk) for kk, _ in table[1:]):
            # a written out table looked up by something unknown: one case per key
            out, done = [], {}
            for kk, vv in table[1:]:
                done[kk] = vv
            for kk, vv in done.items():
                st = self.assume(s, self.atom("==", K_, kk), True)
                if st is not None:
                    out.append((st, vv))
            at = self.atom("in", K_, ("tup",) + tuple(done))
            st = self.assume(s, at, False)
            if st is not None and raising:
                self.may_raise(st, ("KeyError",), node, ("a", "getitem", self.reify(b, s), K_))
            return out
        val = None
        for e in reversed(log):
            if e[0] == "set":
                if e[1] == k or e[1] == K_:
                    val = e[2]
                    break
                if definitely_different(e[1], k):
                    continue
                val = "unknown"
                break
            elif e[0] in ("attr",):
                continue
            elif e[0] == "del" and definitely_different(e[1], k):
                continue
            elif e[0] == "append" and is_k(k) and k[2] == -1:
                val = e[1]
                break
            else:
                val = "unknown"
                break
        if val is None and b[0] == "new":
            content = self.init.get(b, ("?",))
            if content[0] == "pairs":
                for kk, vv in reversed(content[1:]):
                    if kk == k or kk == K_:
                        val = vv
                        break
                    if not definitely_different(kk, k):
                        val = "unknown"
                        break
            elif content[0] == "items" and is_k(k) and isinstance(k[2], int) and not log:
                if -len(content) + 1 <= k[2] < len(content) - 1:
                    val = content[1:][k[2]]
                else:
                    val = "unknown"
            elif content[0] in ("copyof", "seq"):
                return self.getitem(content[1], k, s, node, raising)
            else:
                val = "unknown"
            if val is None:
                if raising:
                    self.may_raise(s, ("KeyError", "IndexError"), node)
                return [] if content[0] == "pairs" and all(
                    definitely_different(kk, k) for kk, _ in content[1:]
                ) and not log else [(s, ("a", "getitem", self.reify(b, s), K_))]
        if val == "unknown":
            if raising:
                self.may_raise(s, ("KeyError", "IndexError", "TypeError"), node)
            return [(s, ("a", "getitem", self.reify(b, s), K_))]
        if val is not None:
            return [(s, val)]
        base = b
        t = ("a", "getitem", base, K_)
        if not raising:
            return [(s, t)]
        # symbolic container: membership decides KeyError
        if is_k(k) and isinstance(k[2], int):
            s = self.may_raise(s, ("IndexError", "KeyError", "TypeError"), node, t)
            return [(s, t)]
        at = self.atom("in", K_, base)
        known = at if isinstance(at, bool) else self.implied(s.facts, at[0])
        if not isinstance(at, bool) and known is not None and not at[1]:
            known = not known
        if known is True:
            return [(s, t)]
        if self.try_depth or (not isinstance(at, bool) and self.watch and self.plain(at[0]) in self.watch):
            sf = self.assume(s, at, False)
            if sf is not None:
                self.raises[-1].append((sf, ("KeyError",), node, t, self.fn.key))
            s = self.may_raise(s, ("IndexError", "TypeError"), node, t)
            st = self.assume(s, at, True)
            return [(st, t)] if st is not None else []
        s = self.may_raise(s, ("KeyError", "IndexError", "TypeError"), node, t)
        return [(s, t)]


    def registry_item(self, b, k):
        """_ttp_["scope"]["name"] -> function"""
        if b == S("_ttp_") or (b[0] == "a" and b[1] == "attr" and b[3] == "_ttp_"):
            if k == K("python_major_version"):
                return K(3)
            if is_k(k) and k[2] in self.p.registry and k[2] not in ("lookup",):
                return ("scope", k[2])
            return None if not is_k(k) else ("a", "getitem", S("_ttp_"), k)
        if b[0] == "scope":
            if is_k(k):
                f = self.p.plugin(b[1], k[2])
                if f is not None:
                    return ("fn", f.key)
            return ("a", "getitem", ("scope", b[1]), k)
        return None

    def e_Attribute(self, node, state):
        out = []
        for s, b in self.eval(node.value, state):
            out.append((s, self.getattr(b, node.attr, s, node)))
        return out

    def getattr(self, b, attr, s, node=None):
        if b[0] == "mod":
            m = self.p.modules[b[1]]
            if attr in m.functions:
                return ("fn", m.functions[attr].key)
            if attr in m.classes:
                return ("cls", m.name, attr)
            if attr in m.imports:
                return self.imported(m.imports[attr])
            return S("global:{}.{}".format(b[1], attr))
        if b[0] == "ext":
            return ("ext", b[1] + "." + attr)
        if attr == "_ttp_":
            return S("_ttp_")
        log = s.heap.get(b, ())
        for e in reversed(log):
            if e[0] == "attr":
                if e[1] == attr:
                    return e[2]
                continue
            if e[0] == "havoc":
                ci = self.class_of(b)
                if ci is not None and attr in ci.methods:
                    break
                if not self.touches(e, b, attr):
                    continue
                return ("a", "attr", ("ver", b, tuple(
                    e for e in log if e[0] == "havoc" and self.touches(e, b, attr))), attr)
        if b[0] == "new":
            content = self.init.get(b)
            if content and content[0] == "inst":
                ci = self.class_of(b)
                if ci and attr in ci.methods:
                    return ("bound", ci.methods[attr].key, b)
        ci = self.types.get(b)
        if ci is not None and attr in ci.methods:
            m = ci.methods[attr]
            deco = [ast.unparse(d) for d in m.node.decorator_list]
            if "property" not in deco and "staticmethod" not in deco:
                return ("bound", m.key, b)
            if "staticmethod" in deco:
                return ("fn", m.key)
        return ("a", "attr", b, attr)

    def touches(self, e, b, attr):
        """may the loop of a havoc entry change this attribute?"""
        names = self.havoc_attrs.get((e[1], b))
        return names is None or attr in names

    def class_of(self, b):
        content = self.init.get(b)
        if content and content[0] == "inst":
            m = self.p.modules.get(content[1])
            return m.classes.get(content[2]) if m else None
        return self.types.get(b)

    # --------------------------------------------------------- comprehensions
    def e_ListComp(self, node, state):
        return self.comp(node, node.elt, "list", state)

    def e_SetComp(self, node, state):
        return self.comp(node, node.elt, "set", state)

    def e_GeneratorExp(self, node, state):
        return self.comp(node, node.elt, "gen", state)

    def e_DictComp(self, node, state):
        pair = ast.Tuple(elts=[node.key, node.value], ctx=ast.Load())
        ast.copy_location(pair, node)
        return self.comp(node, pair, "dict", state)

    def comp(self, node, elt, kind, state):
        gen = node.generators[0]
        out = []
        for s, it in self.eval(gen.iter, state):
            concrete = self.concrete_items(it, s)
            if concrete is not None and kind == "gen" and len(concrete) <= 8 and len(node.generators) == 1:
                # written out elements: evaluated one by one
                todo = [(s, ())]
                for x in concrete:
                    nxt = []
                    for x1, vs in todo:
                        cur = [self.bind_target(gen.target, x, x1, node)]
                        for c in gen.ifs:
                            keep = []
                            for y in cur:
                                for y2, b in self.cond(c, y):
                                    if b:
                                        keep.append(y2)
                                    else:
                                        nxt.append((y2, vs))
                            cur = keep
                        for y in cur:
                            nxt.extend((y2, vs + (v,)) for y2, v in self.eval(elt, y))
                    todo = nxt
                    if len(todo) > 64:
                        break
                if len(todo) <= 64:
                    out.extend((x1, ("tup",) + vs) for x1, vs in todo)
                    continue
            raw = self.iter_term(it, s)
            itc = self.iter_base(raw)
            lid = self.site(node)
            el = ("el", itc, lid)
            self.raises.append([])
            try:
                paths = []      # (state, value) for kept elements
                todo = [self.bind_target(gen.target, self.elem_of(it, raw, el, x), x, node)
                        for x in self.chosen(raw, el, s)[0]]
                for c in gen.ifs:
                    nxt = []
                    for x in todo:
                        for x2, b in self.cond(c, x):
                            if b:
                                nxt.append(x2)
                    todo = nxt
                for x in todo:
                    if len(node.generators) > 1:
                        inner = type(node)(**{
                            **({"elt": elt} if not isinstance(node, ast.DictComp) else {"key": node.key, "value": node.value}),
                            "generators": node.generators[1:]})
                        ast.copy_location(inner, node)
                        ast.fix_missing_locations(inner)
                        for x2, v in self.comp(inner, elt, "list", x):
                            paths.append((x2, ("nested", self.reify(v, x2))))
                    else:
                        for x2, v in self.eval(elt, x):
                            paths.append((x2, v))
            finally:
                inner_raises = self.raises.pop()
            for r in inner_raises:
                self.raises[-1].append(r)
            # side effects of the element expression
            st = s
            base = s.facts
            tm = {el: ("bv",)}
            changed = [x for x, _ in paths if x.heap != s.heap or x.events != s.events]
            effects = {}
            for x in changed:
                d = {replace_term(a, tm): b for a, b in x.facts.items() if base.get(a) is not b}
                for o, lg in sorted(x.heap.items(), key=repr):
                    if lg != s.heap.get(o, ()):
                        if o[0] == "new" and not self._known(o, s):
                            continue
                        for i, e in enumerate(lg[len(s.heap.get(o, ())):]):
                            effects.setdefault(("w", o, i, replace_term(self.reify_entry(e, x, 0), tm)), []).append(d)
                for i, e in enumerate(x.events[len(s.events):]):
                    effects.setdefault(("e", None, i, replace_term(e, tm)), []).append(d)
            for (what, o, i, e), ds in effects.items():
                ent = ("each", itc, e, boolfn.tt_from_dnf(ds))
                st = st.write(o, ent) if what == "w" else st.event(ent)
            vals = {}
            for x, v in paths:
                rv = replace_term(self.reify(v, x), tm)
                d = {replace_term(a, tm): b for a, b in x.facts.items() if base.get(a) is not b}
                vals.setdefault(rv, []).append(d)
            if len(vals) == 1:
                (rv, dnf), = vals.items()
                c = boolfn.tt_from_dnf(dnf)
                content = ("map", itc, rv, c)
            elif set(vals) <= {TRUE, FALSE} and vals:
                content = ("map", itc, ("a", "boolfn", boolfn.tt_from_dnf(vals.get(TRUE, []))),
                           boolfn.tt_from_dnf(sum(vals.values(), [])))
            elif not vals:
                content = ("items",)
            else:
                content = ("mapcases", itc, tuple(sorted(
                    ((rv, boolfn.tt_from_dnf(d)) for rv, d in vals.items()), key=repr)))
            if kind == "gen":
                out.append((st, ("a",) + content if content[0] != "items" else ("tup",)))
            else:
                o = self.new(kind, content, node, st)
                if kind == "list" and len(node.generators) > 1:
                    self.nested_src[o] = (node, s, self.fid)
                out.append((st, o))
        return out

    def _known(self, o, s):
        return o in s.heap or self._reachable(o, s)

    def concrete_items(self, it, s):
        """list of terms when the iterable is a literal of known small length"""
        if it[0] == "tup":
            items = list(it[1:])
        elif it[0] == "new" and it[2] in ("list", "set") and not s.heap.get(it):
            c = self.init.get(it, ("?",))
            if c[0] != "items":
                return None
            items = list(c[1:])
        else:
            return None
        return items if len(items) <= 12 else None

    def iter_term(self, it, s):
        r = self.reify(it, s)
        return self.strip_seq(r)

    def elem_of(self, it, itc, el, s):
        """term(s) bound to the loop target"""
        return self.elem_expr(itc, el)

    def elem_expr(self, t, el):
        if isinstance(t, tuple) and t and t[0] == "a" and len(t) > 2:
            if t[1] in ("items", "values", "keys"):
                d = self.strip_seq(t[2])
                if isinstance(d, tuple) and d[:2] == ("a", "map") and self.plain_map(d) and d[3][0] == "tup" \
                        and len(d[3]) == 3 and d[3][1] == ("bv",):
                    # a dictionary made of the (chosen) items of another one
                    e = self.elem_expr(self.strip_seq(d[2]), el)
                    v = replace_term(d[3][2], {("bv",): e})
                    return {"items": ("tup", e, v), "values": v, "keys": e}[t[1]]
            if t[1] == "items":
                return ("tup", el, ("a", "getitem", t[2], el))
            if t[1] == "values":
                return ("a", "getitem", t[2], el)
            if t[1] == "enumerate" and len(t) == 3:
                return ("tup", ("a", "index", el), self.elem_expr(t[2], el))
            if self.plain_map(t):
                return replace_term(t[3], {("bv",): self.elem_expr(self.strip_seq(t[2]), el)})
        return el

    @staticmethod
    def plain_map(t):
        """a list made of the (chosen) elements of another one"""
        return t[1] == "map" and len(t) == 5 and boolfn.tt_decided(t[4]) and t[4] != ("false",) and not (
            isinstance(t[3], tuple) and t[3][:2] == ("a", "boolfn"))

    def iter_base(self, t):
        """what a loop over t walks through underneath"""
        while isinstance(t, tuple) and t and t[0] == "a" and len(t) > 2:
            if t[1] in ("items", "values", "keys") or (
                    t[1] == "enumerate" and len(t) == 3 and not self.filtered(t[2])) or self.plain_map(t):
                t = self.strip_seq(t[2])
            else:
                break
        return t

    def filtered(self, t):
        while isinstance(t, tuple) and t and t[0] == "a" and len(t) > 2:
            if self.plain_map(t) and t[4] != ("true",):
                return True
            if t[1] in ("items", "values", "keys", "enumerate") or self.plain_map(t):
                t = self.strip_seq(t[2])
            else:
                break
        return False

    def elem_conds(self, t, el):
        """conditions under which the element of the base belongs to t"""
        out = []
        while isinstance(t, tuple) and t and t[0] == "a" and len(t) > 2:
            if self.plain_map(t):
                if t[4] != ("true",):
                    out.insert(0, (t[4], self.elem_expr(self.strip_seq(t[2]), el)))
            elif t[1] == "enumerate" and len(t) == 3 and self.filtered(t[2]):
                break
            elif t[1] not in ("items", "values", "keys", "enumerate"):
                break
            t = self.strip_seq(t[2])
        return out

    def split_fn(self, s, fn, mapping):
        """[(state, truth of fn)]"""
        if fn[0] in ("true", "false"):
            return [(s, fn[0] == "true")]
        atoms = fn[1]
        out = []

        def go(st, env, i):
            if i == len(atoms):
                out.append((st, boolfn.tt_eval(fn, env)))
                return
            at = replace_term(atoms[i], mapping)
            if at[1] in ("truth", "isnone", "==", "is", "<", "in") and len(at) in (3, 4):
                r = self.atom(at[1], *at[2:])
            else:
                r = (at, True)
            for st2, b in self._split(st, r):
                e2 = dict(env)
                e2[atoms[i]] = b
                go(st2, e2, i + 1)

        go(s, {}, 0)
        return out

    def chosen(self, raw, el, s):
        """(states in which el is an element of raw, states in which it is not)"""
        yes, no = [s], []
        for fn, e in self.elem_conds(raw, el):
            nxt = []
            for st in yes:
                for st2, b in self.split_fn(st, fn, {("bv",): e}):
                    (nxt if b else no).append(st2)
            yes = nxt
        return yes, no

    def bind_target(self, target, val, s, node):
        if isinstance(target, ast.Name):
            return s.setvar((self.fid, target.id), val)
        if isinstance(target, (ast.Tuple, ast.List)):
            n = len(target.elts)
            if val[0] == "tup" and len(val) - 1 == n and not any(isinstance(e, ast.Starred) for e in target.elts):
                for e, v in zip(target.elts, val[1:]):
                    s = self.bind_target(e, v, s, node)
                return s
            items = None
            if val[0] == "new":
                items = self.concrete_items(val, s)
            if items is not None and len(items) == n:
                for e, v in zip(target.elts, items):
                    s = self.bind_target(e, v, s, node)
                return s
            rv = val
            for i, e in enumerate(target.elts):
                if isinstance(e, ast.Starred):
                    s = self.bind_target(e.value, ("a", "rest", rv, K(i)), s, node)
                else:
                    s = self.bind_target(e, ("a", "getitem", rv, K(i)), s, node)
            return s
        if isinstance(target, ast.Attribute):
            outs = self.eval(target.value, s)
            s2, b = outs[0]
            return self.set_attr(b, target.attr, val, s2, target)
        if isinstance(target, ast.Subscript):
            outs = self.eval_many([target.value, target.slice], s)
            if len(outs) != 1:
                self.imp("store target with several states", node)
            s2, (b, k) = outs[0]
            return self.set_item(b, k, val, s2, target)
        if isinstance(target, ast.Starred):
            return self.bind_target(target.value, val, s, node)
        self.imp("target", node)
        return s

    def set_attr(self, b, attr, val, s, node):
        log = s.heap.get(b, ())
        if isinstance(val, tuple) and val[:2] == ("a", "attr") and val == self.getattr(b, attr, s):
            return s            # what it holds already
        # last write wins: drop an older write of the same attribute
        if all(e[0] == "attr" for e in log):
            log = tuple(e for e in log if e[1] != attr) + (("attr", attr, val),)
            return s.setlog(b, log)
        return s.write(b, ("attr", attr, val))

    def set_item(self, b, k, val, s, node):
        k2 = self.reify(k, s)
        if k2[0] == "a" and k2[1] == "slice":
            return s.write(b, ("setslice", k2, val))
        log = s.heap.get(b, ())
        if all(e[0] in ("set", "attr") for e in log) and any(e[0] == "set" and e[1] == k2 for e in log):
            # overwritten: keep order of remaining entries when no alias may read between
            log = tuple(e for e in log if not (e[0] == "set" and e[1] == k2)) + (("set", k2, val),)
            return s.setlog(b, log)
        return s.write(b, ("set", k2, val))

    # ------------------------------------------------------------------ calls
    def e_Call(self, node, state):
        f = node.func
        # logging is not an effect any property looks at
        if isinstance(f, ast.Attribute) and f.attr in LOGGER_METHODS and isinstance(f.value, ast.Name) and (
            f.value.id in ("log", "logger", "logging", "_log", "LOG")
        ):
            return [(state, NONE)]
        out = []
        for s, fv in self.eval_callee(f, state):
            argn = list(node.args) + [k.value for k in node.keywords]
            for s2, vals in self.eval_many(argn, s):
                args = vals[: len(node.args)]
                kwargs = []
                for kw, v in zip(node.keywords, vals[len(node.args):]):
                    kwargs.append((kw.arg, v))
                out.extend(self.call(fv, args, kwargs, s2, node))
        return out

    def eval_callee(self, f, state):
        if isinstance(f, ast.Attribute):
            out = []
            for s, b in self.eval(f.value, state):
                v = self.getattr(b, f.attr, s, f)
                if v[0] == "a" and v[1] == "attr" and v[2] == b:
                    out.append((s, ("meth", b, f.attr)))
                elif v[0] == "a" and v[1] == "attr":
                    out.append((s, ("meth", b, f.attr)))
                else:
                    out.append((s, v))
            return out
        return self.eval(f, state)

    def fn_by_key(self, key):
        cache = self.p.__dict__.setdefault("_fnkeys", {})
        if not cache:
            for fi in self.p.all_functions():
                cache[fi.key] = fi
        return cache.get(key)

    def call(self, fv, args, kwargs, s, node):
        tag = fv[0]
        if tag == "fn":
            return self.call_fn(self.fn_by_key(fv[1]), args, kwargs, s, node)
        if tag == "clo":
            fi = self.fn_by_key(fv[1])
            return self.call_fn(fi, args, kwargs, s, node, scopes=fv[2])
        if tag == "bound":
            return self.call_fn(self.fn_by_key(fv[1]), [fv[2]] + list(args), kwargs, s, node)
        if tag == "lam":
            ent = self.closures.get(fv)
            if ent:
                return self.call_lambda(ent, args, kwargs, s, node)
        if tag == "meth":
            return self.call_method(fv[1], fv[2], args, kwargs, s, node)
        if tag == "b":
            return self.call_builtin(fv[1], args, kwargs, s, node)
        if tag == "ext":
            return self.call_ext(fv[1], args, kwargs, s, node)
        if tag == "cls":
            return self.call_class(fv, args, kwargs, s, node)
        if tag == "choice":
            out = []
            for alt in fv[1:]:
                out.extend(self.call(alt, args, kwargs, s, node))
            return out
        return self.call_dynamic(fv, args, kwargs, s, node)

    def call_dynamic(self, fv, args, kwargs, s, node):
        h = self.intercepts.get("dynamic")
        if h:
            r = h(self, fv, args, kwargs, s, node)
            if r is not None:
                return r
        # dispatch through a dictionary of known functions: {..}[key] / .get(key)
        alts = self.dispatch_targets(fv, s)
        if alts:
            out = []
            for a in alts:
                out.extend(self.call(a, args, kwargs, s, node))
            return out
        A = tuple(self.reify(a, s) for a in args) + self.kwterms(kwargs, s)
        F = self.reify(fv, s)
        s = self.may_raise(s, ("Exception",), node, ("a", "result", F) + A)
        s = s.event(("dyncall", F, A))
        res = ("a", "result", F) + A + (("n", sum(1 for e in s.events if e[0] == "dyncall" and e[1] == F)),)
        return [(s, res)]

    def dispatch_targets(self, fv, s):
        if fv[0] == "a" and fv[1] == "getitem" and isinstance(fv[2], tuple):
            d = fv[2]
            if d[0] == "lit" and d[1] == "dict" and d[2] and d[2][0] == "pairs" and not d[3]:
                vals = [v for _, v in d[2][1:]]
                if vals and all(v[0] in ("fn", "clo", "bound", "lam") for v in vals):
                    seen = []
                    for v in vals:
                        if v not in seen:
                            seen.append(v)
                    return seen
        return None

    def call_class(self, fv, args, kwargs, s, node):
        h = self.intercepts.get("cls:" + fv[2])
        if h:
            r = h(self, args, kwargs, s, node)
            if r is not None:
                return r
        obj = self.new("inst", ("inst", fv[1], fv[2]), node, s)
        ci = self.p.modules[fv[1]].classes[fv[2]]
        init = ci.methods.get("__init__")
        A = tuple(self.reify(a, s) for a in args) + self.kwterms(kwargs, s)
        if init is None or not self.inline or init.key in self.opaque_fns or self.depth() >= self.max_depth or self.recursive(init):
            if init is not None and self.callinfo is not None:
                A = self.named_args(init, (obj,) + A)[1:]
            s = s.event(("construct", fv[2], A))
            return [(s, obj)]
        out = []
        for s2, _ in self.call_fn(init, [obj] + list(args), kwargs, s, node):
            out.append((s2, obj))
        return out

    def depth(self):
        return len(self.stack)

    def recursive(self, fi):
        return any(x[0] is fi for x in self.stack)

    def call_lambda(self, ent, args, kwargs, s, node):
        lam, fi, scopes = ent
        self.fid_counter += 1
        fid = ("lam", self.site(lam), self.depth())
        st = s
        a = lam.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = dict(zip(names, args))
        for k, v in kwargs:
            if k:
                vals[k] = v
        defaults = a.defaults
        for n, d in zip(names[len(names) - len(defaults):], defaults):
            if n not in vals:
                r = self.eval(d, st)
                st, vals[n] = r[0]
        for n, v in vals.items():
            st = st.setvar((fid, n), v)
        self.stack.append((fi, fid, scopes))
        try:
            res = self.eval(lam.body, st)
        finally:
            self.stack.pop()
        return [(self.drop(s2, fid), v) for s2, v in res]

    def drop(self, s, fid):
        env = {k: v for k, v in s.env.items() if k[0] != fid}
        return State(env, s.heap, s.facts, s.events)

    def call_fn(self, fi, args, kwargs, s, node, scopes=()):
        h = self.intercepts.get(fi.key) or self.intercepts.get(fi.qualname) or self.intercepts.get(fi.name if fi.cls is None else None)
        if h:
            r = h(self, fi, args, kwargs, s, node)
            if r is not None:
                return r
        if (not self.inline or fi.key in self.opaque_fns or self.depth() >= self.max_depth
                or self.recursive(fi) or any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(fi.node))):
            self.may_raise(s, ("Exception",), node)
            A = tuple(self.reify(a, s) for a in args) + self.kwterms(kwargs, s)
            self.unresolved.add(fi.key)
            if self.callinfo is not None:
                A = self.named_args(fi, A)
                if not self.callinfo.effects(fi.key):
                    return [(s, ("a", "call:" + fi.key) + A)]
                s = s.event(("ocall", fi.key, A, self.visible(fi.key, s)))
                return [(s, ("a", "call:" + fi.key) + A
                         + (("n", sum(1 for e in s.events if e[0] == "ocall" and e[1] == fi.key)),))]
            s = s.event(("ocall", fi.key, A))
            return [(s, ("a", "call:" + fi.key) + A)]
        self.inlined.add(fi.key)
        b = self.bind_args(fi, args, kwargs, s, node, scopes)
        if b is None:
            # a required argument is not given
            self.may_raise(s, ("TypeError",), node, ("a", "badcall", K(fi.name)))
            return []
        s2, fid = b
        outs = self.run_body(fi, s2, fid, scopes)
        return [(self.drop(o[0], fid) if not self.escapes(o[1], o[0], fid) else o[0], o[1]) for o in outs]

    def named_args(self, fi, A):
        """arguments of a call by parameter, defaults that are constants filled in"""
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if a.vararg or a.kwarg or any(x[0] == "star" or (x[0] == "kw" and x[1] is None) for x in A):
            return A
        out = {}
        pos = [x for x in A if x[0] != "kw"]
        for n, v in zip(names, pos):
            out[n] = v
        for x in A:
            if x[0] == "kw":
                out[x[1]] = x[2]
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if n not in out and isinstance(d, ast.Constant):
                out[n] = K(d.value)
            elif n not in out and isinstance(d, (ast.List, ast.Dict, ast.Tuple)) and not ast.dump(d).count("Constant("):
                out[n] = ("lit", type(d).__name__.lower(), ("items" if not isinstance(d, ast.Dict) else "pairs",), ())
        return tuple(("arg", n, out[n]) for n in names if n in out)

    def visible(self, key, s):
        """the pending writes the callee may look at"""
        names = self.callinfo.mentions(key)
        out = []
        for o, log in s.heap.items():
            if o[0] == "new":
                continue
            path = [x[3] for x in subterms(o) if x[:2] == ("a", "attr") and len(x) == 4]
            if any(isinstance(n, str) and n not in names for n in path):
                continue
            keep = []
            for e in log:
                if e[0] in ("set", "attr", "del"):
                    k = e[1]
                    n = k if isinstance(k, str) else (k[2] if is_k(k) else None)
                    if isinstance(n, str) and n not in names:
                        continue
                keep.append(self.reify_entry(e, s, 0))
            if keep:
                out.append((o, tuple(keep)))
        return tuple(sorted(out, key=repr))

    def escapes(self, v, s, fid):
        def pred(x):
            return x[0] in ("clo", "lam") if x else False
        return isinstance(v, tuple) and mentions(v, pred)

    def bind_args(self, fi, args, kwargs, s, node, scopes=()):
        a = fi.node.args
        fid = (fi.key, self.depth())
        pos = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        extra = []
        star_unknown = None
        i = 0
        for v in args:
            if v[0] == "star":
                items = self.concrete_items(v[1], s)
                if v[1][0] == "tup":
                    items = list(v[1][1:])
                if items is not None:
                    for x in items:
                        if i < len(pos):
                            vals[pos[i]] = x
                            i += 1
                        else:
                            extra.append(x)
                else:
                    star_unknown = v[1]
                continue
            if star_unknown is not None:
                continue
            if i < len(pos):
                vals[pos[i]] = v
                i += 1
            else:
                extra.append(v)
        star_first = i
        kwextra = []
        kw_unknown = None
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs:
            if k is None:
                if v[0] == "new" and self.init.get(v, ("?",))[0] == "pairs" and not s.heap.get(v):
                    for kk, vv in self.init[v][1:]:
                        if is_k(kk) and kk[2] in pos + kwonly:
                            vals[kk[2]] = vv
                        else:
                            kwextra.append((kk, vv))
                else:
                    kw_unknown = v
            elif k in pos or k in kwonly:
                vals[k] = v
            else:
                kwextra.append((K(k), v))
        # unresolved spreads: missing parameters are unknown
        defaults = a.defaults
        dmap = dict(zip(pos[len(pos) - len(defaults):], defaults))
        dmap.update({k: d for k, d in zip(kwonly, a.kw_defaults) if d is not None})
        for idx, n in enumerate(pos + kwonly):
            if n in vals:
                continue
            if star_unknown is not None and n in pos and idx >= star_first:
                vals[n] = ("a", "getitem", self.reify(star_unknown, s), K(idx - star_first))
            elif kw_unknown is not None:
                vals[n] = ("a", "kwget", self.reify(kw_unknown, s), K(n))
            elif n in dmap:
                self.stack.append((fi, ("defaults", fi.key), scopes))
                try:
                    r = self.eval(dmap[n], s)
                finally:
                    self.stack.pop()
                s, vals[n] = r[0]
            else:
                return None
        for n, v in vals.items():
            s = s.setvar((fid, n), v)
        if a.vararg:
            if star_unknown is not None and not extra and star_first >= len(pos):
                s = s.setvar((fid, a.vararg.arg), star_unknown if star_first == len(pos) else ("a", "rest", star_unknown))
            elif star_unknown is not None:
                s = s.setvar((fid, a.vararg.arg), ("a", "rest", self.reify(star_unknown, s), K(len(pos))))
            else:
                s = s.setvar((fid, a.vararg.arg), ("tup",) + tuple(extra))
        elif extra:
            return None
        if a.kwarg:
            if kw_unknown is not None:
                s = s.setvar((fid, a.kwarg.arg), self.reify(kw_unknown, s) if kw_unknown[0] != "new" else kw_unknown)
            else:
                d = self.new_at(("kwargs", fi.key, self.depth()), "dict", ("pairs",) + tuple(kwextra))
                s = s.setvar((fid, a.kwarg.arg), d)
        elif kwextra:
            return None
        return s, fid

    def new_at(self, site, kind, content):
        n = 0
        while True:
            t = ("new", site + (n,), kind)
            if t not in self.init or self.init[t] == content:
                self.init[t] = content
                return t
            n += 1

    def run_body(self, fi, s, fid, scopes=()):
        self.stack.append((fi, fid, tuple(scopes)))
        saved_try = self.try_depth
        try:
            flow = self.block(fi.node.body, [s])
        finally:
            self.stack.pop()
            self.try_depth = saved_try
        outs = [(st, v) for st, v, _ in flow.ret]
        outs += [(st, NONE) for st in flow.normal]
        self.last_returns = [(st, v, n) for st, v, n in flow.ret] + [(st, NONE, None) for st in flow.normal]
        # merge equal results
        groups = {}
        for st, v in outs:
            groups.setdefault(v, []).append(st)
        res = []
        for v, sts in groups.items():
            if len(sts) > 1:
                # the callee's locals no longer matter
                sts = [self.drop(x, fid) if not self.escapes(v, x, fid) else x for x in sts]
                sts = self.dedupe(sts)
            res.extend((x, v) for x in sts)
        return res

    def call_method(self, b, m, args, kwargs, s, node):
        h = self.intercepts.get("method:" + m)
        if h:
            r = h(self, b, args, kwargs, s, node)
            if r is not None:
                return r
        kind = self.kind(b, s)
        R = [self.reify(a, s) for a in args]
        if kind == "str" or (kind is None and m in STR_METHODS and m not in MUTATORS) or is_k(b):
            return self.str_method(b, m, args, R, kwargs, s, node)
        if m == "get" and 1 <= len(args) <= 2:
            default = args[1] if len(args) > 1 else NONE
            out = []
            if b[0] == "scope":
                v = self.registry_item(b, args[0])
                return [(s, v)]
            for s2, present in self.member(args[0], b, s, node):
                if present:
                    out.extend(self.getitem(b, args[0], s2, node, raising=False))
                else:
                    out.append((s2, default))
            return out
        if m in ("keys", "items", "values") and not args:
            base = self.reify(b, s)
            if b[0] == "new":
                c = self.init.get(b)
                if c and c[0] == "pairs" and not s.heap.get(b):
                    if m == "items":
                        return [(s, ("tup",) + tuple(("tup", k, v) for k, v in c[1:]))]
                    if m == "keys":
                        return [(s, ("tup",) + tuple(k for k, v in c[1:]))]
                    return [(s, ("tup",) + tuple(v for k, v in c[1:]))]
            return [(s, ("a", m, base if m != "keys" else base))]
        if m == "copy" and not args:
            k2 = kind if kind in MUTABLE_TYPES else "dict"
            return [(s, self.new(k2, ("copyof", b if not s.heap.get(b) and b[0] != "new" else self.snapshot(b, s)), node, s))]
        if m == "append" and len(args) == 1:
            return [(s.write(b, ("append", args[0])), NONE)]
        if m == "extend" and len(args) == 1:
            return [(self.extend(s, b, args[0], R[0]), NONE)]
        if m == "update" and (len(args) <= 1):
            st = s
            if len(args) == 1:
                a0 = args[0]
                c = self.init.get(a0) if a0[0] == "new" else None
                if c and c[0] == "pairs" and all(e[0] == "set" for e in s.heap.get(a0, ())):
                    for k, v in c[1:]:
                        st = self.set_item(b, k, v, st, node)
                    for e in s.heap.get(a0, ()):
                        st = self.set_item(b, e[1], e[2], st, node)
                else:
                    st = st.write(b, ("upd", R[0]))
            for k, v in kwargs:
                if k is None:
                    st = st.write(b, ("upd", self.reify(v, s)))
                else:
                    st = self.set_item(b, K(k), v, st, node)
            return [(st, NONE)]
        if m == "setdefault" and args:
            default = args[1] if len(args) > 1 else NONE
            out = []
            for s2, present in self.member(args[0], b, s, node):
                if present:
                    out.extend(self.getitem(b, args[0], s2, node, raising=False))
                else:
                    out.append((self.set_item(b, args[0], default, s2, node), default))
            return out
        if m == "pop":
            if len(args) >= 1 and kind != "list" and not (is_k(R[0]) and isinstance(R[0][2], int)):
                out = []
                for s2, present in self.member(args[0], b, s, node):
                    if present:
                        for s3, v in self.getitem(b, args[0], s2, node, raising=False):
                            out.append((s3.write(b, ("del", self.reify(args[0], s3))), v))
                    elif len(args) > 1:
                        out.append((s2, args[1]))
                    else:
                        new = [(a, x) for a, x in s2.facts.items() if s.facts.get(a) is not x]
                        self.may_raise(s2, ("KeyError",), node,
                                       ("a", "crash", new[0][0], K(new[0][1])) if len(new) == 1 else None)
                return out
            self.may_raise(s, ("IndexError",), node)
            v = ("a", "popped", self.reify(b, s)) + tuple(R)
            # with one argument, what it does to the object is what `del b[k]` does
            entry = ("delat", R[0]) if len(R) == 1 else ("call", "pop", tuple(R))
            return [(s.write(b, entry), v)]
        if m in MUTATORS:
            entry = ("call", m, tuple(R))
            if m == "remove" and len(args) == 1 and [x for _, x in self.member(args[0], b, s, node)] == [True]:
                # what is there is removed either way
                entry = ("call", "discard", tuple(R))
            elif m in ("remove", "popitem"):
                self.may_raise(s, ("ValueError", "KeyError"), node)
            if m == "add" and len(R) == 1:
                entry = ("append", R[0])
            s = s.write(b, entry)
            return [(s, NONE if m not in ("popitem", "write") else ("a", "m:" + m, self.reify(b, s)))]
        # bound method of an instance of a class of the package reached through a term
        B = self.reify(b, s)
        t = ("a", "m:" + m, B) + tuple(R) + self.kwterms(kwargs, s)
        t = self.case_last(t)
        if m in ("search", "match", "fullmatch", "sub", "findall", "finditer", "split") and B[0] == "a" and B[1] == "call:re.compile":
            t = ("a", "call:re." + m, B[2]) + tuple(R) + tuple(B[3:])
            return [(s, t)]
        if m == "__contains__":
            return [(x, K(v)) for x, v in self.member(args[0], b, s, node)]
        if m == "__getitem__":
            return self.getitem(b, args[0], s, node)
        s = self.may_raise(s, ("AttributeError", "TypeError", "Exception"), node, t)
        if self.effectful(m):
            s = s.event(("mcall", m, B) + tuple(t[3:]))
            t = t + (("n", sum(1 for e in s.events if e[0] == "mcall" and e[1] == m)),)
        return [(s, t)]

    PURE_METHODS = STR_METHODS | {
        "group", "groups", "groupdict", "span", "start", "end", "isEnabledFor", "index",
        "lower", "union", "intersection", "difference", "find", "findall", "is_alive",
        "iter", "getroot", "findtext", "overlaps", "isoformat", "total_seconds", "to_text",
    }

    def effectful(self, m):
        return m not in self.PURE_METHODS

    def str_method(self, b, m, args, R, kwargs, s, node):
        B = self.reify(b, s)
        if m == "format" and is_k(B):
            if any(k is None for k, _ in kwargs) or any(a[0] == "star" for a in args):
                self.may_raise(s, ("KeyError", "IndexError"), node)
                return [(s, ("a", "fmt", B) + tuple(R) + self.kwterms(kwargs, s))]
            return [(s, str_format(B[2], R, {k: self.reify(v, s) for k, v in kwargs}))]
        if m == "format":
            s = self.may_raise(s, ("KeyError", "IndexError", "ValueError"), node, ("a", "fmt", B))
            return [(s, ("a", "fmt", B) + tuple(R) + self.kwterms(kwargs, s))]
        if is_k(B) and all(is_k(r) for r in R) and not kwargs and B[1] == "str" and m in (
            "strip", "lower", "upper", "lstrip", "rstrip", "replace", "startswith", "endswith", "title", "isdigit"
        ):
            try:
                return [(s, K(getattr(B[2], m)(*[r[2] for r in R])))]
            except Exception:
                pass
        if m == "split" and is_k(B) and all(is_k(r) for r in R):
            return [(s, self.new("list", ("items",) + tuple(K(x) for x in B[2].split(*[r[2] for r in R])), node, s))]
        self.may_raise(s, ("AttributeError", "TypeError"), node)
        t = ("a", "m:" + m, B) + tuple(R) + self.kwterms(kwargs, s)
        return [(s, self.case_last(t))]

    @staticmethod
    def case_last(t):
        """white space has no case: stripping and changing case commute"""
        if len(t) == 3 and t[1] in ("m:strip", "m:lstrip", "m:rstrip"):
            B = t[2]
            if B[:1] == ("a",) and len(B) == 3 and B[1] in ("m:lower", "m:upper"):
                return ("a", B[1], ("a", t[1], B[2]))
        return t

    def snapshot(self, b, s):
        return self.reify(b, s)

    def call_builtin(self, name, args, kwargs, s, node):
        R = [self.reify(a, s) for a in args]
        h = self.intercepts.get("builtin:" + name)
        if h:
            r = h(self, args, kwargs, s, node)
            if r is not None:
                return r
        if name == "len" and len(args) == 1:
            x = self.strip_seq(R[0])
            if x[0] == "tup":
                return [(s, K(len(x) - 1))]
            if x[0] == "lit" and not x[3] and x[2] and x[2][0] in ("items", "pairs"):
                return [(s, K(len(x[2]) - 1))]
            if x[0] == "a" and x[1] == "map" and x[4] == ("true",):
                x = x[2]
            return [(s, ("a", "len", x))]
        if name in ("list", "tuple", "set", "frozenset", "sorted", "reversed", "iter"):
            if not args:
                return [(s, self.new(name if name in MUTABLE_TYPES else "list", ("items",), node, s))]
            if args[0][0] == "star":
                pass
            elif name in ("list",):
                items = self.concrete_items(args[0], s)
                if items is not None:
                    return [(s, self.new("list", ("items",) + tuple(items), node, s))]
                if R[0][:2] == ("a", "map"):
                    return [(s, self.new("list", R[0][1:], node, s))]
                return [(s, self.new("list", ("seq", R[0]), node, s))]
            elif name == "tuple":
                if R[0][0] == "tup":
                    return [(s, R[0])]
                if R[0][0] == "lit" and not R[0][3] and R[0][2] and R[0][2][0] in ("map", "mapcases"):
                    return [(s, ("a", "tuple", ("a",) + R[0][2]))]
                return [(s, ("a", "tuple", R[0]))]
            elif name == "iter":
                return [(s, ("a", "iter", R[0]))]
            elif name == "reversed":
                return [(s, ("a", "reversed", R[0]))]
            elif name == "sorted":
                return [(s, self.new("list", ("sorted", self.strip_seq(R[0])) + self.kwterms(kwargs, s), node, s))]
            else:
                return [(s, self.new("set", ("setof", self.strip_seq(R[0])), node, s))]
        if name == "dict":
            if not args:
                st = s
                d = self.new("dict", ("pairs",) + tuple((K(k), v) for k, v in kwargs if k), node, st)
                for k, v in kwargs:
                    if k is None:
                        st = st.write(d, ("upd", self.reify(v, s)))
                return [(st, d)]
            d = self.new("dict", ("copyof", R[0]), node, s)
            st = s
            for k, v in kwargs:
                if k is None:
                    c = self.init.get(v) if v[0] == "new" else None
                    if c and c[0] == "pairs" and not s.heap.get(v):
                        for kk, vv in c[1:]:
                            st = st.write(d, ("set", kk, vv))
                    else:
                        st = st.write(d, ("upd", self.reify(v, s)))
                else:
                    st = st.write(d, ("set", K(k), v))
            return [(st, d)]
        if name == "bool" and len(args) == 1:
            return [(x, K(v)) for x, v in self.branch(s, args[0])]
        if name == "str" and len(args) == 1:
            if is_k(R[0]):
                return [(s, K(str(R[0][2])))]
            if self.kind(args[0], s) == "str":
                return [(s, args[0])]
            return [(s, ("a", "call:str", R[0]))]
        if name in ("any", "all") and len(args) == 1:
            return self.any_all(name, args[0], R[0], s, node)
        if name == "isinstance" and len(args) == 2:
            ty = R[1]
            if ty[0] == "tup" and len(ty) > 2:
                out = []
                todo = [s]
                for one in ty[1:]:
                    nxt = []
                    for x in todo:
                        for x2, b in self.is_a(R[0], one, x):
                            if b:
                                out.append((x2, TRUE))
                            else:
                                nxt.append(x2)
                    todo = nxt
                out.extend((x, FALSE) for x in todo)
                return out
            return [(x, K(b)) for x, b in self.is_a(R[0], ty, s)]
        if name in ("int", "float") and len(args) == 1:
            if is_k(R[0]) and isinstance(R[0][2], (int, float)):
                return [(s, K(int(R[0][2]) if name == "int" else float(R[0][2])))]
            if self.kind(args[0], s) == name:
                return [(s, args[0])]
            t = ("a", "call:" + name, R[0])
            digit = ("a", "m:isdigit", R[0])
            if s.facts.get(digit) is not True:
                s = self.may_raise(s, ("ValueError", "TypeError"), node, t)
            return [(s, t)]
        if name == "enumerate" and args:
            return [(s, ("a", "enumerate", self.strip_seq(R[0])))]
        if name == "getattr" and len(args) >= 2:
            if is_k(R[1]):
                return [(s, self.getattr(args[0], R[1][2], s, node))]
            self.may_raise(s, ("AttributeError",), node)
            return [(s, ("a", "dynattr", R[0], R[1]) + tuple(R[2:]))]
        if name == "setattr" and len(args) == 3:
            if is_k(R[1]):
                return [(self.set_attr(args[0], R[1][2], args[2], s, node), NONE)]
            return [(s.write(args[0], ("call", "setattr", tuple(R[1:]))), NONE)]
        if name == "print":
            return [(s.event(("print",) + tuple(R)), NONE)]
        if name == "range":
            return [(s, ("a", "range") + tuple(R))]
        if name in ("abs", "min", "max", "sum", "round", "bin", "hex", "ord", "chr", "repr", "type", "id",
                    "hash", "zip", "map", "filter", "vars", "dir", "callable", "hasattr", "issubclass", "divmod",
                    "pow", "format", "slice", "super", "object", "globals", "locals", "unicode", "bytes", "next"):
            if name == "abs" and is_k(R[0]):
                return [(s, K(abs(R[0][2])))]
            if name == "next" and R and R[0][:2] == ("a", "call:re.finditer") and (len(R) == 1 or R[1:] == (NONE,)):
                # the first match, if any
                t = ("a", "call:re.search") + R[0][2:]
                if len(R) == 2:
                    return [(s, t)]
                at = self.atom("truth", t)
                if self.try_depth or not isinstance(at, bool) and self.watch and self.plain(at[0]) in self.watch:
                    sf = self.assume(s, at, False)
                    if sf is not None:
                        self.raises[-1].append((sf, ("StopIteration",), node, t, self.fn.key))
                    st = self.assume(s, at, True)
                    return [(st, t)] if st is not None else []
                self.may_raise(s, ("StopIteration",), node)
                return [(s, t)]
            if name == "next":
                self.may_raise(s, ("StopIteration",), node)
            if name in ("min", "max") and len(args) == 2 and not kwargs:
                # the first one, unless the second goes beyond it
                x, y = (R[1], R[0]) if name == "min" else (R[0], R[1])
                return [(st, args[1] if b else args[0]) for st, b in self._split(s, self.atom("<", x, y))]
            if name in ("sum", "min", "max"):
                self.may_raise(s, ("TypeError", "ValueError"), node)
            if name == "filter" and len(args) == 2 and R[0] == NONE:
                pass
            t = ("a", "call:" + name) + tuple(R) + self.kwterms(kwargs, s)
            if name in ("callable", "hasattr", "issubclass"):
                return [(x, K(b)) for x, b in self._split(s, (t, True))]
            return [(s, t)]
        exc = exc_class(name)
        if exc:
            return [(s, ("a", "exc:" + name) + tuple(R))]
        self.may_raise(s, ("Exception",), node)
        s = s.event(("bcall", name, tuple(R)))
        return [(s, ("a", "call:" + name) + tuple(R))]

    def is_a(self, x, ty, s):
        if ty == ("b", "bool") and self.kind(x) is None:
            # there are only two of them
            out, todo = [], [s]
            for c in (TRUE, FALSE):
                nxt = []
                for st in todo:
                    for st2, b in self._split(st, self.atom("is", x, c)):
                        if b:
                            out.append((st2, True))
                        else:
                            nxt.append(st2)
                todo = nxt
            return out + [(st, False) for st in todo]
        return self._split(s, self.bool_atom(("a", "call:isinstance", x, ty)))

    def any_all(self, name, arg, R, s, node):
        it = None
        if R[0] == "a" and R[1] == "map":
            it, val, c = R[2], R[3], R[4]
            if val[0] == "a" and val[1] == "boolfn":
                body = val[2]
            elif val == TRUE:
                body = ("true",)
            elif val == FALSE:
                body = ("false",)
            else:
                r = self.atom("truth", val)
                body = ("true",) if r is True else ("false",) if r is False else boolfn.tt_from_dnf([{r[0]: r[1]}])
            if boolfn.tt_decided(body) and boolfn.tt_decided(c):
                if name == "any":
                    conj = and_tt(body, c)
                    if conj is not None:
                        return [(x, K(b)) for x, b in self._split(s, self.quant(it, conj))]
                else:
                    conj = and_tt(boolfn.tt_not(body), c)
                    if conj is not None:
                        return [(x, K(not b)) for x, b in self._split(s, self.quant(it, conj))]
        if R[0] == "tup":
            out = []
            todo = [s]
            stop = name == "any"
            for v in R[1:]:
                nxt = []
                for x in todo:
                    for x2, b in self.branch(x, v):
                        if b == stop:
                            out.append((x2, K(stop)))
                        else:
                            nxt.append(x2)
                todo = nxt
            out.extend((x, K(not stop)) for x in todo)
            return out
        if R[0] == "a" and R[1] == "mapcases":
            it, cases = R[2], R[3]
            tot = None
            dnf_fns = []
            for rv, c in cases:
                r = self.atom("truth", rv)
                body = ("true",) if r is True else ("false",) if r is False else boolfn.tt_from_dnf([{r[0]: r[1]}])
                if name == "all":
                    body = boolfn.tt_not(body)
                conj = and_tt(body, c)
                if conj is None:
                    break
                dnf_fns.append(conj)
            else:
                o = or_tt(dnf_fns)
                if o is not None:
                    return [(x, K(b if name == "any" else not b)) for x, b in self._split(s, self.quant(it, o))]
        bv_truth = boolfn.tt_from_dnf([{("a", "truth", ("bv",)): True}])
        if name == "any":
            return [(x, K(b)) for x, b in self._split(s, self.quant(self.strip_seq(R), bv_truth))]
        return [(x, K(not b)) for x, b in self._split(s, self.quant(self.strip_seq(R), boolfn.tt_not(bv_truth)))]

    def kwterms(self, kwargs, s):
        """keyword arguments in a normal form: order does not matter, ** of a known dictionary is spelled out"""
        named, rest = [], []
        for k, v in kwargs:
            v = self.reify(v, s)
            if k is not None:
                named.append(("kw", k, v))
                continue
            while v[0] == "lit" and v[1] == "dict" and v[2][:1] == ("copyof",) and not v[3]:
                v = v[2][1]
            if v[0] == "lit" and v[1] == "dict" and v[2][:1] == ("pairs",) and not v[3] and all(
                    is_k(p[0]) and p[0][1] == "str" for p in v[2][1:]):
                named.extend(("kw", p[0][2], p[1]) for p in v[2][1:])
            elif not (v == ("lit", "dict", ("pairs",), ())):
                rest.append(("kw", None, v))
        return tuple(sorted(named, key=lambda e: e[1])) + tuple(rest)

    def call_ext(self, name, args, kwargs, s, node):
        h = self.intercepts.get("ext:" + name)
        if h:
            r = h(self, args, kwargs, s, node)
            if r is not None:
                return r
        R = tuple(self.reify(a, s) for a in args)
        KW = self.kwterms(kwargs, s)
        if name in ("copy.copy", "copy.deepcopy"):
            return [(s, self.new("copy", (name.split(".")[1], R[0]), node, s))]
        if name == "collections.OrderedDict" and not args:
            return [(s, self.new("dict", ("pairs",), node, s))]
        if name in ("re.search", "re.match", "re.fullmatch", "re.sub", "re.findall", "re.finditer",
                    "re.compile", "re.escape", "re.split"):
            t = ("a", "call:" + name) + R + KW
            if name != "re.escape":
                s = self.may_raise(s, ("TypeError",) if good_regex(R) else ("error", "TypeError"), node, t)
            return [(s, t)]
        if name.startswith("ipaddress."):
            t = ("a", "call:" + name) + R + KW
            s = self.may_raise(s, ("ValueError",), node, t)
            return [(s, t)]
        if name.split(".")[0] in ("logging", "traceback"):
            return [(s, ("a", "call:" + name) + R)]
        if name in BOOL_CALLS:
            at = ("a", "call:" + name) + R
            return [(x, K(b)) for x, b in self._split(s, (at, True))]
        s = self.may_raise(s, ("Exception",), node, ("a", "call:" + name) + R)
        if name.startswith(("time.", "datetime.", "os.path.", "os.getenv", "os.environ.", "os.listdir", "os.getcwd")):
            # reads of the environment
            return [(s, ("a", "call:" + name) + R + KW)]
        if name.startswith(("random.", "os.")):
            s = s.event(("ext", name, R + KW))
            k = sum(1 for e in s.events if e[:2] == ("ext", name))
            return [(s, ("a", "call:" + name) + R + KW + (("n", k),))]
        s = s.event(("ext", name, R + KW))
        return [(s, ("a", "call:" + name) + R + KW)]

    # ------------------------------------------------------------- statements
    def block(self, stmts, states):
        flow = Flow(list(states))
        for st in stmts:
            if not flow.normal:
                break
            cur = flow.normal
            flow.normal = []
            for s in cur:
                f = self.stmt(st, s)
                flow.normal.extend(f.normal)
                flow.absorb(f)
            flow.normal = self.dedupe(flow.normal)
            if len(flow.ret) > self.cap * 4:
                flow.ret = self.dedupe_rets(flow.ret)
        return flow

    def dedupe_rets(self, rets):
        groups = {}
        for s, v, n in rets:
            groups.setdefault((v, id(n)), (v, n, []))[2].append(s)
        out = []
        for v, n, sts in groups.values():
            out.extend((s, v, n) for s in self.dedupe(sts))
        return out

    def stmt(self, node, state):
        self.steps += 1
        m = getattr(self, "s_" + type(node).__name__, None)
        if m is None:
            self.imp("statement " + type(node).__name__, node)
            return Flow([state])
        return m(node, state)

    def s_Pass(self, node, state):
        return Flow([state])

    s_Global = s_Nonlocal = s_Pass

    def s_Import(self, node, state):
        for a in node.names:
            name = a.asname or a.name.split(".")[0]
            state = state.setvar((self.fid, name), self.imported(a.name if a.asname else a.name.split(".")[0]))
        state = self.may_raise(state, ("ImportError",), node, ("a", "import", K(", ".join(a.name for a in node.names))))
        return Flow([state])

    def s_ImportFrom(self, node, state):
        from .program import resolve_relative
        base = resolve_relative(self.fn.module.name, node)
        state = self.may_raise(state, ("ImportError",), node, ("a", "import", K(base)))
        for a in node.names:
            state = state.setvar((self.fid, a.asname or a.name), self.imported(base + "." + a.name))
        return Flow([state])

    def s_FunctionDef(self, node, state):
        fi = self.fn.nested.get(node.name)
        # several nested functions may share a name: match the node
        if fi is None or fi.node is not node:
            fi2 = FunctionInfo(self.fn.module, self.fn.qualname + ".<locals>." + node.name, node, self.fn.cls, self.fn)
            fi = fi2
            self.p.__dict__.setdefault("_fnkeys", {})
            self.fn_by_key("")
            self.p._fnkeys[fi.key] = fi
        v = ("clo", fi.key, (self.fid,) + self.stack[-1][2])
        return Flow([state.setvar((self.fid, node.name), v)])

    def s_ClassDef(self, node, state):
        return Flow([state.setvar((self.fid, node.name), self.fresh("class", node))])

    def s_Expr(self, node, state):
        if isinstance(node.value, ast.Constant):
            return Flow([state])
        if isinstance(node.value, (ast.ListComp, ast.SetComp)) and not any(
                g.is_async for g in node.value.generators):
            return self.stmt(self.as_loop(node.value), state)
        return Flow([s for s, _ in self.eval(node.value, state)])

    def as_loop(self, comp):
        """a comprehension whose result is dropped is a loop"""
        cache = self.p.__dict__.setdefault("_loops_of_comps", {})
        if id(comp) not in cache:
            body = ast.copy_location(ast.Expr(value=comp.elt), comp.elt)
            for g in reversed(comp.generators):
                for c in reversed(g.ifs):
                    body = ast.copy_location(ast.If(test=c, body=[body], orelse=[]), c)
                body = ast.copy_location(
                    ast.For(target=g.target, iter=g.iter, body=[body], orelse=[], type_comment=None), g.target)
            cache[id(comp)] = (comp, ast.fix_missing_locations(body))
        return cache[id(comp)][1]

    def s_Assign(self, node, state):
        out = []
        for s, v in self.eval(node.value, state):
            cur = [s]
            for t in node.targets:
                cur = [x for y in cur for x in self.assign(t, v, y, node)]
            out.extend(cur)
        return Flow(out)

    def assign(self, target, val, s, node):
        """[state]: the target itself may be worked out in several ways"""
        if isinstance(target, ast.Attribute):
            return [self.set_attr(b, target.attr, val, s2, target) for s2, b in self.eval(target.value, s)]
        if isinstance(target, ast.Subscript):
            return [self.set_item(b, k, val, s2, target)
                    for s2, (b, k) in self.eval_many([target.value, target.slice], s)]
        return [self.bind_target(target, val, s, node)]

    def s_AnnAssign(self, node, state):
        if node.value is None:
            return Flow([state])
        return Flow([x for s, v in self.eval(node.value, state) for x in self.assign(node.target, v, s, node)])

    def s_AugAssign(self, node, state):
        out = []
        load = _as_load(node.target)
        op = type(node.op).__name__
        for s, cur in self.eval(load, state):
            for s2, v in self.eval(node.value, s):
                k = self.kind(cur, s2)
                if op == "Add" and (k == "list" or (k is None and self.kind(v, s2) == "list")):
                    s3 = self.extend(s2, cur, v, self.reify(v, s2))
                    # in-place: the name keeps the same object
                    if not isinstance(node.target, ast.Name):
                        pass
                    out.append(s3)
                    continue
                res = self.binop(op, cur, v, s2, node)
                out.extend(self.assign(node.target, res, s2, node))
        return Flow(out)

    def s_Delete(self, node, state):
        states = [state]
        for t in node.targets:
            nxt = []
            for s in states:
                if isinstance(t, ast.Name):
                    nxt.append(s.delvar((self.fid, t.id)))
                elif isinstance(t, ast.Subscript):
                    for s2, (b, k) in self.eval_many([t.value, t.slice], s):
                        self.may_raise(s2, ("KeyError", "IndexError"), node)
                        kt = self.reify(k, s2)
                        # removing an item of a list moves the ones after it
                        at = self.kind(b, s2) == "list" or is_k(kt) and isinstance(kt[2], int)
                        nxt.append(s2.write(b, ("delat" if at else "del", kt)))
                elif isinstance(t, ast.Attribute):
                    for s2, b in self.eval(t.value, s):
                        nxt.append(s2.write(b, ("delattr", t.attr)))
                else:
                    nxt.append(s)
            states = nxt
        return Flow(states)

    def s_Return(self, node, state):
        f = Flow()
        if node.value is None:
            f.ret.append((state, NONE, node))
        else:
            for s, v in self.eval(node.value, state):
                f.ret.append((s, v, node))
        return f

    def s_Raise(self, node, state):
        name = "Exception"
        if node.exc is not None:
            e = node.exc.func if isinstance(node.exc, ast.Call) else node.exc
            if isinstance(e, ast.Name):
                name = e.id
            elif isinstance(e, ast.Attribute):
                name = e.attr
        elif getattr(self, "current_exc", None):
            for t in self.current_exc:
                self.raises[-1].append((state, (t,), node, ("explicit",), self.fn.key))
            return Flow()
        self.raises[-1].append((state, (name,), node, ("explicit",), self.fn.key))
        return Flow()

    def s_Assert(self, node, state):
        out = []
        for s, b in self.cond(node.test, state):
            if b:
                out.append(s)
            else:
                self.raises[-1].append((s, ("AssertionError",), node, ("explicit",), self.fn.key))
        return Flow(out)

    def s_If(self, node, state):
        flow = Flow()
        yes, no = [], []
        for s, b in self.cond(node.test, state):
            (yes if b else no).append(s)
        for sts, body in ((yes, node.body), (no, node.orelse)):
            if sts:
                sts = self.dedupe(sts)
                f = self.block(body, sts) if body else Flow(sts)
                flow.normal.extend(f.normal)
                flow.absorb(f)
        return flow

    def s_Break(self, node, state):
        f = Flow()
        f.brk.append(state)
        return f

    def s_Continue(self, node, state):
        f = Flow()
        f.cont.append(state)
        return f

    def s_With(self, node, state):
        states = [state]
        for item in node.items:
            nxt = []
            for s in states:
                for s2, v in self.eval(item.context_expr, s):
                    s2 = s2.event(("enter", self.reify(v, s2)))
                    if item.optional_vars is not None:
                        s2 = self.bind_target(item.optional_vars, ("a", "enter", v) if v[0] != "new" else v, s2, node)
                    nxt.append(s2)
            states = nxt
        f = self.block(node.body, states)
        f.normal = [s.event(("exit",)) for s in f.normal]
        return f

    def s_Try(self, node, state):
        flow = Flow()
        self.raises.append([])
        self.try_depth += 1
        try:
            body = self.block(node.body, [state])
        finally:
            self.try_depth -= 1
            caught = self.raises.pop()
        # else
        if node.orelse and body.normal:
            f = self.block(node.orelse, self.dedupe(body.normal))
            body.normal = f.normal
            body.absorb(f)
        after = Flow(list(body.normal))
        after.absorb(body)
        # group raise entries by handler
        hstates = {}
        for (s, types, n, term, where) in caught:
            remaining = list(types)
            escaped = []
            for ty in remaining:
                done = False
                for hi, h in enumerate(node.handlers):
                    names = handler_names(h)
                    verdicts = [handler_catches(x, ty) for x in names]
                    if "yes" in verdicts:
                        hstates.setdefault(hi, []).append((s, ty, n, term, where))
                        done = True
                        break
                    if "maybe" in verdicts:
                        hstates.setdefault(hi, []).append((s, ty, n, term, where))
                if not done:
                    escaped.append(ty)
            if escaped:
                self.raises[-1].append((s, tuple(escaped), n, term, where))
        for hi, ents in sorted(hstates.items()):
            h = node.handlers[hi]
            uniq = {}
            for (s, ty, n, term, where) in ents:
                uniq.setdefault(s.key(), (s, set()))[1].add(ty)
            sts = []
            for s, tys in uniq.values():
                if h.name:
                    s = s.setvar((self.fid, h.name), ("a", "caught", K("exc")))
                sts.append(s.event(("handler", self.site(h)[:2])) if False else s)
            sts = self.dedupe(sts)
            saved = getattr(self, "current_exc", None)
            self.current_exc = sorted({ty for (_, ty, _, _, _) in ents})
            try:
                f = self.block(h.body, sts)
            finally:
                self.current_exc = saved
            after.normal.extend(f.normal)
            after.absorb(f)
        if node.finalbody:
            fin = Flow()
            if after.normal:
                f = self.block(node.finalbody, self.dedupe(after.normal))
                fin.normal.extend(f.normal)
                fin.absorb(f)
            for s, v, n in after.ret:
                f = self.block(node.finalbody, [s])
                fin.ret.extend((x, v, n) for x in f.normal)
                fin.absorb(f)
            for attr in ("brk", "cont"):
                for s in getattr(after, attr):
                    f = self.block(node.finalbody, [s])
                    getattr(fin, attr).extend(f.normal)
                    fin.absorb(f)
            return fin
        after.normal = self.dedupe(after.normal)
        return after

    # ------------------------------------------------------------------ loops
    def s_While(self, node, state):
        return self.loop(node, state, None)

    def s_For(self, node, state):
        flow = Flow()
        for s, it in self.eval(node.iter, state):
            items = self.concrete_items(it, s)
            spelled = self.spelled_out(node, it, s) if items is None else None
            if items is not None:
                f = self.unrolled(node, s, items)
            elif spelled is not None:
                f = self.stmt(spelled, s)
            else:
                f = self.loop(node, s, it)
            flow.normal.extend(f.normal)
            flow.absorb(f)
        return flow

    def spelled_out(self, node, it, s):
        """a loop over what a nested comprehension has collected is a nested loop"""
        src = self.nested_src.get(it)
        if src is None or node.orelse or s.heap.get(it):
            return None
        comp, before, fid = src
        if fid != self.fid or before.events != s.events or own_break(node.body):
            return None
        if any(lg != before.heap.get(o, ()) for o, lg in s.heap.items() if o[0] != "new"):
            return None
        bound = {n.id for g in comp.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        for n in ast.walk(comp):
            if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) and n is not comp:
                return None
            if isinstance(n, ast.Name) and n.id not in bound and s.env.get((fid, n.id)) != before.env.get((fid, n.id)):
                return None
        cache = self.p.__dict__.setdefault("_spelled_out", {})
        key = (id(comp), id(node))
        if key not in cache:
            def own(n):
                n = copy.deepcopy(n)
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and x.id in bound:
                        x.id = "." + x.id
                return n

            body = [ast.copy_location(ast.Assign(targets=[node.target], value=own(comp.elt), type_comment=None), comp)] + node.body
            for g in reversed(comp.generators):
                for c in reversed(g.ifs):
                    body = [ast.copy_location(ast.If(test=own(c), body=body, orelse=[]), c)]
                body = [ast.copy_location(ast.For(target=own(g.target), iter=own(g.iter), body=body, orelse=[],
                                                  type_comment=None), g.iter)]
            cache[key] = (comp, node, ast.fix_missing_locations(body[0]))
        return cache[key][2]

    def unrolled(self, node, s, items):
        flow = Flow()
        cur = [s]
        for x in items:
            nxt = []
            for st in cur:
                st = self.bind_target(node.target, x, st, node)
                f = self.block(node.body, [st])
                nxt.extend(f.normal)
                nxt.extend(f.cont)
                flow.ret.extend(f.ret)
                flow.normal.extend(f.brk)
            cur = self.dedupe(nxt)
            if not cur:
                break
        if node.orelse and cur:
            f = self.block(node.orelse, cur)
            flow.normal.extend(f.normal)
            flow.absorb(f)
        else:
            flow.normal.extend(cur)
        return flow

    def loop(self, node, state, it):
        isfor = isinstance(node, ast.For)
        lid = self.site(node) + (self.fid,)
        raw = self.iter_term(it, state) if isfor else None
        itc = self.iter_base(raw) if isfor else None
        el = ("el", itc, lid) if isfor else None
        h = self.intercepts.get("loop")
        if h:
            h(self, node, state, it, itc, el)
        if isfor and raw is not None and (state.facts.get(("a", "truth", itc)) is False
                                          or state.facts.get(("a", "truth", raw)) is False):
            # nothing to walk through
            return self.block(node.orelse, [state]) if node.orelse else Flow([state])
        changed_vars = set()
        changed_objs = set()
        body_flow = None
        ev_changed = False
        mark = len(self.loops)
        if lid not in self.loopnames:
            self.loopnames[lid] = ("for", itc) if isfor else (
                "while", sum(1 for x in self.loopnames.values() if x[0] == "while"))
        for _ in range(self.loop_passes):
            del self.loops[mark:]
            entry = self.havoc(state, changed_vars, changed_objs, lid, ev_changed)
            self.raises.append([])
            try:
                skipped = []
                if isfor:
                    starts, skipped = self.chosen(raw, el, entry)
                    starts = [self.bind_target(node.target, self.elem_of(it, raw, el, x), x, node) for x in starts]
                else:
                    starts = [s for s, b in self.cond(node.test, entry) if b]
                body_flow = self.block(node.body, self.dedupe(starts)) if starts else Flow()
            finally:
                rs = self.raises.pop()
            body_flow.cont = body_flow.cont + skipped
            ends = body_flow.normal + body_flow.cont
            nv, no, nev = set(changed_vars), set(changed_objs), ev_changed
            targets = set()
            if isfor:
                targets = {(self.fid, n.id) for n in ast.walk(node.target) if isinstance(n, ast.Name)}
            for e in ends:
                for k, v in e.env.items():
                    if k in targets:
                        continue
                    if entry.env.get(k) != v:
                        if k in entry.env or k in state.env:
                            nv.add(k)
                for k in entry.env:
                    if k not in e.env:
                        nv.add(k)
                for o, lg in e.heap.items():
                    if entry.heap.get(o, ()) != lg:
                        no.add(o)
                for o in entry.heap:
                    if o not in e.heap:
                        no.add(o)
                if e.events != entry.events:
                    nev = True
            # objects allocated in the loop need no havoc
            no = {o for o in no if o[0] != "new" or self._known(o, state)}
            grown = False
            for o in no:
                names = set()
                for e in ends:
                    old, lg = entry.heap.get(o, ()), e.heap.get(o, ())
                    if lg == old:
                        continue
                    if lg[: len(old)] != old or any(x[0] not in ("attr", "havoc") for x in lg[len(old):]):
                        names = None
                        break
                    for x in lg[len(old):]:
                        more = {x[1]} if x[0] == "attr" else self.havoc_attrs.get((x[1], o))
                        names = None if more is None else names | more
                        if names is None:
                            break
                    if names is None:
                        break
                prev = self.havoc_attrs.get((lid, o), "first")
                if prev is None:
                    names = None
                elif prev != "first" and names is not None:
                    names |= prev
                if names != prev:
                    self.havoc_attrs[(lid, o)] = names
                    grown = True
            if nv == changed_vars and no == changed_objs and nev == ev_changed and not grown:
                break
            changed_vars, changed_objs, ev_changed = nv, no, nev
        if changed_objs and all(
                lg[:len(entry.heap.get(o, ()))] == entry.heap.get(o, ())
                and all(x[0] == "del" for x in lg[len(entry.heap.get(o, ())):])
                for e in ends + body_flow.brk for o, lg in e.heap.items() if o in changed_objs):
            self.shrinks.add(lid)
        for r in rs:
            self.raises[-1].append(r)
        self.loops.append((lid, entry, body_flow, frozenset(changed_vars), rs))
        for k in changed_vars:
            v = state.env.get(k)
            self.inits.setdefault(lid, {}).setdefault(k[1], set()).add(self.reify(v, state) if v is not None else None)
        entry = self.havoc(state, changed_vars, changed_objs, lid, ev_changed)
        flow = Flow()
        loopsyms = {("loop", lid, k) for k in changed_vars}
        tm = {el: ("bv",)} if el else {}
        base = entry.facts

        def local_facts(s):
            return {a: v for a, v in s.facts.items() if base.get(a) is not v}

        def body_dnf(states, project=()):
            dnf = []
            for s in states:
                d = {}
                for a, v in local_facts(s).items():
                    if any(mentions(a, lambda x, p=p: x == p) for p in project):
                        continue
                    d[replace_term(a, tm)] = v
                dnf.append(d)
            return boolfn.tt_from_dnf(dnf)

        ends = body_flow.normal + body_flow.cont
        # ---- leaving the loop from inside an iteration
        def leave(s, others=None):
            if not isfor:
                return s
            d = {replace_term(a, tm): v for a, v in local_facts(s).items()}
            pure = {a: v for a, v in d.items() if not mentions(a, lambda x: x in loopsyms)}
            q = self.quant(itc, boolfn.tt_from_dnf([pure])) if pure else True
            facts = dict(s.facts)
            # elements' facts are kept through the quantifier
            for a in list(facts):
                if el is not None and mentions(a, lambda x: x == el) and base.get(a) is None:
                    if not self.keeps_element(s, el):
                        facts.pop(a)
            s2 = s.with_facts(facts)
            if isinstance(q, bool):
                return s2
            k = self.implied(s2.facts, q[0])
            if k is None:
                s2 = s2.fact(q[0], q[1])
            return s2

        for s, v, n in body_flow.ret:
            flow.ret.append((leave(s), v, n))
        for s in body_flow.brk:
            flow.normal.append(leave(s))
        # ---- zero or more complete iterations
        posts = [entry]
        if isfor:
            posts = self.closed_forms(state, entry, ends, changed_vars, changed_objs, lid, itc, el, tm, base, body_dnf, loopsyms)
            cont_fn = body_dnf(ends, project=loopsyms)
            if boolfn.tt_decided(cont_fn) and cont_fn != ("true",):
                exact = not any(
                    mentions(a, lambda x: x in loopsyms) for s in ends for a in local_facts(s)
                )
                q = self.quant(itc, boolfn.tt_not(cont_fn))
                if not isinstance(q, bool) and (exact or True):
                    nposts = []
                    for p in posts:
                        s2 = self.assume(p, q, False)
                        if s2 is not None:
                            nposts.append(s2)
                    posts = nposts
            # drop loop targets bound in a later-read way: unknown after loop
            for name in [n.id for n in ast.walk(node.target) if isinstance(n, ast.Name)]:
                posts = [p.setvar((self.fid, name), ("last", itc, name)) for p in posts]
        else:
            nposts = []
            for p in posts:
                for s, b in self.cond(node.test, p):
                    if not b:
                        nposts.append(s)
            posts = nposts
        if node.orelse:
            f = self.block(node.orelse, self.dedupe(posts)) if posts else Flow()
            flow.normal.extend(f.normal)
            flow.absorb(f)
        else:
            flow.normal.extend(posts)
        flow.normal = self.dedupe(flow.normal)
        return flow

    def keeps_element(self, s, el):
        for v in s.env.values():
            if isinstance(v, tuple) and mentions(v, lambda x: x == el):
                return True
        return False

    def closed_forms(self, state, entry, ends, cvars, cobjs, lid, itc, el, tm, base, body_dnf, loopsyms):
        """post states of a for loop that ran to completion"""
        posts = [entry]
        for k in sorted(cvars, key=repr):
            sym = ("loop", lid, k)
            init = state.env.get(k)
            newvals = {}
            same = []
            for e in ends:
                v = e.env.get(k)
                if v == sym or v == init:
                    same.append(e)
                else:
                    newvals.setdefault(v, []).append(e)
            if len(newvals) == 1 and init is not None:
                (v, es), = newvals.items()
                # counter
                if v == ("a", "+", sym, K(1)) and is_k(init) and init[2] == 0:
                    fn = body_dnf(es, project=())
                    if boolfn.tt_decided(fn) and not mentions(fn, lambda x: x in loopsyms):
                        posts = [p.setvar(k, ("a", "count", itc, fn)) for p in posts]
                        continue
                inv = v is not None and not mentions(v, lambda x: x == el or x in loopsyms or (isinstance(x, tuple) and x[:1] == ("el",) and x == el))
                if inv and mentions(v, lambda x: isinstance(x, tuple) and x[:1] == ("new",) and not self._known(x, state)):
                    inv = False     # an object made in the iteration
                if inv:
                    fn = body_dnf(es, project=[sym])
                    bad = boolfn.tt_decided(fn) and mentions(fn, lambda x: x in loopsyms)
                    if boolfn.tt_decided(fn) and not bad:
                        q = self.quant(itc, fn)
                        np = []
                        for p in posts:
                            for want, val in ((True, v), (False, init)):
                                s2 = self.assume(p, q, want)
                                if s2 is not None:
                                    np.append(s2.setvar(k, val))
                        posts = np
                        continue
        for o in sorted(cobjs, key=repr):
            before = state.heap.get(o, ())
            hv = entry.heap.get(o, ())
            entries = {}
            ok = True
            for e in ends:
                lg = e.heap.get(o, ())
                if lg[: len(hv)] != hv:
                    ok = False
                    break
                add = lg[len(hv):]
                if len(add) > 1:
                    ok = False
                    break
                if add:
                    entries.setdefault(add[0], []).append(e)
            if ok and len(entries) == 1:
                (ent, es), = entries.items()
                fn = body_dnf(es, project=())
                if ent[0] == "append" and boolfn.tt_decided(fn) and not mentions(fn, lambda x: x in loopsyms):
                    val = replace_term(self.reify(ent[1], es[0]), tm)
                    if any(replace_term(self.reify(ent[1], e), tm) != val for e in es[1:]):
                        continue
                    if not mentions(val, lambda x: x in loopsyms):
                        posts = [p.setlog(o, before + (("acc", itc, val, fn),)) for p in posts]
                        continue
                if ent[0] in ("set", "del") and boolfn.tt_decided(fn) and not mentions(fn, lambda x: x in loopsyms):
                    k = replace_term(self.reify(ent[1], es[0]), tm)
                    v = replace_term(self.reify(ent[2], es[0]), tm) if ent[0] == "set" else None
                    if any((replace_term(self.reify(ent[1], e), tm), replace_term(self.reify(ent[2], e), tm)
                            if ent[0] == "set" else None) != (k, v) for e in es[1:]):
                        continue
                    if not mentions((k, v), lambda x: x in loopsyms):
                        posts = [p.setlog(o, before + (("acc" + ent[0], itc, k, v, fn),)) for p in posts]
                        continue
        return posts

    def havoc(self, state, cvars, cobjs, lid, ev):
        env = dict(state.env)
        for k in cvars:
            env[k] = ("loop", lid, k)
        heap = dict(state.heap)
        for o in cobjs:
            heap[o] = state.heap.get(o, ()) + (("havoc", lid),)
        events = state.events
        if ev:
            events = events + (("loop", lid),)
        return State(env, heap, state.facts, events)

    # ------------------------------------------------------------------- entry
    def default_value(self, fi, expr):
        self.raises = [[]]
        self.stack.append((fi, (fi.key, "default"), ()))
        try:
            return self.eval(expr, State())[0][1]
        finally:
            self.stack.pop()

    def run(self, fi, args=None, state=None, self_cls=None, kwargs=None):
        """analyse fi as an entry point -> list of Outcome"""
        state = state or State()
        a = fi.node.args
        fid = (fi.key, 0)
        args = dict(args or {})
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        for n in names:
            state = state.setvar((fid, n), args.get(n, S(n)))
        for va in (a.vararg, a.kwarg):
            if va:
                state = state.setvar((fid, va.arg), args.get(va.arg, S(va.arg)))
        if fi.cls is not None and names and names[0] == "self":
            self.types.setdefault(args.get("self", S("self")), fi.cls)
        self.raises = [[]]
        self.stack.append((fi, fid, ()))
        try:
            flow = self.block(fi.node.body, [state])
        finally:
            self.stack.pop()
        outs = []
        for s, v, n in flow.ret:
            outs.append(Outcome("return", s, v, n))
        for s in flow.normal:
            outs.append(Outcome("return", s, NONE, None))
        for s, types, n, term, where in self.raises[0]:
            outs.append(Outcome("raise", s, term, n, types))
        return outs


def _as_load(t):
    import copy as _c
    t = _c.copy(t)
    t.ctx = ast.Load()
    return t


def handler_names(h):
    if h.type is None:
        return [None]
    if isinstance(h.type, ast.Tuple):
        elts = h.type.elts
    else:
        elts = [h.type]
    out = []
    for e in elts:
        if isinstance(e, ast.Name):
            out.append(e.id)
        elif isinstance(e, ast.Attribute):
            out.append(e.attr)
        else:
            out.append("?")
    return out


def definitely_different(a, b):
    if a == b:
        return False
    if is_k(a) and is_k(b):
        try:
            return a[2] != b[2]
        except Exception:
            return False
    return False


def _same_const(a, b):
    try:
        return a[2] == b[2]
    except Exception:
        return False


_DISJ = ("str", "list", "dict", "tuple", "set", "int", "float", "bytes")


def _disjoint(a, b):
    return a in _DISJ and b in _DISJ and a != b


def literal_members(d):
    """elements of a written out tuple, list or set of constants, else None"""
    if isinstance(d, tuple) and d[:1] == ("tup",):
        items = d[1:]
    elif isinstance(d, tuple) and d[:1] == ("lit",) and not d[3] and d[2] and d[2][0] == "items":
        items = d[2][1:]
    else:
        return None
    return items if 0 < len(items) <= 40 and all(is_k(x) for x in items) else None


def const_keys(d):
    """what membership in a written out collection of constants means, in a fixed order"""
    if not isinstance(d, tuple):
        return None
    if d[:1] == ("tup",):
        ks = d[1:]
    elif d[:1] == ("lit",) and len(d) == 4 and not d[3] and d[2] and d[2][0] == "items":
        ks = d[2][1:]
    elif d[:1] == ("lit",) and len(d) == 4 and not d[3] and d[2] and d[2][0] == "pairs":
        ks = tuple(k for k, _ in d[2][1:])
    else:
        return None
    if not ks or not all(is_k(x) for x in ks):
        return None
    return tuple(sorted(set(ks), key=repr))


def raise_atom(term, ty):
    """(atom, value) that says evaluating term raises ty; (None, ..) when it cannot"""
    if isinstance(term, tuple) and term[:2] == ("a", "getitem") and len(term) == 4 and is_k(term[3]) and ty == "IndexError":
        if term[3][1] == "str":
            return None, True
        if term[3][1] == "int" and term[3][2] in (0, -1):
            return ("a", "truth", term[2]), False
    return ("a", "raises", term, ty), True


def own_break(body):
    """a break that leaves the very loop this is the body of"""
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Break):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        if isinstance(n, (ast.For, ast.While)):
            todo.extend(n.orelse)
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def related(a, b):
    """cheap relevance test between atoms"""
    if b is None:
        return True
    if a[0] != "a" or b[0] != "a":
        return False
    sa = set(x for x in a[2:] if isinstance(x, tuple))
    sb = set(x for x in b[2:] if isinstance(x, tuple))
    for x, s in ((a, sa), (b, sb)):
        if x[1] == "raises" and isinstance(x[2], tuple):
            s.update(y for y in x[2][2:] if isinstance(y, tuple))
        for y in x[2:]:
            if isinstance(y, tuple) and y[:2] == ("a", "len"):
                s.update(z for z in y[2:] if isinstance(z, tuple))
    return bool(sa & sb)


def empty_kind(t):
    """"list" / "dict" for the term of an empty list or dictionary"""
    if isinstance(t, tuple) and t[:1] == ("lit",) and t[1] in ("list", "dict") and not t[3] and len(t[2]) == 1 \
            and t[2][0] in ("items", "pairs"):
        return t[1]
    return None


def cat(*parts):
    flat = []
    for p in parts:
        if isinstance(p, tuple) and p[0] == "a" and p[1] == "cat":
            flat.extend(p[2:])
        else:
            flat.append(p)
    out = []
    for p in flat:
        if is_k(p) and not isinstance(p[2], str):
            p = K(str(p[2]))
        if is_k(p) and p[2] == "":
            continue
        if is_k(p) and out and is_k(out[-1]):
            out[-1] = K(out[-1][2] + p[2])
        else:
            out.append(p)
    if not out:
        return K("")
    if len(out) == 1 and is_k(out[0]):
        return out[0]
    return ("a", "cat") + tuple(out)


def str_format(fmt, args, kwargs):
    parts = []
    auto = 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(fmt):
            if lit:
                parts.append(K(lit))
            if field is None:
                continue
            if field == "":
                v = args[auto]
                auto += 1
            elif field.isdigit():
                v = args[int(field)]
            elif field in kwargs:
                v = kwargs[field]
            else:
                return ("a", "fmt", K(fmt)) + tuple(args) + tuple(("kw", k, v) for k, v in sorted(kwargs.items()))
            if spec or conv:
                parts.append(("a", "fmtspec", v, K(spec), K(conv)))
            else:
                if isinstance(v, tuple) and v[0] == "a" and v[1] == "call:str" and len(v) == 3:
                    v = v[2]
                parts.append(v)
    except Exception:
        return ("a", "fmt", K(fmt)) + tuple(args) + tuple(("kw", k, v) for k, v in sorted(kwargs.items()))
    return cat(*parts)


def percent_format(fmt, R, interp, s):
    vals = list(R[1:]) if R[0] == "tup" else [R]
    parts = []
    i = 0
    cur = ""
    n = 0
    while i < len(fmt):
        c = fmt[i]
        if c == "%" and i + 1 < len(fmt):
            if fmt[i + 1] == "%":
                cur += "%"
                i += 2
                continue
            if fmt[i + 1] == "s" and n < len(vals):
                parts.append(K(cur))
                cur = ""
                parts.append(vals[n])
                n += 1
                i += 2
                continue
            return ("a", "op:Mod", K(fmt), R)
        cur += c
        i += 1
    parts.append(K(cur))
    return cat(*parts)


def good_regex(args):
    """the pattern is a constant that is a valid regular expression"""
    if not args or not is_k(args[0]) or args[0][1] != "str":
        return False
    try:
        re.compile(args[0][2])
    except (re.error, OverflowError, RecursionError):
        return False
    return True


def replace_bv(fn, f):
    if f == ("bv",):
        return fn
    if fn[0] != "tt":
        return fn
    return boolfn.tt_map_atoms(fn, lambda a: (replace_term(a, {("bv",): f}), True))


def and_tt(a, b):
    if a == ("true",):
        return b
    if b == ("true",):
        return a
    if a == ("false",) or b == ("false",):
        return ("false",)
    return _combine([a, b], all)


def or_tt(fns):
    fns = [f for f in fns if f != ("false",)]
    if not fns:
        return ("false",)
    if any(f == ("true",) for f in fns):
        return ("true",)
    if len(fns) == 1:
        return fns[0]
    return _combine(fns, any)


def _combine(fns, how):
    import itertools
    ats = set()
    for f in fns:
        if not boolfn.tt_decided(f):
            return None
        ats.update(boolfn.tt_atoms(f))
    ats = sorted(ats, key=repr)
    if len(ats) > boolfn.MAXATOMS:
        return None
    bits = []
    for vals in itertools.product((False, True), repeat=len(ats)):
        env = dict(zip(ats, vals))
        bits.append(how(boolfn.tt_eval(f, env) for f in fns))
    return boolfn._reduce(ats, bits)
