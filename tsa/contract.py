"""Comparison of what two functions can be observed to do, each given by the
outcomes the abstract interpreter found for it: conditions under which it
returns, the value returned, the writes made to objects the caller can see and
the calls made.  A difference is reported only for a region of conditions that
both sides understand completely; anything else is undecided and stays quiet."""
import ast
import itertools
import time

from . import boolfn
from .absint import (raise_atom, replace_term, Interp, State, K, NONE, is_k, subterms, mentions, show, show_fn,
                     MUTATORS, TooComplex, definitely_different)
from .program import own_nodes, AnalysisBroken

# operations whose meaning is fixed and for which different terms are taken to
# denote different behaviour when they occur in an otherwise equal position
KNOWN = {
    "in", "==", "<", "is", "isnone", "truth", "getitem", "attr", "exists", "cat", "+", "-",
    "m:startswith", "m:endswith", "m:strip", "m:lstrip", "m:rstrip", "m:lower", "m:upper",
    "m:title", "m:capitalize", "m:swapcase", "m:replace",
    "m:isdigit", "m:isnumeric", "m:isdecimal", "m:isalpha", "m:isalnum", "m:isspace",
    "m:split", "m:rsplit", "m:splitlines", "m:join", "m:search", "m:match", "m:fullmatch",
    "m:group", "m:groupdict", "m:groups", "m:span",
    "call:re.search", "call:re.match", "call:re.fullmatch", "call:re.sub", "call:re.findall",
    "call:re.finditer", "call:re.escape", "call:re.compile", "call:isinstance",
    "call:int", "call:float", "call:str", "call:len", "len", "call:bool", "str", "repr",
    "raises", "items", "keys", "values", "list", "tuple", "dict", "set", "slice",
    "caught", "result", "count", "call:fnmatch.fnmatch", "call:type", "call:abs", "call:sorted", "sorted",
    "call:callable", "call:hasattr", "call:os.path.isfile", "call:os.path.isdir",
    "call:os.path.exists", "call:issubclass", "popped", "fmt", "exc:",
}
PREFIXES = ("call:ipaddress.", "call:ttp.", "exc:")
OPAQUE_HEADS = {"u", "deep", "?", "opaque", "opaque-not", "last", "lam", "choice", "join", "unbound"}


class CallInfo:
    """names a function and everything it calls may read or write"""

    def __init__(self, program):
        self.p = program
        self.cache = {}
        self.by_name = {}
        self.fns = {}
        for fi in program.all_functions():
            self.by_name.setdefault(fi.name, []).append(fi)
            self.fns[fi.key] = fi
        self.local = {}

    def _local(self, fi):
        if fi.key in self.local:
            return self.local[fi.key]
        names, callees, effect = set(), set(), False
        for n in own_nodes(fi.node):
            if isinstance(n, ast.Attribute):
                names.add(n.attr)
                if isinstance(n.ctx, (ast.Store, ast.Del)):
                    effect = True
            elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                if len(n.value) < 60:
                    names.add(n.value)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                if not (isinstance(n.value, ast.Name) and self._fresh_local(fi, n.value.id)):
                    effect = True
            elif isinstance(n, ast.Global):
                effect = True
            if isinstance(n, ast.Call):
                f = n.func
                if isinstance(f, ast.Name):
                    if f.id in self.by_name:
                        callees.update(x for x in self.by_name[f.id] if x.cls is None)
                    elif f.id in ("print", "open", "exec", "eval", "setattr", "delattr", "__import__"):
                        effect = True
                    else:
                        for m in self.p.modules.values():
                            if f.id in m.classes and "__init__" in m.classes[f.id].methods:
                                callees.add(m.classes[f.id].methods["__init__"])
                elif isinstance(f, ast.Attribute):
                    if isinstance(f.value, ast.Name) and f.value.id in ("log", "logging", "logger"):
                        continue
                    if f.attr in self.by_name and f.attr not in ("append", "get", "format", "join", "update", "split"):
                        callees.update(x for x in self.by_name[f.attr] if x.cls is not None)
                    if f.attr in MUTATORS and not (
                        isinstance(f.value, ast.Name) and self._fresh_local(fi, f.value.id)
                    ):
                        effect = True
                else:
                    # call of a computed function: plugins
                    for scope in ("match", "group", "input", "output", "variable", "returners", "formatters"):
                        for fs in self.p.registry.get(scope, {}).values():
                            callees.update(fs)
                    effect = True
        callees.update(fi.nested.values())
        self.local[fi.key] = (names, callees, effect)
        return self.local[fi.key]

    def _fresh_local(self, fi, name):
        a = fi.node.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        if name in params:
            return False
        ok = False
        for n in own_nodes(fi.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        if isinstance(n.value, (ast.List, ast.Dict, ast.ListComp, ast.DictComp, ast.Set)) or (
                            isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name)
                            and n.value.func.id in ("list", "dict", "set")
                        ):
                            ok = True
                        else:
                            return False
        return ok

    def _closure(self, key):
        if key in self.cache:
            return self.cache[key]
        seen, todo = {}, [self.fns[key]] if key in self.fns else []
        while todo:
            f = todo.pop()
            if f.key in seen:
                continue
            seen[f.key] = f
            todo.extend(self._local(f)[1])
        names, eff = set(), False
        for f in seen.values():
            n, _, e = self._local(f)
            names |= n
            eff = eff or e
        self.cache[key] = (names, eff)
        return self.cache[key]

    def mentions(self, key):
        return self._closure(key)[0]

    def effects(self, key):
        return self._closure(key)[1]


# arguments the caller gives away: whether they are changed or copied is not
# observable, only what becomes of the result
GIVEN_AWAY = {"ttp.ttp:_results_class.add": ("result",), "ttp.ttp:_results_class.join": ("result",)}


class Canon:
    """terms with analysis bookkeeping (program points, frame ids) removed"""

    def __init__(self, ip, given=()):
        self.ip = ip
        self.memo = {}
        self.given = {("s", n) for n in given}

    def __call__(self, t):
        if not isinstance(t, tuple) or not t:
            return t
        if t in self.memo:
            return self.memo[t]
        r = self._c(t)
        self.memo[t] = r
        return r

    def loopname(self, lid):
        n = self.ip.loopnames.get(lid)
        if n is None:
            return ("loop?",)
        return (n[0], self(n[1]))

    def _c(self, t):
        h = t[0]
        if h == "k" and len(t) == 3 and isinstance(t[1], str):
            return t
        if h == "s":
            return t
        if h == "el" and len(t) == 3:
            return ("el", self(t[1]))
        if h == "loop" and len(t) == 3:
            return ("lv", self.loopname(t[1]), t[2][1] if isinstance(t[2], tuple) else t[2])
        if h == "loop" and len(t) == 2:
            return ("loop", self.loopname(t[1]))
        if h == "havoc":
            return ("havoc", self.loopname(t[1]))
        if h == "last":
            return ("last", self(t[1]), t[2])
        if h == "u":
            return ("u",) + tuple(x for x in t[1:2])
        if h == "clo":
            return ("clo", t[1])
        if h == "lam" and len(t) > 1 and isinstance(t[-1], tuple) and t[-1][:1] == ("lamv",):
            return self(t[-1])
        if h == "new":
            return ("u", "object")
        if h == "tt" and len(t) == 3 and isinstance(t[2], tuple) and all(isinstance(b, bool) for b in t[2]):
            return boolfn.tt_modulo(boolfn.tt_map_atoms(t, lambda a: (self(a), True)), self.feasible,
                                    lambda a: a[:2] != ("a", "in"))
        if h == "construct" and len(t) == 3 and isinstance(t[2], tuple):
            # the constructor keeps the object itself, not what is in it now
            return (h, t[1], tuple(self(self.known(x)) for x in t[2]))
        if h == "ocall" and len(t) == 4:
            return (h, t[1], self(t[2]), tuple(
                (self(v[0]), self.log(v[1])) if isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], tuple) else self(v)
                for v in t[3]))
        if h == "ver" and len(t) == 3 and isinstance(t[2], tuple):
            return ("ver", self(t[1]), self.log(t[2]))
        if h == "lit" and len(t) == 4:
            if self.given and t[2] and t[2][0] == "copyof" and t[2][1] in self.given:
                return ("ver", t[2][1], self.log(t[3])) if t[3] else t[2][1]
            c = self(t[2])
            if c and c[0] == "sorted" and len(c) == 2 and c[1][:1] == ("lit",) and c[1][2:] == (("items",), ()):
                c = ("items",)
            return ("lit", t[1], c, self.log(t[3]))
        r = tuple(self(x) if isinstance(x, tuple) else x for x in t)
        if r[:2] == ("a", "getitem") and len(r) == 4 and r[3][:2] == ("a", "index") and r[3][2:] == (("el", r[2]),):
            # the item at the position of an item
            return r[3][2]
        return r

    def feasible(self, env):
        for a, v in env.items():
            rest = dict(env)
            rest.pop(a)
            k = self.ip.implied(rest, a)
            if k is not None and k != v:
                return False
        return True

    @staticmethod
    def known(x):
        if isinstance(x, tuple) and len(x) == 3 and x[0] == "arg":
            return x[:2] + (Canon.known(x[2]),)
        if isinstance(x, tuple) and len(x) == 4 and x[0] == "lit":
            for i, e in enumerate(x[3]):
                if e and e[0] == "havoc":
                    return x[:3] + (x[3][: i + 1],)
        return x

    def log(self, lg):
        """order of writes under different constant keys does not matter"""
        lg = [self(e) for e in lg]
        flat = []
        for e in lg:
            if e and e[0] == "ext" and len(e) == 2 and isinstance(e[1], tuple) and e[1][:2] == ("lit", "list") \
                    and e[1][2][:1] == ("items",) and not e[1][3]:
                flat.extend(("append", x) for x in e[1][2][1:])
            else:
                flat.append(e)
        lg = flat
        out, run = [], []

        def flush():
            # writes to distinct constant keys commute
            run.sort(key=lambda e: repr(e[1]))
            out.extend(run)
            del run[:]

        for e in lg:
            simple = e and e[0] in ("set", "attr", "del") and (isinstance(e[1], str) or is_k(e[1]))
            if simple and all(x[1] != e[1] for x in run):
                run.append(e)
            else:
                flush()
                if simple:
                    run.append(e)
                else:
                    out.append(e)
        flush()
        return tuple(out)


def param_names(fi):
    a = fi.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def default_values(fi):
    """parameter -> default expression"""
    a = fi.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    out = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults)) if a.defaults else {}
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is not None:
            out[x.arg] = d
    return out


def settled(comp, facts):
    """what a comprehension collects, given what is known of the sequence: nothing when it is empty,
    every item when no item fails the condition"""
    empty, none, same, level = set(), {}, {}, {}
    for a, v in facts.items():
        if v and a[0] == "a" and a[1] == "isnone":
            same[a[2]] = NONE
        elif v and a[0] == "a" and a[1] == "is" and is_k(a[3]):
            same[a[2]] = a[3]
        if not v and a[0] == "a" and a[1] == "<" and len(a) == 4 and facts.get(("a", "<", a[3], a[2])) is False:
            # neither is less than the other
            x, y = sorted(a[2:], key=repr)
            level[y] = x
        if not v and a[0] == "a":
            if a[1] == "truth":
                empty.add(a[2])
            elif a[1] == "exists" and a[3][0] == "tt":
                none.setdefault(a[2], []).append(a[3])
    if level:
        def flat(t):
            if isinstance(t, tuple):
                if t in level:
                    return level[t]
                if t[:1] in (("tup",), ("lit",), ("pairs",), ("items",)) or t and isinstance(t[0], tuple):
                    r = tuple(flat(x) for x in t)
                    return t if r == t else r
            return t
        c2 = {k: flat(v) if k[0] in ("value", "var") else v for k, v in comp.items()}
        comp = comp if c2 == comp else c2
    if not empty and not none and not same:
        return comp

    def go(t):
        if not isinstance(t, tuple):
            return t
        if t in same:
            return same[t]
        if empty and t and any(isinstance(e, tuple) and len(e) == 2 and e[0] in ("upd", "ext") and e[1] in empty for e in t):
            # nothing is added
            return go(tuple(e for e in t if not (isinstance(e, tuple) and len(e) == 2 and e[0] in ("upd", "ext") and e[1] in empty)))
        if len(t) == 4 and t[0] == "lit" and t[1] == "list" and t[2] and t[2][0] == "map" and t[2][1] in empty:
            return ("lit", "list", ("items",), t[3])
        if len(t) == 5 and t[:2] == ("a", "map"):
            if t[2] in empty:
                return ("lit", "list", ("items",), ())
            if sure(t[2], t[4]):
                t = t[:4] + (("true",),)
        elif len(t) == 4 and t[0] == "map" and sure(t[1], t[3]):
            t = t[:3] + (("true",),)
        return tuple(go(x) for x in t)

    def sure(seq, cond):
        if cond[0] != "tt":
            return False
        for body in none.get(seq, ()):
            both = list(dict.fromkeys(cond[1] + body[1]))
            if len(both) > 6:
                continue
            if all(boolfn.tt_eval(cond, env) or boolfn.tt_eval(body, env)
                   for env in (dict(zip(both, vals)) for vals in itertools.product((False, True), repeat=len(both)))):
                return True
        return False

    if not any(isinstance(x, tuple) and x and (x[0] in ("map", "each", "upd", "ext") or x[:2] == ("a", "map") or x in same)
               for k, v in comp.items() if isinstance(v, tuple) for x in subterms(v)):
        return comp
    out = {}
    for k, v in comp.items():
        if k == ("events",):
            v = tuple(e for e in v if not (e[:1] == ("each",) and e[1] in empty))
            if not v:
                continue
        out[k] = go(v) if isinstance(v, tuple) else v
        if k[0] == "obj" and out[k] == () and v != ():
            del out[k]
    return out


class Side:
    """decision table of one function"""

    def __init__(self, program, fi, opaque, callinfo, watch=(), intercepts=None, max_depth=7, args=None,
                 defaults=()):
        self.fi = fi
        self.ip = Interp(program, intercepts=intercepts, opaque_fns=opaque, max_depth=max_depth,
                         callinfo=callinfo, watch=watch)
        self.ip.bool_params = {("s", n) for n, d in default_values(fi).items()
                               if isinstance(d, ast.Constant) and isinstance(d.value, bool)}
        args = dict(args or {})
        for n, d in default_values(fi).items():
            if n in defaults:
                args[n] = self.ip.default_value(fi, d)
        self.outs = self.ip.run(fi, args=args)
        self.given = GIVEN_AWAY.get(fi.key, ())
        self.canon = Canon(self.ip, self.given)
        self.watch = set()
        for o in self.outs:
            self._watch(o.state.facts)
        for lid, entry, flow, cvars, rs in self.ip.loops:
            for s in flow.normal + flow.cont + flow.brk + [x[0] for x in flow.ret]:
                self._watch(s.facts)

    def _watch(self, facts):
        for a in facts:
            if a[:2] == ("a", "raises"):
                self.watch.add(self.ip.plain(a[2]))
            elif a[:2] == ("a", "in"):
                self.watch.add(self.ip.plain(a))

    # ------------------------------------------------------------------
    def rows(self):
        out = []
        for o in self.outs:
            facts = {self.canon(a): v for a, v in o.state.facts.items()}
            if o.kind == "return":
                comp = self.components(o.state, State())
                comp[("value",)] = self.canon(self.ip.reify(o.value, o.state))
                comp[("kind",)] = "return"
                out.append((facts, settled(comp, facts), o.node))
            else:
                out.extend(self.raise_row(o.state, o.types, o.node, o.value, facts))
        return out

    def raise_row(self, s, types, node, term, facts):
        if isinstance(node, ast.Raise):
            return [(facts, {("kind",): "raise"}, node)]
        if term is None:
            return []
        if term[:2] == ("a", "badcall"):
            return [(facts, {("kind",): "crash", ("badcall",): True}, node)]
        if term[:2] == ("a", "crash"):
            # pop of a key known to be absent
            return [(facts, {("kind",): "crash", ("atom",): self.canon(term[2]), ("held",): term[3][2]}, node)]
        for ty in types:
            at, pol = raise_atom(term, ty)
            if at is not None and s.facts.get(at) is pol:
                return [(facts, {("kind",): "raise"}, node)]
        return []

    def components(self, s, base):
        comp = {}
        for o, lg in s.heap.items():
            if o[0] == "new" or o[0] == "s" and o[1] in self.given:
                continue
            b = base.heap.get(o, ())
            if lg[: len(b)] == b:
                lg = lg[len(b):]
            if lg:
                comp[("obj", self.canon(o))] = self.canon.log(
                    tuple(self.ip.reify_entry(e, s, 0) for e in lg))
        evs = s.events
        if evs[: len(base.events)] == base.events:
            evs = evs[len(base.events):]
        evs = tuple(self.canon(e) for e in evs)
        evs = self.normal_events(evs)
        if evs:
            comp[("events",)] = evs
        return comp

    def normal_events(self, evs):
        """calls that touch nothing in common commute: sorted normal form"""
        evs = list(evs)
        changed = True
        n = 0
        while changed and n < 60:
            changed = False
            n += 1
            for i in range(len(evs) - 1):
                a, b = evs[i], evs[i + 1]
                if repr(b) < repr(a) and self.independent(a, b):
                    evs[i], evs[i + 1] = b, a
                    changed = True
        return tuple(evs)

    def independent(self, a, b):
        if a[0] == "ocall" and b[0] == "ocall" and self.ip.callinfo:
            ma, mb = self.ip.callinfo.mentions(a[1]), self.ip.callinfo.mentions(b[1])
            return not (ma & mb)
        return False

    def loop_tables(self):
        """per loop (by what it iterates over): list of tables, one per distinct loop"""
        groups = {}
        for lid, entry, flow, cvars, rs in self.ip.loops:
            name = self.canon.loopname(lid)
            rows = groups.setdefault(name, {}).setdefault(lid, [])
            local = {}
            for k, v in sorted(entry.env.items(), key=repr):
                if isinstance(v, tuple) and v[0] == "new" and isinstance(k, tuple) and len(k) == 2:
                    local.setdefault(v, k[1])

            def row(s, kind, value=None, node=None):
                facts = {self.canon(a): v for a, v in s.facts.items()}
                comp = self.components(s, entry)
                comp[("kind",)] = kind
                if value is not None:
                    comp[("value",)] = self.canon(self.ip.reify(value, s))
                for k in cvars:
                    v = s.env.get(k)
                    if v is None or v != entry.env.get(k):
                        comp[("var", k[1])] = self.canon(self.ip.reify(v, s)) if v is not None else None
                for o, n in local.items():
                    lg, old = s.heap.get(o, ()), entry.heap.get(o, ())
                    if lg != old and lg[: len(old)] == old:
                        comp[("var", n, "writes")] = by_item(self.canon.log(
                            tuple(self.ip.reify_entry(e, s, 0) for e in lg[len(old):])))
                rows.append((facts, settled(comp, facts), node))

            for s in flow.normal + flow.cont:
                row(s, "next")
            for s in flow.brk:
                row(s, "break")
            for s, v, n in flow.ret:
                row(s, "return", v, n)
            for s, types, n, term, where in rs:
                facts = {self.canon(a): v for a, v in s.facts.items()}
                rows.extend(self.raise_row(s, types, n, term, facts))
        return groups

    def carried(self):
        """per loop name: the variables changed by it and the objects it writes"""
        out = {}
        for lid, entry, flow, cvars, rs in self.ip.loops:
            objs = set()
            for s in flow.normal + flow.cont + flow.brk:
                for o, lg in s.heap.items():
                    base = o
                    while isinstance(base, tuple) and base[:1] == ("a",) and base[1] in ("getitem", "attr"):
                        base = base[2]
                    # what is held by an object made here is part of it
                    if base[0] not in ("new", "lit") and lg != entry.heap.get(o, ()):
                        objs.add(self.canon(o))
            out.setdefault(self.canon.loopname(lid), []).append(
                (sorted({k[1] for k in cvars}), sorted(objs, key=repr)))
        return {n: sorted(v, key=repr) for n, v in out.items()}

    def starts(self):
        """per loop name with one loop: variable -> constants it may start with (None: something else)"""
        out = {}
        for lid, vs in self.ip.inits.items():
            if lid in self.ip.loopnames:
                out.setdefault(self.canon.loopname(lid), []).append({
                    v: frozenset(self.canon(x) for x in xs) if all(
                        x is not None and (is_k(x) or x[0] == "lit" and not x[3] and len(x[2]) == 1) for x in xs) else None
                    for v, xs in vs.items()})
        return {n: v[0] for n, v in out.items() if len(v) == 1}

    def loop_vars(self):
        out = {}
        for lid, entry, flow, cvars, rs in self.ip.loops:
            out.setdefault(lid, set()).update(k[1] for k in entry.env if isinstance(k, tuple) and len(k) == 2)
        return out


def by_item(t):
    """what is collected: an item, whether it is held itself or by its position"""
    if not isinstance(t, tuple):
        return t
    if len(t) == 2 and t[0] == "append" and isinstance(t[1], tuple) and t[1][:2] == ("a", "index") \
            and t[1][2][:1] == ("el",):
        return ("append", t[1][2])
    return tuple(by_item(x) for x in t)


def ops_of(t):
    return {x[1] for x in subterms(t) if len(x) > 1 and x[0] == "a" and isinstance(x[1], str)}


class Comparer:
    def __init__(self, ref_ops, loops=frozenset(), lvars=frozenset(), budget=4000, consistent=None, eqloops=frozenset(), globals_=None):
        self.eqloops = eqloops
        self.globals = globals_
        self.ref_ops = ref_ops
        self.loops = loops          # loops both sides have
        self.lvars = lvars          # (loop, variable) both sides have
        self.und = {}
        self.budget = budget
        self.nodes = 0
        self.consistent = consistent
        self.undecided = 0
        self.pairs = {}
        self.held = []
        self.kept = []
        self.likes = {}
        self.walked = {}

    def understood(self, t):
        if t in self.und:
            return self.und[t]
        ok = True
        for x in subterms(t):
            if not x:
                continue
            h = x[0]
            if isinstance(h, str) and h in OPAQUE_HEADS and not (len(x) == 3 and h == "k"):
                ok = False
                break
            if h == "s" and len(x) == 2 and isinstance(x[1], str) and x[1].startswith("global:") and "." in x[1] \
                    and self.globals is not None and x[1] not in self.globals:
                ok = False
                break
            if h == "lv" and len(x) == 3 and (x[1], x[2]) not in self.lvars:
                ok = False
                break
            if h in ("havoc", "loop") and len(x) == 2 and x[1] not in self.loops:
                ok = False
                break
            if h == "el" and len(x) == 2 and ("for", x[1]) not in self.loops:
                ok = False
                break
            if h == "a" and len(x) > 1 and isinstance(x[1], str):
                op = x[1]
                if op not in KNOWN and op not in self.ref_ops and not op.startswith(PREFIXES):
                    ok = False
                    break
        self.und[t] = ok
        return ok

    def looplike(self, t):
        m = self.likes.get(id(t))
        if m is None or m[0] is not t:
            m = self.likes[id(t)] = (t, self._looplike(t))
        return m[1]

    def _looplike(self, t):
        out = set()
        for x in subterms(t):
            if not x:
                continue
            if x[0] in ("lv", "havoc", "loop") and len(x) > 1:
                # a loop both sides have, carrying the same variables: a plain symbol
                if x[1] not in self.eqloops:
                    out.add(x[:2])
            elif x[0] in ("acc", "accset", "accdel") and len(x) > 1:
                if ("for", x[1]) not in self.eqloops:
                    out.add(x[:2])
            elif x[0] in ("lamv", "clo"):
                out.add(x[:2])
        return frozenset(out)

    def mixed(self, a, b):
        """one side knows what a loop did in closed form, the other only that it did"""
        return bool(self.loops_of(a, ("acc", "accset", "accdel")) & self.loops_of(b, ("havoc",)))

    def loops_of(self, t, heads):
        m = self.walked.get((id(t), heads))
        if m is None or m[0] is not t:
            m = self.walked[(id(t), heads)] = (t, {
                ("for", x[1]) if x[0] != "havoc" else x[1] for x in subterms(t) if x and x[0] in heads and len(x) > 1})
        return m[1]

    def rel(self, a, b):
        """same / differ / unknown for two component values"""
        if a == b:
            return "same"
        if a is None or b is None:
            t = a if b is None else b
            if t is None:
                return "same"
            return "differ" if not isinstance(t, tuple) or (self.understood(t) and not self.looplike(t)) else "unknown"
        if not isinstance(a, tuple) or not isinstance(b, tuple):
            return "differ"
        if not (self.understood(a) and self.understood(b)):
            return "unknown"
        if self.looplike(a) != self.looplike(b):
            a2, b2 = self.partial(a, b), self.partial(b, a)
            if a2 == a and b2 == b or self.looplike(a2) != self.looplike(b2):
                return "unknown"
            a, b = a2, b2
        if self.mixed(a, b) or self.mixed(b, a):
            return "unknown"
        if self.unrolled(a, b) or self.unrolled(b, a):
            return "unknown"
        return "differ"

    def partial(self, a, b):
        """where b takes over the whole of a dictionary with one call, the loop by which a takes
        over the items of it whose values fulfil a condition"""
        whole = {x[1] for x in subterms(b) if len(x) == 2 and x[0] == "upd"}
        if not whole:
            return a

        def go(t):
            if not isinstance(t, tuple):
                return t
            if len(t) == 5 and t[0] == "accset" and t[1] in whole and t[2] == ("bv",) \
                    and t[3] == ("a", "getitem", t[1], ("bv",)) and isinstance(t[4], tuple) and t[4][:1] == ("tt",) \
                    and all(x == t[3] or x == ("bv",) for at in t[4][1] for x in at[2:] if not is_k(x)):
                return ("upd", ("a", "select", t[1], t[4]))
            return tuple(go(x) for x in t)
        return go(a)

    def unrolled(self, a, b):
        """one side treats every item of a sequence alike, the other picks its only item"""
        ma = self.maps_of(a)
        if not ma:
            return False
        ma = ma - self.maps_of(b)
        return bool(ma) and bool(ma & self.picks_of(b))

    def picks_of(self, t):
        m = self.walked.get((id(t), "picks"))
        if m is None or m[0] is not t:
            m = self.walked[(id(t), "picks")] = (t, {
                x[2] for x in subterms(t) if len(x) == 4 and x[0] == "a" and x[1] == "getitem" and is_k(x[3])})
        return m[1]

    def maps_of(self, t):
        m = self.walked.get((id(t), "maps"))
        if m is None or m[0] is not t:
            out = set()
            for x in subterms(t):
                if len(x) > 2 and x[0] == "a" and x[1] in ("map", "mapcases"):
                    out.add(x[2])
                elif len(x) > 1 and x[0] in ("map", "mapcases"):
                    out.add(x[1])
            m = self.walked[(id(t), "maps")] = (t, out)
        return m[1]

    def rowrel(self, r, c):
        key = (id(r), id(c))
        if key not in self.pairs:
            self.held.append((r, c))  # an id means nothing once its row is gone
            rels = []
            why = None
            rc, cc = r[1], c[1]
            if "crash" in (rc[("kind",)], cc[("kind",)]):
                v = "unknown"
                if rc[("kind",)] == "crash":
                    v = "same" if cc[("kind",)] == "crash" else "unknown"
                elif ("badcall",) in cc:
                    v = "differ"
                elif r[0].get(cc[("atom",)]) is cc[("held",)]:
                    # this side fails where the other decides on the very same fact to go on
                    v = "differ"
                self.pairs[key] = (v, ("kind",))
                return self.pairs[key]
            if rc[("kind",)] != cc[("kind",)]:
                self.pairs[key] = ("differ", ("kind",))
                return self.pairs[key]
            for k in set(rc) | set(cc):
                if k == ("kind",):
                    continue
                if k[0] == "obj" and not self.understood(k[1]):
                    rels.append("unknown")
                    continue
                x = self.rel(rc.get(k), cc.get(k))
                rels.append(x)
                if x == "differ" and why is None:
                    why = k
            v = "differ" if "differ" in rels else ("unknown" if "unknown" in rels else "same")
            self.pairs[key] = (v, why)
        return self.pairs[key]

    @staticmethod
    def compat(row, facts):
        f = row[0]
        if len(f) > len(facts):
            return all(f.get(a, v) == v for a, v in facts.items())
        return all(facts.get(a, v) == v for a, v in f.items())

    scale = 1       # the thorough tier looks longer

    def diff(self, R, C):
        self.nodes = 0
        self.deadline = time.process_time() + 20 * self.scale
        return self._diff(R, C, {})

    def absent(self, facts, *rows):
        """the facts say that a key is missing which one of the outcomes reads, or that what
        the expected outcome calls is None"""
        nones = {a[2] for a, v in facts.items() if v and a[:2] == ("a", "isnone") or not v and a[:2] == ("a", "truth")}
        if nones:
            for t in itertools.chain(rows[0][0], *rows[0][1].items()):
                if isinstance(t, tuple) and any(
                        x[:2] == ("a", "result") and x[2] in nones or x[0] == "dyncall" and x[1] in nones
                        for x in subterms(t) if x):
                    return True
        gone = {("a", "getitem", a[3], a[2]) for a, v in facts.items()
                if not v and a[:2] == ("a", "in") and len(a) == 4 and not (is_k(a[2]) and a[2][1] == "int")}
        if not gone:
            return False
        for row in rows:
            for k, v in row[1].items():
                for t in (k, v):
                    if isinstance(t, tuple) and any(x in gone for x in subterms(t) if len(x) == 4):
                        return True
        return False

    def ok(self, facts, newest=None):
        return self.consistent(facts, newest) if self.consistent else True

    def _diff(self, R, C, facts):
        self.nodes += 1
        if self.nodes > self.budget * self.scale or time.process_time() > self.deadline:
            self.undecided += 1
            return None
        R = [r for r in R if self.compat(r, facts)]
        C = [c for c in C if self.compat(c, facts)]
        if not R or not C:
            return None
        rels = [[self.rowrel(r, c)[0] for c in C] for r in R]
        flat = [x for row in rels for x in row]
        if "differ" not in flat:
            if "unknown" in flat:
                self.undecided += 1
            return None
        if all(x == "differ" for x in flat):
            for r in R:
                for c in C:
                    j = dict(facts)
                    j.update(r[0])
                    if not all(j.get(a, v) == v for a, v in c[0].items()):
                        continue
                    j.update(c[0])
                    if self.ok(j) and all(self.understood(a) for a in j) and not self.absent(j, r, c):
                        r2, c2 = settled(r[1], j), settled(c[1], j)
                        if r2 is not r[1] or c2 is not c[1]:
                            r2, c2 = (r[0], r2, r[2]), (c[0], c2, c[2])
                            self.kept.append((r2, c2))
                            if self.rowrel(r2, c2)[0] != "differ":
                                continue
                        return (j, r, c, self.rowrel(r, c)[1])
            # fall through: split further
        count = {}
        for row in R + C:
            for a in row[0]:
                if a not in facts and self.understood(a):
                    count[a] = count.get(a, 0) + 1
        if not count:
            self.undecided += 1
            return None
        at = max(sorted(count, key=repr), key=lambda a: count[a])
        for v in (True, False):
            f2 = dict(facts)
            f2[at] = v
            if not self.ok(f2, at):
                continue
            d = self._diff(R, C, f2)
            if d is not None:
                return d
        return None


class Finding:
    def __init__(self, fn, node, text, component, facts):
        self.fn = fn
        self.node = node
        self.text = text
        self.component = component
        self.facts = facts


def explain(d, where):
    j, r, c, comp = d
    facts = ["{}{}".format("" if v else "not ", show(a)) for a, v in sorted(j.items(), key=repr)]

    def val(row):
        if comp == ("kind",):
            x = row[1][("kind",)]
            if x == "return" and ("value",) in row[1]:
                return "return " + show(row[1][("value",)])
            return x
        v = row[1].get(comp)
        if v is None:
            return "nothing"
        if comp[0] in ("obj", "events"):
            return "; ".join(show(e) for e in v)
        return show(v)

    what = {"obj": lambda: "writes to " + show(comp[1]), "events": lambda: "calls made",
            "value": lambda: "value returned", "kind": lambda: "way of leaving",
            "var": lambda: "value of {} after an iteration".format(comp[1])}[comp[0]]()
    return "{}: {} differ when [{}]: expected {}, found {}".format(
        where, what, ", ".join(facts)[:1500], val(r)[:700], val(c)[:700])


class Contracts:
    """compares functions of the analysed package with the reference package"""

    def __init__(self, program, ref):
        self.p = program
        self.ref = ref
        self.rinfo = CallInfo(ref)
        self.pf = {f.key: f for f in program.all_functions()}
        self.rf = {f.key: f for f in ref.all_functions()}
        # attributes hold the kind of object they are meant to hold, on both sides
        ip = Interp(program)
        rip = Interp(ref)
        kinds = {a: k for a, k in ip.attr_kinds().items() if a not in rip.attr_names()}
        kinds.update(rip.attr_kinds())
        program._attr_kinds = kinds
        self.stats = {"functions": 0, "outcomes": 0, "loops": 0, "undecided": 0, "too_complex": []}
        self.checked = []

    def compare(self, key, rkey=None, anchors=(), components=None, max_depth=7, intercepts=None,
                missing_ok=False):
        """-> list of Finding"""
        out = self.compare_with(key, rkey, anchors, components, max_depth, intercepts, missing_ok)
        if out and self.callees[0] != self.callees[1]:
            # one side calls a function where the other does the same itself: look inside
            before = len(self.stats["too_complex"])
            saved = list(self.stats["too_complex"])
            again = self.compare_with(key, rkey, set(anchors) - (self.callees[0] ^ self.callees[1]), components,
                                      max_depth, intercepts, missing_ok)
            # too complex to look inside: undecided
            out = again if len(self.stats["too_complex"]) == before else []
            if len(self.stats["too_complex"]) != before:
                self.stats["undecided"] += 1
            self.stats["too_complex"] = saved
        fi, rfi = self.pf.get(key), self.rf.get(rkey or key)
        if fi is not None and rfi is not None and not out:
            rd, cd = default_values(rfi), default_values(fi)
            changed = [n for n in rd if n in param_names(fi) and (
                n not in cd or ast.dump(rd[n]) != ast.dump(cd[n]))]
            if any(n not in cd for n in changed):
                n = [n for n in changed if n not in cd][0]
                return [Finding(fi, fi.node, "{}: parameter {} has no default any more".format(fi.qualname, n),
                                ("default", n), {})]
            if changed:
                out = self.compare_with(key, rkey, anchors, components, max_depth, intercepts, missing_ok,
                                        defaults=set(changed))
        return out

    def compare_with(self, key, rkey, anchors, components, max_depth, intercepts, missing_ok, defaults=frozenset()):
        rkey = rkey or key
        self.callees = (set(), set())
        fi, rfi = self.pf.get(key), self.rf.get(rkey)
        if rfi is None:
            raise AnalysisBroken("reference function {} not found".format(rkey))
        if fi is None:
            if missing_ok:
                return []
            raise AnalysisBroken("function {} not found".format(key))
        common = {a for a in anchors if a in self.pf and a in self.rf}
        self.globals = {"global:{}.{}".format(m.name, n) for m in self.ref.modules.values() for n in m.assigns
                        if m.name in self.p.modules and n in self.p.modules[m.name].assigns}
        if rfi.name == "<module>":
            both = set(rfi.module.assigns) & set(fi.module.assigns)
            fi, rfi = fi.module.body_function(both), rfi.module.body_function(both)
            if fi is None or rfi is None:
                return []
        # parameters only this side knows are not passed by anyone
        extra = set(defaults) | (set(param_names(fi)) - set(param_names(rfi)))
        try:
            rs = Side(self.ref, rfi, common - {rkey}, self.rinfo, max_depth=max_depth, intercepts=intercepts,
                      defaults=defaults)
            cs = Side(self.p, fi, common - {key}, self.rinfo, watch=rs.watch, max_depth=max_depth,
                      intercepts=intercepts, defaults=extra)
            if cs.watch - rs.watch:
                rs = Side(self.ref, rfi, common - {rkey}, self.rinfo, watch=cs.watch, max_depth=max_depth,
                          intercepts=intercepts, defaults=defaults)
        except TooComplex as e:
            self.stats["too_complex"].append(key)
            return []
        except RecursionError:
            self.stats["too_complex"].append(key)
            return []
        self.stats["functions"] += 1
        self.checked.append(key)
        rrows, crows = rs.rows(), cs.rows()
        self.callees = (rs.ip.unresolved, cs.ip.unresolved)
        rloops, cloops = rs.loop_tables(), cs.loop_tables()
        self.stats["outcomes"] += len(rrows) + len(crows)
        ref_ops = set()
        for rows in [rrows] + [t for g in rloops.values() for t in g.values()]:
            for f, comp, _ in rows:
                for a in f:
                    ref_ops |= ops_of(a)
                for k, v in comp.items():
                    ref_ops |= ops_of(k)
                    if isinstance(v, tuple):
                        ref_ops |= ops_of(v)
        out = []
        consistent = rs.ip.consistent
        rs.ip.shrinks = {rs.canon.loopname(l) for l in rs.ip.shrinks} & {cs.canon.loopname(l) for l in cs.ip.shrinks}
        els = [set(), set()]
        for i, (rows, groups) in enumerate(((rrows, rloops), (crows, cloops))):
            seen = set()
            for tb in [rows] + [t for g in groups.values() for t in g.values()]:
                for f, comp, _ in tb:
                    for x in list(f) + list(comp) + [v for v in comp.values() if isinstance(v, tuple)]:
                        if x in seen:
                            continue
                        seen.add(x)
                        els[i].update(y[1] for y in subterms(x) if y and y[0] == "el" and len(y) == 2)

        def filt(rows):
            if components is None:
                return rows
            return [(f, {k: v for k, v in c.items() if k == ("kind",) or components(k)}, n) for f, c, n in rows]

        rv, cv = rs.loop_vars(), cs.loop_vars()

        def names(side, vs):
            ls, lv = set(), set()
            for lid in side.ip.loopnames:
                n = side.canon.loopname(lid)
                if n[0] == "for":
                    # pieces of what is iterated over: d.items() binds elements of d
                    t = n[1]
                    while True:
                        ls.add(("for", t))
                        if isinstance(t, tuple) and len(t) > 2 and t[:1] == ("a",) and t[1] in (
                                "items", "values", "keys", "enumerate", "map"):
                            t = t[2]
                            continue
                        break
                ls.add(n)
                lv.update((n, v) for v in vs.get(lid, ()))
            return ls, lv

        (rl_, rlv), (cl_, clv) = names(rs, rv), names(cs, cv)
        loops, lvars = rl_ & cl_, rlv & clv
        loops |= {("for", t) for t in els[0] & els[1]}
        eqloops = set()
        rcar, ccar = rs.carried(), cs.carried()
        for n in loops:
            if n in rcar and rcar[n] == ccar.get(n):
                eqloops.add(n)
        if sum(n[0] == "while" for n in rl_) != sum(n[0] == "while" for n in cl_):
            loops = {n for n in loops if n[0] != "while"}
            lvars = {x for x in lvars if x[0][0] != "while"}
        # what the variables a loop carries start with
        rst, cst = rs.starts(), cs.starts()
        used = [{(x[1], x[2]) for g in gr.values() for tb in g.values() for f, comp, _ in tb
                 for t in list(f) + list(comp) + [v for v in comp.values() if isinstance(v, tuple)]
                 for x in subterms(t) if x and x[0] == "lv" and len(x) == 3} for gr in (rloops, cloops)]
        for n in rst:
            for v in set(rst[n]) & set(cst.get(n, ())):
                a, b = rst[n][v], cst[n][v]
                if a is None or b is None or a == b or len(a) != 1 or len(b) != 1:
                    continue
                (x,), (y,) = a, b
                if x[:2] == y[:2] and x[1] != "NoneType":
                    if (n, v) in used[0] & used[1] and (n, v) in lvars:
                        out.append(Finding(fi, fi.node, "{}, loop over {}: {} starts as {}, expected {}".format(
                            fi.qualname, show(n[1]) if isinstance(n[1], tuple) else "condition", v, show(y), show(x)),
                            ("start", v), {}))
                else:
                    # another way to say that nothing was seen yet
                    lvars.discard((n, v))
        cmp_ = Comparer(ref_ops, loops, lvars, consistent=consistent, eqloops=eqloops, globals_=self.globals)
        d = cmp_.diff(filt(rrows), filt(crows))
        self.stats["undecided"] += cmp_.undecided
        if d is not None:
            node = d[2][2] or fi.node
            out.append(Finding(fi, node, explain(d, fi.qualname), d[3], d[0]))
        # loops
        for name, rg in rloops.items():
            cg = cloops.get(name)
            self.stats["loops"] += 1
            if cg is None or len(cg) != len(rg) or len(rg) > 12 or name not in loops:
                self.stats["undecided"] += 1
                continue
            rl, cl = list(rg.items()), list(cg.items())
            cells = {}
            until = time.process_time() + 40 * Comparer.scale

            def cell(i, j):
                """how many outcomes two loops share, and the first difference between them"""
                if (i, j) in cells:
                    return cells[(i, j)]
                (rlid, rrow), (clid, crow) = rl[i], cl[j]
                c2 = Comparer(ref_ops, loops, lvars, consistent=consistent, eqloops=eqloops, globals_=self.globals)
                # variables only one side knows are not comparable
                rn, cn = rv.get(rlid, set()), cv.get(clid, set())
                rr = self._vars(filt(rrow), rn & cn)
                cc = self._vars(filt(crow), rn & cn)
                same = 0
                if len(cl) > 1:
                    same += len({repr(x[:2]) for x in rr} & {repr(x[:2]) for x in cc})
                    does = [{repr(sorted(x[1].items(), key=repr)) for x in t if len(x[1]) > 1} for t in (rr, cc)]
                    same += len(does[0] & does[1])
                d = None
                if len(cl) > 1 and {repr(x[:2]) for x in rr} == {repr(x[:2]) for x in cc}:
                    pass
                elif time.process_time() > until:
                    c2.undecided += 1
                else:
                    d = c2.diff(rr, cc)
                if d is not None and {x[1][("kind",)] for x in rr} != {x[1][("kind",)] for x in cc}:
                    # leaving by return what is followed by a return anyway, or within a helper
                    rr, cc = self._leave(rr), self._leave(cc)
                    d = c2.diff(rr, cc)
                cells[(i, j)] = (same, d, c2.undecided)
                return cells[(i, j)]

            pick = self._pairing(len(cl), cell)
            ds = []
            for i, j in enumerate(pick):
                same, d, und = cell(i, j)
                self.stats["undecided"] += und
                if d is not None:
                    ds.append(d)
            for d in ds:
                node = d[2][2] or fi.node
                out.append(Finding(fi, node, explain(d, "{}, loop over {}".format(
                    fi.qualname, show(name[1]) if isinstance(name[1], tuple) else "condition")), d[3], d[0]))
        return out

    @staticmethod
    def _pairing(n, cell):
        """the pairing of loops over the same thing under which most of what they do is equal"""
        best = {0: ((0, 0), ())}
        for i in range(n):
            nxt = {}
            for taken, ((same, diffs), picked) in best.items():
                for j in range(n):
                    if taken >> j & 1:
                        continue
                    s, d, _ = cell(i, j)
                    score = (same + s, diffs - (d is not None))
                    t = taken | 1 << j
                    if t not in nxt or score > nxt[t][0]:
                        nxt[t] = (score, picked + (j,))
            best = nxt
        return best[(1 << n) - 1][1]

    @staticmethod
    def _leave(rows):
        out = []
        for f, c, n in rows:
            if c[("kind",)] in ("return", "break"):
                c = {k: v for k, v in c.items() if k != ("value",) and k[0] != "var"}
                c[("kind",)] = "leave"
            out.append((f, c, n))
        return out

    @staticmethod
    def _vars(rows, names):
        out = []
        for f, c, n in rows:
            c2 = {}
            for k, v in c.items():
                if k[0] == "var" and k[1] not in names:
                    continue
                c2[k] = v
            out.append((f, c2, n))
        return out
