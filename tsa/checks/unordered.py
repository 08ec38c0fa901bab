"""Order analysis (C10): values whose order is not determined (sets, directory listings,
hash and id values) are found by dataflow within each function and must not reach an
order-sensitive use: building a list or text, indexing, or a loop that appends, prints,
writes or returns; sorting, counting and membership are fine."""
import ast

from ..effects import Effects
from ..program import own_nodes

LISTINGS = {"os.listdir", "os.scandir", "os.walk", "glob.glob", "glob.iglob", "pathlib.Path.glob",
            "pathlib.Path.iterdir", "pathlib.Path.rglob"}
LISTING_METHODS = {"iterdir", "rglob"}
SETTYPES = {"builtins.set", "builtins.frozenset"}
NEUTRAL = {"builtins.sorted", "builtins.len", "builtins.any", "builtins.all", "builtins.min", "builtins.max",
           "builtins.sum", "builtins.set", "builtins.frozenset", "builtins.isinstance", "builtins.bool",
           "builtins.type", "builtins.str.format"}
SENSITIVE = {"builtins.list", "builtins.tuple", "builtins.enumerate", "builtins.zip", "builtins.map", "builtins.filter",
             "builtins.iter", "builtins.next", "builtins.reversed", "builtins.str", "builtins.repr", "builtins.print",
             "itertools.chain", "builtins.dict"}
SET_METHODS = {"union", "intersection", "difference", "symmetric_difference", "copy"}
SENSITIVE_STMT_CALLS = {"append", "extend", "insert", "write", "appendleft", "join"}
# the result does not depend on the order in spite of the loop: reviewed
ORDER_FREE = {"ttp.ttp:lazy_import_functions"}


class Flow:
    def __init__(self, fi, sc):
        self.fi, self.sc = fi, sc
        self.sets = {}          # name -> "set" or "listing"
        mixed = {}
        for _ in range(3):
            mixed = {}
            for n in own_nodes(fi.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            mixed.setdefault(t.id, []).append(self.kind(n.value))
                elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                    pass
                elif isinstance(n, (ast.For, ast.comprehension)):
                    for t in ast.walk(n.target):
                        if isinstance(t, ast.Name):
                            mixed.setdefault(t.id, []).append(self.element_kind(n, t))
            self.sets = {k: next(x for x in v if x) for k, v in mixed.items() if any(v)}
        self.maybe = {k for k, v in mixed.items() if any(v) and not all(v)}
        # a name sorted in place
        for n in own_nodes(fi.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "sort" \
                    and isinstance(n.func.value, ast.Name):
                self.sets.pop(n.func.value.id, None)

    def element_kind(self, loop, t):
        # for root, dirs, files in os.walk(..): dirs and files are listings
        if isinstance(loop.iter, ast.Call) and self.sc.dotted(loop.iter.func) == "os.walk" \
                and isinstance(loop.target, ast.Tuple) and t in loop.target.elts[1:]:
            return "listing"
        return None

    def kind(self, n):
        if isinstance(n, (ast.Set, ast.SetComp)):
            return "set"
        if isinstance(n, ast.Name):
            return self.sets.get(n.id) if n.id not in getattr(self, "maybe", ()) else None
        if isinstance(n, ast.Call):
            d = self.sc.dotted(n.func)
            if d in SETTYPES:
                if n.args and isinstance(n.args[0], (ast.List, ast.Tuple)) and len(n.args[0].elts) < 2:
                    return None
                return "set"
            if d in LISTINGS:
                return "listing"
            if isinstance(n.func, ast.Attribute):
                if n.func.attr in LISTING_METHODS:
                    return "listing"
                if n.func.attr in SET_METHODS and self.kind(n.func.value) == "set":
                    return "set"
            if d in ("builtins.list", "builtins.tuple", "builtins.iter", "builtins.reversed", "builtins.filter", "builtins.map") and n.args:
                return self.kind(n.args[-1])
            return None
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            k = self.kind(n.left) or (self.kind(n.right) if not isinstance(n.op, ast.Sub) else None)
            return k if k == "set" else None
        if isinstance(n, (ast.ListComp, ast.GeneratorExp)):
            return self.kind(n.generators[0].iter)
        if isinstance(n, ast.IfExp):
            return self.kind(n.body) or self.kind(n.orelse)
        return None


def order_sensitive_body(stmts):
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in SENSITIVE_STMT_CALLS:
                return n
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "print":
                return n
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return n
            if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add):
                if isinstance(n.value, ast.Constant) and isinstance(n.value.value, (int, float)):
                    continue
                if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id in ("len", "int", "sum"):
                    continue
                return n
    return None


def run(ctx):
    e = Effects(ctx.p, ctx.ref)
    for fi in e.functions:
        ctx.count("functions_scanned")
        sc = e.scopes[fi.key]
        fl = Flow(fi, sc)
        up = {}
        for n in own_nodes(fi.node):
            for c in ast.iter_child_nodes(n):
                up[c] = n
        owners = e.responsible(fi)
        free = owners and owners <= ORDER_FREE
        for n in own_nodes(fi.node):
            if isinstance(n, ast.Call):
                d = sc.dotted(n.func)
                if d in ("builtins.hash", "builtins.id", "uuid.uuid4", "uuid.uuid1", "random.random", "random.choice",
                         "random.shuffle", "random.randint", "os.urandom", "secrets.token_hex"):
                    ctx.report("unordered", ctx.at(fi, n), "{} differs from run to run".format(d),
                               "unordered:{}:{}".format(fi.key, d))
            if not isinstance(n, ast.expr):
                if isinstance(n, ast.For):
                    k = fl.kind(n.iter)
                    if k:
                        ctx.count("unordered_iterations")
                        bad = order_sensitive_body(n.body)
                        if bad is not None and not (free and k == "listing") and not sorted_later(fi, bad):
                            ctx.report("unordered", ctx.at(fi, n), "the order of a {} decides the order of what this "
                                       "loop produces".format("directory listing" if k == "listing" else "set"),
                                       "unordered:{}:for".format(fi.key))
                continue
            k = fl.kind(n)
            if not k or free and k == "listing":
                continue
            ctx.count("unordered_values")
            x, c = up.get(n), n
            if isinstance(x, ast.Starred):
                x, c = up.get(x), x
            sens = None
            if isinstance(x, ast.Call) and c in x.args:
                d = sc.dotted(x.func)
                if d in SENSITIVE:
                    if neutral_use(up, x, sc, fl):
                        continue
                    sens = d
                elif isinstance(x.func, ast.Attribute) and x.func.attr in ("join", "extend", "writelines"):
                    sens = x.func.attr
                    if x.func.attr == "extend" and sorted_later(fi, x):
                        continue
            elif isinstance(x, ast.Subscript) and x.value is c and isinstance(x.ctx, ast.Load):
                sens = "indexing"
            elif isinstance(x, ast.comprehension) and x.iter is c:
                y = up.get(x)
                if isinstance(y, (ast.ListComp, ast.GeneratorExp)):
                    if neutral_use(up, y, sc, fl):
                        continue
                    sens = "list built from it"
            elif isinstance(x, ast.Call) and x.func is not c and isinstance(x.func, ast.Attribute) and x.func.attr == "pop":
                sens = "pop"
            elif isinstance(x, ast.Attribute) and x.attr == "pop" and k == "set":
                sens = "pop"
            elif isinstance(x, ast.FormattedValue):
                sens = "text"
                if in_log(up, x):
                    continue
            elif isinstance(x, ast.AugAssign) and x.value is c and not sorted_later(fi, x):
                if isinstance(x.op, ast.Add):
                    sens = "list built from it"
            elif isinstance(x, ast.Return) and k == "listing":
                sens = "value returned"
            if sens:
                if in_log(up, n):
                    continue
                ctx.report("unordered", ctx.at(fi, n), "the order of a {} reaches {}".format(
                    "directory listing" if k == "listing" else "set", sens), "unordered:{}:{}".format(fi.key, sens))


def in_log(up, n):
    while n in up:
        n = up[n]
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                and n.func.value.id in ("log", "logger"):
            return True
        if isinstance(n, ast.Raise):
            return True
    return False


def neutral_use(up, n, sc, fl):
    """the list is only sorted, counted, searched or turned into a set"""
    x = up.get(n)
    while isinstance(x, (ast.Call, ast.Starred, ast.comprehension, ast.ListComp, ast.GeneratorExp)):
        if isinstance(x, ast.Call):
            d = sc.dotted(x.func)
            if d in NEUTRAL and n in x.args:
                return True
            if d not in SENSITIVE:
                return False
        n, x = x, up.get(x)
    if isinstance(x, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) for o in x.ops):
        return True
    if isinstance(x, (ast.SetComp, ast.DictComp)) and False:
        return True
    if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
        return sorted_name(fl.fi, x.targets[0].id)
    if isinstance(x, ast.For):
        return True     # judged as a loop
    return False


def sorted_name(fi, name):
    """every later use of the name is a neutral one (or it is sorted in place)"""
    uses = []
    up = {}
    for n in own_nodes(fi.node):
        for c in ast.iter_child_nodes(n):
            up[c] = n
    for n in own_nodes(fi.node):
        if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load):
            x = up.get(n)
            if isinstance(x, ast.Attribute) and x.attr == "sort":
                return True
            uses.append((n, x))
    if not uses:
        return True
    for n, x in uses:
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("sorted", "len", "set", "any", "all", "sum", "min", "max", "frozenset"):
            continue
        if isinstance(x, ast.Compare):
            continue
        return False
    return True


def sorted_later(fi, stmt):
    """what the loop builds is sorted before use"""
    t = None
    if isinstance(stmt, ast.Call) and isinstance(stmt.func, ast.Attribute) and isinstance(stmt.func.value, ast.Name):
        t = stmt.func.value.id
    elif isinstance(stmt, ast.AugAssign) and isinstance(stmt.target, ast.Name):
        t = stmt.target.id
    if t is None:
        return False
    up = {}
    for n in own_nodes(fi.node):
        for c in ast.iter_child_nodes(n):
            up[c] = n
    for n in own_nodes(fi.node):
        if isinstance(n, ast.Name) and n.id == t and isinstance(n.ctx, ast.Load):
            x = up.get(n)
            if isinstance(x, ast.Attribute) and x.attr == "sort":
                return True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "sorted":
                return True
    return False
