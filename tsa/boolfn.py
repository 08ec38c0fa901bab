"""Canonical boolean functions over atoms, and the little theory the atoms obey.
Facts are dicts atom -> bool.  Used to merge dataflow states exactly and to
compare decision tables; there is no search beyond small truth tables."""
import itertools

MAXATOMS = 9


def tt_from_dnf(dnf, atoms=None):
    """dnf: iterable of dict atom->bool.  -> canonical ("tt", atoms, bits) |
    ("true",) | ("false",) | ("opaque", ...)"""
    dnf = [dict(d) for d in dnf]
    ats = set()
    for d in dnf:
        ats.update(d)
    ats = sorted(ats, key=repr)
    if not dnf:
        return ("false",)
    if len(ats) > MAXATOMS:
        return ("opaque", tuple(sorted((tuple(sorted(d.items(), key=repr)) for d in dnf), key=repr)))
    bits = []
    for vals in itertools.product((False, True), repeat=len(ats)):
        env = dict(zip(ats, vals))
        bits.append(any(all(env[a] == v for a, v in d.items()) for d in dnf))
    return _reduce(ats, bits)


def _reduce(ats, bits):
    ats = list(ats)
    changed = True
    while changed:
        changed = False
        n = len(ats)
        for i in range(n):
            step = 1 << (n - 1 - i)
            same = all(bits[j] == bits[j ^ step] for j in range(len(bits)))
            if same:
                bits = [bits[j] for j in range(len(bits)) if not (j & step)]
                ats.pop(i)
                changed = True
                break
    if not ats:
        return ("true",) if bits[0] else ("false",)
    return ("tt", tuple(ats), tuple(bits))


def tt_eval(fn, env):
    if fn[0] == "true":
        return True
    if fn[0] == "false":
        return False
    if fn[0] == "tt":
        idx = 0
        for a in fn[1]:
            idx = idx * 2 + (1 if env[a] else 0)
        return fn[2][idx]
    return None


def tt_not(fn):
    if fn[0] == "true":
        return ("false",)
    if fn[0] == "false":
        return ("true",)
    if fn[0] == "tt":
        return ("tt", fn[1], tuple(not b for b in fn[2]))
    return ("opaque-not", fn)


def tt_atoms(fn):
    return fn[1] if fn[0] == "tt" else ()


def tt_decided(fn):
    return fn[0] in ("tt", "true", "false")


def tt_map_atoms(fn, f):
    """rename atoms (f may return (atom, polarity) or a bool)"""
    if fn[0] != "tt":
        return fn
    dnf = []
    for vals, b in zip(itertools.product((False, True), repeat=len(fn[1])), fn[2]):
        if not b:
            continue
        d = {}
        ok = True
        for a, v in zip(fn[1], vals):
            r = f(a)
            if isinstance(r, bool):
                if r != v:
                    ok = False
                continue
            at, pol = r
            want = v if pol else not v
            if d.get(at, want) != want:
                ok = False
            d[at] = want
        if ok:
            dnf.append(d)
    return tt_from_dnf(dnf)


def tt_modulo(fn, feasible, first=lambda a: 0):
    """the same function on the feasible assignments, over as few atoms as that
    needs; feasible(env) says whether the atoms can take these truth values"""
    if fn[0] != "tt" or len(fn[1]) < 2 or len(fn[1]) > 7:
        return fn
    ats = list(fn[1])
    rows = {}
    for vals, b in zip(itertools.product((False, True), repeat=len(ats)), fn[2]):
        if feasible(dict(zip(ats, vals))):
            rows[vals] = b
    if len(rows) == len(fn[2]):
        return fn
    changed = True
    while changed:
        changed = False
        for a in sorted(ats, key=lambda a: (first(a), repr(a))):
            i = ats.index(a)
            new = {}
            for vals, b in rows.items():
                if new.setdefault(vals[:i] + vals[i + 1:], b) != b:
                    break
            else:
                rows = new
                ats.pop(i)
                changed = True
                break
    return tt_from_dnf([dict(zip(ats, vals)) for vals, b in rows.items() if b])


def contradiction_among(fns_true, fns_false, consistent):
    """is  AND(fns_true) AND NOT OR(fns_false)  unsatisfiable?"""
    ats = set()
    for f in list(fns_true) + list(fns_false):
        if not tt_decided(f):
            return False
        ats.update(tt_atoms(f))
    ats = sorted(ats, key=repr)
    if len(ats) > 11:
        return False
    for vals in itertools.product((False, True), repeat=len(ats)):
        env = dict(zip(ats, vals))
        if not consistent(env):
            continue
        if all(tt_eval(f, env) for f in fns_true) and not any(
            tt_eval(f, env) for f in fns_false
        ):
            return False
    return True


def merge_facts(list_of_facts):
    """exact merging of fact sets that differ in one atom's polarity; returns a
    reduced list whose disjunction is the same"""
    items = {frozenset(f.items()) for f in list_of_facts}
    changed = True
    while changed:
        changed = False
        # absorption
        its = sorted(items, key=len)
        for i, a in enumerate(its):
            for b in its[i + 1:]:
                if a < b and b in items:
                    items.discard(b)
                    changed = True
        its = list(items)
        index = {}
        for a in its:
            for atom, v in a:
                rest = a - {(atom, v)}
                other = rest | {(atom, not v)}
                if other in items and a in items:
                    items.discard(a)
                    items.discard(other)
                    items.add(rest)
                    changed = True
                    break
            if changed:
                break
    return [dict(i) for i in items]
