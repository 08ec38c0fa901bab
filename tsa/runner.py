"""Runs the analyses of one property and reports."""
import importlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

from .program import Program, AnalysisBroken
from .absint import Interp
from .contract import Comparer, Contracts
from .effects import Effects
from .props import PROPS

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get("TSA_EVIDENCE") or os.path.join(HERE, "evidence")
SPEC = os.path.join(HERE, "spec")
KNOWN = os.path.join(HERE, "known_findings.json")

# too slow for a check on every change: compared in the thorough tier only
SLOW = {"ttp.output.validate_yangson:validate_yangson"}


class Violation:
    """one construct of the analysed tree that breaks the property"""

    def __init__(self, rule, where, text, key=None):
        self.rule = rule
        self.where = where          # file:line (function)
        self.text = text
        self.key = key or "{}:{}".format(rule, text[:80])


class Context:
    def __init__(self, program, ref, tier, prop):
        self.p = program
        self.ref = ref
        self.tier = tier
        self.prop = prop
        self.violations = []
        self.coverage = {}
        self.samples = []

    def report(self, rule, where, text, key=None):
        self.violations.append(Violation(rule, where, text, key))

    def at(self, fi, node=None):
        node = node if node is not None else fi.node
        return "{}:{} ({})".format(fi.module.rel, getattr(node, "lineno", "?"), fi.qualname)

    def count(self, name, n=1):
        self.coverage[name] = self.coverage.get(name, 0) + n

    def sample(self, text):
        if len(self.samples) < 8:
            self.samples.append(text)


def resolve(sel, p, ref):
    """selector -> list of (key in analysed tree or None, key in reference)"""
    if "/" in sel:
        scope, name = sel.split("/")
        r, c = ref.plugin(scope, name), p.plugin(scope, name)
        if r is None:
            raise AnalysisBroken("no reference for " + sel)
        return [(c.key if c else None, r.key)]
    if sel.startswith("core:"):
        sel = "ttp.ttp:" + sel[5:]
    keys = {f.key for f in p.all_functions()}
    if sel.endswith(".*"):
        pre = sel[:-1] + "<locals>."
        rk = sorted(f.key for f in ref.all_functions() if f.key.startswith(pre))
    else:
        rk = [sel]
    return [(k if k in keys else None, k) for k in rk]


_G = {}


def _init(repo, scale):
    Interp.scale = Comparer.scale = scale
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _G["p"] = Program(repo)
    _G["r"] = Program(SPEC)
    _G["C"] = Contracts(_G["p"], _G["r"])
    _G["anchors"] = {f.key for f in _G["r"].all_functions()}


def _compare(job):
    key, rkey = job
    C = _G["C"]
    C.stats = {"functions": 0, "outcomes": 0, "loops": 0, "undecided": 0, "too_complex": []}
    sys.setrecursionlimit(5000)
    t = time.time()
    try:
        fs = C.compare(key, rkey, anchors=_G["anchors"])
    except AnalysisBroken as e:
        return rkey, [], dict(C.stats), str(e), time.time() - t
    except Exception as e:
        return rkey, [], dict(C.stats), "{}\n{}".format(e, traceback.format_exc()[-1500:]), time.time() - t
    out = []
    for f in fs:
        where = "{}:{} ({})".format(f.fn.module.rel, getattr(f.node, "lineno", "?"), f.fn.qualname)
        out.append((where, f.text, str(f.component[0])))
    return rkey, out, dict(C.stats), None, time.time() - t


def contracts(ctx, repo):
    jobs, missing = [], []
    for sel in ctx.prop["contracts"]:
        for k, rk in resolve(sel, ctx.p, ctx.ref):
            if rk in SLOW and ctx.tier == "quick":
                continue
            if k is None:
                missing.append(rk)
            else:
                jobs.append((k, rk))
    if ctx.tier == "thorough":
        # and every function the anchored ones can reach
        eff = Effects(ctx.ref, ctx.ref)
        fns = {f.key: f for f in ctx.ref.all_functions()}
        own = {f.key for f in ctx.p.all_functions()}
        seen, todo = set(), [rk for _, rk in jobs]
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            todo.extend(c for c in eff.callees(fns[k]) if c in fns)
        extra = seen - {rk for _, rk in jobs}
        jobs.extend((k, k) for k in extra if k in own)
        ctx.coverage["contract_functions_reached_from_anchors"] = len(extra)
    # what importing the modules of these functions does (tables and flags they use)
    mods = {rk.split(":")[0] for _, rk in jobs}
    keys = {f.key for f in ctx.p.all_functions()}
    for f in ctx.ref.all_functions():
        if f.name == "<module>" and f.key in keys and f.key.split(":")[0] in mods - {"ttp", "ttp.ttp"}:
            jobs.append((f.key, f.key))
    jobs = sorted(set(jobs))
    if not jobs and ctx.prop["contracts"]:
        raise AnalysisBroken("none of the functions this property is anchored in was found")
    # long ones first
    jobs.sort(key=lambda j: -len(ctx.ref_src.get(j[1], "")))
    n = max(1, min(8, os.cpu_count() or 1, len(jobs)))
    stats = {"functions": 0, "outcomes": 0, "loops": 0, "undecided": 0, "too_complex": []}
    errors, fns = [], []
    with multiprocessing.Pool(n, _init, (repo, 1 if ctx.tier == "quick" else 4)) as pool:
        for rkey, out, st, err, dt in pool.imap_unordered(_compare, jobs, chunksize=1):
            if err:
                errors.append("{}: {}".format(rkey, err))
                continue
            for k, v in st.items():
                stats[k] = stats[k] + v
            fns.append(rkey)
            for where, text, comp in out:
                ctx.violations.append(Violation("contract", where, text, "contract:{}:{}".format(rkey, comp)))
    ctx.coverage["contract_functions_compared"] = len(fns)
    ctx.coverage["contract_functions"] = sorted(fns)
    ctx.coverage["contract_paths_compared"] = stats["outcomes"]
    ctx.coverage["contract_loop_bodies_compared"] = stats["loops"]
    ctx.coverage["contract_regions_left_undecided"] = stats["undecided"]
    ctx.coverage["contract_functions_beyond_budget"] = sorted(stats["too_complex"])
    ctx.coverage["contract_functions_absent"] = sorted(missing)
    if errors:
        ctx.coverage["contract_functions_failed"] = errors
        if len(errors) > len(jobs) // 2:
            raise AnalysisBroken("analysis failed: " + errors[0])


def known_findings(pid):
    try:
        with open(KNOWN, encoding="utf-8") as f:
            return [x for x in json.load(f)["findings"] if x["property"] == pid]
    except FileNotFoundError:
        return []


def main(argv):
    t0 = time.time()
    pid = argv[0]
    tier = "thorough" if "thorough" in argv[1:] else "quick"
    props = {p["id"]: p for p in PROPS}
    if pid not in props:
        print("unknown property", pid)
        return 2
    prop = props[pid]
    repo = os.environ.get("TSA_REPO", "/repo")
    sys.setrecursionlimit(5000)
    try:
        p, ref = Program(repo), Program(SPEC)
        ctx = Context(p, ref, tier, prop)
        import ast
        ctx.ref_src = {f.key: ast.unparse(f.node) for f in ref.all_functions()}
        for rule in prop["rules"]:
            mod = importlib.import_module("tsa.checks." + rule)
            mod.run(ctx)
        if prop["contracts"]:
            contracts(ctx, repo)
    except (AnalysisBroken, SyntaxError) as e:
        print("ANALYSIS-ERROR property={} {}".format(pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-ERROR property={} unexpected failure of the analysis".format(pid))
        return 2
    known = known_findings(pid)
    new, seen = [], set()
    for v in ctx.violations:
        k = next((x for x in known if x["key"] == v.key), None)
        if k:
            if k["key"] not in seen:
                seen.add(k["key"])
                print("KNOWN-FINDING: property={} {}".format(pid, k["what"]))
        else:
            new.append(v)
    os.makedirs(EVIDENCE, exist_ok=True)
    cov = dict(ctx.coverage)
    cov["explanation"] = explanation(prop)
    cov["tree_digest"] = p.digest()
    cov["modules_parsed"] = len(p.modules)
    cov["known_findings_seen"] = len(seen)
    if ctx.samples:
        cov["samples"] = ctx.samples
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": cov,
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    with open(os.path.join(EVIDENCE, pid + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    if new:
        rp = os.path.join(EVIDENCE, pid + ".violations.json")
        with open(rp, "w", encoding="utf-8") as f:
            json.dump([{"rule": v.rule, "where": v.where, "text": v.text, "key": v.key} for v in new], f, indent=1)
        for v in new[:20]:
            print("{} [{}] {}".format(v.where, v.rule, v.text[:1500]))
        print("VIOLATION property={} replay={}".format(pid, rp))
        return 1
    print("OK property={} {} functions, {} paths, {} loop bodies; {:.1f}s".format(
        pid, cov.get("contract_functions_compared", 0), cov.get("contract_paths_compared", 0),
        cov.get("contract_loop_bodies_compared", 0), time.time() - t0))
    return 0


ASSUMPTIONS = [
    "Python semantics as modelled by the abstract interpreter (tsa/absint.py); library calls it does not know are "
    "opaque and equal when called with equal arguments",
    "the reference semantics in spec/ is the reviewed tree with its defects repaired",
    "regions of conditions either side does not understand completely are left undecided, never reported",
]


def explanation(prop):
    rules = []
    for r in prop["rules"]:
        try:
            mod = importlib.import_module("tsa.checks." + r)
            rules.append((mod.__doc__ or r).strip().replace("\n", " "))
        except ImportError:
            pass
    e = ""
    if rules:
        e += "Direct rules over the source: " + " | ".join(rules) + " "
    if prop["contracts"]:
        e += ("Contract comparison: every function listed is abstractly interpreted on all paths (conditions, value "
              "returned, writes to visible objects, calls made, per-iteration effects of loops) and its decision table "
              "compared with that of the reviewed reference semantics in spec/; a region of conditions where the two "
              "differ is a violation.")
    return e
