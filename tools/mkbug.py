"""mkbug.py DEFS.py [id...]: builds seeded/<id>/ from definitions, confirms each in a scratch copy and says which
checks catch it.  DEFS.py defines BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]"""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
from multiprocessing.pool import ThreadPool
V = "/verif"
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
SH = '''#!/bin/bash
# exit 0: property holds; nonzero: broken
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
export TTPCACHEFOLDER="$d" PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" DEMO_SCRATCH="$d" PYTHONHASHSEED=${PYTHONHASHSEED:-0}
timeout 120 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def env():
    e = dict(os.environ, HOME="/root", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TZ="UTC", LANG="C.UTF-8",
             LC_ALL="C.UTF-8", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
    for k in ("PYTHONPATH", "PYTHONHOME", "TTPCACHEFOLDER"):
        e.pop(k, None)
    return e


def tests(d):
    x = d + "/junit.xml"
    subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "pytest_timeout", "-p", "no:cacheprovider",
                    "--timeout=300", "--continue-on-collection-errors", "-W", "ignore", "-o", "junit_family=xunit2",
                    "--junitxml=" + x], cwd=d + "/test/pytest", env=env(), capture_output=True)
    import xml.etree.ElementTree as ET
    ok = set()
    for c in ET.parse(x).getroot().iter("testcase"):
        if not any(k.tag in ("failure", "error", "skipped") for k in c):
            ok.add(c.get("classname").split(".")[-1] + "::" + c.get("name"))
    return BASE - ok


def one(b):
    out = {"id": b["id"], "property": b["property"]}
    d = tempfile.mkdtemp(prefix="mkbug")
    try:
        for x in ("ttp", "test", "docs"):
            shutil.copytree("/repo/" + x, d + "/" + x, ignore=shutil.ignore_patterns("__pycache__", "*.pickle"))
        subprocess.run("git init -q . && git add -A . && git -c user.name=a -c user.email=a@b commit -qm x", shell=True, cwd=d)
        s = V + "/seeded/" + b["id"]
        shutil.rmtree(s, ignore_errors=True)
        os.makedirs(s)
        open(s + "/demo.py", "w").write(b["demo"])
        open(s + "/demo.sh", "w").write(SH)
        os.chmod(s + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(s + "/meta.json", "w"), indent=1)
        r = subprocess.run(["bash", s + "/demo.sh"], cwd=d, env=env(), capture_output=True, text=True)
        out["demo_clean"] = r.returncode
        if r.returncode:
            out["err"] = (r.stdout + r.stderr)[-600:]
        for f, old, new in b["edits"]:
            t = open(d + "/" + f).read()
            if t.count(old) != 1:
                out["err"] = "%s: %d occurrences of %r" % (f, t.count(old), old[:60])
                return out
            open(d + "/" + f, "w").write(t.replace(old, new))
        p = subprocess.run(["git", "diff"], cwd=d, capture_output=True, text=True).stdout
        open(s + "/patch.diff", "w").write(p)
        r = subprocess.run(["git", "apply", "--check", s + "/patch.diff"], cwd="/repo", capture_output=True, text=True)
        out["applies"] = r.returncode == 0
        r = subprocess.run(["bash", s + "/demo.sh"], cwd=d, env=env(), capture_output=True, text=True)
        out["demo_bug"] = r.returncode
        out["demo_out"] = (r.stdout + r.stderr)[-250:]
        out["failed_tests"] = sorted(tests(d))
        caught = []
        for pid in ([b["property"]] if not os.environ.get("ALL") else ["C%02d" % i for i in range(1, 43)]):
            r = subprocess.run(["python3", "check.py", pid], cwd=V, env=dict(os.environ, TSA_REPO=d, TSA_EVIDENCE=d),
                               capture_output=True, text=True)
            if r.returncode == 1:
                caught.append(pid)
                if pid == b["property"]:
                    out["by"] = r.stdout[:300]
            elif r.returncode:
                out["err"] = r.stdout[-300:] + r.stderr[-300:]
        out["caught"] = caught
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out


if __name__ == "__main__":
    sp = importlib.util.spec_from_file_location("defs", sys.argv[1])
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    L = [b for b in m.BUGS if len(sys.argv) < 3 or b["id"] in sys.argv[2:]]
    with ThreadPool(6) as P:
        for o in P.imap_unordered(one, L):
            good = o.get("demo_clean") == 0 and o.get("demo_bug") not in (0, None) and o.get("applies") and not o.get("failed_tests", [1])
            print("%s %s %s caught=%s" % (o["id"], "GOOD" if good else "BAD", "CAUGHT" if o["property"] in o.get("caught", []) else "missed", ",".join(o.get("caught", []))))
            if not good:
                print("   ", {k: v for k, v in o.items() if k not in ("by",)})
            elif os.environ.get("V"):
                print("    ", o.get("by", "")[:300].replace("\n", " "), "|", o["demo_out"][-100:])
