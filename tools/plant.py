"""Plant bugs: python3 tools/plant.py SPECS.py [only-id ...]      (re)creates /verif/seeded/<id>/ and tries the check
          python3 tools/plant.py --check [id ...]           tries the checks against the planted bugs again

SPECS.py calls  P(id, property, [(file, old, new), ...], needs, breaks, demo)  where `file` is relative to
framework_python/rei and `demo` is a Python program (exit 0: property holds).  Everything runs in scratch copies."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
PY = "/opt/venv/bin/python"
BASE = "1432057"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", VERIF_SEED="1", VERIF_TIER="quick")
DEMO_SH = """#!/bin/bash
# cwd: the repository. Exit 0 if the property holds in the demonstrated situation.
export PYTHONPATH="$PWD/framework_python" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec timeout 120 /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
"""
SPECS = []


def P(pid, prop, edits, needs, breaks, demo):
    SPECS.append((pid, prop, edits, needs, breaks, demo))


def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, capture_output=True, text=True, timeout=timeout)


def stable_ok(copy):
    with tempfile.TemporaryDirectory() as d:
        x = os.path.join(d, "junit.xml")
        sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors",
            "--tb=short", "-o", "junit_family=xunit2", "--junitxml=" + x, "test"], os.path.join(copy, "framework_python"))
        sh(["python3", "/opt/vp/results.py", d + "/o.json", "junit:" + x], copy)
        b = json.load(open("/opt/vp/BASELINE.json"))
        o = json.load(open(d + "/o.json"))
        return [t for t in b["stable"] if t not in o["passed"]]


def blame_ok(copy, patch):
    bad, n, cur = [], 0, None
    for line in patch.splitlines():
        if line.startswith("--- a/"):
            cur = line[6:]
        m = re.match(r"@@ -(\d+)", line)
        if m:
            no = int(m.group(1))
            continue
        if cur is None or line.startswith(("---", "+++", "diff", "index")):
            continue
        if line.startswith("-"):
            out = sh(["git", "blame", "-s", "-L", f"{no},{no}", "HEAD", "--", cur], "/repo").stdout
            if BASE not in out:
                bad.append(line)
            n += 1
            no += 1
        elif line.startswith(" "):
            no += 1
    return n > 0 and not bad, bad or ("no line changed" if not n else None)


def try_check(copy, prop):
    env = dict(ENV, REI_REPO=copy, MC_WORKERS="3")
    r = sh(["bash", os.path.join(VERIF, "check.sh"), prop, "quick"], VERIF, env)
    hit = r.returncode == 1 and f"VIOLATION property={prop} " in r.stdout
    why = [l for l in r.stdout.splitlines() if "VIOLATION" in l][:2]
    return hit, r.returncode, why


def demo_rc(d, copy):
    try:
        return sh(["bash", os.path.join(d, "demo.sh")], copy, timeout=300)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess([], 124, "", "timeout")


def one(spec):
    pid, prop, edits, needs, breaks, demo = spec
    copy = tempfile.mkdtemp(prefix="plant-")
    try:
        sh(["cp", "-a", "/repo/.", copy], "/")
        d = os.path.join(copy, ".plant")        # becomes /verif/seeded/<id> if everything is right
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.sh", "w").write(DEMO_SH)
        open(d + "/demo.py", "w").write(demo)
        if "antlr_stub" in demo:        # the interpreter of the grammar lies beside the demonstration
            t = open(os.path.join(VERIF, "mc", "antlr.py")).read().replace("from mc.core import REPO\n", "REPO = os.getcwd()\n")
            open(d + "/antlr_stub.py", "w").write(t)
        r = demo_rc(d, copy)
        if r.returncode:
            return pid, "DEMO FAILS ON CLEAN TREE", r.stdout[-500:] + r.stderr[-800:]
        for f, old, new in edits:
            p = os.path.join(copy, "framework_python/rei", f)
            s = open(p).read()
            if s.count(old) != 1:
                return pid, "EDIT NOT UNIQUE", f"{s.count(old)} in {f}: {old[:60]}"
            open(p, "w").write(s.replace(old, new))
        patch = sh(["git", "diff"], copy).stdout
        ok, bad = blame_ok(copy, patch)
        open(d + "/patch.diff", "w").write(patch)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        miss = stable_ok(copy)
        if miss:
            return pid, "BREAKS STABLE TESTS", str(miss)
        r = demo_rc(d, copy)
        if r.returncode == 0:
            return pid, "DEMO PASSES WITH THE BUG", r.stdout[-300:]
        if ok:
            shutil.rmtree(os.path.join(SEEDED, pid), ignore_errors=True)
            shutil.copytree(d, os.path.join(SEEDED, pid))
        hit, rc, why = try_check(copy, prop)
        return pid, ("caught" if hit else f"MISSED rc={rc}") + ("" if ok else " (own lines, not kept)"), (r.stderr.strip().splitlines() or [""])[-1][:160] + " | " + " ".join(why)[:200]
    except Exception as e:
        return pid, "ERROR", repr(e)
    finally:
        shutil.rmtree(copy, ignore_errors=True)


def recheck(pid):
    d = os.path.join(SEEDED, pid)
    prop = json.load(open(d + "/meta.json"))["property"]
    copy = tempfile.mkdtemp(prefix="plant-")
    try:
        sh(["cp", "-a", "/repo/.", copy], "/")
        if demo_rc(d, copy).returncode:
            return pid, "DEMO FAILS ON CLEAN TREE", ""
        r = sh(["git", "apply", d + "/patch.diff"], copy)
        if r.returncode:
            return pid, "DOES NOT APPLY", r.stderr
        miss = stable_ok(copy)
        if miss:
            return pid, "BREAKS STABLE TESTS", str(miss)
        if demo_rc(d, copy).returncode == 0:
            return pid, "DEMO PASSES WITH THE BUG", ""
        hit, rc, why = try_check(copy, prop)
        return pid, ("caught" if hit else f"MISSED rc={rc}"), " ".join(why)[:200]
    finally:
        shutil.rmtree(copy, ignore_errors=True)


def main(av):
    if av[0] == "--check":
        fn, items = recheck, av[1:] or sorted(os.listdir(SEEDED))
    else:
        exec(compile(open(av[0]).read(), av[0], "exec"), {"P": P})
        fn, items = one, [s for s in SPECS if not av[1:] or s[0] in av[1:]]
    with cf.ThreadPoolExecutor(3) as ex:
        for pid, res, info in ex.map(fn, items):
            print(f"{pid:34s} {res:10s} {info}", flush=True)


if __name__ == "__main__":
    main(sys.argv[1:])
