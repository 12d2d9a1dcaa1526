"""Common machinery: bounded exhaustive exploration of the real code in /repo.

A check module exposes
    PID          property id
    cases(ck)    generator of JSON-able case descriptors, simplest first - the finite space of the tier
    run_case(ck, case)   executes one case against the real code, raises Bad(...) on a property violation
or implements main(ck) itself on top of `explore` (explicit-state search).
"""
import contextlib
import itertools
import json
import multiprocessing
import os
import re
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REI_REPO", "/repo")
FRAMEWORK = os.path.join(REPO, "framework_python")
REI_DIR = os.path.join(FRAMEWORK, "rei") + os.sep

CASE_TIMEOUT_S = 60


class Bad(Exception):
    """The property is violated by the current case."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


# A check gets 900 s.  The enumeration takes a fraction of that on the unchanged tree; where a changed tree has many more
# states, it ends here, and says so in the evidence.
BUDGET_S = {"quick": 600, "thorough": 840}


class OutOfTime(BaseException):
    """the enumeration is cut short"""


class CaseTimeout(BaseException):
    pass


def _alarm(_sig, _frm):
    raise CaseTimeout()


_LIMIT = [0]


@contextlib.contextmanager
def time_limit(seconds=CASE_TIMEOUT_S):
    signal.signal(signal.SIGALRM, _alarm)
    _LIMIT[0] = seconds
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        _LIMIT[0] = 0
        signal.setitimer(signal.ITIMER_REAL, 0)


def progress():
    """a case that consists of many executions: the limit is that of one of them, not of their number"""
    if _LIMIT[0]:
        signal.setitimer(signal.ITIMER_REAL, _LIMIT[0])
        if CURRENT is not None and CURRENT.late():
            raise OutOfTime


START = time.time()     # workers are forked and keep it
CURRENT = None      # the Check of the running process (a worker has its own)


class Check:
    def __init__(self, pid, tier, seed):
        global CURRENT
        CURRENT = self
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.states = 0
        self.keys = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.samples = []
        self.violations = []
        self.known_hit = []
        self.extra = {}
        self.assumptions = []
        self.exhaustive = True
        self.t0 = START
        self.findings = load_findings(pid)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def late(self):
        if time.time() - self.t0 < BUDGET_S.get(self.tier, 600):
            return False
        self.extra["bound_hit"] = f"stopped after {BUDGET_S.get(self.tier, 600)} s"
        return True

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def outcome(self, o):
        if len(self.outcomes) < 2_000_000:
            self.outcomes.add(o if isinstance(o, str) else repr(o))

    def violation(self, case, msg, key=None):
        if key is not None and key in self.findings:
            if key not in self.known_hit:
                self.known_hit.append(key)
            return False
        self.violations.append({"case": case, "message": msg, "key": key})
        return True

    def merge(self, other):
        self.states += other["states"]
        self.keys |= set(other["keys"])
        self.transitions += other["transitions"]
        self.traces += other["traces"]
        self.outcomes |= set(other["outcomes"])
        for s in other["samples"]:
            self.sample(s)
        self.violations += other["violations"]
        for k in other["known_hit"]:
            if k not in self.known_hit:
                self.known_hit.append(k)
        for k, v in other.get("extra", {}).items():
            if isinstance(v, int) and isinstance(self.extra.get(k, 0), int):
                self.extra[k] = self.extra.get(k, 0) + v
            else:
                self.extra[k] = v

    def export(self):
        return {"states": self.states, "keys": list(self.keys), "transitions": self.transitions, "traces": self.traces,
                "outcomes": list(self.outcomes), "samples": self.samples, "violations": self.violations,
                "known_hit": self.known_hit, "extra": self.extra}


def load_findings(pid):
    """known_findings.txt: lines `finding: property=<id> key=<key> <what fails>`; `fixed:` lines suppress nothing."""
    res = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            m = re.match(r"finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)", line.strip())
            if m and m.group(1) == pid:
                res[m.group(2)] = m.group(3)
    return res


def setup_import():
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    sys.dont_write_bytecode = True
    if FRAMEWORK not in sys.path:
        sys.path.insert(0, FRAMEWORK)


@contextlib.contextmanager
def muted():
    """The code under test prints diagnostics; they are no part of any property."""
    old_o, old_e = sys.stdout, sys.stderr
    with open(os.devnull, "w") as dn:
        sys.stdout = sys.stderr = dn
        try:
            yield
        finally:
            sys.stdout, sys.stderr = old_o, old_e


def describe_exc(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = ""
    for f in reversed(tb):
        if f.filename.startswith(REI_DIR):
            where = f" at {os.path.relpath(f.filename, FRAMEWORK)}:{f.lineno}"
            break
    return f"{type(e).__name__}: {e}{where}"


def guarded(ck, fn, case, *args):
    """Run one case; any escape from it that is not a Bad is a violation too (crash / non-termination)."""
    try:
        with time_limit():
            fn(ck, case, *args)
        return True
    except OutOfTime:
        return False
    except Bad as b:
        return not ck.violation(case, str(b), b.key)
    except CaseTimeout:
        return not ck.violation(case, f"does not terminate within {CASE_TIMEOUT_S} s")
    except (RecursionError, MemoryError) as e:
        return not ck.violation(case, f"{type(e).__name__}")
    except (Exception, SystemExit) as e:  # noqa
        return not ck.violation(case, "unexpected " + describe_exc(e))


def run_cases(ck, mod):
    """Exhaustive enumeration over mod.cases(ck), sharded over worker processes."""
    workers = int(os.environ.get("MC_WORKERS", "8"))
    # every worker goes through the same enumeration and takes the next few cases when it has done its last ones
    ticket = multiprocessing.get_context("fork").Value("Q", 0)
    if getattr(mod, "SERIAL", False) or workers == 1:
        n = _run_shard(ck, mod, ticket)
        ck.extra["cases"] = n
        return
    n = parallel(ck, lambda sub, i, w: _run_shard(sub, mod, ticket), workers)
    ck.extra["cases"] = sum(n)


def _run_shard(ck, mod, ticket):
    batch = getattr(mod, "BATCH", 4)
    n, lo = 0, -1
    for k, case in enumerate(mod.cases(ck)):
        if k >= lo + batch or lo < 0:
            with ticket:
                lo = ticket.value
                ticket.value += batch
        if k < lo:
            continue
        n += 1
        if n % 16 == 0 and ck.late() or not guarded(ck, mod.run_case, case):
            break
    return n


def parallel(ck, fn, workers, raw=False):
    """fork `workers` processes, each runs fn(sub_check, index, workers); merge their counters."""
    pipes = []
    sys.stdout.flush()
    for i in range(workers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                sub = Check(ck.pid, ck.tier, ck.seed)
                try:
                    ret = fn(sub, i, workers)
                    out = {"ok": True, "ret": ret, "data": sub.export()}
                except BaseException as e:  # noqa
                    out = {"ok": False, "err": traceback.format_exc(), "type": type(e).__name__}
                with os.fdopen(w, "w") as f:
                    json.dump(out, f, default=_jd)
            except BaseException:
                code = 1
            os._exit(code)
        os.close(w)
        pipes.append((pid, r))
    rets = []
    for pid, r in pipes:
        with os.fdopen(r) as f:
            raw = f.read()
        os.waitpid(pid, 0)
        try:
            out = json.loads(raw)
        except ValueError:
            out = {"ok": False, "err": "worker died without an answer (killed: memory?)"}
        if not out["ok"]:
            ck.violation({"worker": "crash"}, "worker crashed: " + out["err"])
            rets.append(None if raw else 0)
            continue
        d = out["data"]
        ck.merge(d)
        rets.append(out["ret"] if raw or isinstance(out["ret"], int) else 0)
    return rets


def _jd(o):
    if isinstance(o, bytes):
        return o.hex()
    if isinstance(o, (set, frozenset)):
        return sorted(map(str, o))
    if isinstance(o, tuple):
        return list(o)
    return str(o)


def finish(ck, level_text=None):
    wall = time.time() - ck.t0
    ck.states += len(ck.keys)
    ev = {
        "property": ck.pid, "tier": ck.tier, "seed": ck.seed, "level": "model_checking",
        "coverage": {
            "states": ck.states, "transitions": ck.transitions,
            "traces_validated_against_impl": ck.traces,
            "distinct_outcomes": len(ck.outcomes),
            "exhaustive": bool(ck.exhaustive and not ck.violations and "bound_hit" not in ck.extra),
            "samples": ck.samples or ["(none)"],
        },
        "assumptions": ck.assumptions,
        "wall_s": round(wall, 3),
        "violations": len(ck.violations),
    }
    for k, v in ck.extra.items():
        ev["coverage"].setdefault(k, v)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", f".{ck.pid}.{os.getpid()}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=_jd)
        f.write("\n")
    os.replace(tmp, os.path.join(VERIF, "evidence", f"{ck.pid}.json"))
    for k in ck.known_hit:
        print(f"KNOWN-FINDING: property={ck.pid} {k} {ck.findings[k]}")
    print(f"{ck.pid} tier={ck.tier} states={ck.states} transitions={ck.transitions} traces={ck.traces} "
          f"outcomes={len(ck.outcomes)} wall={wall:.1f}s")
    if ck.violations:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{ck.pid}.json")
        v = min(ck.violations, key=lambda x: len(json.dumps(x["case"], default=_jd)))
        with open(path, "w") as f:
            json.dump({"property": ck.pid, "tier": ck.tier, "case": v["case"], "message": v["message"],
                       "others": ck.violations[:20]}, f, indent=1, default=_jd)
        print("  " + v["message"])
        print("  case: " + json.dumps(v["case"], default=_jd)[:2000])
        print(f"  replay: bash /verif/check.sh {ck.pid} --replay {path}")
        print(f"VIOLATION property={ck.pid} replay={path}")
        sys.stdout.flush()
        return 1
    sys.stdout.flush()
    return 0


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    rest = argv[1:]
    while rest:
        a = rest.pop(0)
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--replay":
            replay = rest.pop(0)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    setup_import()
    import warnings
    warnings.simplefilter("ignore")
    ck = Check(pid, tier, seed)
    mod = None
    try:
        import importlib
        with muted_if():
            mod = importlib.import_module("mc." + pid.lower())
    except (Exception, SystemExit):  # noqa  the code under test does not even import
        ck.violation({"import": pid}, "cannot import: " + traceback.format_exc())
    if mod is not None:
        if replay:
            data = json.load(open(replay))
            with muted_if():
                ok = guarded(ck, mod.run_case, data["case"])
            for v in ck.violations:
                print("reproduced:", v["message"])
            print("KNOWN" if (not ck.violations and ck.known_hit) else "OK" if ok else "VIOLATED")
            return 0 if ok else 1
        with muted_if():
            try:
                if hasattr(mod, "main"):
                    mod.main(ck)
                else:
                    run_cases(ck, mod)
            except (Exception, SystemExit):  # noqa
                ck.violation({"harness": pid}, "unexpected: " + traceback.format_exc())
        ck.assumptions = list(getattr(mod, "ASSUMPTIONS", [])) + ck.assumptions
    return finish(ck)


def muted_if():
    return contextlib.nullcontext() if os.environ.get("MC_VERBOSE") else muted()


# ---------------------------------------------------------------- canonical snapshots

try:
    with open(os.path.join(VERIF, "mc", "sizes.json"), encoding="utf-8") as _f:
        SIZES = json.load(_f)     # transitions per world on the unchanged tree (tools/sizes.py)
except OSError:
    SIZES = {}

_PRIM = (int, float, str, bytes, bool, type(None), complex)


def snapshot(roots):
    """Canonical form of the whole object graph reachable from `roots` (in the given order), including
    private attributes: equal snapshots mean equal concrete state, hence equal futures (up to module globals,
    which C12/C24 examine).  Dictionary order is kept since it is observable.  Objects are renamed by
    order of discovery."""
    labels = {}
    out = []
    todo = []

    def desc(o):
        if isinstance(o, _PRIM):
            return o if not isinstance(o, bool) else ("b", o)
        t = type(o)
        if t is dict:
            return ("d", tuple((desc(k), desc(v)) for k, v in o.items()))
        if t is list:
            return ("l", tuple([desc(x) for x in o]))
        if t is tuple:
            return ("t", tuple([desc(x) for x in o]))
        if t is set or t is frozenset:
            return ("s", tuple(sorted((desc(x) for x in o), key=repr)))
        if callable(o) or isinstance(o, type):
            return ("f", getattr(o, "__qualname__", t.__qualname__))
        if hasattr(o, "tolist"):
            return ("a", repr(o.tolist()))
        i = labels.get(id(o))
        if i is None:
            i = labels[id(o)] = len(labels)
            todo.append(o)
        return ("o", i)

    for r in roots:
        desc(r)
    k = 0
    while k < len(todo):
        o = todo[k]
        k += 1
        d = getattr(o, "__dict__", None)
        if d is None:
            out.append((type(o).__qualname__, repr(o)))
        else:
            out.append((type(o).__qualname__,
                        tuple((a, desc(v)) for a, v in sorted(d.items()))))
    return tuple(out)


# ---------------------------------------------------------------- explicit-state search

def explore(ck, name, build, ops, apply_op, check_state, depth, roots, check_new=None, key=None, max_states=400_000,
            workers=None):
    """Level-synchronous breadth-first search over histories of `ops`, the real objects being the transition function.

    build() -> fresh world; ops(world) -> list of JSON-able ops, simplest first; apply_op(world, op, replay)
    executes one op on the real code (raises Bad on a violation, returns an outcome); check_state(world) is the
    invariant evaluated after every transition, check_new(world) a costlier one evaluated in every new state;
    roots(world) -> objects whose whole reachable state (deep snapshot, private attributes included) is the identity of
    a state, unless `key(world)` gives a coarser one.

    Evaluating the invariant reads through the public API. If that alone changes the concrete state (something is
    remembered), the state before and the state after the reading are different states and both are explored further:
    ["read"] is an operation of the history, which costs no depth.
    """
    READ = ["read"]

    def redo(world, op):
        if op[0] == "read":
            check_state(world)
        else:
            apply_op(world, op, True)

    if workers is None:
        workers = int(os.environ.get("MC_WORKERS", "8"))

    # something remembered while reading multiplies the states; the bound is far beyond what the unchanged tree needs
    size = SIZES.get(ck.pid, {}).get(ck.tier, {}).get(name)
    bound = 6 * size + 20_000 if size else None
    start = ck.transitions

    def key_of(world, snap):
        return hash((name, snap if key is None else key(world)))

    def keys_read(world, raw, now, hist):
        """the state before and the one after the reading"""
        if key is None:
            return hash((name, raw)), hash((name, "read", now))
        # coarser: whether something has been read before, too
        k = key(world)
        return hash((name, k, "unread", READ in hist)), hash((name, k, "read"))

    def judge(sub, world, op, case, new):
        """-> 'ok' | 'known' | 'stop'"""
        try:
            with time_limit():
                if op is not None:
                    out = apply_op(world, op, False)
                    sub.outcome((op[0], out if isinstance(out, str) else repr(out)))
                    world.unread = snapshot(roots(world))
                check_state(world)
                if new is not None:
                    new()
            return "ok"
        except Bad as b:
            return "stop" if sub.violation(case, str(b), b.key) else "known"
        except OutOfTime:
            pass
        except CaseTimeout:
            sub.violation(case, "does not terminate")
        except (RecursionError, MemoryError) as e:
            sub.violation(case, type(e).__name__)
        except (Exception, SystemExit) as e:  # noqa
            sub.violation(case, "unexpected " + describe_exc(e))
        return "stop"

    w0 = build()
    raw0 = snapshot(roots(w0))
    if judge(ck, w0, None, {"world": name, "history": []},
             None if check_new is None else lambda: check_new(w0)) == "stop":
        return
    seen = {key_of(w0, snapshot(roots(w0)))}
    frontier = [()]
    if snapshot(roots(w0)) != raw0:
        seen.add(hash((name, raw0)))
        frontier.append((READ,))

    def expand(sub, hists, part=(0, 1), share=None):
        found = {}
        for hist in hists:
            if share is not None and sub.transitions > share:
                sub.extra["bound_hit"] = f"{name}: more than {bound} transitions"
                break
            if sub.late():
                break
            world = base = allops = None
            i = 0
            while True:
                if world is None:
                    world = build()
                    for op in hist:
                        redo(world, op)
                    base = snapshot(roots(world))
                    if allops is None:
                        allops = ops(world)
                if i >= len(allops):
                    break
                op = allops[i]
                i += 1
                if i % part[1] != part[0]:
                    continue
                sub.transitions += 1
                case = {"world": name, "history": [*hist, op]}
                v = judge(sub, world, op, case, None)
                if v == "stop":
                    return found
                now = snapshot(roots(world))
                if now == base:
                    continue            # nothing changed: go on with the same live objects
                k = key_of(world, now)
                raw = world.unread
                if v == "ok" and raw != now:
                    # the reading left something behind: the unread state is another one
                    k0, k = keys_read(world, raw, now, hist)
                    if k0 not in seen and k0 not in found and len(found) < max_states:
                        found[k0] = [*hist, op]
                    if k not in seen and k not in found and len(found) < max_states:
                        found[k] = [*hist, op, READ]
                    sub.extra["states_changed_by_reading"] = sub.extra.get("states_changed_by_reading", 0) + 1
                elif v == "ok" and k not in seen and k not in found:
                    found[k] = [*hist, op]
                    sub.traces += 1
                    sub.sample(case, 4)
                    if check_new is not None and \
                            judge(sub, world, None, case, lambda: check_new(world)) == "stop":
                        return found
                world = None
        return found

    level = 0
    while frontier and level < depth:
        if workers == 1:
            news = [expand(ck, frontier)]
        else:
            news = []
            left = None if bound is None else max(0, bound - (ck.transitions - start)) // workers + 1
            if left is not None:    # what is read always, never or once comes first
                frontier.sort(key=lambda h: 0 if sum(o == READ for o in h) in (0, 1, len(h) // 2) else 1)

            def work(sub, i, w):
                # few states: distribute their operations, else the states
                f = expand(sub, frontier, (i, w), left) if len(frontier) < 4 * w else expand(sub, frontier[i::w], share=left)
                return {"found": list(f.items())}
            for r in parallel(ck, work, workers, raw=True):
                news.append(dict((k, h) for k, h in (r or {"found": []})["found"]))
        if ck.violations:
            break
        frontier = []
        for f in news:
            for k, h in f.items():
                if k not in seen:
                    seen.add(k)
                    frontier.append(tuple(tuple(o) if False else o for o in h))
        level += 1
        if len(seen) > max_states:
            ck.exhaustive = False
            ck.extra["bound_hit"] = f"{name}: stopped after level {level} at {len(seen)} states"
            break
    ck.extra[f"depth_{name}"] = level if frontier else f"{level} (fixpoint: complete)"
    ck.extra[f"states_{name}"] = len(seen)
    ck.extra[f"transitions_{name}"] = ck.transitions - start
    ck.states += len(seen)


def replay_history(build, apply_op, check_state, check_new, hist):
    w = build()
    check_state(w)
    n = len(hist)
    for i, op in enumerate(hist):
        if op[0] == "read":
            check_state(w)
            continue
        apply_op(w, op, i < n - 1)
        if i == n - 1:
            check_state(w)
            if check_new is not None:
                check_new(w)
