"""C12 isolation of traversals, queries and transformers from each other."""
import asyncio
import itertools
import threading

from mc import aio, catalog, sched
from mc.catalog import OPS, G, D
from mc.core import Bad, describe_exc
from mc.hier import FixedClock, kids, ALL
from rei.foundations.hierarchical_traversal_strategies import BreadthFirstHierarchicalTraversal, DepthFirstHierarchicalTraversal, \
    DepthLimitedDepthVisitChildren, DepthLimitedBreadthVisitChildren
from rei.foundations.hypergraph_traversal_strategies import HypergraphTraversal
from rei.hypergraph.norm.norm_functions import SumNorm
from rei.foundations.query.search_elements import QuerySearchSubElement, QuerySearchElement
from rei.factories.foundation_factory import HypergraphFactory

ASSUMPTIONS = ["searches share a queue through a default argument (known finding); they take part sequentially and nested, not in concurrent schedules",
               "event loop: every queue operation is a suspension point; bounded number of deviations from round robin",
               "threads: switches at source lines (bound 1) and at calls (bound 2) of the code under test"]

GRAPHS = {"g1": catalog.g1, "g2": catalog.g2, "g3": catalog.g3, "tiny": catalog.tiny}
SEARCHES = ("sub", "all")
HOOKED = ("bfs", "dfs", "lbfs", "ldfs", "hyper", "prep")
WAITING = ("engine", "sdf")
SUSPENDING_OK = [o for o in OPS if o not in SEARCHES]
BASE = {}
BATCH = 1


def runop(obj, g, hook=None):
    return aio.run(obj.run(g, hook))


def baseline(o, gname):
    """the operation alone, on a graph of its own"""
    if (o, gname) not in BASE:
        BASE[o, gname] = runop(OPS[o](), GRAPHS[gname]())
    return BASE[o, gname]


def same(text, o, gname, res):
    exp = baseline(o, gname)
    if res != exp:
        raise Bad(f"{text}: {o} on {gname} gives {str(res)[:400]}, alone it gives {str(exp)[:400]}")


class Poison(Exception):
    pass


def poison(g, k):
    """the k-th look at the children of an element of the graph fails; -> counter"""
    cnt = [0]

    def wrap(e):
        orig = e.get_subelements

        def get(f):
            cnt[0] += 1
            if cnt[0] == k:
                raise Poison
            return orig(f)
        e.get_subelements = get
    for e in g.all:
        wrap(e)
    return cnt


def cases(ck):
    yield ["stale", "sub", "sub", 0]
    if ck.thorough:     # the long ones first
        for x in SUSPENDING_OK[::-1]:
            if x not in ("cbor", "coo"):     # the tensor's traversal, with more to do afterwards (bound 1 below)
                yield ["threads", x, x, "other" if x in WAITING else "same", "call", 2]
    for x in SEARCHES:
        for y in SEARCHES:
            for hit in (0, 1):
                yield ["stale", x, y, hit]
    for x in OPS:
        for y in OPS:
            yield ["seq", [[x, "g1"], [y, "g2"]]]
            yield ["seq", [[x, "g1"], [y, "g1"]]]
    for x in OPS:
        for gs in itertools.product(("g1", "g2", "g3"), repeat=3):
            yield ["reuse", x, list(gs)]
    for x in OPS:
        for y in OPS:
            yield ["abort", x, y]
    for x in HOOKED:
        for y in OPS:
            yield ["nest", x, y, "g1", "g2"]
            yield ["nest", x, y, "g1", "same"]
    for x in ONE:
        for a, b in itertools.product(ONE_GRAPHS, repeat=2):
            yield ["self-nest", x, a, b]
        for a, b in (("tiny", "rev"), ("mixed", "tiny"), ("mixed", "mixed")):
            yield ["self-threads", x, a, b, "line", 1]
        if ck.thorough:
            yield ["self-threads", x, "tiny", "rev", "call", 2]
    pairs = [(x, y) for x in SUSPENDING_OK for y in SUSPENDING_OK]
    for x, y in pairs:
        yield ["tasks", x, y, "same", 1]
        yield ["tasks", x, y, "other", 1]
    for x, y in pairs:
        if ck.thorough or x == y or "bfs" in (x, y):
            yield ["threads", x, y, "same" if x <= y else "other", "line", 1]
    for x in SUSPENDING_OK:
        yield ["threads", x, x, "other", "line", 1]
    if ck.thorough:
        for t in itertools.product(OPS, repeat=3):
            yield ["seq", [[t[0], "g1"], [t[1], "g2"], [t[2], "g3"]]]
        for x, y in pairs:
            if x <= y:
                yield ["tasks", x, y, "other", 2]


def run_case(ck, case):
    ck.traces += 1
    ck.states += 1
    k = case[0]
    catalog.KEPT.clear()
    catalog.KEEPING[0] = k in ("seq", "reuse")
    if k == "stale":
        return stale(ck, case)
    if k == "seq":
        for x, g in case[1]:
            baseline(x, g)
        for i, (x, g) in enumerate(case[1]):
            same(f"{case}: step {i}", x, g, runop(OPS[x](), GRAPHS[g]()))
            ck.transitions += 1
    elif k == "reuse":
        _, x, gs = case
        obj = OPS[x]()
        made = {}
        for g in gs:
            baseline(x, g)
        for i, g in enumerate(gs):
            made.setdefault(g, GRAPHS[g]())
            same(f"{case}: use {i} of one object", x, g, runop(obj, made[g]))
            ck.transitions += 1
    if k in ("seq", "reuse"):
        for x in catalog.kept_changed():
            raise Bad(f"{case}: a result that {x} had handed out was changed by what ran later")
    elif k == "abort":
        abort(ck, case)
    elif k == "nest":
        nest(ck, case)
    elif k == "tasks":
        tasks(ck, case)
    elif k == "threads":
        threads(ck, case)
    elif k == "self-nest":
        self_nest(ck, case)
    elif k == "self-threads":
        self_threads(ck, case)
    ck.outcome((k, case[1] if isinstance(case[1], str) else case[1][0][0]))
    ck.sample(case, 3)


def drain():
    from mc import c11
    c11.drain()


def abort(ck, case):
    _, x, y = case
    baseline(y, "g2")
    for k in range(1, 60):
        g = GRAPHS["g1"]()
        obj = OPS[x]()
        poison(g, k)
        try:
            runop(obj, g)
            done = True
        except Poison:
            done = False
        except Exception:  # noqa  the abort came out as another error
            done = False
        ck.transitions += 1
        try:
            same(f"{case} aborted at access {k}", y, "g2", runop(OPS[y](), GRAPHS["g2"]()))
        except Bad as b:
            b.key = f"{x}-then-{y}-after-abort"
            raise
        finally:
            if x in SEARCHES:
                drain()
        if x == y:      # the object itself, once more
            baseline(x, "g3")
            same(f"{case} aborted at access {k}, the same object again", x, "g3", runop(obj, GRAPHS["g3"]()))
            if x in SEARCHES:
                drain()
        if done:
            break


def elsewhere(fn):
    """run in a thread with an event loop of its own"""
    box = []

    def body():
        try:
            box.append(("ok", asyncio.run(fn())))
        except BaseException as e:  # noqa
            box.append(("exc", e))
    t = threading.Thread(target=body)
    t.start()
    t.join(30)
    if not box:
        raise Bad("nested operation does not terminate")
    if box[0][0] == "exc":
        raise box[0][1]
    return box[0][1]


def nest(ck, case):
    _, x, y, gx, gy = case
    baseline(x, gx)
    baseline(y, gx if gy == "same" else gy)
    count = [0]
    runop(OPS[x](), GRAPHS[gx](), lambda _: count.__setitem__(0, count[0] + 1))
    n = count[0]
    for k in range(n) if ck.thorough or n < 8 else sorted({0, 1, n // 2, n - 1}):
        g = GRAPHS[gx]()
        seen, inner = [0], []

        def hook(_):
            if seen[0] == k:
                h = g if gy == "same" else GRAPHS[gy]()
                if y in WAITING:
                    inner.append(elsewhere(lambda: OPS[y]().run(h)))
                else:
                    inner.append(catalog.drive(OPS[y]().run(h)))
            seen[0] += 1
        res = runop(OPS[x](), g, hook)
        ck.transitions += 1
        same(f"{case}: outer operation with the inner one in callback {k}", x, gx, res)
        same(f"{case}: inner operation in callback {k}", y, gx if gy == "same" else gy, inner[0])


def tasks(ck, case):
    _, x, y, where, bound = case
    baseline(x, "tiny")
    baseline(y, "tiny")
    n = 0

    def run(script):
        a = GRAPHS["tiny"]()
        b = a if where == "same" else GRAPHS["tiny"]()
        return sched.run_tasks(script, [lambda: OPS[x]().run(a), lambda: OPS[y]().run(b)])
    for s, res in sched.all_scripts(run, bound, limit=60000 if ck.thorough else 6000):
        n += 1
        ck.transitions += len(s.trace)
        for o, r in zip((x, y), res):
            if isinstance(r, BaseException):
                raise Bad(f"{case}: {o} failed with {describe_exc(r)} under task order {[i for i, _ in s.trace]}")
            if o in WAITING and isinstance(r, list) and sorted(r) == sorted(baseline(o, "tiny")):
                continue            # several tasks of its own: their order is the order of the results
            same(f"{case} under task order {[i for i, _ in s.trace]}", o, "tiny", r)
    ck.extra["task_schedules"] = ck.extra.get("task_schedules", 0) + n


def threads(ck, case):
    _, x, y, where, gran, bound = case
    baseline(x, "tiny")
    baseline(y, "tiny")
    n = 0

    def run(script):
        a = GRAPHS["tiny"]()
        b = a if where == "same" else GRAPHS["tiny"]()
        ox, oy = OPS[x](), OPS[y]()
        la, lb = asyncio.new_event_loop(), asyncio.new_event_loop()
        try:
            return sched.Threads(script, (gran,)).run([lambda: la.run_until_complete(ox.run(a)), lambda: lb.run_until_complete(oy.run(b))])
        finally:
            la.close()
            lb.close()
    for s, res in sched.all_scripts(run, bound, limit=100000 if ck.thorough else 6000):
        n += 1
        ck.transitions += len(s.trace)
        for o, r in zip((x, y), res):
            at = [k for k, (i, _) in enumerate(s.trace) if i]
            if r[0] != "ok":
                raise Bad(f"{case}: {o} failed with {r[1]} when threads are switched at points {at}")
            same(f"{case}, threads switched at points {at}", o, "tiny", r[1])
    ck.extra["thread_schedules"] = ck.extra.get("thread_schedules", 0) + n


# ------------------------------------------------------------ one object used by several at the same time

ONE = {"bfs": lambda v: BreadthFirstHierarchicalTraversal(v, ALL), "dfs": lambda v: DepthFirstHierarchicalTraversal(v, ALL, True),
       "lbfs": lambda v: DepthLimitedBreadthVisitChildren(v, ALL, 1), "ldfs": lambda v: DepthLimitedDepthVisitChildren(v, ALL, 2),
       "hyper": lambda v: HypergraphTraversal(v, ALL, SumNorm()), "hyper2": lambda v: HypergraphTraversal(v, ALL, SumNorm(), depth=2)}
def deep_graph():
    """endpoints which contain edges whose endpoints contain edges"""
    g = G("d", [[(0, D.INWARDS, 0), (1, D.OUTWARDS, 0)]], 2)
    f = HypergraphFactory("dd", g.c)
    x = [f.generate_node(f"dx{i}", g.nodes[i]) for i in (0, 1)]
    f.connect_tuple_nodes(g.nodes[0], "dy", [(x[0], D.INWARDS, None, None), (x[1], D.OUTWARDS, None, None)])
    y = f.generate_node("dz", x[1])
    f.connect_tuple_nodes(x[1], "dw", [(y, D.BIDIRECTIONAL, None, None), (g.nodes[1], D.BIDIRECTIONAL, None, None)])
    g.by_uuid.update({e.uuid: e.id_name for e in (*x, y, *g.nodes[0].sub_edges, *x[1].sub_edges)})
    for e in (*x, y, *g.nodes[0].sub_edges, *x[1].sub_edges):
        g.name[id(e)] = e.id_name
        g.all.append(e)
    return g


ONE_GRAPHS = dict(GRAPHS, deep=deep_graph, mixed=lambda: G("m", [[(1, D.OUTWARDS, 1), (0, D.INWARDS, 0)], [(0, D.BIDIRECTIONAL, 0), (1, D.BIDIRECTIONAL, 1)]], 2),
                  rev=lambda: G("v", [[(0, D.OUTWARDS, 0), (1, D.INWARDS, 0)]], 2))


def plain(g, x):
    """what a visitor of either kind of traversal was given"""
    if isinstance(x, list):
        return [(g.u(a), g.u(b), g.u(e), float(w), repr(n)) for a, b, e, w, n in x]
    return g.lab(x)


def alone(kind, gname):
    if ("one", kind, gname) not in BASE:
        g, got = ONE_GRAPHS[gname](), []
        aio.run(ONE[kind](lambda x: got.append(plain(g, x))).execute(g.root))
        BASE["one", kind, gname] = got
    return BASE["one", kind, gname]


def self_nest(ck, case):
    """an object executed again inside its own callback"""
    _, kind, gx, gy = case
    n = len(alone(kind, gx))
    for k in range(n):
        g = ONE_GRAPHS[gx]()
        h = g if gx == gy else ONE_GRAPHS[gy]()
        outer, inner, level = [], [], [0]

        def visit(x):
            if level[0]:
                inner.append(plain(h, x))
                return x
            outer.append(plain(g, x))
            if len(outer) == k + 1:
                level[0] = 1
                catalog.drive(obj.execute(h.root))
                level[0] = 0
            return x
        obj = ONE[kind](visit)
        res = aio.run(obj.execute(g.root))
        ck.transitions += 1
        for what, got, exp in (("outer visits", outer, alone(kind, gx)), ("inner visits", inner, alone(kind, gy)),
                               ("outer results", [plain(g, x) for x in res], alone(kind, gx))):
            if got != exp:
                raise Bad(f"{case}: one object executed again in its own callback {k}: {what} {got}, alone {exp}")


def self_threads(ck, case):
    """one object executed by two threads"""
    _, kind, gx, gy, gran, bound = case
    ex = (alone(kind, gx), alone(kind, gy))

    def run(script):
        gs = (ONE_GRAPHS[gx](), ONE_GRAPHS[gy]())
        seen, who = ([], []), threading.local()

        def visit(x):
            seen[who.i].append(plain(gs[who.i], x))
            return x
        obj = ONE[kind](visit)

        def body(i, loop):
            who.i = i
            return loop.run_until_complete(obj.execute(gs[i].root))
        loops = asyncio.new_event_loop(), asyncio.new_event_loop()
        try:
            res = sched.Threads(script, (gran,)).run([lambda: body(0, loops[0]), lambda: body(1, loops[1])])
        finally:
            for x in loops:
                x.close()
        return wrap(res, seen, gs)

    def wrap(res, seen, gs):
        return [(r, seen[i], [plain(gs[i], x) for x in r[1]] if r[0] == "ok" else None) for i, r in enumerate(res)]
    n = 0
    for s, res in sched.all_scripts(run, bound, limit=100000 if ck.thorough else 6000):
        n += 1
        ck.transitions += len(s.trace)
        at = [k for k, (i, _) in enumerate(s.trace) if i]
        for i, (r, seen, given) in enumerate(res):
            if r[0] != "ok":
                raise Bad(f"{case}: thread {i} failed with {r[1]} when threads are switched at points {at}")
            if seen != ex[i] or given != ex[i]:
                raise Bad(f"{case}, threads switched at points {at}: thread {i} visited {seen} and got {given}, alone {ex[i]}")
    ck.extra["thread_schedules"] = ck.extra.get("thread_schedules", 0) + n


def twins():
    f = HypergraphFactory("tw", FixedClock())
    r = f.generate_node("r")
    return r, f.generate_list_nodes(["a", "b", "c"], r)


CLS = {"sub": QuerySearchSubElement, "all": QuerySearchElement}


def stale(ck, case):
    """a search in one graph, then a search for an equally named element of another graph"""
    _, x, y, hit = case
    drain()
    p, pn = twins()
    q, qn = twins()
    s1, s2 = CLS[x](), CLS[y]()
    s1.query_def = "r/a" if hit else "r/none"
    aio.run(s1.execute(p))
    s2.query_def = "r/b"
    aio.run(s2.execute(q))
    got = list(s2.query_result)
    drain()
    ck.transitions += 1
    if len(got) != 1 or got[0] is not qn[1]:
        where = "the other graph" if any(g is e for g in got for e in pn) else "nowhere" if not got else "a wrong element"
        raise Bad(f"{case}: after a {x} search that {'found its element' if hit else 'found nothing'} in one graph, a {y} search for r/b in "
                  f"another graph answers with {where}", key=f"{x}-then-{y}-after-{'hit' if hit else 'miss'}")
