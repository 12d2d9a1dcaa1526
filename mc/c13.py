"""C13 preposition queries and the query engine."""
import asyncio
import itertools

from mc import aio, trees
from mc.core import Bad, describe_exc
from mc.hier import FixedClock, kids, uid
from rei.factories.foundation_factory import HypergraphFactory
from rei.hypergraph.base_elements import HypergraphNode, HypergraphEdge, HypergraphRelation
from rei.hypergraph.common_definitions import EnumRelationDirection as D
from rei.hypergraph.value_node import SemanticValueNode
from rei.query.query_engine import HierarchicalPrepositionQuery, HypergraphQueryEngine

ASSUMPTIONS = ["results of a query are fetched after every execution; queries are not executed concurrently here (C12 does that)"]
KINDS = (HypergraphNode, HypergraphEdge, HypergraphRelation, SemanticValueNode)


def expected(ctx, prep, stmt):
    """breadth first; the context itself counts, and is expanded even if it is not accepted"""
    ok = lambda x: isinstance(x, KINDS) and stmt(x)  # noqa
    res = [ctx] if ok(ctx) else []
    todo = [ctx]
    while todo:
        x = todo.pop(0)
        for c in kids(x):
            if ok(c):
                res.append(c)
                todo.append(c)
    return [x for x in res if prep(x)]


async def once(q):
    tasks = await q.prefilter()
    await asyncio.gather(*tasks)
    return await q.get_list_results()


def compare(got, exp, lab, text):
    if len(got) != len(exp) or any(a is not b for a, b in zip(got, exp)):
        raise Bad(f"{text}: answers {[lab(x) for x in got]}, expected {[lab(x) for x in exp]}")


# ------------------------------------------------------------ static graphs

def static(ck, par, kinds, sub, few=False):
    """few: only siblings have different identifiers"""
    if sub and not few:
        static(ck, par, kinds, sub, True)
    els = trees.build(par, kinds, None, few)
    lab = {id(e): f"{type(e).__name__}{i}" for i, e in enumerate(els)}
    n = len(els)
    sets = list(itertools.product((0, 1), repeat=n))
    for s in range(n):
        for stmt in sets:
            fs = lambda x: stmt[els.index(x)]  # noqa
            for prep in (sets if not sub else [sets[-1], sets[0], tuple(i % 2 for i in range(n)), tuple((i + 1) % 2 for i in range(n))]):
                fp = lambda x: prep[els.index(x)]  # noqa
                q = HierarchicalPrepositionQuery(els[s], fp, fs)
                exp = expected(els[s], fp, fs)
                for k in (0, 1):
                    compare(aio.run(once(q)), exp, lambda x: lab.get(id(x), "?"),
                            f"execution {k} of a query from {lab[id(els[s])]} in {par} {kinds}, preposition accepts {prep}, statement accepts {stmt}")
                    ck.transitions += 1
                ck.outcome(str(len(exp)))
    ck.states += 1


def big(ck, par, kinds, few=False):
    if not few:
        big(ck, par, kinds, True)
    els = trees.build(par, kinds, None, few)
    n = len(els)
    ix = {id(e): i for i, e in enumerate(els)}
    sets = [set(range(n)), set(), {i for i in range(n) if i % 2}, {i for i in range(n) if i % 3}, set(range(n)) - {n // 2}, set(range(n)) - {n - 1}, {n - 1}]
    for s in (0, 1, n // 2):
        for a, b in itertools.product(sets, repeat=2):
            fs, fp = (lambda x: ix[id(x)] in a), (lambda x: ix[id(x)] in b)
            q = HierarchicalPrepositionQuery(els[s], fp, fs)
            for k in (0, 1):
                compare(aio.run(once(q)), expected(els[s], fp, fs), lambda x: str(ix.get(id(x), "?")),
                        f"execution {k} of a query from element {s} of {par} {kinds}, preposition accepts {sorted(b)}, statement accepts {sorted(a)}")
                ck.transitions += 1
    ck.states += 1


def several(ck, n, ways):
    """an engine with n queries on different elements"""
    els = trees.build([-1] + [0] * n)
    eng = HypergraphQueryEngine("engine", b"0000", "engine/engine", FixedClock())
    spec = []
    for i in range(n):
        spec.append((els[i], (lambda x, i=i: x is not els[(i * 5) % n]), lambda x: True))
        eng.add_query(f"q{i}", HierarchicalPrepositionQuery(*spec[-1]))
    exp = [x for s in spec for x in expected(*s)]
    for way in ways:
        try:
            got = aio.run(eng.execute()) if way == "await" else eng.execute_all_queries()
            if way != "await":
                aio.drop_loop()
        except Exception as e:  # noqa
            raise Bad(f"engine with {n} queries executed ({way}): raised {describe_exc(e)}")
        compare(list(got), exp, lambda x: str(els.index(x)), f"engine with {n} queries executed ({way})")
        ck.transitions += 1
    ck.states += 1


NAMES = ["a", "a ", " a", "A", "", " ", "a/b", "a.b", "\u00e4", "a\u0308", "0", "00", "a" * 300, "a" * 301, "__init__", "None"]


def named(ck, names):
    """queries registered under names that are alike"""
    els = trees.build([-1] + [0] * len(names))
    eng = HypergraphQueryEngine("engine", b"0000", "engine/engine", FixedClock())
    spec = {n: (els[1 + i], lambda x: True, lambda x: True) for i, n in enumerate(names)}
    for turn, order in enumerate((names, names[::-1])):
        for n in order:
            eng.add_query(n, HierarchicalPrepositionQuery(*spec[n]))
        compare(list(aio.run(eng.execute())), [x for n in names for x in expected(*spec[n])], lambda x: str(els.index(x)),
                f"engine with queries registered as {names!r}{', and again in reverse order' * turn}")
        ck.transitions += 1
    eng.clear()
    if list(aio.run(eng.execute())):
        raise Bad(f"cleared engine with queries registered as {names!r} still answers")
    ck.states += 1


# ------------------------------------------------------------ histories

class QW:
    def __init__(self, inhabited=False):
        c = FixedClock()
        f = self.f = HypergraphFactory("q", c)
        r = self.r = f.generate_node("r")
        self.a, self.b = f.generate_node("a", r), f.generate_node("b", r)
        self.a1 = f.generate_node("a1", self.a)
        self.s = SemanticValueNode(uid("s"), "s", "f/s", None, {"k": 1})
        self.t = SemanticValueNode(uid("t"), "t", "f/t", None, {"k": 1})
        self.a1.add_element(self.t)
        self.e = f.connect_tuple_nodes(r, "e", [(self.a, D.INWARDS, None, None), (self.b, D.OUTWARDS, None, self.s)])
        self.v = f.create_value(r, "v", [1.0])
        self.spare = f.generate_node("spare")
        g = f.generate_node("g", self.spare)
        g.add_element(SemanticValueNode(uid("z"), "z", "f/z", None, {"k": 2}))
        kind = lambda k: (lambda x: isinstance(x, k))  # noqa
        yes = lambda x: True  # noqa
        self.spec = {"nodes": (r, kind(HypergraphNode), yes), "sems": (r, kind(SemanticValueNode), yes),
                     "any": (self.a, yes, lambda x: x.id_name != "g"), "none": (r, lambda x: False, yes),
                     "rels": (r, kind((HypergraphRelation, HypergraphEdge)), lambda x: not isinstance(x, HypergraphNode))}
        self.q = {k: HierarchicalPrepositionQuery(*v) for k, v in self.spec.items()}
        self.engine = HypergraphQueryEngine("engine", b"0000", "engine/engine", c)
        if inhabited:       # the engine is a node: it may contain elements, and be contained
            f.generate_node("home").add_element(self.engine)
            f.generate_node("note", self.engine)
        self.reg = {}

    def mutate(self, m):
        if m == "move":
            self.b.add_element(self.a1)
        elif m == "spare":
            (self.a if self.spare.parent is None else self.b).add_element(self.spare)
        elif m == "rmrel":
            for x in list(self.e.sub_relations):
                list(self.e.remove_element(uuid=x.uuid))
                break
        elif m == "rmb":
            if self.b.parent is self.r:
                list(self.r.remove_element(uuid=self.b.uuid))
        elif m == "nest":
            if self.b.parent is self.r and self.a.parent is self.r:
                self.b.add_element(self.a)

    def want(self):
        res = []
        for k in self.reg.values():
            res += expected(*self.spec[k])
        return res


def lab(x):
    return f"{type(x).__name__}:{getattr(x, 'id_name', x)}"


def execute(w, way, text):
    try:
        if way == "await":
            got = aio.run(w.engine.execute())
        else:
            got = w.engine.execute_all_queries()
            aio.drop_loop()
    except Exception as e:  # noqa
        raise Bad(f"{text}: execution ({way}) raised {describe_exc(e)}")
    compare(list(got), w.want(), lab, f"{text}: engine with {w.reg} executed ({way})")
    return len(got)


def step(w, op, text):
    if op[0] == "add":
        w.engine.add_query(op[1], w.q[op[2]])
        w.reg[op[1]] = op[2]
    elif op[0] == "clear":
        w.engine.clear()
        w.reg = {}
    elif op[0] == "mut":
        try:
            w.mutate(op[1])
        except Exception:  # noqa  refused
            pass
    elif op[0] == "exec":
        execute(w, op[1], text)
    elif op[0] == "direct":
        compare(aio.run(once(w.q[op[1]])), expected(*w.spec[op[1]]), lab, f"{text}: query {op[1]} executed alone")


def menu(ck):
    res = [["add", n, q] for n in ("l", "m") for q in ("nodes", "sems", "any")]
    res += [["add", "k", "none"], ["add", "m", "rels"], ["clear"], ["exec", "await"], ["exec", "all"], ["direct", "nodes"]]
    res += [["mut", m] for m in ("move", "spare", "rmrel", "rmb", "nest")]
    return res


def cases(ck):
    for n in range(1, 5):
        for t in trees.trees(n):
            par = trees.parents(t)
            for ks in itertools.product(("node", "edge", "sem", "value"), repeat=n - 1):
                if all(p <= 0 or ks[p - 1] in ("node", "edge") for p in par):
                    yield ["static", par, ["node", *ks], n > 3 and not ck.thorough]
    for n in range(6, 20) if ck.thorough else (7, 12, 15):
        for _, par in trees.shapes(n):
            for ks in (["node"], ["edge", "node"], ["node"] * (n - 3) + ["sem", "value", "sem"]):
                yield ["big", par, [ks[i % len(ks)] for i in range(n)]]
        yield ["several", n, ["await", "all", "all", "await"]]
    for k in (1, 2, 3) if ck.thorough else (1, 2):
        for ns in itertools.permutations(NAMES, k):
            yield ["named", list(ns)]
    yield ["named", NAMES]
    m = menu(ck)
    full = 4 if ck.thorough else 3
    for d in range(0, full + 1):
        for h in itertools.product(range(len(m)), repeat=d):
            yield ["hist", [m[i] for i in h]]
    if not ck.thorough:
        few = [x for x in m if x[1:] not in (["m", "sems"], ["l", "any"], ["k", "none"], ["rmrel"], ["all"], ["m", "nodes"])]
        for h in itertools.product(few, repeat=4):
            yield ["hist", list(h)]
    # one execution somewhere in between
    for k in (("all",) if ck.thorough else ()):
        for h in itertools.product([x for x in m if x[0] in ("add", "mut", "clear")], repeat=full):
            yield ["hist", [h[0], h[1], ["exec", k], *h[2:]]]


def run_case(ck, case):
    ck.traces += 1
    if case[0] == "static":
        return static(ck, *case[1:])
    if case[0] == "named":
        return named(ck, case[1])
    if case[0] in ("big", "several"):
        return (big if case[0] == "big" else several)(ck, *case[1:])
    for ways, inhabited in ((("await", "all"), False), (("all", "await", "await", "all"), True)):
        w = QW(inhabited)
        for i, op in enumerate(case[1]):
            step(w, op, f"after {case[1][:i]}")
        for x in ways:
            n = execute(w, x, f"after {case[1]}")
            ck.transitions += 1
        ck.outcome(str(n))
    ck.states += 1
    ck.sample(case, 3)
