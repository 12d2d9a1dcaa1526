"""C23 the graph traversal emits exactly the connected pairs."""
import itertools
import math

import numpy as np

from mc import aio
from mc.core import Bad, describe_exc
from mc.c17 import FG, rels, specs, INC, OUT
from mc.hier import FixedClock
from rei.factories.foundation_factory import HypergraphFactory
from mc.tens import DIR, families, weights
from rei.foundations.hypergraph_traversal_strategies import HypergraphTraversal
from rei.hypergraph.base_elements import HypergraphNode, HypergraphEdge, HypergraphRelation
from rei.hypergraph.homomorphism_functions import IndexHomomorphismGraphTensor
from rei.hypergraph.norm.norm_functions import SumNorm, ProdNorm
from rei.hypergraph.value_node import ValueNode

ASSUMPTIONS = ["with an index mapping, endpoints and edges are indexed elements", "pairs are compared as a multiset, not by order"]
NORMS = {"sum": (SumNorm, lambda v: float(sum(v))), "prod": (ProdNorm, lambda v: float(sum(x * x for x in v)))}


def reached(start, limit):
    """relations within reach: depth of an element = least number of relations on the way"""
    dist = {}
    todo = [(0, start)]
    res = []
    while todo:
        todo.sort(key=lambda t: t[0])
        d, x = todo.pop(0)
        if id(x) in dist:
            continue
        dist[id(x)] = d
        if isinstance(x, HypergraphNode):
            todo = [(d, e) for e in x.get_subelements(lambda y: isinstance(y, HypergraphEdge))] + todo
        elif isinstance(x, HypergraphEdge):
            todo = [(d, r) for r in rels(x)] + todo
        elif isinstance(x, HypergraphRelation):
            res.append(x)
            if d + 1 < limit:
                todo.append((d + 1, x.endpoint))
    return res


def expected(start, limit, norm, nid, eid):
    res = []
    for r in reached(start, limit):
        e = r.parent
        n = 1.0 if r.weight is None else norm(r.weight.get_values())
        if n == 0.0:
            continue
        me = nid(r.endpoint)
        if r.direction in INC:
            res += [(me, nid(o.endpoint), eid(e), n) for o in rels(e) if o.direction in OUT and o.endpoint is not r.endpoint]
        if r.direction in OUT:
            res += [(nid(o.endpoint), me, eid(e), n) for o in rels(e) if o.direction in INC and o.endpoint is not r.endpoint]
    return res


def traverse(tr, got, start, text):
    got.clear()
    try:
        ret = aio.run(tr.execute(start))
    except Exception as e:  # noqa
        raise Bad(f"{text}: raised {describe_exc(e)}")
    if list(ret) != [len(b) for b in got]:
        raise Bad(f"{text}: results {ret} are not those of the visitor for {got}")
    return [(a, b, e, float(w)) for batch in got for a, b, e, w, *_ in batch]


def judge(g, got, exp, text, name):
    if sorted(map(repr, got)) != sorted(map(repr, exp)):
        show = lambda l: sorted((name(a), name(b), name(e), w) for a, b, e, w in l)  # noqa
        more, less = list(got), []
        for x in exp:
            if x in more:
                more.remove(x)
            else:
                less.append(x)
        raise Bad(f"{text}: {len(got)} pairs instead of {len(exp)}; not expected: {show(more)[:6]}, missing: {show(less)[:6]}")


def check(ck, g, start, limit, norm, text, times=2):
    got = []
    vis = lambda b: got.append(list(b)) or len(got[-1])  # noqa
    functor, f = NORMS[norm]
    tr = HypergraphTraversal(vis, lambda x: True, functor(), None, limit) if limit != math.inf else HypergraphTraversal(vis, lambda x: True, functor())
    names = {o.uuid: k for k, o in g.o.items()}
    for k in range(times):
        t = f"{text}, from {start}, depth limit {limit}, execution {k + 1}"
        exp = expected(g.o[start], limit, f, lambda x: x.uuid, lambda x: x.uuid)
        judge(g, traverse(tr, got, g.o[start], t), exp, t, lambda u: names.get(u, u))
        ck.transitions += 1
    return len(exp)


def indexed(ck, g, text):
    got = []
    h = IndexHomomorphismGraphTensor(True)
    aio.run(h.execute(g.o["ctx"]))
    tr = HypergraphTraversal(lambda b: got.append(list(b)) or len(got[-1]), lambda x: True, SumNorm(), h, 1)
    nodes = [x for x in g.o["ctx"].sub_nodes]
    edges = [x for x in g.o["ctx"].sub_edges]
    exp = expected(g.o["ctx"], 1, NORMS["sum"][1], lambda x: [y is x for y in nodes].index(True), lambda x: [y is x for y in edges].index(True))
    judge(g, traverse(tr, got, g.o["ctx"], text), exp, text + ", with an index mapping", str)
    ck.transitions += 1


LIMITS = (1, 2, 3, 4, math.inf)
WEIGHTS = (None, [2.0], [0.5, 3.0], [0.0], [1.0, -1.0], [-1.5], [0.1], [1e-9], [1.0, -2.0, 3.0, -0.5, 0.25])


def cases(ck):
    for a in specs(3):
        yield ["graph", [["ctx", ["n0", "n1", "ctx"], a]]]
        yield ["index", [["ctx", ["n0", "n1", "n2"], a]]]
        for b in specs(2):
            yield ["graph", [["ctx", ["n0", "n1", "ctx"], a], ["n1", ["n0", "e0"], b]]]
            yield ["index", [["ctx", ["n0", "n1", "n2"], a], ["ctx", ["n2", "n0"], b]]]
            # elements of the same name and qualified name
            yield ["twin", [["ctx", ["n0", "n1", "ctx"], a], ["n0", ["n2", "n1"], b], ["n1", ["n0", "e0"], b]]]
            yield ["twin", [["ctx", ["n0", "n1", "n2"], a], ["ctx", ["n1", "n2", "n0"], b + "o"], ["n2", ["n1", "ctx"], b]]]
            for c in specs(3) if ck.thorough else [x for x in specs(3) if x.count(".") == 1]:
                yield ["graph", [["ctx", ["n0", "n1", "ctx"], a], ["ctx", ["n0", "e0"], b], ["n0", ["x", "n1", "ctx"], c]]]
    # chains over edges as endpoints: ways of different length to the same element
    for d in itertools.product("iob", repeat=5):
        yield ["graph", [["ctx", ["n0", "n1"], d[0] + d[1]], ["ctx", ["n0", "e0"], d[2] + d[3]], ["n1", ["n2", "e1"], d[4] + "b"], ["n2", ["x", "y"], "io"]]]
        yield ["graph", [["ctx", ["n0"], d[0]], ["n0", ["n1"], d[1]], ["n1", ["x"], d[2]], ["ctx", ["e4"], "b"], ["y", ["e5"], d[3]], ["y", ["x", "n2"], d[4] + "o"],
                         ["x", ["n2", "y"], "bb"]]]
    for d in itertools.product("iob", repeat=2):
        for w in itertools.product(range(len(WEIGHTS)), repeat=2):
            for n in NORMS:
                yield ["weight", "".join(d), list(w), n]
    for d in itertools.product("iob", repeat=3):
        for w in itertools.product((0, 1, 2), repeat=3):
            yield ["weight", "".join(d), list(w), "sum"]
    # the same element over edges only (fewer steps, deeper) and over nodes (more steps, less deep)
    for a in range(1, 7):
        for b in range(1, 6):
            for d in "ob" if ck.thorough else "b":
                yield ["deep", a, b, d]
    for _, n, s in families((5, 6, 7, 9, 12) if ck.thorough else (5, 10)):
        for twins in (0, 1):
            for w in (0, 2, 3):
                yield ["big", n, s, twins, w]
    for n in (4, 9, 12, 40 if ck.thorough else 28):
        for d in ("io", "ob", "bb", "bi"):
            yield ["nested", n, d]
    ops = [["conn", 0, "n2", "o"], ["conn", 1, "n0", "i"], ["disc", 0], ["disc", 1], ["move"], ["weight"]]
    for h in itertools.product(ops, repeat=4 if ck.thorough else 3):
        yield ["hist", list(h)]


class Chain(FG):
    """edges may link later edges: create all edges first"""

    def __init__(self, sp, twins=False):
        super().__init__([[c, [], ""] for c, _, _ in sp], twins)
        for e, (_, ends, dirs) in zip(self.edges, sp):
            for p, d in zip(ends, dirs):
                if d != "." and twins == 2:
                    e.add_element(HypergraphRelation(b"rel%d" % e.cnt_subelements, "rel", "f/rel", self.o[p], None, DIR[d]))
                elif d != ".":
                    e.unary_connect(self.o[p], None, DIR[d])


def deep(a, b, d):
    """ctx and two ways to x: over a edges as endpoints of edges, and over b nodes; x leads on to y, z, ctx"""
    g = FG([])
    out = g.f.generate_node("outside")

    def edge(cont, name, ends):
        e = g.o[name] = g.f.create_hyperedge(cont, name)
        for p in ends + [g.o["n0"]]:
            e.unary_connect(p, None, DIR["b" if p is g.o["n0"] else d])
        return e

    def node(k):
        if k not in g.o:
            g.o[k] = g.f.generate_node(k, out)
        return g.o[k]
    last = node("t")
    edge(last, "t0", [node("t1")])
    edge(node("t1"), "t2", [node("t3")])
    edge(node("t3"), "t4", [g.o["ctx"]])
    cur = edge(g.o["ctx"], "a0", [])
    for k in range(1, a):
        nxt = edge(out, f"a{k}", [])
        cur.unary_connect(nxt, None, DIR[d])
        cur = nxt
    cur.unary_connect(last, None, DIR[d])
    cur = g.o["ctx"]
    for k in range(b):
        nxt = last if k == b - 1 else node(f"b{k}")
        edge(cur, f"be{k}", [nxt])
        cur = nxt
    return g


def big(n, dirs, twins, w):
    g = FG.of(n, [], twins)
    for k, (ds, v) in enumerate(zip(dirs, weights(len(dirs), w))):
        f = HypergraphFactory(f"g{k}", FixedClock()) if twins else g.f
        e = g.o[f"e{k}"] = f.create_hyperedge(g.o["ctx" if k % 3 else f"p{k % n}"], "p" if twins else f"g{k}")
        x = g.f.create_value(None, f"w{k}", list(v)) if v else None
        for i, d in enumerate(ds):
            if d != ".":
                e.unary_connect(g.o[f"p{i}"], x, DIR[d])
    return g


def nested(n, d):
    """each node contains the edge to the next"""
    g = FG([])
    cur = "ctx"
    for k in range(n):
        g.o[f"p{k}"] = g.f.generate_node(f"p{k}", g.o["n0"])
        e = g.o[f"e{k}"] = g.f.create_hyperedge(g.o[cur], f"e{k}")
        e.unary_connect(g.o[cur], None, DIR[d[0]])
        e.unary_connect(g.o[f"p{k}"], None, DIR[d[1]])
        cur = f"p{k}"
    return g


def weighted(dirs, ws):
    g = FG([["ctx", [], ""]])
    e = g.edges[0]
    for i, (d, w) in enumerate(zip(dirs, ws)):
        v = g.f.create_value(None, f"w{i}", list(WEIGHTS[w])) if WEIGHTS[w] is not None else None
        e.unary_connect(g.o[f"n{i}"], v, DIR[d])
    return g


def run_case(ck, case):
    ck.traces += 1
    ck.states += 1
    ck.sample(case, 4)
    k = case[0]
    n = 0
    if k in ("graph", "twin"):
        g = Chain(case[1], k == "twin")
        if k == "graph":        # elements of different containers share identifiers
            h = Chain(case[1], 2)
            for s, lim in (("ctx", 2), ("ctx", math.inf), ("n1", math.inf)):
                check(ck, h, s, lim, "sum", f"edges {case[1]}, identifiers shared", 1)
        for lim in LIMITS:
            n = check(ck, g, "ctx", lim, "sum", f"edges {case[1]}", 2 if lim == 2 else 1)
        for s in ("n0", "n1", "e0"):
            check(ck, g, s, 2, "sum", f"edges {case[1]}", 1)
            check(ck, g, s, math.inf, "sum", f"edges {case[1]}", 1)
        if k == "twin" and all(p in ("n0", "n1", "n2") for _, ends, ds in case[1] for p, d in zip(ends, ds) if d != "."):
            indexed(ck, g, f"edges {case[1]}")
    elif k == "deep":
        g = deep(*case[1:])
        for lim in range(1, 9):
            n = check(ck, g, "ctx", lim, "sum", f"x reached over {case[1]} edges and over {case[2]} nodes ({case[3]})", 1)
        for s in ("a0", "t", "t1"):
            check(ck, g, s, 3, "sum", f"x reached over {case[1]} edges and over {case[2]} nodes ({case[3]})", 1)
    elif k in ("big", "nested"):
        g = (big if k == "big" else nested)(*case[1:])
        for lim in (1, 2, 3, 5, 8, 9, 11, 13, *((17, 20, 25, 33) if k == "nested" else ()), math.inf):
            n = check(ck, g, "ctx", lim, "sum", str(case[:3]), 2 if lim == 2 else 1)
        for s in ("p0", "p1", "e0"):
            check(ck, g, s, 2, "sum", str(case[:3]), 1)
            check(ck, g, s, math.inf, "prod", str(case[:3]), 1)
    elif k == "index":
        indexed(ck, FG(case[1]), f"edges {case[1]}")
    elif k == "weight":
        g = weighted(case[1], case[2])
        n = check(ck, g, "ctx", math.inf, case[3], f"edge with directions {case[1]}, weights {[WEIGHTS[i] for i in case[2]]}, norm {case[3]}")
    else:
        g = FG([["ctx", ["n0", "n1"], "io"], ["n1", ["n0", "ctx"], "bb"]])
        v = g.f.create_value(None, "w", [1.0, 1.0])
        got = []
        tr = HypergraphTraversal(lambda b: got.append(list(b)) or len(got[-1]), lambda x: True, SumNorm())
        traverse(tr, got, g.o["ctx"], "first")
        names = {o.uuid: k for k, o in g.o.items()}
        for i, op in enumerate(case[1]):
            try:
                if op[0] == "conn":
                    g.edges[op[1]].unary_connect(g.o[op[2]], v, DIR[op[3]])
                elif op[0] == "disc":
                    r = rels(g.edges[op[1]])[0]
                    list(r.parent.remove_element(uuid=r.uuid))
                    r.endpoint.disconnect(r)
                elif op[0] == "move":
                    g.o["n2"].add_element(g.edges[1])
                elif op[0] == "weight":
                    v.update_values([v[0] + 1.0])
            except Exception:  # noqa  refused
                pass
            t = f"after {case[1][:i + 1]}"
            exp = expected(g.o["ctx"], math.inf, NORMS["sum"][1], lambda x: x.uuid, lambda x: x.uuid)
            judge(g, traverse(tr, got, g.o["ctx"], t), exp, t, lambda u: names.get(u, u))
            n = len(exp)
    ck.outcome(repr((k, n)))
