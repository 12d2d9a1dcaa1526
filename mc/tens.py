"""Containers with edges over their nodes, and the tensors they should have (C15, C16, C18)."""
import itertools

from mc.hier import FixedClock
from rei.factories.foundation_factory import HypergraphFactory
from rei.hypergraph.base_elements import HypergraphNode, HypergraphEdge
from rei.hypergraph.common_definitions import EnumRelationDirection as D

DIR = {"i": D.INWARDS, "o": D.OUTWARDS, "b": D.BIDIRECTIONAL}


class Graph:
    """spec: one string over .iob per edge, one letter per node; weights: per edge None or values;
    decor: elements around and inside that are no part of the graph; rev: endpoints connected in reverse order"""

    def __init__(self, n, specs, weights=(), decor=False, rev=False, norder=None, eorder=None, ctx=None, twins=False):
        c = FixedClock()
        f = self.f = HypergraphFactory("t", c)
        if ctx is None:
            top = f.generate_node("top") if decor else None
            ctx = f.generate_node("ctx", top)
            if decor:
                other = f.generate_node("other", top)
                f.connect_nodes(top, "outer", [ctx, other])
        self.root = ctx
        self.nodes = [None] * n
        for i in (norder or range(n)):
            # twins: nodes of one name (of other factories)
            self.nodes[i] = HypergraphFactory(f"t{i}", c).generate_node("n", ctx) if twins else f.generate_node(f"n{i}", ctx)
        if decor and n:
            x, y = f.generate_list_nodes(["x", "y"], self.nodes[0])
            f.connect_nodes(self.nodes[0], "inner", [x, y])
            f.create_value(ctx, "val", [4.0])
        self.edges = [None] * len(specs)
        self.vals = {}
        for k in (eorder or range(len(specs))):
            e = self.edges[k] = HypergraphFactory(f"u{k}", c).create_hyperedge(ctx, "n") if twins else f.create_hyperedge(ctx, f"e{k}")
            w = weights[k] if k < len(weights) else None
            v = f.create_value(None, f"w{k}", list(w)) if w is not None else None
            if v is not None:
                self.vals[k] = v
            ends = list(enumerate(specs[k]))
            for i, d in ends[::-1] if rev else ends:
                if d != ".":
                    e.unary_connect(self.nodes[i], v, DIR[d])


def line(n, at):
    return "".join(at.get(i, ".") for i in range(n))


def families(sizes):
    """(name, nodes, edges) beyond the sizes enumerated in full"""
    for n in sizes:
        yield "cycle", n, [line(n, {k: "o", (k + 1) % n: "i"}) for k in range(n)]
        yield "path", n, [line(n, {k: "i", k + 1: "o"}) for k in range(n - 1)]
        yield "both ways", n, [line(n, {k: "b", k + 1: "b"}) for k in range(n - 1)]
        yield "fan", n, [line(n, {0: "i", k: "o"}) for k in range(1, n)]
        yield "fan in", n, [line(n, {0: "b", k: "i"}) for k in range(n - 1, 0, -1)]
        yield "star", n, ["i" + "o" * (n - 1)]
        yield "sink", n, ["i" * (n - 1) + "o"]
        yield "all", n, ["b" * n]
        yield "mixed", n, [("iob" * n)[:n], ("b.oi" * n)[:n], ("." * n)[:n], ("oi" * n)[:n]]
        yield "turned", n, [(("iob." * n)[k:])[:n] for k in range(n)]
        yield "parallel", 2, ["io", "oi", "bb", "b.", "oo"] * n
        yield "few", n, ["." * (n - 2) + "io", "o" + "." * (n - 2) + "i"]


def weights(m, kind):
    """per edge; kinds: none, all different, some, numbers that need all their digits"""
    if kind == 0:
        return [None] * m
    if kind == 1:
        return [(k + 1.5,) for k in range(m)]
    if kind == 3:
        return [([0.1, 1 / 3, 1e-7, 123456.789, 16777217][k % 5],) for k in range(m)]
    return [None if k % 3 == 0 else (0.5, k + 1.0) if k % 3 == 1 else (2.0,) for k in range(m)]


def weight_of(r):
    return 1.0 if r.weight is None else float(sum(r.weight.get_values()))


def tensors(root):
    """(W, Io, Ii) as nested lists, straight from the relations"""
    nodes = [x for x in root.get_subelements(lambda x: isinstance(x, HypergraphNode))]
    edges = [x for x in root.get_subelements(lambda x: isinstance(x, HypergraphEdge))]
    ix = {id(x): i for i, x in enumerate(nodes)}
    n, m = len(nodes), len(edges)
    w = [[[0.0] * n for _ in range(n)] for _ in range(m)]
    io = [[0.0] * n for _ in range(m)]
    ii = [[0.0] * n for _ in range(m)]
    for k, e in enumerate(edges):
        rel = list(e.sub_relations)
        for a, b in itertools.permutations(rel, 2):
            if a.direction in (D.INWARDS, D.BIDIRECTIONAL) and b.direction in (D.OUTWARDS, D.BIDIRECTIONAL):
                i, j, v = ix[id(a.endpoint)], ix[id(b.endpoint)], weight_of(a)
                w[k][i][j] = v
                io[k][i] = v
                ii[k][j] = v
    return w, io, ii
