"""C15 weight tensor and incidence matrices."""
import itertools

import numpy as np

from mc import aio
from mc.core import Bad, describe_exc
from mc.tens import Graph, tensors, families, weights
from rei.hypergraph.common_definitions import EnumRelationDirection as D
from rei.tensor.tensor_representation import NumpyHypergraphTensorTransformer

ASSUMPTIONS = ["all relations of an edge carry the same weight; edges link nodes of the container; weights are not zero"]


def compare(tr, root, text):
    try:
        aio.run(tr.execute(root))
        t = tr.tensor_representation
        got = (t.W, t.Io, t.Ii)
    except Exception as e:  # noqa
        raise Bad(f"{text}: raised {describe_exc(e)}")
    w, io, ii = tensors(root)
    n, m = (len(io[0]) if io else len([1 for _ in root.sub_nodes])), len(w)
    for name, a, b, shape in (("W", got[0], w, (m, n, n)), ("Io", got[1], io, (m, n)), ("Ii", got[2], ii, (m, n))):
        if a is None and 0 in shape:
            continue
        if np.shape(a) != shape:
            raise Bad(f"{text}: {name} has shape {np.shape(a)}, expected {shape}")
        b = np.array(b, dtype=float).reshape(shape)
        if not np.array_equal(np.asarray(a), b):
            raise Bad(f"{text}: {name} is {np.asarray(a).tolist()}, expected {b.tolist()}")
    return m


def specs(n):
    return ["".join(s) for s in itertools.product(".iob", repeat=n)]


WS = [None, (2.0,), (0.5, 3.0), (-1.5,), (1.0, -2.0, 3.0, -0.5)]


def cases(ck):
    for n in range(0, 5):
        for s in [()] + [(s,) for s in specs(n)]:
            for w in WS:
                for decor in (0, 1):
                    for rev in (0, 1):
                        yield ["graph", n, list(s), [w], decor, rev]
    for n in range(1, 4):
        for s in itertools.product(specs(n), repeat=2):
            yield ["graph", n, list(s), [None, None], 0, 0]
            yield ["graph", n, list(s), [(2.0,), (3.0,)], 1, 1]
            if ck.thorough or n < 3:
                for w in itertools.product(WS[:3], repeat=2):
                    yield ["graph", n, list(s), list(w), 1, 0]
    for s in itertools.product(specs(2), repeat=3):
        yield ["graph", 2, list(s), [None, (2.0,), None], 0, 0]
    if ck.thorough:
        for s in itertools.product(specs(3), repeat=3):
            yield ["graph", 3, list(s), [None, (2.0,), (3.0,)], 0, 0]
        for s in itertools.product(specs(4), repeat=2):
            yield ["graph", 4, list(s), [None, None], 0, 0]
    for name, n, s in families((5, 6, 7, 9, 12, 13) if ck.thorough else (5, 8, 12)):
        for w in (0, 1, 2, 3):
            for decor, rev, twins in ((0, 0, 0), (1, 1, 0), (0, 0, 1)):
                yield ["graph", n, s, weights(len(s), w), decor, rev, twins]
    for n in (2, 3):
        for s in itertools.product(specs(n), repeat=2):
            yield ["graph", n, list(s), [None, (2.0,)], 0, 0, 1]
    some = [("io.", "bb."), ("i.o", ".io"), ("bbb", "oi."), ("iio", "..."), ("ioo", "io.")]
    for a in some:
        for d in range(1, 5 if ck.thorough else 4):
            for h in itertools.product(MENU, repeat=d):
                yield ["hist", list(a), list(h)]
    small = [(2, ("io",)), (2, ("oi",)), (2, ("bb",)), (3, ("io.",)), (2, ("io", "bb")), (2, ("..",)), (2, ()), (3, ("iob",))]
    for seq in itertools.product(range(len(small)), repeat=3):
        yield ["seq", [small[i] for i in seq]]


MENU = [["conn", 0, 1, "i"], ["conn", 0, 2, "o"], ["conn", 1, 0, "b"], ["conn", 1, 2, "i"], ["disc", 0, 0], ["disc", 0, 1], ["disc", 1, 1], ["disc", 1, 2],
        ["rmedge", 0], ["rmedge", 1], ["readd", 0], ["newnode"], ["newedge"], ["weight", 0, 4.0], ["weight", 1, 0.5], ["rmnode", 2]]


class Hist:
    def __init__(self, specs):
        self.g = Graph(3, specs, [(1.0,), (3.0,)])
        self.new = 0

    def do(self, op):
        g, k = self.g, op[0]
        try:
            if k == "conn":
                g.edges[op[1]].unary_connect(g.nodes[op[2]], g.vals[op[1]], {"i": D.INWARDS, "o": D.OUTWARDS, "b": D.BIDIRECTIONAL}[op[3]])
            elif k == "disc":
                for r in list(g.edges[op[1]].sub_relations):
                    if r.endpoint is g.nodes[op[2]]:
                        list(g.edges[op[1]].remove_element(uuid=r.uuid))
                        r.endpoint.disconnect(r)
            elif k == "rmedge":
                if g.edges[op[1]].parent is not None:
                    list(g.root.remove_element(uuid=g.edges[op[1]].uuid))
            elif k == "readd":
                g.root.add_element(g.edges[op[1]])
            elif k == "newnode":
                self.new += 1
                g.f.generate_node(f"m{self.new}", g.root)
            elif k == "newedge":
                self.new += 1
                g.f.connect_nodes(g.root, f"f{self.new}", [x for x in g.root.sub_nodes][-2:], D.BIDIRECTIONAL)
            elif k == "weight":
                g.vals[op[1]].update_values([op[2], 1.0])
            elif k == "rmnode":
                x = g.nodes[op[1]]
                if x.parent is not None and not any(r.endpoint is x for e in g.root.sub_edges for r in e.sub_relations):
                    list(g.root.remove_element(uuid=x.uuid))
        except Exception:  # noqa  refused
            pass

    def legal(self):
        """every endpoint is a node of the container"""
        return all(r.endpoint.parent is self.g.root for e in self.g.root.sub_edges for r in e.sub_relations)


def run_case(ck, case):
    ck.traces += 1
    k = case[0]
    if k == "graph":
        _, n, s, w, decor, rev, *twins = case
        g = Graph(n, s, w, decor, rev, twins=bool(twins and twins[0]))
        tr = NumpyHypergraphTensorTransformer()
        for i in (1, 2):
            compare(tr, g.root, f"graph {case[1:]}, execution {i}")
            ck.transitions += 1
    elif k == "seq":
        tr = NumpyHypergraphTensorTransformer()
        gs = [Graph(n, s) for n, s in case[1]]
        for i, g in enumerate(gs + gs[:1]):
            compare(tr, g.root, f"one transformer on {case[1]}, execution {i}")
            ck.transitions += 1
    else:
        w = Hist(case[1])
        tr = NumpyHypergraphTensorTransformer()
        aio.run(tr.execute(w.g.root))
        for i, op in enumerate(case[2]):
            w.do(op)
            ck.transitions += 1
            if not w.legal():
                return
        compare(tr, w.g.root, f"edges {case[1]} after {case[2]}, executed again by the same transformer")
        compare(NumpyHypergraphTensorTransformer(), w.g.root, f"edges {case[1]} after {case[2]}")
    ck.states += 1
    ck.outcome(str(case[2] if k == "graph" else k))
    ck.sample(case, 3)
