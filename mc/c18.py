"""C18 encoding a context and decoding it again."""
import itertools

import cbor2

from mc import aio
from mc.core import Bad, describe_exc
from mc.hier import FixedClock, kids, uid
from mc.tens import DIR, weight_of, families, weights
from rei.factories.foundation_factory import HypergraphFactory
from rei.hypergraph.base_elements import HypergraphNode, HypergraphEdge, HypergraphRelation
from rei.hypergraph.common_definitions import EnumRelationDirection as D
from rei.hypergraph.encoding.graph_tensor_icon_cbor import GraphTensorCbor
from rei.hypergraph.value_node import ValueNode

ASSUMPTIONS = ["flat contexts: nodes, edges and values directly in the context; endpoints are these nodes or the context",
               "all relations of an edge carry the same weight; an encoding is update_context, update_coo, full_msg",
               "coordinate lists are compared as sets"]


# names and identifiers of relations made by hand
HAND = [("r", b"r"), ("", b""), ("rel", b"\0"), ("rele0.a.0", b"\0\0"), ("x.y/z", b"\xff" * 40), ("r", b"0"), ("rel\u00fc", b"u "), ("  ", b" u"), ("1", b"1")]


class Ctx:
    """hand: relations are made by hand; names: of the nodes; specs: per edge directions over nodes and, last, the context"""

    def __init__(self, names, specs, values=(), weights=(), inside=False, tag="c", hand=0):
        c = FixedClock()
        f = self.f = HypergraphFactory(tag, c)
        top = f.generate_node("top") if inside else None
        self.root = HypergraphNode("ctx", uid(tag + "R"), "f/ctx", c, top)
        if inside:
            other = f.generate_node("other", top)
            f.connect_nodes(top, "outer", [other, f.generate_node("third", top)])
        self.nodes = [HypergraphNode(n, uid(f"{tag}{i}"), f"f/{n}", c, self.root) for i, n in enumerate(names)]
        self.edges, self.vals = [], []
        odd = names[0] * 2 if names and not names[0].isalnum() or "ü" in names else ""
        self.weights = {}
        for k, s in enumerate(specs):
            e = f.create_hyperedge(self.root, f"e{k}{odd}")
            self.edges.append(e)
            w = weights[k] if k < len(weights) else None
            v = f.create_value(None, f"w{k}{odd}", list(w)) if w is not None else None
            self.weights[k] = v
            for p, d in zip([*self.nodes, self.root], s):
                if d != "." and hand:
                    hand += 1
                    name, u = HAND[hand % len(HAND)]
                    e.add_element(HypergraphRelation(u + b"~%d" % (hand // len(HAND)) * (hand >= len(HAND)), name, f"f/{name}", p, v, DIR[d]))
                elif d != ".":
                    e.unary_connect(p, v, DIR[d])
        for k, v in enumerate(values):
            self.vals.append(f.create_value(self.root, f"v{k}{odd}", list(v)))


def encode(g, tr, text):
    try:
        aio.run(tr.update_context(g))
        aio.run(tr.update_coo())
        return tr.full_msg()
    except Exception as e:  # noqa
        raise Bad(f"{text}: encoding raised {describe_exc(e)}")


def decode(msg, tr, text):
    try:
        return tr.create_graph(msg)
    except Exception as e:  # noqa
        raise Bad(f"{text}: decoding raised {describe_exc(e)}")


def shape(root):
    """everything a message carries, per kind in order"""
    el = lambda t: [x for x in kids(root) if isinstance(x, t)]  # noqa
    return {
        "context": (root.uuid, root.id_name),
        "nodes": [(x.uuid, x.id_name, kids_flat(x)) for x in el(HypergraphNode)],
        "edges": [(e.uuid, e.id_name, [(r.uuid, r.id_name, r.direction, r.endpoint.uuid, r.parent is e) for r in e.sub_relations])
                  for e in el(HypergraphEdge)],
        "values": [(v.uuid, v.id_name, v.get_values(), list(map(type, v.get_values()))) for v in el(ValueNode)],
        "count": [len(el(t)) for t in (HypergraphNode, HypergraphEdge, ValueNode)],
    }


def kids_flat(x):
    return [y.id_name for y in kids(x) if isinstance(y, (HypergraphNode, HypergraphEdge, ValueNode))]


def index_check(root, h, text):
    el = lambda t: [x for x in kids(root) if isinstance(x, t)]  # noqa
    for fwd, bwd, items in (("node", "dim", [root, *el(HypergraphNode)]), ("edge", "depth", el(HypergraphEdge)), ("val", "ival", el(ValueNode))):
        for i, x in enumerate(items):
            try:
                a, b = getattr(h, fwd)(x.uuid), getattr(h, bwd)(i)
            except Exception as e:  # noqa
                raise Bad(f"{text}: index of {x.id_name} raised {describe_exc(e)}")
            if a != i or b != x.uuid:
                raise Bad(f"{text}: index of {x.id_name} is {a}, expected {i}; element {i} is {b}")
    if (h.cnt_node, h.cnt_edges) != (1 + len(el(HypergraphNode)), len(el(HypergraphEdge))):
        raise Bad(f"{text}: counts of the index are {h.cnt_node}, {h.cnt_edges}")


def coordinates(root):
    nodes = [root] + [x for x in kids(root) if isinstance(x, HypergraphNode)]
    w, io, ii = set(), set(), set()
    for k, e in enumerate(x for x in kids(root) if isinstance(x, HypergraphEdge)):
        for a, b in itertools.permutations(list(e.sub_relations), 2):
            if a.direction in (D.INWARDS, D.BIDIRECTIONAL) and b.direction in (D.OUTWARDS, D.BIDIRECTIONAL):
                i = [n is a.endpoint for n in nodes].index(True)
                j = [n is b.endpoint for n in nodes].index(True)
                v = weight_of(a)
                w.add((k, i, j, v))
                io.add((k, i, v))
                ii.add((k, j, v))
    return w, io, ii


def verify(root, msg, new, hom, text):
    want, got = shape(root), shape(new)
    for k in want:
        if want[k] != got[k]:
            raise Bad(f"{text}: decoded {k} are {got[k]}, expected {want[k]}")
    if new.parent is not None:
        raise Bad(f"{text}: the decoded context is contained somewhere")
    for e, f in zip(new.sub_edges, root.sub_edges):
        for r in e.sub_relations:
            if not any(r.endpoint is x for x in [new, *new.sub_nodes]):
                raise Bad(f"{text}: a decoded relation leads to an element outside the decoded graph")
    for x in kids(new):
        if x.parent is not new or not isinstance(x.progenitor_qualified_name, str):
            raise Bad(f"{text}: decoded {x.id_name} has parent {x.parent} and progenitor name {x.progenitor_qualified_name!r}")
    index_check(new, hom, text)
    try:
        frag = cbor2.loads(msg)
        got = [{tuple(x[:-1]) + (float(x[-1]),) for x in l} for l in frag[4:7]]
    except Exception as e:  # noqa
        raise Bad(f"{text}: the message is not readable: {describe_exc(e)}")
    for name, a, b in zip(("weights", "outgoing incidence", "incoming incidence"), got, coordinates(root)):
        if a != b:
            raise Bad(f"{text}: coordinates of the {name} are {sorted(a)}, expected {sorted(b)}")


def specs(n):
    return ["".join(s) for s in itertools.product(".iob", repeat=n)]


VALUES = [(), ([1.0],), ([1, "a", None, True],), ([], [2.5, -1]), (["x", [1, 2]], [3], [0.0]), ([0.1, 1e300, 1e-300, 16777217, 2 ** 64, -2 ** 63, 1 / 3],), ([-0.0, "", b"", b"\0a", "\u00fc", [], [None, [0.1]], {"a": 1}, False],)]
NAMES = [["a", "b"], ["x", "x"], ["ü", "a/b"], ["", " "], ["\u4e2d" * 90, "e\u0301"], ["\n\0\"", "\U0001f916"]]


def cases(ck):
    for names in NAMES:
        for inside in (0, 1):
            for vs in VALUES:
                for s in specs(3):
                    yield ["graph", names, [s], vs, [], inside]
    for s in itertools.product(specs(3), repeat=2):
        if ck.thorough or s[0] <= s[1]:
            yield ["graph", ["a", "b"], list(s), VALUES[1], [(2.0,), None], 0]
            yield ["graph", ["a", "b"], list(s), VALUES[0], [None, None], 1]
    for s in specs(3):
        for k in range(1, len(HAND) + 1):
            yield ["graph", ["a", "b"], [s, "iob"], VALUES[1], [(2.0,), None], 0, "c", k]
    for n in range(0, 5):
        names = [f"n{i}" for i in range(n)]
        for s in specs(n + 1):
            for w in (None, (0.5, 3.0)):
                yield ["graph", names, [s], VALUES[3], [w], 1]
        yield ["graph", names, [], VALUES[2], [], 0]
    if ck.thorough:
        for s in itertools.product(specs(3), repeat=3):
            yield ["graph", ["a", "b"], list(s), VALUES[0], [(1.0,), None, (2.0,)], 1]
        for s in itertools.product(specs(4), repeat=2):
            yield ["graph", ["a", "b", "c"], list(s), VALUES[1], [None, None], 0]
    for name, n, s in families((5, 6, 9, 12) if ck.thorough else (6, 12)):
        for w in (0, 1, 2, 3):
            # the last place is the context
            yield ["graph", ["x"] * (n - 1) if w == 0 else [f"n{i}" for i in range(n - 1)], s, [[float(i)] * i for i in range(n)] if w else VALUES[0],
                   weights(len(s), w), w == 2]
    # more of everything than fits into small counters
    for n in (64, 65, 130) if ck.thorough else (66,):
        yield ["graph", [f"n{i}" for i in range(n)], [("iob." * n)[:n + 1], "b" * (n - 1) + "io", "." * (n - 1) + "io"], VALUES[1], weights(3, 1), 0]
    for n in (257, 300) if ck.thorough else (260,):
        yield ["graph", [f"n{i}" for i in range(n)], ["." * n + "b"] + ["." * k + "io" + "." * (n - k - 1) for k in range(n)], [[float(i)] for i in range(n)], weights(n + 1, 1), 0]
    for d in range(1, 5 if ck.thorough else 4):
        for h in itertools.product(MENU, repeat=d):
            yield ["hist", list(h)]


MENU = [["enc", 0], ["enc", 1], ["conn", 0, 2, "o"], ["conn", 1, 0, "b"], ["disc", 0, 0], ["disc", 1, 1], ["rmedge", 0], ["newnode"], ["newedge"],
        ["rmnode", 2], ["setv", 0], ["grow", 0], ["newval"], ["rmval"], ["weight"]]


class Hist:
    def __init__(self):
        self.c = [Ctx(["a", "b", "c"], ["io..", "bb.."], ([1.0], [2.0, 3.0]), [(1.0,), (3.0,)], True),
                  Ctx(["a", "b"], ["oi.", "..."], ([7.0],), [], False, "d")]
        self.tr = GraphTensorCbor("icon", FixedClock(), self.c[0].root)
        self.old = []
        self.new = 0

    def do(self, op):
        g, k = self.c[0], op[0]
        try:
            if k == "conn":
                g.edges[op[1]].unary_connect(g.nodes[op[2]], g.weights[op[1]], DIR[op[3]])
            elif k == "disc":
                for r in list(g.edges[op[1]].sub_relations):
                    if r.endpoint is g.nodes[op[2]]:
                        list(g.edges[op[1]].remove_element(uuid=r.uuid))
                        r.endpoint.disconnect(r)
            elif k == "rmedge":
                list(g.root.remove_element(uuid=g.edges[op[1]].uuid))
            elif k == "newnode":
                self.new += 1
                g.f.generate_node(f"m{self.new}", g.root)
            elif k == "newedge":
                self.new += 1
                g.f.connect_nodes(g.root, f"f{self.new}", list(g.root.sub_nodes)[-2:])
            elif k == "rmnode":
                x = g.nodes[op[1]]
                if not any(r.endpoint is x for e in g.root.sub_edges for r in e.sub_relations):
                    list(g.root.remove_element(uuid=x.uuid))
            elif k == "setv":
                g.vals[0][0] = g.vals[0][0] + 1.0
            elif k == "grow":
                g.vals[0].update_values([*g.vals[0].get_values(), 9.0])
            elif k == "newval":
                self.new += 1
                g.f.create_value(g.root, f"nv{self.new}", [float(self.new)])
            elif k == "rmval":
                list(g.root.remove_element(uuid=g.vals[1].uuid))
            elif k == "weight":
                g.weights[0].update_values([g.weights[0][0] + 1.0])
        except Exception:  # noqa  refused
            pass

    def enc(self, i, text):
        root = self.c[i].root
        msg = encode(root, self.tr, text)
        # the encoder itself and an unrelated one decode it; earlier decoded graphs stay what they were
        for dec in (self.tr, GraphTensorCbor("other", FixedClock(), None)):
            new, hom = decode(msg, dec, text)
            verify(root, msg, new, hom, text)
            for n, s, h in self.old:
                if shape(n) != s:
                    raise Bad(f"{text}: an earlier decoded graph has changed")
                index_check(n, h, text + ": an earlier decoded index")
            self.old.append((new, shape(new), hom))


def run_case(ck, case):
    ck.traces += 1
    ck.states += 1
    ck.sample(case, 3)
    if case[0] == "graph":
        g = Ctx(*case[1:])
        tr = GraphTensorCbor("icon", FixedClock(), g.root)
        before = shape(g.root)
        for i in (1, 2):
            text = f"context {case[1:]}, message {i}"
            msg = encode(g.root, tr, text)
            new, hom = decode(msg, tr, text)
            verify(g.root, msg, new, hom, text)
            ck.transitions += 1
        if shape(g.root) != before:
            raise Bad(f"{case[1:]}: encoding changed the graph")
        ck.outcome(repr(sorted(coordinates(g.root)[0])))
        return
    w = Hist()
    for i, op in enumerate(case[1]):
        if op[0] == "enc":
            w.enc(op[1], f"context {op[1]} after {case[1][:i]}")
        else:
            w.do(op)
            if not all(r.endpoint.parent is w.c[0].root for e in w.c[0].root.sub_edges for r in e.sub_relations):
                return
        ck.transitions += 1
    for i in (0, 1):
        w.enc(i, f"context {i} after {case[1]}")
    ck.outcome(repr(shape(w.old[-1][0])["count"]))
