"""C24 analyses never alter the graph and repeat with the same result."""
import itertools

from mc import aio, catalog
from mc.catalog import OPS, G, D
from mc.core import Bad, snapshot
from mc.hier import TickClock, kids, uid
from mc.view import view, difference
from mc.robot import Robot, graph, link, joint, end, export
from rei.foundations.hypergraph_traversal_strategies import HypergraphTraversal
from rei.factories.foundation_factory import HypergraphFactory
from rei.hypergraph.base_elements import HypergraphNode, HypergraphEdge, HypergraphRelation
from rei.hypergraph.value_node import ValueNode, SemanticValueNode
from rei.hypergraph.factorization_operations import Factorization2SubsetOperation, RelationFactorization2SubsetOperation, MapFactorizationToFactorGraph
from rei.hypergraph.homomorphism_functions import IndexHomomorphismGraphTensor
from rei.hypergraph.norm.norm_functions import ProdNorm
from rei.tensor.tensor_representation import NumpyHypergraphTensorTransformer
from lxml import etree

ASSUMPTIONS = ["an analysis that is not defined for a graph may raise, but then always and without changing anything",
               "each search operation ends with a search without a match (see the known finding of C12)"]


class QuietClock(TickClock):
    """advances at every reading; reading it is no change of the graph"""
    __slots__ = ()

    def __init__(self):
        object.__setattr__(self, "_n", [100])

    def get_time_ns(self):
        self._n[0] += 1
        return self._n[0]


def observe(g):
    return tuple((n, tuple((k, v) for k, v in s if k not in ("_n",)) if isinstance(s, tuple) else s) for n, s in snapshot(g.all))


class Extra(G):
    """other shapes; everything the operations of the catalog ask for"""

    def __init__(self, kind):
        self.c = QuietClock()
        getattr(self, kind)()
        self.name = {}
        self.all = []
        todo = [self.top]
        while todo:
            x = todo.pop(0)
            if id(x) in self.name:
                continue
            self.name[id(x)] = f"{type(x).__name__}:{x.qualified_name}"
            self.all.append(x)
            todo += kids(x)
        self.by_uuid = {x.uuid: self.name[id(x)] for x in self.all}

    def start(self):
        from rei.factories.foundation_factory import HypergraphFactory
        from rei.format.semantics.cognitive_entity_semantic_factory import CognitiveEntitySemanticFactory
        self.f = HypergraphFactory("f", self.c)
        self.s = CognitiveEntitySemanticFactory("s", self.c)

    def empty(self):
        self.start()
        self.top = self.root = self.f.generate_node("root")
        self.nodes, self.edges, self.inner = [self.root], [], self.root
        self.value = self.f.create_value(self.root, "val", [])

    def loop(self):
        """edges that link each other, their container and a node twice"""
        self.start()
        self.top = self.root = self.f.generate_node("root")
        self.nodes = [self.f.generate_node(x, self.root) for x in "abc"]
        self.inner = self.f.generate_node("in", self.nodes[1])
        a, b, c = self.nodes
        w = self.f.create_value(None, "w", [0.5])
        e = self.f.connect_tuple_nodes(self.root, "e", [(a, D.BIDIRECTIONAL, w, None), (b, D.INWARDS, None, None), (c, D.OUTWARDS, w, None)])
        d = self.f.connect_tuple_nodes(self.root, "d", [(e, D.INWARDS, None, None), (self.root, D.OUTWARDS, None, None), (a, D.BIDIRECTIONAL, None, None)])
        self.f.connect_tuple_nodes(self.nodes[1], "n", [(self.inner, D.OUTWARDS, None, None), (b, D.INWARDS, None, None), (d, D.BIDIRECTIONAL, None, None)])
        self.edges = [e, d]
        self.value = self.f.create_value(self.root, "val", [1, 2.5, "x"])

    def nested(self):
        """the analysed context lies within another one that has edges and values of its own"""
        self.start()
        self.top = self.f.generate_node("top")
        out = self.f.generate_node("out", self.top)
        self.root = self.f.generate_node("root", self.top)
        self.nodes = [self.f.generate_node(x, self.root) for x in "ab"]
        self.inner = self.f.generate_node("in", self.nodes[0])
        self.edges = [self.f.connect_tuple_nodes(self.root, "e", [(self.nodes[0], D.INWARDS, None, None), (self.nodes[1], D.OUTWARDS, None, None)])]
        self.f.connect_tuple_nodes(self.top, "t", [(out, D.INWARDS, None, None), (self.root, D.OUTWARDS, None, None)])
        self.f.connect_tuple_nodes(self.nodes[0], "i", [(self.inner, D.INWARDS, None, None), (out, D.OUTWARDS, None, None)])
        self.value = self.f.create_value(self.root, "val", [3.0])
        self.f.create_value(self.inner, "val", [4.0])
        self.s.generate_semantic_element("cognitive_entity", "ent", self.root, {"name": "ent"})

    def robot(self):
        cyl = {"n": "geom_p", "t": "cylinder", "v": [0.5, 1.0]}
        pose = [[0.0, 1.0, 0.0], [90.0, 0.0, 0.0], "deg"]
        s = graph("s", [link("sa", pose, [{"n": "p", "geoms": [cyl], "mat": None}], 1.0), link("sb")], [joint("k", end("sa", "i"), end("sb", "o", "rev"))])
        r = Robot("robot", graph("basic", [link("l0", pose, [{"n": "p", "geoms": [cyl], "mat": "red"}, {"n": "q", "geoms": [{"n": "geom_q", "ref": ["l0", "p"]}], "mat": None}], 2.0),
                                           link("l1")],
                                 [joint("w", end("world", "i"), end("l0", "o")), joint("j", end("l0", "i"), end("l1", "o", "rev", [1.0, 0.0, 0.0], pose)),
                                  joint("r", end("l1", "i"), end("s", "o", "rev"))], [s]), self.c)
        self.robot_ = r
        self.top = r.root
        self.root = next(iter(r.root.get_element_by_id_name("basic")))
        self.nodes = list(self.root.sub_nodes)
        self.edges = list(self.root.sub_edges)
        self.inner = self.nodes[0]
        self.value = r.f.create_value(self.root, "val", [1.0])


def big(make):
    def build():
        old = catalog.FixedClock
        catalog.FixedClock = QuietClock
        try:
            return make()
        finally:
            catalog.FixedClock = old
    return build


GRAPHS = {"g1": big(catalog.g1), "g2": big(catalog.g2), "g3": big(catalog.g3), **{k: (lambda k=k: Extra(k)) for k in ("empty", "loop", "nested", "robot")}}


class Spectrum:
    def __init__(self):
        self.obj = NumpyHypergraphTensorTransformer()

    async def run(self, g, hook=None):
        await self.obj.execute(g.root)
        t = self.obj.tensor_representation
        res = []
        for n in ("deg", "D", "DD", "L", "Lp", "total_deg", "Lnorm", "W", "Lp", "deg"):
            try:
                res.append((n, repr(getattr(t, n))))
            except Exception as e:  # noqa
                res.append((n, type(e).__name__))
        for n in ("entropy", "entropy_vector", "entropy_projected", "entropy"):
            try:
                res.append((n, repr(getattr(t, n)())))
            except Exception as e:  # noqa
                res.append((n, type(e).__name__))
        return res


class Indexed:
    def __init__(self):
        self.h = IndexHomomorphismGraphTensor(True)

    async def run(self, g, hook=None):
        await self.h.execute(g.root)
        got = []
        await HypergraphTraversal(lambda b: got.append([(x[0], x[1], x[2], float(x[3])) for x in b]), lambda x: True, ProdNorm(), self.h, 1).execute(g.root)
        return got


class Subset:
    """selections in every arrangement"""

    def __init__(self):
        self.obj = Factorization2SubsetOperation()
        self.rel = RelationFactorization2SubsetOperation(True)

    async def run(self, g, hook=None):
        res = []
        for sel in ([*g.nodes, *g.edges], [*g.edges, *g.nodes], [*g.nodes[::-1], *g.edges[::-1]], [*g.edges[:1], *g.nodes, *g.edges[1:]], g.all):
            res.append([(g.lab(i), g.lab(o)) for i, o in await self.obj.execute(catalog.given(list(sel)))])
            rel = [y for x in sel for y in ([x, *x.sub_relations] if x in g.edges else [x])]
            for s in (rel, rel[::-1]):
                res.append([(g.lab(i), g.lab(o)) for i, o in await self.rel.execute(catalog.given(s))])
        return res


class MapFact:
    def __init__(self):
        self.obj = Factorization2SubsetOperation(True)
        self.map = MapFactorizationToFactorGraph(lambda p: [x.endpoint.id_name for x in p])

    async def run(self, g, hook=None):
        return list(await self.map.execute(await self.obj.execute(catalog.given([*g.edges[::-1], *g.nodes]))))


class Lookup:
    """reading access of the elements themselves"""

    async def run(self, g, hook=None):
        res = []
        for x in g.all:
            res.append([g.lab(y) for y in kids(x)] + [x.qualified_name, getattr(x, "depth", None), getattr(x, "timestamp", None)])
            for p in ("a", "l0", "e", "x/y", ""):
                if hasattr(x, "get_element_by_id_name"):
                    res.append([g.lab(y) for y in x.get_element_by_id_name(p)])
            for a in ("sub_nodes", "sub_edges", "sub_ports", "sub_relations", "induced_subset"):
                if hasattr(x, a):
                    res.append([g.lab(y) for y in getattr(x, a)])
            for a in ("get_incoming_relations", "get_outgoing_relations", "get_values"):
                if hasattr(x, a):
                    res.append([repr(y) if a == "get_values" else g.lab(y) for y in getattr(x, a)()])
        return res


class Export:
    """the whole conversion of a robot, over the tool's own queries"""

    async def run(self, g, hook=None):
        if not hasattr(g, "robot_"):
            return None
        return "robot"


MENU = {**OPS, "spectrum": Spectrum, "indexed": Indexed, "mapfact": MapFact, "subset": Subset, "lookup": Lookup, "export": Export}
BASE = {}


def perform(obj, g):
    del catalog.GIVEN[:]
    catalog.GIVING[0] = True
    try:
        res = aio.run(obj.run(g))
        if res == "robot":
            res = etree.tostring(export(g.robot_).root_xml)
        return repr(res)
    except Bad:
        raise
    except Exception as e:  # noqa
        return f"raises {type(e).__name__}"


def alone(o, gname):
    if (o, gname) not in BASE:
        BASE[o, gname] = perform(MENU[o](), GRAPHS[gname]())
    return BASE[o, gname]


def cases(ck):
    for gname in GRAPHS:
        for n in (1, 2):
            for seq in itertools.product(MENU, repeat=n):
                yield [gname, list(seq)]
    for gname in GRAPHS if ck.thorough else ("nested", "loop"):
        for seq in itertools.product(MENU, repeat=3):
            yield [gname, list(seq)]


def later(g):
    """the same changes in any graph of the kind, to see whether something remembered shows later"""
    for x in list(g.all):
        ks = kids(x)
        if ks and not isinstance(x, HypergraphRelation):
            for y in list(x.remove_element(uuid=ks[0].uuid)):
                x.add_element(y)
        if isinstance(x, HypergraphNode):
            HypergraphNode("later", uid("later"), "f/later", g.c, x)
        if isinstance(x, HypergraphEdge) and x.parent is not None:
            HypergraphFactory("later", g.c).generate_node("late", x.parent)
        if isinstance(x, SemanticValueNode):
            x.add_named_attribute("x", 5)
        if isinstance(x, ValueNode):
            x.update_values([4.0, 2.0])


def hidden(g, gname, seq, objs, text):
    """the analyses left a trace: can anyone tell, now or after changes?"""
    other = GRAPHS[gname]()
    d = difference(view(g.all), view(other.all))
    if d:
        raise Bad(f"{text}: the graph is altered: {d}")
    for x in (g, other):
        x.c._n[0] = 10 ** 6    # reading the clock is no change of the graph
        later(x)
    d = difference(view(g.all), view(other.all))
    if d:
        raise Bad(f"{text}: the graph is altered, it shows after changes: {d}")
    for o in objs:
        a, b = perform(objs[o], g), perform(MENU[o](), other)
        if a != b:
            raise Bad(f"{text}: after changes {o} gives {a[:500]}, in a graph not analysed before {b[:500]}")


def run_case(ck, case):
    gname, seq = case
    ck.traces += 1
    ck.states += 1
    ck.sample(case, 4)
    for o in seq:
        alone(o, gname)
    g = GRAPHS[gname]()
    objs = {}
    before = observe(g)
    for i, o in enumerate(seq):
        obj = objs.setdefault(o, MENU[o]())
        res = perform(obj, g)
        ck.transitions += 1
        t = f"{gname}: {' '.join(seq[:i + 1])}"
        trace = observe(g) != before
        if trace:
            d = difference(view(g.all), view(GRAPHS[gname]().all))
            if d:
                raise Bad(f"{t}: {o} altered the graph: {d}")
        if catalog.given_changed():
            raise Bad(f"{t}: {o} altered a list handed to it: {catalog.given_changed()}")
        if res != alone(o, gname):
            raise Bad(f"{t}: {o} gives {res[:500]}, the first time it gives {alone(o, gname)[:500]}")
        ck.outcome(o + res[:60])
    if trace:
        hidden(g, gname, seq, objs, f"{gname}: {' '.join(seq)}")
