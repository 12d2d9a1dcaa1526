"""The analyses of the library as uniform, comparable operations (C12, C24)."""
import asyncio

import cbor2
from lxml import etree

from mc.hier import FixedClock, kids, ALL
from rei.factories.foundation_factory import HypergraphFactory
from rei.format.mapping.cognilang_sdf_icon import CognilangSdfIcon
from rei.format.semantics.CognitiveEntity import KinematicLink, KinematicJoint, CognitiveEntity
from rei.format.semantics.cognitive_entity_semantic_factory import CognitiveEntitySemanticFactory
from rei.foundations.hierarchical_traversal_strategies import BreadthFirstHierarchicalTraversal, DepthFirstHierarchicalTraversal, \
    DepthLimitedDepthVisitChildren, DepthLimitedBreadthVisitChildren
from rei.foundations.hypergraph_traversal_strategies import HypergraphTraversal
from rei.foundations.query.search_elements import QuerySearchSubElement, QuerySearchElement
from rei.hypergraph.base_elements import HypergraphNode, HypergraphEdge, HypergraphRelation
from rei.hypergraph.common_definitions import EnumRelationDirection as D
from rei.hypergraph.encoding.graph_tensor_icon import CoordinateObjectTransformer
from rei.hypergraph.encoding.graph_tensor_icon_cbor import GraphTensorCbor
from rei.hypergraph.factorization_operations import Factorization2Operation, Factorization2SubsetOperation, \
    RelationFactorization2SubsetOperation
from rei.hypergraph.homomorphism_functions import IndexHomomorphismGraphTensor
from rei.hypergraph.norm.norm_functions import SumNorm
from rei.query.query_engine import HierarchicalPrepositionQuery, HypergraphQueryEngine
from rei.tensor.tensor_representation import NumpyHypergraphTensorTransformer


class G:
    """a small graph whose elements have unique labels"""

    def __init__(self, prefix, links, n, value=None):
        self.c = FixedClock()
        f = HypergraphFactory(prefix, self.c)
        s = CognitiveEntitySemanticFactory("s" + prefix, self.c)
        self.root = f.generate_node(prefix + "root")
        self.nodes = [f.generate_node(f"{prefix}{i}", self.root) for i in range(n)]
        self.inner = f.generate_node(f"{prefix}in", self.nodes[0])
        self.edges = [f.connect_tuple_nodes(self.root, f"{prefix}e{k}", [
            (self.nodes[i], d, f.create_value(None, f"{prefix}w{k}", [2.0]) if w else None,
             s.generate_semantic_element("kinematic_joint", f"{prefix}j{k}{i}", self.root, {"joint_type": "rev"}) if d == D.OUTWARDS else None)
            for i, d, w in l]) for k, l in enumerate(links)]
        self.value = f.create_value(self.root, prefix + "val", value or [1.0, 2.0])
        for i, x in enumerate(self.nodes):
            s.generate_semantic_element("kinematic_link", x.id_name, x, {"name": x.id_name})
        s.generate_semantic_element("cognitive_entity", prefix + "ent", self.root, {"name": prefix})
        self.name = {}
        self.all = []
        todo = [self.root]
        while todo:
            x = todo.pop(0)
            if id(x) in self.name:
                continue
            self.name[id(x)] = f"{type(x).__name__}:{x.id_name}"
            self.all.append(x)
            todo += kids(x)
        self.by_uuid = {x.uuid: self.name[id(x)] for x in self.all}

    def lab(self, x):
        return self.name.get(id(x), "?" + getattr(x, "id_name", repr(x)))

    def u(self, x):
        return self.by_uuid.get(x, repr(x))


def g1():
    return G("a", [[(0, D.INWARDS, 0), (1, D.OUTWARDS, 0)], [(1, D.INWARDS, 1), (2, D.OUTWARDS, 1)]], 3, [5.0])


def g2():
    return G("b", [[(0, D.INWARDS, 0), (1, D.OUTWARDS, 0), (3, D.OUTWARDS, 0)], [(2, D.INWARDS, 0), (3, D.OUTWARDS, 0)]], 4, [7.0, 8.0])


def g3():
    return G("c", [[(0, D.INWARDS, 0), (1, D.OUTWARDS, 0)]], 2)


def tiny():
    """for schedule enumeration"""
    return G("t", [[(0, D.INWARDS, 0), (1, D.OUTWARDS, 0)]], 2)


# what operations handed out during the current case, and how it looked: [(operation, result, fingerprint)]
KEPT = []
KEEPING = [False]


def fingerprint(x):
    if isinstance(x, (list, tuple)):
        return [type(x).__name__, *map(fingerprint, x)]
    if isinstance(x, dict):
        return [(k, fingerprint(v)) for k, v in x.items()]
    if isinstance(x, (int, float, str, bytes, type(None))):
        return x
    if hasattr(x, "tolist"):
        return x.tolist()
    return id(x)


def kept(op, x):
    if KEEPING[0]:
        KEPT.append((op, x, fingerprint(x)))
    return x


def kept_changed():
    return [op for op, x, f in KEPT if fingerprint(x) != f]


GIVING = [False]
GIVEN = []


def given(x):
    """a list handed to an operation: it is the caller's"""
    if GIVING[0]:
        GIVEN.append((x, list(x)))
    return x


def given_changed():
    return [f"{was} became {x}" for x, was in GIVEN if len(x) != len(was) or any(a is not b for a, b in zip(x, was))]


# name -> (make(), async run(obj, graph, hook)), hook(x) is called in every callback the operation has
OPS = {}


def op(name):
    def deco(cls):
        OPS[name] = cls
        return cls
    return deco


class Traversal:
    def __init__(self):
        self.sink = self.hook = None

    def visit(self, x):
        if self.hook:
            self.hook(x)
        return x

    def keep(self, x):
        return True

    async def run(self, g, hook=None):
        self.hook = hook
        return [g.lab(x) for x in kept("traversal", await self.obj.execute(g.root))]


@op("bfs")
class Bfs(Traversal):
    def __init__(self):
        super().__init__()
        self.obj = BreadthFirstHierarchicalTraversal(self.visit, self.keep)


@op("dfs")
class Dfs(Traversal):
    def __init__(self):
        super().__init__()
        self.obj = DepthFirstHierarchicalTraversal(self.visit, self.keep, True)


@op("lbfs")
class LBfs(Traversal):
    def __init__(self):
        super().__init__()
        self.obj = DepthLimitedBreadthVisitChildren(self.visit, self.keep, 1)


@op("ldfs")
class LDfs(Traversal):
    def __init__(self):
        super().__init__()
        self.obj = DepthLimitedDepthVisitChildren(self.visit, self.keep, 2)


@op("hyper")
class Hyper:
    def __init__(self):
        self.got = []
        self.hook = None
        self.obj = HypergraphTraversal(self.visit, lambda x: True, SumNorm())

    def visit(self, x):
        x = list(x)
        self.got.append(x)
        if self.hook:
            self.hook(x)
        return x

    async def run(self, g, hook=None):
        self.hook, self.got = hook, []
        kept("hyper", await self.obj.execute(g.root))
        return [[(g.u(a), g.u(b), g.u(e), float(w), repr(n)) for a, b, e, w, n in batch] for batch in self.got]


@op("index")
class Index:
    def __init__(self):
        self.obj = IndexHomomorphismGraphTensor(True)

    async def run(self, g, hook=None):
        await self.obj.execute(g.root)
        o = self.obj
        return [[(g.u(x.uuid), o.node(x.uuid)) for x in g.nodes], [(g.u(x.uuid), o.edge(x.uuid)) for x in g.edges],
                o.val(g.value.uuid), o.cnt_node, o.cnt_edges, [g.u(o.dim(i)) for i in range(o.cnt_node)], [g.u(o.depth(i)) for i in range(o.cnt_edges)]]


@op("tensor")
class Tensor:
    def __init__(self):
        self.obj = NumpyHypergraphTensorTransformer()

    async def run(self, g, hook=None):
        await self.obj.execute(g.root)
        t = self.obj.tensor_representation
        kept("tensor", [t.W, t.Io, t.Ii, t.deg, t.L, t.Lp])
        return [t.W.tolist(), t.Io.tolist(), t.Ii.tolist(), t.deg.tolist(), t.L.tolist(), t.Lp.tolist()]


@op("coo")
class Coo:
    def __init__(self):
        self.obj = CoordinateObjectTransformer(None)

    async def run(self, g, hook=None):
        await self.obj.reset(g.root)
        await self.obj.execute()
        o = self.obj
        return repr(kept("coo", [o.node_index_list(), o.edge_index_list(), o.msg_relation_index_list(), o.msg_value_nodes(),
                                  o.msg_value_node_update(), o.msg_tensor_value_updates()]))


@op("cbor")
class Cbor:
    def __init__(self):
        self.obj = GraphTensorCbor("icon", FixedClock(), None)

    async def run(self, g, hook=None):
        await self.obj.update_context(g.root)
        await self.obj.update_coo()
        msg = self.obj.full_msg()
        root, hom = self.obj.create_graph(msg)
        kept("cbor", [x.uuid for x in root.get_subelements(ALL)])
        return [msg.hex(), self.obj.msg_value_update().hex(), [x.id_name for x in root.get_subelements(ALL)], hom.cnt_node]


@op("fact")
class Fact:
    def __init__(self):
        self.obj = Factorization2Operation()

    async def run(self, g, hook=None):
        return [(g.lab(i), [g.lab(x) for x in o]) for i, o in kept("fact", await self.obj.execute(g.root))]


@op("fact2")
class Fact2:
    def __init__(self):
        self.obj = Factorization2SubsetOperation()

    async def run(self, g, hook=None):
        return [(g.lab(i), g.lab(o)) for i, o in kept("fact2", await self.obj.execute(given([*g.edges[:1], *g.nodes[::-1], *g.edges[1:]])))]


@op("factr")
class FactR:
    def __init__(self):
        self.obj = RelationFactorization2SubsetOperation()

    async def run(self, g, hook=None):
        return [(g.lab(i), g.lab(o)) for i, o in kept("factr", await self.obj.execute(given([r for e in g.edges[::-1] for r in e.sub_relations])))]


@op("prep")
class Prep:
    """a preposition query belongs to its context"""

    def __init__(self):
        self.q = {}
        self.hook = None

    async def run(self, g, hook=None):
        self.hook = hook
        if id(g) not in self.q:
            def prep(x):
                if self.hook:
                    self.hook(x)
                return isinstance(x, (HypergraphNode, HypergraphRelation))
            self.q[id(g)] = (HierarchicalPrepositionQuery(g.root, prep, lambda x: True), g)
        q = self.q[id(g)][0]
        for t in await q.prefilter():
            await t
        return [g.lab(x) for x in kept("prep", await q.get_list_results())]


@op("engine")
class Engine:
    def __init__(self):
        self.obj = HypergraphQueryEngine("engine", b"00", "engine/engine", FixedClock())

    async def run(self, g, hook=None):
        self.obj.clear()
        self.obj.add_query("l", HierarchicalPrepositionQuery(g.root, lambda x: isinstance(x, KinematicLink), lambda x: True))
        self.obj.add_query("e", HierarchicalPrepositionQuery(g.root, lambda x: isinstance(x, HypergraphEdge), lambda x: True))
        return [g.lab(x) for x in kept("engine", await self.obj.execute())]


@op("sdf")
class Sdf:
    def __init__(self):
        pass

    async def run(self, g, hook=None):
        sel = [x for x in g.all if isinstance(x, (KinematicLink, KinematicJoint, CognitiveEntity))][::-1]
        icon = CognilangSdfIcon(FixedClock())
        await icon.encode(given(sel))
        return etree.tostring(icon.root_xml).decode()


class Search:
    def __init__(self):
        self.obj = self.cls()

    async def run(self, g, hook=None):
        res = []
        for x in (g.nodes[-1], g.root, g.inner):
            self.obj.query_def = x.qualified_name
            await self.obj.execute(g.root)
            res.append([g.lab(y) for y in kept("search", self.obj.query_result)])
        self.obj.query_def = "missing"
        await self.obj.execute(g.root)
        res.append([g.lab(y) for y in self.obj.query_result])
        return res


@op("sub")
class SubSearch(Search):
    cls = QuerySearchSubElement


@op("all")
class AllSearch(Search):
    cls = QuerySearchElement


def drive(coro):
    """run a coroutine that never waits for anything (also inside a running loop)"""
    try:
        while True:
            coro.send(None)
    except StopIteration as e:
        return e.value
