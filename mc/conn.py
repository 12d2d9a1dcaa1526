"""Bounded worlds of edges, endpoints, relations and ports (C03, C07)."""
from mc.core import Bad, describe_exc
from mc.hier import FixedClock, ALL, kids, uid
from rei.hypergraph.base_elements import HypergraphNode, HypergraphEdge, HypergraphRelation, HypergraphPort
from rei.hypergraph.common_definitions import EnumRelationDirection as D
from rei.hypergraph.value_node import ValueNode, SemanticValueNode

DIRS = {"in": D.INWARDS, "out": D.OUTWARDS, "bi": D.BIDIRECTIONAL}
INC = {"in": [1.0, 0.0], "out": [0.0, 1.0], "bi": [1.0, 1.0]}


class ConnWorld:
    """r contains the endpoints and edges; `model`: edge -> ordered list of connections; ports: endpoint -> relations"""

    def __init__(self, points, edges, weights=("v",), sems=("s",)):
        c = self.clock = FixedClock()
        self.r = HypergraphNode("r", uid("r"), "f/r", c)
        self.q = HypergraphNode("q", uid("q"), "f/q", c)
        self.objs = {"r": self.r, "q": self.q}
        self.points, self.edges = [p for p, _ in points], [e for e, _ in edges]
        for lab, name in points:
            if lab in dict(edges):
                continue
            self.objs[lab] = HypergraphNode(name, uid(lab), "f/" + name, c, self.r)
        for lab, name in edges:
            self.objs[lab] = HypergraphEdge(name, uid(lab), "f/" + name, c, self.r)
        for lab in weights:
            self.objs[lab] = ValueNode(uid(lab), lab, "f/" + lab, [2.0, 3.0])
        for lab in sems:
            self.objs[lab] = SemanticValueNode(uid(lab), lab, "f/" + lab, None, {"name": lab})
        self.weights, self.sems = list(weights), list(sems)
        self.model = {e: [] for e in self.edges}           # [(point, dir, weight, sem, relation)]
        self.ports = {p: [] for p in self.points}          # relations with a port, in order
        self.hist = []

    def label(self, o):
        if o is None:
            return None
        for k, v in self.objs.items():
            if v is o:
                return k
        if isinstance(o, HypergraphRelation):
            return f"rel({self.label(o.parent)},{self.label(o.endpoint)})"
        if isinstance(o, HypergraphPort):
            return f"port({self.label(o.parent)},{self.label(o.endpoint)})"
        return "?" + type(o).__name__

    def rel(self, e, p):
        for x in self.model[e]:
            if x[0] == p:
                return x[4]
        return None

    def roots(self):
        return list(self.objs.values())

    def observe(self):
        seen, todo, res = set(), list(self.objs.values()), []
        while todo:
            o = todo.pop(0)
            if id(o) in seen:
                continue
            seen.add(id(o))
            todo.extend(kids(o))
            d = [self.label(o), id(o), self.label(o.parent), [id(x) for x in kids(o)], o.qualified_name, o.depth, o.cid, o.uuid, o.id_name]
            if hasattr(o, "cnt_subelements"):
                d.append(o.cnt_subelements)
            if isinstance(o, HypergraphEdge):
                d += [[id(x) for x in o.sub_relations], [id(x) for x in o.induced_subset], [id(x) for x in o.get_incoming_relations()],
                      [id(x) for x in o.get_outgoing_relations()]]
            if isinstance(o, (HypergraphEdge, HypergraphNode)):
                d += [[id(x) for x in o.sub_ports], o.timestamp]
            if isinstance(o, HypergraphRelation):
                d += [id(o.endpoint), int(o.direction), id(o.weight), id(o.semantic_value_node), o.relation_incidence_value.tolist()]
            if isinstance(o, HypergraphPort):
                d += [id(o.endpoint)]
            if isinstance(o, ValueNode):
                d += [o.get_values(), o.dim]
            for n in sorted({x.id_name for x in kids(o)} | {"x", "zz"}):
                d.append([id(x) for x in o.get_element_by_id_name(n)])
            res.append(d)
        return res


def w_names():
    """two endpoints of one name, one other, two edges of one name"""
    return ConnWorld([("a", "x"), ("b", "x"), ("c", "y")], [("e", "z"), ("f", "z")])


def w_edges():
    """edges as endpoints of edges, a node named like an edge"""
    return ConnWorld([("a", "e"), ("f", "f"), ("e", "e")], [("e", "e"), ("f", "f")], weights=(), sems=("s", "t"))


def w_one():
    """one edge, four endpoints"""
    return ConnWorld([("a", "x"), ("b", "x"), ("c", "y"), ("d", "z")], [("e", "e")], weights=("v", "u"), sems=("s",))


def w_linked():
    """an edge that already links two of three endpoints, one of them an edge; and an edge that links nothing"""
    w = ConnWorld([("a", "x"), ("b", "x"), ("f", "f")], [("e", "e"), ("f", "f")], weights=("v",), sems=())
    for p, d, v in (("a", "in", "v"), ("f", "bi", None)):
        w.objs["e"].unary_connect(w.objs[p], None if v is None else w.objs[v], DIRS[d])
        r = list(w.objs["e"].sub_relations)[-1]
        w.model["e"].append((p, d, v, None, r))
        w.ports[p].append(r)
    return w


def w_stale():
    """an endpoint that still has the port of a relation that is gone; a semantic value contained elsewhere"""
    w = ConnWorld([("a", "x"), ("b", "x")], [("e", "e")], weights=("v",), sems=("s", "t"))
    e = w.objs["e"]
    w.q.add_element(w.objs["t"])
    e.unary_connect(w.objs["a"], w.objs["v"], D.INWARDS)
    r = list(e.sub_relations)[0]
    list(e.remove_element(uuid=r.uuid))
    w.ports["a"].append(r)
    w.gone = [("e", r)]
    return w


def w_inner():
    """an endpoint contained in its edge, one in a container of its own; semantic values contained in an endpoint and beside it"""
    w = ConnWorld([("a", "x"), ("b", "x")], [("e", "e")], weights=("v",), sems=("s", "t"))
    o = w.objs
    o["e"].add_element(o["b"])
    o["a"].add_element(o["s"])
    w.q.add_element(o["t"])
    o["a"].add_element(o["v"])
    w.within = {"e": ["b"], "a": ["s", "v"]}
    return w


CONN_WORLDS = {"inner": w_inner, "stale": w_stale, "linked": w_linked, "names": w_names, "edges": w_edges, "one": w_one}


def conn_menu(w):
    ops = []
    for e in w.edges:
        for p in w.points:
            if p == e:
                continue
            stale = any(w.label_rel(x) == (e, p) for x in w.ports[p]) if hasattr(w, "label_rel") else False
            have = w.rel(e, p)
            if have is None and stale:
                continue
            for d in DIRS:
                ops.append(["connect", e, p, d, None, None])
            for v in w.weights:
                ops.append(["connect", e, p, "out", v, None])
            for s in w.sems:
                if w.objs[s].parent is None or (hasattr(w, "within") and not isinstance(w.objs[s].parent, HypergraphRelation)):
                    ops.append(["connect", e, p, "in", None, s])
                    for v in w.weights[:1]:
                        ops.append(["connect", e, p, "bi", v, s])
    for e in w.edges:
        for x in w.model[e]:
            ops.append(["disconnect", e, x[0]])
            ops.append(["rm_rel", e, x[0], "uuid"])
            ops.append(["rm_rel", e, x[0], "name"])
            ops.append(["rm_rel", e, x[0], "both"])
    for e in w.edges + w.points:
        if hasattr(w, "within") and e == "b":
            continue
        ops.append(["move", e])
        ops.append(["dereg", e])
    return ops


def conn_perform(w, op):
    w.hist.append(op)
    o = w.objs
    got = []
    try:
        if op[0] == "connect":
            _, e, p, d, v, s = op
            o[e].unary_connect(o[p], None if v is None else o[v], DIRS[d], None if s is None else o[s])
        elif op[0] == "disconnect":
            o[op[2]].disconnect(w.rel(op[1], op[2]))
        elif op[0] == "rm_rel":
            r = w.rel(op[1], op[2])
            kw = {"uuid": dict(uuid=r.uuid), "name": dict(id_name=r.id_name), "both": dict(id_name=r.id_name, uuid=r.uuid)}[op[3]]
            got = list(o[op[1]].remove_element(**kw))
        elif op[0] == "move":
            dst = w.q if o[op[1]].parent is w.r else w.r
            o[op[1]].register(dst)
        elif op[0] == "dereg":
            o[op[1]].deregister()
        else:
            raise ValueError(op)
    except Exception as x:  # noqa
        return x, got
    return None, got
