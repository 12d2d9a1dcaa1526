"""What the public interface shows of a graph; used when a concrete state differs in hidden attributes (something remembered while reading) to see whether anyone can tell."""
from mc.core import snapshot
from mc.hier import kids
from rei.hypergraph.base_elements import HypergraphEdge, HypergraphRelation, HypergraphPort
from rei.hypergraph.value_node import ValueNode, SemanticValueNode

ATTRS = ("name", "values", "mass", "translation", "rotation", "rotation_type", "rigidtransformation", "joint_type", "axis", "material_name", "x")


def attributes(x):
    own = next((v for k, v in vars(x).items() if k.endswith("attribute_dictionary") and isinstance(v, dict)), None)
    return [(k, x[k]) for k in (list(own) if own is not None else ATTRS)]


def view(roots):
    labels, todo, res = {}, [], []

    def lab(o):
        if o is None:
            return None
        if id(o) not in labels:
            labels[id(o)] = len(labels)
            todo.append(o)
        return labels[id(o)]

    def plain(v):
        if hasattr(v, "qualified_name"):
            return ("element", lab(v))
        if isinstance(v, (list, tuple)):
            return (type(v).__name__, [plain(x) for x in v])
        return (type(v).__name__, repr(v))

    for r in roots:
        lab(r)
    for o in todo:
        ks = kids(o)
        d = {"type": type(o).__name__, "uuid": o.uuid, "name": o.id_name, "qualified": o.qualified_name, "parent": lab(o.parent), "children": [lab(x) for x in ks],
             "depth": o.depth, "cid": o.cid, "progenitor": getattr(o, "progenitor_qualified_name", None)}
        for a in ("cnt_subelements", "timestamp", "dim"):
            if hasattr(o, a):
                d[a] = getattr(o, a)
        d["lookup"] = [(n, [lab(x) for x in o.get_element_by_id_name(n)]) for n in dict.fromkeys([x.id_name for x in ks])]
        if isinstance(o, (HypergraphRelation, HypergraphPort)):
            d["endpoint"] = lab(o.endpoint)
        if isinstance(o, HypergraphRelation):
            d["relation"] = [o.direction.name, [float(x) for x in o.relation_incidence_value], lab(o.weight) if hasattr(o.weight, "uuid") else repr(o.weight), lab(o.semantic_value_node)]
        if isinstance(o, HypergraphEdge):
            d["edge"] = [[lab(x) for x in f] for f in (o.sub_relations, o.induced_subset, o.get_incoming_relations(), o.get_outgoing_relations())]
        if hasattr(o, "sub_ports"):
            d["ports"] = [lab(x) for x in o.sub_ports]
        for a in ("sub_nodes", "sub_edges", "sub_values"):
            if hasattr(o, a):
                d[a] = [lab(x) for x in getattr(o, a)]
        if isinstance(o, ValueNode):
            d["values"] = [plain(list(o.get_values())), plain(list(o))]
        if isinstance(o, SemanticValueNode):
            d["attributes"] = [(k, plain(v)) for k, v in attributes(o)]
        res.append(d)
    return res


def difference(a, b):
    if len(a) != len(b):
        return f"{len(b)} elements became {len(a)}"
    for x, y in zip(a, b):
        for k in y:
            if x.get(k) != y[k]:
                return f"{k} of {y['qualified']} was {y[k]} and is {x.get(k)}"
    return None


class Watch:
    """watches for changes since its creation; fresh() -> the roots of an untouched graph built in the same way"""

    def __init__(self, roots, fresh, take=snapshot):
        self.roots, self.fresh, self.take = list(roots), fresh, take
        self.raw = take(self.roots)

    def hidden(self):
        return self.take(self.roots) != self.raw

    def change(self):
        return difference(view(self.roots), view(self.fresh())) if self.hidden() else None
