"""C09 identifiers."""
import itertools
import re

from mc.core import Bad, describe_exc
from mc.hier import FixedClock, TickClock, kids
from rei.factories.foundation_factory import HypergraphFactory
from rei.format.semantics.cognitive_entity_semantic_factory import CognitiveEntitySemanticFactory
from rei.foundations.common_errors import ErrorDuplicateElement
from rei.hypergraph.common_definitions import EnumRelationDirection as D

ASSUMPTIONS = ["names contain no slash (the separator of qualified names); containers are told apart by their qualified names; one element per name, kind and container",
               "identity of an element = factory, kind of element, qualified name of its container and its name"]

KINDS = ["node", "list", "hyperedge", "nodes", "two", "dir", "tuple", "value", "sem"]
CLS = {"node": "node", "list": "node", "hyperedge": "edge", "nodes": "edge", "two": "edge", "dir": "edge", "tuple": "edge", "value": "value",
       "sem": "sem"}
CONT = ["A", "A/B", "A/C", "A/B/C", "x", "A/x"]


class EpochClock(TickClock):
    """readings of the size of the real ones"""

    def get_time_ns(self):
        if self.now < 10**18:
            self.now += 1763612345678901234
        return super().get_time_ns()


CLOCKS = {"fixed": FixedClock, "tick": TickClock, "epoch": EpochClock}


class Setup:
    def __init__(self, clock, name="fac"):
        self.c = CLOCKS[clock]()
        self.f = HypergraphFactory(name, self.c)
        self.s = CognitiveEntitySemanticFactory("sem" + name, self.c)
        g = self.f.generate_node
        a = g("A")
        b = g("B", a)
        self.box = {"A": a, "A/B": b, "A/C": g("C", a), "A/B/C": g("C", b), "x": g("x"), "A/x": g("x", a)}
        self.pts = [g("p", a), g("p", b), g("q", a)]
        self.made = {}

    def do(self, op):
        kind, cont, name = op
        box, f = self.box[cont], self.f
        t0 = getattr(self.c, "now", -1)
        if kind == "node":
            el = f.generate_node(name, box)
        elif kind == "list":
            el = f.generate_list_nodes([name], box)[0]
        elif kind == "hyperedge":
            el = f.create_hyperedge(box, name)
        elif kind == "nodes":
            el = f.connect_nodes(box, name, self.pts)
        elif kind == "two":
            el = f.connect_2factor_edges(box, name, self.pts[:1], self.pts[1:], (D.INWARDS, D.BIDIRECTIONAL))
        elif kind == "dir":
            el = f.connect_dir_edges(box, name, self.pts[1:], self.pts[:1])
        elif kind == "tuple":
            el = f.connect_tuple_nodes(box, name, [(p, D.OUTWARDS, None, None) for p in self.pts])
        elif kind == "value":
            el = f.create_value(box, name, [1.0])
        else:
            el = self.s.generate_semantic_element("kinematic_link", name, box, {"name": name})
        self.window = (t0, getattr(self.c, "now", 0))
        return el


# names that are different and stay different
ODD = ["", "x", "X", "y", "x.0", "x.1", "x.", "x:y", ":y", "x:", "x=y", "=y", "x=", "x y", " x", "x ", "\u00e9", "\u00e8", "e\u0301", "\u00df", "ss",
       "\u65e5", "\u672c", "\U0001d11e", "a" * 300 + "1", "a" * 300 + "2", "1" + "a" * 300, "2" + "a" * 300, "a" * 150 + "1" + "a" * 150, "a" * 150 + "2" + "a" * 150, "rel", "port", "0", "00", "x\n", "%2F", "x\\"]


def odd_table(kind, clock, fac="fac"):
    """{(container, name): identifier} of one kind of element, every container a root of its own"""
    c = CLOCKS[clock]()
    f, sf = HypergraphFactory(fac, c), CognitiveEntitySemanticFactory(fac, c)
    res = {}
    for cont in ODD + [None]:
        if cont is None and kind not in ("node", "value"):
            continue
        box = None if cont is None else f.generate_node(cont)
        p = f.generate_node("p")
        for n in ODD:
            if kind == "node":
                el = f.generate_node(n, box)
            elif kind == "hyperedge":
                el = f.create_hyperedge(box, n)
            elif kind == "nodes":
                el = f.connect_nodes(box, n, [p])
            elif kind == "tuple":
                el = f.connect_tuple_nodes(box, n, [(p, D.OUTWARDS, None, None)])
            elif kind == "value":
                el = f.create_value(box, n, [1.0])
            else:
                el = sf.generate_semantic_element("kinematic_link", n, box, {"name": n})
            if el.id_name != n or not isinstance(el.progenitor_qualified_name, str):
                raise Bad(f"{kind} {n!r} in {cont!r} is named {el.id_name!r}, progenitor {el.progenitor_qualified_name!r}")
            res[cont, n] = el.uuid
    return res


def odd_case(ck, case):
    _, kind, clock = case
    t = odd_table(kind, clock)
    back = {}
    for k, u in t.items():
        if u in back:
            raise Bad(f"{case}: {kind} {k} and {kind} {back[u]} (container, name) share an identifier")
        back[u] = k
        ck.keys.add(hash((kind, clock, k)))
    if odd_table(kind, clock) != t:
        raise Bad(f"{case}: repeating the same calls gives other identifiers")
    seen = {u: "fac" for u in t.values()}
    for fac in ODD:
        for u in odd_table(kind, clock, fac).values() if ck.thorough else [one_of(kind, fac)]:
            if u in seen:
                raise Bad(f"{case}: factories {fac!r} and {seen[u]!r} produce the same identifier")
            seen[u] = fac
    ck.outcome(("odd", kind, clock, len(t)))


def deep_case(ck, case):
    """containers deep below each other whose paths differ in one step only"""
    _, kind, clock, depth = case
    s = Setup(clock)
    back = {}
    for at in range(depth):
        for step in ("a_container_", "b") if at else ("a_container_", "b", "a_container"):
            box = None
            for i in range(depth):
                box = s.f.generate_node(step if i == at else "a_container", box)
            s.box["deep"] = box
            el = s.do([kind, "deep", "x"])
            if el.uuid in back:
                raise Bad(f"{case}: {kind} x in {box.qualified_name} and in {back[el.uuid]} share an identifier")
            back[el.uuid] = box.qualified_name
            ck.transitions += 1
    ck.keys.add(hash(repr(case)))
    ck.outcome(("deep", kind, len(back)))


def one_of(kind, fac):
    c = FixedClock()
    f = HypergraphFactory(fac, c)
    box = f.generate_node("x")
    if kind == "node":
        return f.generate_node("x", box).uuid
    if kind == "value":
        return f.create_value(box, "x", [1.0]).uuid
    if kind == "sem":
        return CognitiveEntitySemanticFactory(fac, c).generate_semantic_element("kinematic_link", "x", box, {"name": "x"}).uuid
    return f.create_hyperedge(box, "x").uuid


def ops():
    return [[k, c, n] for k in KINDS for c in CONT for n in ("x", "y")]


def cases(ck):
    o = ops()
    for a in o:
        yield ["seq", "fixed", [a]]
    for a in o:
        yield ["seq", "tick", [a]]
        yield ["seq", "epoch", [a]]
    for a in o:
        for b in o:
            yield ["seq", "fixed", [a, b]]
    for a in o:
        for b in o:
            yield ["seq", "tick", [a, b]]
    small = [[k, c, "x"] for k in ("node", "nodes", "value", "sem") for c in CONT]
    for t in itertools.product(small, repeat=3):
        yield ["seq", "fixed", [list(x) for x in t]]
    if ck.thorough:
        for t in itertools.product([x for x in o if x[0] in ("node", "dir", "value", "sem")], repeat=3):
            yield ["seq", "tick", [list(x) for x in t]]
    for a in o:
        yield ["factories", a]
    for depth in (2, 3, 5, 9, 17, 40) if ck.thorough else (3, 12):
        for kind in KINDS:
            yield ["deep", kind, "fixed", depth]
    for kind in ("node", "hyperedge", "nodes", "tuple", "value", "sem"):
        for clock in ("fixed", "tick"):
            yield ["odd", kind, clock]


def progenitor(case, s, op, el):
    kind, cont, name = op
    p = el.progenitor_qualified_name
    if not isinstance(p, str):
        raise Bad(f"{case}: progenitor name of {el.qualified_name} is {p!r}, not a string")
    lo, hi = s.window
    m = re.match(r"^(.*/)?" + name + r"\.(\d+)$", p)
    if not m or not (lo < int(m.group(2)) <= hi):
        raise Bad(f"{case}: progenitor name of {el.qualified_name} is {p!r}; the clock answered {lo + 1}..{hi}")
    prefix = m.group(1) or ""
    exp = "fac/" if CLS[kind] == "node" else s.box[cont].qualified_name + "/"
    if prefix != exp:
        raise Bad(f"{case}: progenitor name of {el.qualified_name} is {p!r}, expected it to begin with {exp!r}")
    for r in kids(el):
        if not isinstance(r.progenitor_qualified_name, str):
            raise Bad(f"{case}: progenitor name of a relation is {r.progenitor_qualified_name!r}")


SINGLE = {}


def uid_of(op, clock):
    """identifier the element gets when nothing else is created"""
    k = (tuple(op), clock)
    if k not in SINGLE:
        SINGLE[k] = Setup(clock).do(op).uuid
    return SINGLE[k]


def run(clock, seq, case=None, fac="fac"):
    s = Setup(clock, fac)
    made = []
    for op in seq:
        try:
            el = s.do(op)
        except ErrorDuplicateElement:
            made.append(None)
            continue
        if case is not None:
            progenitor(case, s, op, el)
        made.append(el)
    return s, made


def run_case(ck, case):
    ck.keys.add(hash(repr(case)))
    ck.transitions += len(case[2]) if case[0] == "seq" else 1
    ck.traces += 1
    if case[0] == "odd":
        return odd_case(ck, case)
    if case[0] == "deep":
        return deep_case(ck, case)
    if case[0] == "factories":
        a = run("fixed", [case[1]], None, "fac")[1][0]
        b = run("fixed", [case[1]], None, "other")[1][0]
        if a is not None and b is not None and a.uuid == b.uuid:
            raise Bad(f"{case}: factories of different names produce the same identifier")
        return
    _, clock, seq = case
    ck.sample(case)
    s1, m1 = run(clock, seq, case)
    s2, m2 = run(clock, seq)
    every = {}
    fixtures = [("fixture", k, v) for k, v in s1.box.items()] + [("fixture", "p%d" % i, v) for i, v in enumerate(s1.pts)]
    for kind, where, e in fixtures:
        every.setdefault(e.uuid, []).append(e)
    keys = [(CLS[x[0]], x[1], x[2]) for x in seq]
    for i, (op, el, el2) in enumerate(zip(seq, m1, m2)):
        if el is None:
            if clock != "fixed" or (keys[i] not in keys[:i] and keys[i] != ("node", "A", "x")):
                raise Bad(f"{case}: {op} was refused as a duplicate")
            continue
        if el2 is None or el.uuid != el2.uuid:
            raise Bad(f"{case}: repeating the same calls gives {op} another identifier")
        if not isinstance(el.uuid, bytes) or not el.uuid:
            raise Bad(f"{case}: identifier of {op} is {el.uuid!r}")
        if clock == "fixed" and el.uuid != uid_of(op, clock):
            raise Bad(f"{case}: the identifier of {op} depends on other elements")
        for o in every.get(el.uuid, []):
            raise Bad(f"{case}: {el.qualified_name} ({type(el).__name__}) and {o.qualified_name} ({type(o).__name__}) share an identifier")
        every.setdefault(el.uuid, []).append(el)
        rels = list(kids(el))
        if len({r.uuid for r in rels}) != len(rels):
            raise Bad(f"{case}: relations of {op} share an identifier")
        if [r.uuid for r in rels] != [r.uuid for r in kids(el2)]:
            raise Bad(f"{case}: repeating the same calls gives the relations other identifiers")
        for r in rels:
            for o in every.get(r.uuid, []):
                raise Bad(f"{case}: a relation of {op} and {o.qualified_name} share an identifier")
            every.setdefault(r.uuid, []).append(r)
    for i, p in enumerate(s1.pts):
        ports = list(p.sub_ports)
        if [x.uuid for x in ports] != [x.uuid for x in s2.pts[i].sub_ports]:
            raise Bad(f"{case}: repeating the same calls gives the ports other identifiers")
        for x in ports:
            for o in every.get(x.uuid, []):
                raise Bad(f"{case}: a port and {o.qualified_name} share an identifier")
            every.setdefault(x.uuid, []).append(x)
    ck.outcome((clock, tuple(sorted({CLS[o[0]] for o in seq})), sum(e is None for e in m1)))
