"""C20 the semantic factory and semantic attributes."""
import itertools

from mc.core import Bad, describe_exc
from mc.hier import FixedClock, uid, kids
from rei.factories.foundation_factory import HypergraphFactory
from rei.format.semantics import CognitiveEntity as ce
from rei.format.semantics.cognitive_entity_semantic_factory import CognitiveEntitySemanticFactory
from rei.hypergraph.common_definitions import EnumRelationDirection as D
from rei.hypergraph.value_node import SemanticValueNode

ASSUMPTIONS = ["type names: the ten of the factory; attributes are read by item access"]

TYPES = {"cognitive_entity": ce.CognitiveEntity, "kinematic_graph": ce.KinematicGraphDefinition, "kinematic_link": ce.KinematicLink,
         "kinematic_joint": ce.KinematicJoint, "cylinder_geometry": ce.CylinderGeometry, "polyhedron_geometry": ce.PolyhedronGeometry,
         "ellipsoid_geometry": ce.EllipsoidGeometry, "material": ce.VisualMaterial, "rigid_transformation": ce.RigidTransformation,
         "inertia_element": ce.InertiaElement}
PARENTS = ("node", "edge", "relation", "semantic", "nested", "root")
NAMESAKES = ("node", "edge", "value", "semantic", "other")
ATTRS = [{"name": "n"}, {"a": 0, "b": None, "c": [1, 2]}, {"mass": 2.5, "axis": [0.0, 1.0, 0.0], "": "empty"}]
VALS = [None, [1.0], [1.0, 2.0, 3.0], [], [0.5, -1.0, "x", None, 4]]


def spellings(t):
    words = t.split("_")
    under = ["".join(words), t, "__".join(words), "_" + t + "_", "_".join("".join(words)), t[:2] + "_" + t[2:]]
    cases_ = [str.lower, str.upper, str.title, lambda s: "".join(c.upper() if i % 2 else c for i, c in enumerate(s))]
    for u in under:
        for c in cases_:
            for a, b in (("", ""), (" ", ""), ("", "  "), ("\t", "\n")):
                yield a + c(u) + b


def neighbours(t):
    u = t.replace("_", "")
    for i in range(len(u)):
        yield u[:i] + u[i + 1:]
        yield u[:i] + ("q" if u[i] != "q" else "z") + u[i + 1:]
    for x in ("-", " ", ".", "\t", "/", "\u200b", "0", ","):
        yield from (u[:3] + x + u[3:], t.replace("_", x), x + u, u + x) if x.strip() else (u[:3] + x + u[3:],)
    yield from (u + "s", "x" + u, u + u, "", "node", "kinematic", "geometry")


class SW:
    def __init__(self):
        self.c = FixedClock()
        f = HypergraphFactory("h", self.c)
        r = f.generate_node("r")
        a, b = f.generate_list_nodes(["a", "b"], r)
        sub = f.generate_node("sub", a)
        e = f.connect_tuple_nodes(r, "e", [(a, D.INWARDS, None, None), (b, D.OUTWARDS, None, None)])
        s = SemanticValueNode(uid("s"), "s", "f/s", r, {"k": 1})
        r.add_element(s)
        self.p = {"node": a, "edge": e, "relation": list(e.sub_relations)[0], "semantic": s, "nested": sub, "root": r}
        self.f = f
        self.sf = CognitiveEntitySemanticFactory("sem", self.c)

    def namesake(self, kind, par):
        """a child "el" of another kind; False where such a child has no place"""
        p = self.p[par]
        if kind == "value":
            self.f.create_value(p, "el", [1.0]) if par in ("node", "nested", "root") else p.add_element(SemanticValueNode(uid("v"), "el", "f/v", p, {"k": 2}))
        elif kind == "semantic":
            p.add_element(SemanticValueNode(uid("v"), "el", "f/v", p, {"k": 2}))
        elif kind == "other":
            p.add_element(ce.VisualMaterial(uid("o"), "el", "f/o", p, {"name": "other"}))
        elif par not in ("node", "nested", "root"):
            return False
        elif kind == "node":
            self.f.generate_node("el", p)
        else:
            self.f.create_hyperedge(p, "el")
        return True

    def observe(self):
        res = []
        for k, p in self.p.items():
            res.append((k, p.qualified_name, p.depth, [(x.id_name, x.uuid, x.cid, id(x)) for x in kids(p)], p.cnt_subelements if hasattr(p, "cnt_subelements") else 0))
        return res


def attributes(el, attr, vals, text):
    exp = dict(attr)
    if vals is not None:
        exp["values"] = vals
    for k, v in exp.items():
        if el[k] != v or type(el[k]) is not type(v):
            raise Bad(f"{text}: attribute {k!r} is {el[k]!r}, expected {v!r}")
    for k in ("name", "a", "b", "c", "mass", "axis", "values", "zz", "", "joint_type"):
        if k not in exp and el[k] is not None:
            raise Bad(f"{text}: attribute {k!r} is {el[k]!r}, although it was not given")


def created(ck, t, spelling, par, attr, vals, pre=None):
    w = SW()
    p = w.p[par]
    if pre is not None and not w.namesake(pre, par):
        return
    before = kids(p)
    given = dict(attr)
    text = f"element {spelling!r} in a {par} with {attr} and values {vals}" + (f" beside a {pre} of the same name" if pre else "")
    try:
        el = w.sf.generate_semantic_element(spelling, "el", p, given, list(vals) if vals is not None else None) if vals is not None \
            else w.sf.generate_semantic_element(spelling, "el", p, given)
    except Exception as e:  # noqa
        raise Bad(f"{text}: raised {describe_exc(e)}")
    ck.transitions += 1
    if type(el) is not TYPES[t]:
        raise Bad(f"{text}: is a {type(el).__name__}")
    now = kids(p)
    if len(now) != len(before) + 1 or now[-1] is not el or any(a is not b for a, b in zip(now, before)) or el.parent is not p:
        raise Bad(f"{text}: the parent contains {[x.id_name for x in now]}, the parent of the element is {el.parent}")
    if el.id_name != "el" or el.qualified_name != p.qualified_name + "/el":
        raise Bad(f"{text}: is named {el.id_name}, {el.qualified_name}")
    attributes(el, attr, vals, text)
    if given != attr:
        raise Bad(f"{text}: the given dictionary has become {given}")
    # a later change of the dictionary is no change of the element
    given.clear()
    given["zz"] = 1
    attributes(el, attr, vals, text + ", after a change of the given dictionary")
    return w, el


def refused(ck, name, par, attr, text):
    w = SW()
    before = w.observe()
    try:
        el = w.sf.generate_semantic_element(name, "el", w.p[par], dict(attr))
    except Exception:  # noqa
        el = None
    else:
        raise Bad(f"{text}: is not refused but gives {type(el).__name__}")
    ck.transitions += 1
    if w.observe() != before:
        raise Bad(f"{text}: was refused but changed the parent: {before} has become {w.observe()}")
    other = SW()
    for x in (w, other):
        x.sf.generate_semantic_element("material", "next", x.p[par], {"a": 1})
    a, b = ([y.cid for y in kids(x.p[par])] for x in (w, other))
    if a != b:
        raise Bad(f"{text}: was refused, yet the next element has the numbers {a} instead of {b}")


OPS = [[k, *o] for k in ("x", "y", "z") for o in (["put", "name", 1], ["put", "new", [2]], ["rm", "name"], ["rm", "absent"])]
OPS += [["x", "setup", "s"], ["y", "put", "values", 3], ["orig"], ["x", "rm", "k"], ["y", "put", "k", None], ["again"], ["x", "put", "name", True], ["x", "put", "name", 1.0]]


def cases(ck):
    for t in TYPES:
        for i, s in enumerate(spellings(t)):
            yield ["make", t, s, PARENTS[i % len(PARENTS)], i % 3, i % len(VALS)]
        for p in PARENTS:
            for a in range(len(ATTRS)):
                for v in range(len(VALS)):
                    yield ["make", t, t, p, a, v]
            yield ["twice", t, p]
            for k in NAMESAKES:
                yield ["namesake", t, p, k]
            yield ["empty", t, p]
        for i, n in enumerate(neighbours(t)):
            yield ["wrong", n, PARENTS[i % len(PARENTS)]]
    for a, b in itertools.product(TYPES, repeat=2):
        yield ["two", a, b]
    for d in range(0, 6 if ck.thorough else 5):
        for h in itertools.product(OPS, repeat=d):
            yield ["hist", list(h)]


class Attr:
    """x, y from one dictionary, z from an equal one"""

    def __init__(self):
        w = SW()
        self.sf, self.p = w.sf, w.p["node"]
        self.orig = {"name": "n", "k": [1]}
        self.o = {"x": self.sf.generate_semantic_element("cognitive_entity", "x", self.p, self.orig),
                  "y": self.sf.generate_semantic_element("cylinder_geometry", "y", self.p, self.orig, [1.0, 2.0]),
                  "z": SemanticValueNode(uid("z"), "z", "f/z", self.p, self.orig)}
        self.ref = {k: {"name": "n", "k": [1]} for k in self.o}
        self.ref["y"]["values"] = [1.0, 2.0]
        self.n = 0

    def do(self, op):
        if op[0] == "orig":
            self.orig["name"] = "changed"
            self.orig["new"] = "changed"
            self.orig.pop("k", None)
        elif op[0] == "again":
            self.n += 1
            k = f"n{self.n}"
            if self.orig:
                self.o[k] = self.sf.generate_semantic_element("material", k, self.p, self.orig)
                self.ref[k] = dict(self.orig)
        elif op[1] == "put":
            self.o[op[0]].add_named_attribute(op[2], op[3])
            self.ref[op[0]][op[2]] = op[3]
        elif op[1] == "rm":
            self.o[op[0]].remove_named_attribute(op[2])
            self.ref[op[0]].pop(op[2], None)
        elif op[1] == "setup":
            self.o[op[0]].setup(op[2])
            self.ref[op[0]]["name"] = op[2]

    def check(self, text):
        for k, o in self.o.items():
            for a in ("name", "k", "new", "values", "absent"):
                if o[a] != self.ref[k].get(a) or type(o[a]) is not type(self.ref[k].get(a)):
                    raise Bad(f"{text}: attribute {a!r} of {k} is {o[a]!r}, expected {self.ref[k].get(a)!r}")


def run_case(ck, case):
    ck.traces += 1
    ck.states += 1
    ck.sample(case, 4)
    k = case[0]
    if k == "make":
        created(ck, case[1], case[2], case[3], ATTRS[case[4]], VALS[case[5]])
    elif k == "twice":
        w, el = created(ck, case[1], case[1], case[2], ATTRS[0], None)
        before = w.observe()
        try:
            w.sf.generate_semantic_element(case[1], "el", w.p[case[2]], {"name": "other"})
        except Exception:  # noqa
            pass
        else:
            raise Bad(f"a second {case[1]} of the same name in the same {case[2]} is not refused")
        if w.observe() != before or el["name"] != "n":
            raise Bad(f"a refused second {case[1]} of the same name changed the {case[2]}: {before} to {w.observe()}")
    elif k == "namesake":
        created(ck, case[1], case[1], case[2], ATTRS[0], VALS[1], case[3])
    elif k == "two":
        w, el = created(ck, case[1], case[1], "node", ATTRS[1], [1.0])
        e2 = w.sf.generate_semantic_element(case[2], "el2", w.p["node"], ATTRS[2], [5.0])
        if type(e2) is not TYPES[case[2]] or e2.parent is not w.p["node"]:
            raise Bad(f"{case[2]} after {case[1]} is a {type(e2).__name__} in {e2.parent}")
        attributes(el, ATTRS[1], [1.0], f"{case[1]} before {case[2]}")
        attributes(e2, ATTRS[2], [5.0], f"{case[2]} after {case[1]}")
        if el.uuid == e2.uuid:
            raise Bad(f"{case[1]} and {case[2]} share their identifier")
    elif k == "empty":
        refused(ck, case[1], case[2], {}, f"{case[1]} without attributes in a {case[2]}")
    elif k == "wrong":
        if case[1].replace("_", "") not in [t.replace("_", "") for t in TYPES]:
            refused(ck, case[1], case[2], ATTRS[0], f"unknown type {case[1]!r} in a {case[2]}")
    else:
        w = Attr()
        for i, op in enumerate(case[1]):
            w.do(op)
            ck.transitions += 1
            w.check(f"after {case[1][:i + 1]}")
        ck.outcome(repr(sorted((k, sorted(map(repr, v.items()))) for k, v in w.ref.items())))
    ck.outcome(repr(case[:2]) if k != "hist" else k)
