"""Robots as plain data, built into a graph with the public factories, and the document their export has to be (C21, C22, C24)."""
import asyncio
import math

from lxml import etree

from mc.core import Bad, describe_exc
from mc.hier import FixedClock
from rei.factories.foundation_factory import HypergraphFactory
from rei.format.mapping.cognilang_sdf_icon import CognilangSdfIcon
from rei.format.semantics.CognitiveEntity import KinematicLink, KinematicJoint, CognitiveEntity
from rei.format.semantics.cognitive_entity_semantic_factory import CognitiveEntitySemanticFactory
from rei.hypergraph.base_elements import HypergraphNode
from rei.hypergraph.common_definitions import EnumRelationDirection as D
from rei.query.query_engine import HierarchicalPrepositionQuery, HypergraphQueryEngine

DIR = {"i": D.INWARDS, "o": D.OUTWARDS, "b": D.BIDIRECTIONAL}
TYPES = {"fix": "fixed", "rev": "revolute", "tr": "prismatic"}


def link(n, pose=None, parts=(), mass=None):
    return {"n": n, "pose": pose, "parts": list(parts), "mass": mass}


def end(target, d, t="fix", axis=None, pose=None):
    return {"to": target, "d": d, "t": t, "axis": axis, "pose": pose}


def joint(n, *ends):
    return {"n": n, "ends": list(ends)}


def graph(n, links, joints=(), subs=(), plain=(), first="links"):
    return {"n": n, "links": list(links), "joints": list(joints), "subs": list(subs), "plain": list(plain), "first": first}


class Robot:
    """entity > graph > links, joints, graphs ...; `world` stands outside, on its own (0), contained in something (1) or in the entity (2)"""

    def __init__(self, name, g, clock=None, world=0):
        self.c = clock or FixedClock()
        self.f = HypergraphFactory("fac_" + name, self.c)
        self.s = CognitiveEntitySemanticFactory("sem_" + name, self.c)
        self.name = name
        self.spec = g
        self.world = self.f.generate_node("world")
        self.root = self.f.generate_node(name)
        if world:
            (self.root if world == 2 else self.f.generate_node("scene")).add_element(self.world)
        self.sem("cognitive_entity", name, self.root, {"name": name})
        self.build(g, self.root)

    def sem(self, kind, n, parent, attr, values=None):
        return self.s.generate_semantic_element(kind, n, parent, attr, values)

    def pose(self, p, holder):
        if p is not None:
            self.sem("rigid_transformation", holder.id_name + "_transformation", holder,
                     {"translation": list(p[0]), "rotation": list(p[1]), "rotation_type": p[2]})

    def build(self, g, parent):
        node = self.f.generate_node(g["n"], parent)
        self.sem("kinematic_graph", g["n"], node, {"name": g["n"]})
        here = {"world": self.world}
        for s in g["subs"]:
            here[s["n"]] = self.build(s, node)
        late = []
        for l in g["links"]:
            x = here[l["n"]] = self.f.generate_node(l["n"], node)
            if g["first"] == "links":
                self.fill(l, x, late)
        if g["first"] != "links":
            for j in g["joints"]:
                self.joint(j, node, here)
            for l in g["links"]:
                self.fill(l, here[l["n"]], late)
        for p in g["plain"]:
            e = self.f.create_hyperedge(node, p["n"])
            for t, d in p["ends"]:
                e.unary_connect(here[t], None, DIR[d])
        if g["first"] == "links":
            for j in g["joints"]:
                self.joint(j, node, here)
        parts = {(l["n"], p["n"]): None for l in g["links"] for p in l["parts"]}
        for l in g["links"]:
            for p in l["parts"]:
                parts[(l["n"], p["n"])] = [x for x in here[l["n"]].sub_nodes if x.id_name == p["n"]][0]
        for k, (x, ref) in enumerate(late):
            e = self.f.create_hyperedge(node, f"ref_{k}_{x.id_name}")
            if self.refdir:
                e.unary_connect(x, None, D.INWARDS)
            e.unary_connect(parts[tuple(ref)], None, D.OUTWARDS)
            if not self.refdir:
                e.unary_connect(x, None, D.INWARDS)
        return node

    refdir = False

    def gnode(self, gm, pn):
        return self.f.generate_node(gm["n"], pn)

    def fill(self, l, x, late):
        sv = self.sem("kinematic_link", l["n"], x, {"name": l["n"]})
        self.pose(l["pose"], sv)
        if l["mass"] is not None:
            self.sem("inertia_element", "inertia_" + l["n"], x, {"mass": l["mass"]})
        for p in l["parts"]:
            pn = self.f.generate_node(p["n"], x)
            for gm in p["geoms"]:
                gn = self.gnode(gm, pn)
                if "ref" in gm:
                    late.append((gn, gm["ref"]))
                else:
                    self.sem(gm["t"] + "_geometry", gm["n"], gn, {"name": gm["n"]}, list(gm["v"]))
            if p.get("mat") is not None:
                self.sem("material", "material_" + p["n"], pn, {"name": "material_" + p["n"], "material_name": p["mat"]})

    def joint(self, j, node, here):
        rel = []
        for e in j["ends"]:
            attr = {"joint_type": e["t"]}
            sv = self.sem("kinematic_joint", f"{j['n']}.{e['to']}", node, attr)
            if e["axis"] is not None:
                sv.add_named_attribute("axis", list(e["axis"]))
            self.pose(e["pose"], sv)
            rel.append((here[e["to"]], DIR[e["d"]], None, sv))
        self.f.connect_tuple_nodes(node, j["n"], rel)

    def selection(self):
        """the elements the conversion tool hands to the exporter"""
        eng = HypergraphQueryEngine("engine", b"00", "engine/engine", self.c, None)
        deep = lambda d: (lambda x: x.depth <= d if isinstance(x, HypergraphNode) else True)  # noqa
        eng.add_query("link", HierarchicalPrepositionQuery(self.root, lambda x: isinstance(x, KinematicLink), deep(2)))
        eng.add_query("joint", HierarchicalPrepositionQuery(self.root, lambda x: isinstance(x, KinematicJoint), deep(1)))
        eng.add_query("entity", HierarchicalPrepositionQuery(self.root, lambda x: isinstance(x, CognitiveEntity), lambda x: True))
        return asyncio.run(eng.execute())


# ------------------------------------------------------------------ what the document has to be

def nums(p):
    if p is None:
        return [0.0] * 6
    t, r, unit = p
    return [float(x) for x in t] + [float(x) * (math.pi / 180.0 if unit == "deg" else 1.0) for x in r]


def canonical(g):
    kids = {e["to"] for j in g["joints"] for e in j["ends"] if e["d"] == "o" and any(o["d"] == "i" for o in j["ends"])}
    return [l["n"] for l in g["links"] if l["n"] not in kids]


def solids(g, l, p):
    """geometries of every geometry node of a visual or collision: [(name, [(type, values)])]"""
    res = []
    for gm in p["geoms"]:
        if "ref" in gm:
            lk = [x for x in g["links"] if x["n"] == gm["ref"][0]][0]
            tp = [x for x in lk["parts"] if x["n"] == gm["ref"][1]][0]
            res.append((gm["n"], [(y["t"], list(y["v"])) for y in tp["geoms"] if "ref" not in y]))
        else:
            res.append((gm["n"], [(gm["t"], list(gm["v"]))]))
    return res


def shape(t, v):
    if t == "cylinder":
        return ("cylinder", {"radius": [float(v[0])], "length": [float(v[1])]})
    if t == "ellipsoid":
        return ("sphere", {"radius": [float(v[0])]}) if len(v) == 1 else ("ellipsoid", {"radii": [float(x) for x in v]})
    if t == "polyhedron":
        return ("box", {"size": [float(v[0])] * 3 if len(v) == 1 else [float(x) for x in v]})


def moments(m, t, v):
    if t == "cylinder":
        r, h = v[0], v[1]
        return [m * (3 * r * r + h * h) / 12, m * (3 * r * r + h * h) / 12, m * r * r / 2, 0.0, 0.0, 0.0]
    if t == "ellipsoid":
        a, b, c = list(v) * 3 if len(v) == 1 else v
        return [m * (b * b + c * c) / 5, m * (a * a + c * c) / 5, m * (a * a + b * b) / 5, 0.0, 0.0, 0.0]
    return [1.0, 1.0, 1.0, 0.0, 0.0, 0.0]


def expect(g, prefix=(), nested=False):
    """-> (links {name: {...}}, joints [..])"""
    full = lambda *x: ".".join(list(prefix) + list(x))  # noqa
    links, joints = [], []
    pairs = [(j, a, b) for j in g["joints"] for a in j["ends"] if a["d"] in "ib" for b in j["ends"] if b["d"] in "ob" and b["to"] != a["to"]]
    for l in g["links"]:
        frames = {full(f"{j['n']}.{l['n']}") for j, a, b in pairs if b["to"] == l["n"] and a["to"] != "world"}
        if not frames:
            frames = {full("connect", l["n"])} if nested else {None}
        own = [(p, solids(g, l, p)) for p in l["parts"]]
        solid = [(gm["t"], gm["v"]) for p in l["parts"] for gm in p["geoms"][:1] if "ref" not in gm]
        links.append({"name": full(l["n"]), "pose": nums(l["pose"]), "frames": frames,
                      "visual": [(None if p.get("anon") else full(n), [shape(*s) for s in ss], "Gazebo/" + p["mat"].capitalize()) for p, so in own if p.get("mat") is not None for n, ss in so],
                      "collision": [(None if p.get("anon") else full(n), [shape(*s) for s in ss], None) for p, so in own if p.get("mat") is None for n, ss in so],
                      "inertia": None if l["mass"] is None else (float(l["mass"]), moments(l["mass"], *(solid[0] if solid else (None, None))))})
    subs = {s["n"]: s for s in g["subs"]}
    for j, a, b in pairs:
        if b["to"] in subs:
            c = canonical(subs[b["to"]])[0]
            name, child = full(j["n"], "connect", c), full(j["n"], c)
            ls, js = expect(subs[b["to"]], tuple(prefix) + (j["n"],), True)
            links += ls
            joints += js
        else:
            name, child = full(f"{j['n']}.{b['to']}"), full(b["to"])
        joints.append({"name": name, "parent": full(a["to"]), "child": child, "type": TYPES[b["t"]],
                       "axis": [float(x) for x in b["axis"]] if b["axis"] is not None else [0.0, 0.0, 1.0],
                       "pose": [(nums(b["pose"]), full(a["to"]))] if b["pose"] is not None else []})
    return links, joints


def export(robot, icon=None, sel=None):
    icon = icon or CognilangSdfIcon(robot.c)
    try:
        asyncio.run(icon.encode(robot.selection() if sel is None else sel))
    except Exception as e:  # noqa
        raise Bad(f"export of {show(robot.spec)} raised {describe_exc(e)}")
    return icon


def show(g):
    js = ", ".join(f"{j['n']}(" + " ".join({"i": "<-", "o": "->", "b": "--"}[e["d"]] + e["to"] for e in j["ends"]) + ")" for j in g["joints"])
    return f"{g['n']}[{' '.join(l['n'] for l in g['links'])}; {js}" + "".join("; " + show(s) for s in g["subs"]) + "]"


def fl(text):
    return [float(x) for x in text.split()]


def close(a, b):
    return len(a) == len(b) and all(abs(x - y) <= 1e-12 * max(abs(x), abs(y)) for x, y in zip(a, b))


def one(el, tag, text):
    r = el.findall(tag)
    if len(r) != 1:
        raise Bad(f"{text}: {len(r)} {tag} elements instead of one")
    return r[0]


def parse_solid(el, text):
    """visual or collision -> (name, shapes, material)"""
    shapes = []
    for gm in el.findall("geometry"):
        for s in gm:
            shapes.append((s.tag, {x.tag: fl(x.text) for x in s}))
    mat = el.findall("material")
    if len(mat) > 1:
        raise Bad(f"{text}: several materials")
    return el.get("name"), shapes, mat[0].find("script/name").text if mat else None


def judge_solids(els, exp, text, what):
    got = [parse_solid(e, text) for e in els]
    if any(x[0] is None for x in exp) and len({x[0] for x in got}) != len(got):
        raise Bad(f"{text}: {what} of the same name: {got}")
    left = list(got)
    for n, shapes, mat in sorted(exp, key=lambda x: x[0] is None):
        for x in left:
            if (x[0] == n or n is None) and x[2] == mat and len(x[1]) == len(shapes) and all(
                    a[0] == b[0] and a[1].keys() == b[1].keys() and all(close(a[1][k], b[1][k]) for k in b[1]) for a, b in zip(x[1], shapes)):
                left.remove(x)
                break
        else:
            raise Bad(f"{text}: {what} {n} with {shapes} {mat or ''} is missing, there are {got}")
    if left:
        raise Bad(f"{text}: {what} not expected: {left}")


def judge_model(model, name, g, text, physics=True):
    links, joints = expect(g) if not isinstance(g, list) else [sum(x, []) for x in zip(*map(expect, g))]
    if model.tag != "model" or model.get("name") != name:
        raise Bad(f"{text}: {model.tag} {model.get('name')} instead of model {name}")
    got = list(model)
    if any(x.tag not in ("link", "joint") for x in got):
        raise Bad(f"{text}: model contains {[x.tag for x in got]}")
    gl = [x for x in got if x.tag == "link"]
    gj = [x for x in got if x.tag == "joint"]
    if sorted(x.get("name") for x in gl) != sorted(x["name"] for x in links):
        raise Bad(f"{text}: links {sorted(x.get('name') for x in gl)} instead of {sorted(x['name'] for x in links)}")
    left = list(gl)
    for e in links:
        x = [y for y in left if y.get("name") == e["name"]][0]
        left.remove(x)
        t = f"{text}: link {e['name']}"
        p = one(x, "pose", t)
        if not close(fl(p.text), e["pose"]):
            raise Bad(f"{t}: pose {p.text} instead of {e['pose']}")
        if p.get("relative_to") not in e["frames"]:
            raise Bad(f"{t}: pose relative to {p.get('relative_to')} instead of {e['frames']}")
        if not physics:
            continue
        judge_solids(x.findall("visual"), e["visual"], t, "visual")
        judge_solids(x.findall("collision"), e["collision"], t, "collision")
        if e["inertia"] is None:
            if x.findall("inertial"):
                raise Bad(f"{t}: has an inertia")
        else:
            i = one(x, "inertial", t)
            m = one(i, "mass", t)
            if not close(fl(m.text), [e["inertia"][0]]):
                raise Bad(f"{t}: mass {m.text} instead of {e['inertia'][0]}")
            ii = one(i, "inertia", t)
            v = [float(one(ii, k, t).text) for k in ("ixx", "iyy", "izz", "ixy", "ixz", "iyz")]
            if not close(v, e["inertia"][1]):
                raise Bad(f"{t}: inertia {v} instead of {e['inertia'][1]}")
        if {y.tag for y in x} - {"pose", "visual", "collision", "inertial"}:
            raise Bad(f"{t}: contains {[y.tag for y in x]}")
    seen = []
    for x in gj:
        t = f"{text}: joint {x.get('name')}"
        seen.append((x.get("name"), one(x, "parent", t).text, one(x, "child", t).text, x.get("type"), fl(one(x, "axis", t).find("xyz").text),
                     [(fl(p.text), p.get("relative_to")) for p in x.findall("pose")]))
    left = list(seen)
    for e in joints:
        for x in left:
            if x[:4] == (e["name"], e["parent"], e["child"], e["type"]) and close(x[4], e["axis"]) and len(x[5]) == len(e["pose"]) and all(
                    close(a[0], b[0]) and a[1] == b[1] for a, b in zip(x[5], e["pose"])):
                left.remove(x)
                break
        else:
            raise Bad(f"{text}: joint {e} is missing, there are {seen}")
    if left:
        raise Bad(f"{text}: joints not expected: {left}")
    return len(links), len(joints)


def judge(icon, expected, text, physics=True):
    """expected: [(name, spec)] of the models in the document"""
    doc = etree.fromstring(etree.tostring(icon.root_xml))
    if doc.tag != "sdf" or not doc.get("version"):
        raise Bad(f"{text}: root element {doc.tag}")
    if len(doc) != len(expected):
        raise Bad(f"{text}: {len(doc)} models instead of {len(expected)}")
    return [judge_model(m, n, g, text, physics) for m, (n, g) in zip(doc, expected)]
