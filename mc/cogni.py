"""CogniLang descriptions as plain data: their text, and the graph an import of it has to give (C25, C26).

entity {n, params [(name, number text)], items}; kin {k: kin, n, items}; link {k: link, n, root, pose, mass, parts};
joint {k: joint, n, ends}; amb {k: amb, n, items}; act / sen / port {k, n, ...}. Numbers are texts: '1.5' or '{NAME}'."""
import math
from decimal import Decimal

from mc import antlr
from mc.core import Bad, describe_exc
from mc.hier import FixedClock, kids
from mc.robot import close
from rei.hypergraph.base_elements import HypergraphEdge, HypergraphNode, HypergraphPort
from rei.hypergraph.common_definitions import EnumRelationDirection as D
from rei.hypergraph.value_node import SemanticValueNode

antlr.install()
from rei.format.mapping.cognilang_file_icon import CognilangParserFileIcon  # noqa

ARROW = {"i": "<-", "o": "->", "b": "--"}
DIR = {"i": D.INWARDS, "o": D.OUTWARDS, "b": D.BIDIRECTIONAL}
STYLES = 5


def num(x):
    """as the grammar wants it: with a point, without an exponent"""
    if isinstance(x, str):
        return x
    t = format(Decimal(repr(float(x))), "f")
    return t if "." in t else t + ".0"


def entity(n, items, params=(), at=0):
    return {"n": n, "items": list(items), "params": [list(p) for p in params], "at": at}


def kin(n, *items):
    return {"k": "kin", "n": n, "items": list(items)}


def link(n, pose=None, mass=None, parts=(), root=False):
    return {"k": "link", "n": n, "pose": pose, "mass": mass, "parts": list(parts), "root": root}


def pose(t, r=None, u=""):
    return {"t": list(t), "r": None if r is None else list(r), "u": u}


def part(v, n, g, mat=None):
    return {"v": v, "n": n, "g": g, "mat": mat}


def end(to, d, t="fix", p=None, axis=None):
    return {"to": to, "d": d, "t": t, "pose": p, "axis": axis}


def joint(n, *ends):
    return {"k": "joint", "n": n, "ends": list(ends)}


# ------------------------------------------------------------------ text

def vec(v, st):
    if isinstance(v, str):
        return ref(v)
    res = ["["]
    for i, x in enumerate(v):
        if i and st in (1, 3):
            res.append(",")
        res += ["{", x[1:-1], "}"] if num(x).startswith("{") else [num(x)]
    return res + ["]"]


def ref(v):
    return ["{", v[1:-1], "}"]


def pose_tokens(p, st):
    res = ["["] + vec(p["t"], st)
    if p["r"] is not None:
        if st in (1, 3):
            res.append(",")
        if p["u"]:
            res.append(p["u"])
        res += vec(p["r"], st)
    return res + ["]"]


def tokens(e, st):
    k = e["k"]
    if k == "kin":
        return ["kinematic", e["n"], "{"] + [x for i in e["items"] for x in tokens(i, st)] + ["}"]
    if k == "link":
        res = (["root"] if e["root"] else []) + ["link", e["n"]]
        if e["pose"] is not None:
            res += ["@"] + pose_tokens(e["pose"], st)
        if e["mass"] is not None:
            res += ["{", "inertia", "{", "mass", num(e["mass"]), "}"]
            for p in e["parts"]:
                res += ["visual" if p["v"] else "collision"] + ([p["n"]] if p["n"] else [])
                if p["mat"] is not None:
                    res += ["(", "material", p["mat"], ")"]
                g = p["g"]
                res += ["{"] + (ref("{" + g["ref"] + "}") if "ref" in g else [g["t"]] + ([g["id"]] if g.get("id") else []) + vec(g["v"], st)) + ["}"]
            res.append("}")
        return res
    if k == "joint":
        res = ["joint", e["n"], ":"]
        for x in e["ends"]:
            res += [x["t"], ARROW[x["d"]], "{", x["to"], "}"]
            if x["pose"] is not None:
                res += pose_tokens(x["pose"], st)
            if x["axis"] is not None:
                res += ["|"] + vec(x["axis"], st)
        return res
    if k == "amb":
        return ["ambient", e["n"], "{"] + [x for i in e["items"] for x in tokens(i, st)] + ["}"]
    if k == "act":
        return ["actuator", e["n"], "{"] + e.get("f", []) + ["}"]
    if k == "sen":
        return ["sensor", e["n"], e["t"], "{"] + e.get("f", []) + ["}"]
    if k == "port":
        return ["port", e["n"], ":", '"/topic"', "(", '"msgs/Type"', ")", "{", "}"]
    if k == "edge":
        return ["ambience", e["n"], ":"] + e["f"]
    raise KeyError(k)


def text(e, st=0):
    items = [tokens(i, st) for i in e["items"]]
    if e["params"]:
        items.insert(e["at"], ["parameters", "{"] + [x for n, v in e["params"] for x in (n, "=", v)] + ["}"])
    toks = ["entity", e["n"], "{"] + [x for i in items for x in i] + ["}"]
    if st == 4:     # as dense as possible
        res = toks[0]
        for a, b in zip(toks, toks[1:]):
            word = lambda c: c.isalnum() or c in "_/.-\""  # noqa
            res += (" " if word(a[-1]) and word(b[0]) else "") + b
        return res
    sep = {0: " ", 1: "\n", 2: "\n\t ", 3: " /* { link */ "}[st]
    return sep.join(toks) if st != 2 else "// entity x {\n" + sep.join(t + (" // " + t + " }" if i % 3 == 0 else "") for i, t in enumerate(toks)) + "\n"


# ------------------------------------------------------------------ import and judging

def load(txt, clock=None):
    try:
        t = antlr.tree(txt)
    except antlr.SyntaxProblem as e:
        raise Bad(f"the grammar does not understand {txt!r}: {e}")
    v = CognilangParserFileIcon("icon", clock or FixedClock())
    try:
        v.visit(t)
    except Exception as e:  # noqa
        raise Bad(f"import of {txt!r} raised {describe_exc(e)}")
    return v.root_entity


class Judge:
    def __init__(self, spec, txt):
        self.spec, self.txt = spec, txt
        self.par = {n: float(v) for n, v in spec["params"]}

    def bad(self, where, what):
        raise Bad(f"import of {self.txt!r}: {where} {what}")

    def val(self, x):
        x = num(x)
        return self.par[x[1:-1]] if x.startswith("{") else float(x)

    def vals(self, v):
        return [self.par[v[1:-1]]] if isinstance(v, str) else [self.val(x) for x in v]

    def split(self, el, where):
        sem, nodes, edges = [], [], []
        for x in kids(el):
            if isinstance(x, SemanticValueNode):
                sem.append(x)
            elif isinstance(x, HypergraphEdge):
                edges.append(x)
            elif isinstance(x, HypergraphNode):
                nodes.append(x)
            elif not isinstance(x, HypergraphPort):
                self.bad(where, f"contains {type(x).__name__} {x.id_name}")
        return sem, nodes, edges

    def only(self, sem, exp, where):
        """semantic elements: exactly one of each named type"""
        got = sorted(type(x).__name__ for x in sem)
        if got != sorted(exp):
            self.bad(where, f"has the semantic elements {got} instead of {sorted(exp)}")
        return {type(x).__name__: x for x in sem}

    def named(self, nodes, names, where):
        if sorted(x.id_name for x in nodes) != sorted(names):
            self.bad(where, f"contains the nodes {sorted(x.id_name for x in nodes)} instead of {sorted(names)}")
        return {x.id_name: x for x in nodes}

    def attr(self, el, exp, where):
        for k, v in exp.items():
            g = el[k]
            ok = close(list(g), v) if isinstance(v, list) and isinstance(g, list) else g == v
            if not ok:
                self.bad(where, f"{type(el).__name__} has {k} {g!r} instead of {v!r}")

    def pose(self, el, p, where):
        tr = [x for x in kids(el) if type(x).__name__ == "RigidTransformation"]
        if p is None:
            if tr:
                self.bad(where, "has a transformation that is not in the text")
            return
        if len(tr) != 1:
            self.bad(where, f"has {len(tr)} transformations")
        t = tr[0]
        rad = lambda v, deg: [x * (math.pi / 180.0 if deg else 1.0) for x in v]  # noqa
        self.attr(t, {"translation": self.vals(p["t"])}, where)
        exp = rad(self.vals(p["r"]), p["u"] == "d") if p["r"] is not None else [0.0, 0.0, 0.0]
        unit = t["rotation_type"]
        # 'deg' is what the exporter takes for degrees, anything else is in radians
        if not isinstance(t["rotation"], list) or not close(rad(t["rotation"], unit == "deg"), exp):
            self.bad(where, f"has the rotation {t['rotation']} {unit} instead of {exp} rad")

    def name(self, el, sem, where):
        self.attr(sem, {"name": el.id_name}, where)

    def run(self, root):
        if root is None:
            self.bad("the entity", "is missing")
        if root.id_name != self.spec["n"] or root.qualified_name.split(".")[0] != self.spec["n"]:
            self.bad("the entity", f"is called {root.id_name} / {root.qualified_name}")
        self.at, self.refs = {}, []
        self.container(root, self.spec, (self.spec["n"],), "CognitiveEntity")
        self.references()
        return self

    def container(self, el, e, path, kind):
        where = "/".join(path)
        self.at[path] = el
        if el.qualified_name != where:
            self.bad(where, f"has the qualified name {el.qualified_name}")
        sem, nodes, edges = self.split(el, where)
        sem = self.only(sem, [kind] if kind else [], where)
        if kind:
            self.name(el, sem[kind], where)
        items = [i for i in e["items"] if i["k"] not in ("joint", "edge", "port")]
        # elements of an ambience which no check knows the meaning of are left alone
        extra = [i["n"] for i in e["items"] if i["k"] == "port"]
        n = self.named([x for x in nodes if x.id_name not in extra], [i["n"] for i in items], where)
        for i in items:
            p = path + (i["n"],)
            if i["k"] == "kin":
                self.container(n[i["n"]], i, p, "KinematicGraphDefinition")
            elif i["k"] == "amb":
                self.container(n[i["n"]], i, p, None)
            elif i["k"] == "link":
                self.link(n[i["n"]], i, p)
            else:
                self.at[p] = n[i["n"]]
                self.only(self.split(n[i["n"]], where)[0], [], "/".join(p))
        self.joints(el, edges, [i for i in e["items"] if i["k"] == "joint"], n, path)

    def link(self, el, l, path):
        where = "/".join(path)
        self.at[path] = el
        if el.qualified_name != where:
            self.bad(where, f"has the qualified name {el.qualified_name}")
        sem, nodes, edges = self.split(el, where)
        sem = self.only(sem, ["KinematicLink"] + (["InertiaElement"] if l["mass"] is not None else []), where)
        self.name(el, sem["KinematicLink"], where)
        self.pose(sem["KinematicLink"], l["pose"], where)
        if l["pose"] is not None:
            tr = [x for x in kids(sem["KinematicLink"]) if type(x).__name__ == "RigidTransformation"]
            # the element, alone or followed by its translation and rotation
            got = sem["KinematicLink"]["rigidtransformation"]
            if (got[0] if isinstance(got, (tuple, list)) and got else got) is not tr[0]:
                self.bad(where, "does not give its transformation as the attribute rigidtransformation")
        if l["mass"] is not None:
            self.attr(sem["InertiaElement"], {"mass": self.val(l["mass"])}, where)
        if edges:
            self.bad(where, f"contains edges {[x.id_name for x in edges]}")
        parts = l["parts"] if l["mass"] is not None else []
        if len(nodes) != len(parts) or len({x.id_name for x in nodes}) != len(nodes):
            self.bad(where, f"has the visuals and collisions {[x.id_name for x in nodes]}, there are {len(parts)} in the text")
        left = list(nodes)
        for p in sorted(parts, key=lambda p: p["n"] is None):     # those with a name first
            fits = [x for x in left if p["n"] is None or x.id_name == p["n"]]
            why = None
            for x in fits:
                try:
                    g = self.part(x, p, path)
                except Bad as b:
                    why = why or b
                    continue
                left.remove(x)
                if p["n"] is not None:
                    self.at[path + (p["n"],)] = x
                if "ref" in p["g"]:
                    self.refs.append((path, p, g))
                break
            else:
                raise why or Bad(f"import of {self.txt!r}: {where} lacks {p}")

    def part(self, el, p, path):
        where = "/".join(path + (p["n"] or "<without name>",))
        sem, nodes, edges = self.split(el, where)
        sem = self.only(sem, ["VisualMaterial"] if p["v"] else [], where)
        if p["v"]:
            self.attr(sem["VisualMaterial"], {"material_name": p["mat"] or "white"}, where)
        if len(nodes) != 1 or edges:
            self.bad(where, f"has {len(nodes)} geometries")
        gs, gn, ge = self.split(nodes[0], where)
        if gn or ge:
            self.bad(where, "has elements inside of its geometry")
        g = p["g"]
        if "ref" in g:
            self.only(gs, [], where)
        else:
            s = list(self.only(gs, [g["t"].capitalize() + "Geometry"], where).values())[0]
            self.attr(s, {"values": self.vals(g["v"])}, where)
        return nodes[0]

    def joints(self, el, edges, joints, n, path):
        where = "/".join(path)
        plain = [e for e in edges if all(r.semantic_value_node is None for r in e.sub_relations)]
        edges = [e for e in edges if e not in plain]
        self.at[path + ("<references>",)] = plain
        if sorted(e.id_name for e in edges) != sorted(j["n"] for j in joints):
            self.bad(where, f"has the joints {sorted(e.id_name for e in edges)} instead of {sorted(j['n'] for j in joints)}")
        for j in joints:
            e = [x for x in edges if x.id_name == j["n"]][0]
            w = where + " joint " + j["n"]
            if e.qualified_name != where + "/" + j["n"]:
                self.bad(w, f"has the qualified name {e.qualified_name}")
            rel = list(e.sub_relations)
            if len(rel) != len(j["ends"]):
                self.bad(w, f"has {len(rel)} relations instead of {len(j['ends'])}")
            for x in j["ends"]:
                if x["to"] == "world":
                    fits = [r for r in rel if r.endpoint.id_name == "world" and r.endpoint not in n.values() and r.direction == DIR[x["d"]]]
                else:
                    fits = [r for r in rel if r.endpoint is n[x["to"]] and r.direction == DIR[x["d"]]]
                if len(fits) != 1:
                    self.bad(w, f"connects {[(r.endpoint.qualified_name, r.direction.name) for r in rel]}; {x['to']} {DIR[x['d']].name} is expected once")
                s = fits[0].semantic_value_node
                if type(s).__name__ != "KinematicJoint":
                    self.bad(w, f"has {type(s).__name__} at {x['to']}")
                self.attr(s, {"joint_type": x["t"], "axis": self.vals(x["axis"]) if x["axis"] is not None else None}, w + " at " + x["to"])
                self.pose(s, x["pose"], w + " at " + x["to"])

    def references(self):
        """every referring geometry has exactly one edge in the graph of its link, from the part referred to"""
        count = {}
        for path, p, g in self.refs:
            steps = p["g"]["ref"].split("/")
            own = path + (p["n"],)
            target = self.at[own[:len(own) - len(steps)] + tuple(steps)]
            where = "/".join(path + (p["n"] or "<without name>",))
            es = [e for e in self.at[path[:-1] + ("<references>",)] if any(r.endpoint is g for r in e.sub_relations)]
            if len(es) != 1:
                self.bad(where, f"refers to {p['g']['ref']}, and {len(es)} edges lead to its geometry")
            rel = sorted(((r.direction.name, r.endpoint.qualified_name, id(r.endpoint)) for r in es[0].sub_relations))
            exp = sorted([("INWARDS", g.qualified_name, id(g)), ("OUTWARDS", target.qualified_name, id(target))])
            if rel != exp:
                self.bad(where, f"refers to {p['g']['ref']}, its edge connects {[x[:2] for x in rel]} instead of {[x[:2] for x in exp]}")
            count[path[:-1]] = count.get(path[:-1], 0) + 1
        for path, es in self.at.items():
            if path[-1] == "<references>" and len(es) != count.get(path[:-1], 0):
                self.bad("/".join(path[:-1]), f"has the references {[e.id_name for e in es]}, in the text there are {count.get(path[:-1], 0)}")


def digest(el):
    """everything observable of a graph as plain data"""
    def go(x):
        row = [type(x).__name__, x.id_name, x.qualified_name, x.depth]
        if isinstance(x, SemanticValueNode):
            row.append([(k, repr(x[k])) for k in ("name", "mass", "joint_type", "axis", "values", "material_name", "translation", "rotation", "rotation_type")])
        if isinstance(x, HypergraphEdge):
            row.append([(r.direction.name, r.endpoint.qualified_name, go(r.semantic_value_node) if r.semantic_value_node is not None else None) for r in x.sub_relations])
            return row
        return row + [[go(y) for y in kids(x)]]
    return go(el)
