"""C22 exported geometry, material, inertia and pose match the elements."""
import itertools

from mc.core import Bad
from rei.factories.foundation_factory import HypergraphFactory
from mc.view import Watch
from mc.robot import Robot, link, joint, end, graph, export, judge, show

ASSUMPTIONS = ["cylinder [radius, length], ellipsoid [r] or [rx, ry, rz], polyhedron [a] or [a, b, c]; references are to a visual or collision with geometry of its own",
               "inertia: the link's first own geometry is its solid"]

DOM = (1.0, 0.25, 3.0)
GEOMS = [("cylinder", 2), ("ellipsoid", 1), ("ellipsoid", 3), ("polyhedron", 1), ("polyhedron", 3)]
MATS = (None, "red", "wood", "DarkGrey")
MORE = ("dark_grey", "light blue", "a.b", "x", "RED", "turquoise-2", "\u00fcbel", "gazebo/grey")
# numbers that need all their digits
FINE = (0.12345678901, 1 / 3, 123456.789012, 1.2345678e-7, 98765432109.5, 7.000000001)
NEAR = (0.25, 0.2500001, 0.25 + 1e-11, 0.3, 25.0)
ANGLES = (0.0, 1.0, -90.0, 180.0, 0.001)


def geom(n, t, v):
    return {"n": n, "t": t, "v": list(v)}


def part(n, geoms, mat=None):
    return {"n": n, "geoms": geoms, "mat": mat}


def all_geoms(dom):
    for t, k in GEOMS:
        for v in itertools.product(dom, repeat=k):
            yield t, list(v)


SMALL = [("cylinder", [0.25, 3.0]), ("ellipsoid", [2.0]), ("ellipsoid", [1.0, 2.0, 3.0]), ("polyhedron", [0.5]), ("polyhedron", [1.0, 2.0, 3.0])]


def cases(ck):
    dom = DOM if not ck.thorough else DOM + (0.1, 1e-3)
    for t, v in all_geoms(dom):
        for mat in MATS[:2]:
            for mass in (None, 1.0, 0.1, 7):
                yield ["one", t, v, mat, mass]
    for mat in MORE:
        for t, v in SMALL:
            yield ["one", t, v, mat, 1.0]
    for t, v in all_geoms((10.0, 1234.5, 1e-5) if ck.thorough else (1234.5, 1e-5)):
        yield ["one", t, v, "red", 1e4]
        yield ["one", t, v, None, 1e-4]
    for t, v in all_geoms((1, 2)):   # integers
        yield ["one", t, v, None, 2]
        yield ["one", t, v, "red", 3.5]
    for i, x in enumerate(FINE):
        for t, k in GEOMS:
            for v in itertools.product(FINE if ck.thorough else (x, FINE[i - 1]), repeat=k):
                yield ["one", t, list(v), MATS[i % 2], FINE[i - 2]]
        for y in FINE:
            for sign in itertools.product((1, -1), repeat=3):
                for unit in ("rad", "deg"):
                    for who in ("link", "joint"):
                        v = [s * z for s, z in zip(sign, (x, y, FINE[i - 1]))]
                        yield ["pose", who, v, v[::-1], unit]
    # several visuals and collisions of one link, with and without material, in any order
    n = 3 if ck.thorough else 2
    for k in range(0, n + 1):
        for gs in itertools.product(range(len(SMALL)), repeat=k):
            for mats in itertools.product(range(3), repeat=k):
                yield ["many", list(gs), list(mats)]
    for gs in itertools.product(range(len(SMALL)), repeat=3):
        for mats in ((0, 1, 2), (1, 1, 0), (0, 0, 0), (3, 2, 1)):
            yield ["many", list(gs), list(mats)]
    for n in (6, 11):
        for k in range(5):
            yield ["many", [(i + k) % 5 for i in range(n)], [(i * (k + 1)) % 4 for i in range(n)]]
    # several geometry nodes in one visual or collision
    for k in (2, 3):
        for gs in itertools.product(range(len(SMALL)), repeat=k):
            for mat in (0, 1):
                yield ["nodes", list(gs), mat]
                yield ["nodes", list(gs), mat, "again"]     # of one name
    # shapes, masses and poses that nearly agree
    for t, k in GEOMS:
        for x, y in itertools.permutations(NEAR, 2):
            for i in range(k):
                a = [x] * k
                b = [y if j == i else x for j in range(k)]
                for m in (0, 1):
                    yield ["near", t, a, b, m]
    # references: l1's parts refer to parts of l0, l1 or l2
    for g0, g1 in itertools.product(range(len(SMALL)), repeat=2):
        for m0, m1, m2 in itertools.product((0, 1), repeat=3):
            for refdir in (0, 1):
                yield ["ref", g0, g1, [m0, m1, m2], refdir]
    # poses
    for who in ("link", "joint"):
        for unit in ("rad", "deg"):
            for r in itertools.product(ANGLES, repeat=3) if ck.thorough else itertools.product(ANGLES[:4], repeat=3):
                yield ["pose", who, [0.5, -1.0, 2.0], list(r), unit]
            for t in itertools.product((0.0, -1.5, 1e-6), repeat=3):
                yield ["pose", who, list(t), [30.0, 0.0, -60.0], unit]
            yield ["pose", who, [1, 2, 3], [90, 0, 180], unit]
            for a in (270.0, 360.0, -200.0, 720.5, 3.5, -6.0, 1e-7, 57.0):
                for r in ([a, 0.0, 0.0], [0.0, a, 1.0], [1.0, 0.0, a], [a, a, -a]):
                    yield ["pose", who, [0.5, 1e5, -1e-5], r, unit]
    # sub-robot: names carry the prefix, everything else is the same
    for g in range(len(SMALL)):
        for m in range(3):
            for unit in ("rad", "deg"):
                yield ["sub", g, m, unit]
    # changed between two exports
    for a, b in itertools.permutations(range(len(SMALL)), 2):
        yield ["change", a, b]


def spec_of(case):
    k = case[0]
    if k == "one":
        _, t, v, mat, mass = case
        return graph("basic", [link("l0", None, [part("p", [geom("geom_p", t, v)], mat)], mass)])
    if k == "many":
        parts = [part(f"p{i}", [geom(f"geom_p{i}", *SMALL[g])], MATS[m]) for i, (g, m) in enumerate(zip(case[1], case[2]))]
        return graph("basic", [link("l0", None, parts, 2.0), link("l1", None, parts[::-1], 0.5)])
    if k == "near":
        _, t, a, b, m = case
        return graph("basic", [link(f"l{i}", [v[:1] * 3, [v[-1]] * 3, "rad"], [part(f"p{i}", [geom(f"geom_p{i}", t, v)], "red" if m else None), part(f"q{i}", [geom(f"geom_q{i}", t, w)])], v[-1])
                               for i, (v, w) in enumerate(((a, b), (b, b), (a, a)))])
    if k == "nodes":
        return graph("basic", [link("l0", None, [part("p", [dict(geom("g" if case[3:] else f"g{i}", *SMALL[g]), again=i) for i, g in enumerate(case[1])], MATS[case[2]]), part("q", [geom("gq", *SMALL[0])], "red")], 3.0)])
    if k == "ref":
        _, a, b, m, _ = case
        return graph("basic", [link("l0", None, [part("p", [geom("geom_p", *SMALL[a])], MATS[m[0]]), part("q", [{"n": "geom_q", "ref": ["l0", "p"]}], MATS[m[1]])], 1.5),
                               link("l1", None, [part("r", [{"n": "geom_r", "ref": ["l0", "p"]}], MATS[m[2]]), part("s", [{"n": "geom_s", "ref": ["l2", "p"]}], MATS[m[0] + 1])], 2.5),
                               link("l2", None, [part("p", [geom("geom_p", *SMALL[b])], MATS[m[1] * 2])], None)])
    if k == "pose":
        _, who, t, r, u = case
        p = [t, r, u]
        return graph("basic", [link("l0", p if who == "link" else None, [part("p", [geom("geom_p", *SMALL[0])])], 1.0), link("l1")],
                     [joint("j", end("l0", "i", "fix"), end("l1", "o", "rev", None, p if who == "joint" else None))])
    if k == "sub":
        _, g, m, u = case
        p = [[0.5, 0.0, -1.0], [10.0, 20.0, 30.0], u]
        s = graph("s", [link("a", p, [part("v", [geom("geom_v", *SMALL[g])], MATS[m]), part("c", [{"n": "geom_c", "ref": ["a", "v"]}])], 2.0),
                        link("b", None, [part("w", [geom("geom_w", *SMALL[(g + 1) % 5])], MATS[(m + 1) % 4])], 0.5)], [joint("k", end("a", "i"), end("b", "o", "rev", None, p))])
        return graph("basic", [link("l0", p, [part("v", [geom("geom_v", *SMALL[(g + 2) % 5])], "white")], 4.0)],
                     [joint("r0", end("l0", "i"), end("s", "o", "fix", None, p)), joint("r1", end("l0", "i"), end("s", "o", "fix"))], [s])
    return graph("basic", [link("l0", [[1.0, 2.0, 3.0], [4.0, 5.0, 6.0], "rad"], [part("p", [geom("geom_p", *SMALL[case[1]])], "red")], 1.0)])


class Back(Robot):
    refdir = True


class Again(Robot):
    """every geometry node from factories of its own"""

    def gnode(self, gm, pn):
        f = HypergraphFactory(f"fac{gm.get('again', 0)}_{self.name}", self.c)
        return f.generate_node(gm["n"], pn)


def run_case(ck, case):
    ck.traces += 1
    ck.states += 1
    ck.sample(case, 4)
    g = spec_of(case)
    make = Again if case[0] == "nodes" else Back if case[0] == "ref" and case[4] else Robot
    r = make("robot", g)
    text = f"{case}"
    w = Watch([r.root, r.world], lambda: (lambda x: [x.root, x.world])(make("robot", g)))
    icon = export(r)
    ck.outcome(repr(judge(icon, [("robot", g)], text)) + case[0])
    ck.transitions += 1
    if w.change():
        raise Bad(f"{text}: the export changed the robot: {w.change()}")
    if case[0] == "change":
        t, v = SMALL[case[2]]
        g2 = spec_of(["change", case[2], 0])
        l = g2["links"][0]
        l["mass"], l["pose"], l["parts"][0]["mat"] = 9.0, [[0.0, 1.0, 0.0], [90.0, 0.0, 0.0], "deg"], "blue"
        node = next(iter(r.root.get_element_by_id_name("basic/l0")))
        gn = next(iter(node.get_element_by_id_name("p/geom_p")))
        for x in list(gn.get_subelements(lambda x: True)):
            for _ in gn.remove_element(uuid=x.uuid):
                pass
        r.sem(t + "_geometry", "geom_new", gn, {"name": "geom_p"}, list(v))
        for x in node.get_subelements(lambda x: True):
            for kind, attrs in (("mass", {"mass": 9.0}), ):
                if x.id_name == "inertia_l0":
                    x.remove_named_attribute("mass")
                    x.add_named_attribute("mass", 9.0)
            if x.id_name == "l0":
                for y in x.get_subelements(lambda y: True):
                    for a, b in (("translation", [0.0, 1.0, 0.0]), ("rotation", [90.0, 0.0, 0.0]), ("rotation_type", "deg")):
                        y.remove_named_attribute(a)
                        y.add_named_attribute(a, b)
            if x.id_name == "p":
                for y in x.get_subelements(lambda y: y.id_name.startswith("material")):
                    y.remove_named_attribute("material_name")
                    y.add_named_attribute("material_name", "blue")
        judge(export(r), [("robot", g2)], f"{text}, after changing geometry, mass, pose and material")
        ck.transitions += 1
