"""C21 the exported model has exactly the links and joints of the robot."""
import asyncio
import itertools

from lxml import etree

from mc.core import Bad
from mc.view import Watch
from mc.robot import Robot, link, joint, end, graph, export, judge, show, TYPES
from rei.format.mapping.cognilang_sdf_icon import CognilangSdfIcon
from rei.format.semantics.CognitiveEntity import CognitiveEntity

ASSUMPTIONS = ["entity > kinematic graph > links; sub-robots are nested in the graph that refers to them and are trees",
               "elements handed to the exporter are those of the conversion tool's queries, in any order; the entity may come in a later call"]

L = lambda n: [link(f"l{i}") for i in range(n)]  # noqa
POSES = (None, [[0.123456789, -0.2, 3e-7], [0.5, 0.0, -1.987654321], "rad"], [[1.0, 0.0, 0.25], [90.0, -45.0, 180.0], "deg"])
AXES = (None, [1.0, 0.0, 0.0], [1e-7, 0.123456789, -1.0], [0.0, 0.0, 0.0])


def edges_of(n):
    names = [f"l{i}" for i in range(n)]
    return [("world", c) for c in names] + [(p, c) for p in names for c in names if p != c]


def structures(n, kmax):
    es = edges_of(n)
    for k in range(kmax + 1):
        for sel in itertools.combinations(es, k):
            yield list(sel)


def mk(n, sel, swap=0, first="links", names=None):
    js = []
    for k, (p, c) in enumerate(sel):
        a, b = end(p, "i", "fix"), end(c, "o", "rev")
        js.append(joint(f"j{k}" if names is None else names[k], *((b, a) if swap >> k & 1 else (a, b))))
    return graph("basic", L(n), js, first=first)


def sub(name, kind):
    """sub-robots: their own link names differ from each other's"""
    a, b, c = (link(f"{name}_{x}") for x in "abc")
    j = lambda n, p, q: joint(f"{name}_{n}", end(p["n"], "i"), end(q["n"], "o", "rev", [0.0, 1.0, 0.0], POSES[1]))  # noqa
    if kind == 1:
        return graph(name, [a])
    if kind == 2:
        return graph(name, [a, b], [j("j", a, b)])
    if kind == 3:
        return graph(name, [a, b], [j("j", b, a)], first="joints")
    if kind == 4:
        return graph(name, [a, b, c], [j("j", a, b), j("k", b, c)])
    if kind == 5:
        return graph(name, [a, b, c], [j("j", c, a), j("k", c, b)])
    if kind == 6:  # a sub-robot of the sub-robot
        s = sub(name + "in", 2)
        return graph(name, [a, b], [j("j", a, b), joint(f"{name}_s", end(b["n"], "i"), end(s["n"], "o", "tr", None, POSES[2]))], [s])
    if kind == 7:
        s = sub(name + "in", 6)
        return graph(name, [a], [joint(f"{name}_s", end(a["n"], "i"), end(s["n"], "o", "rev"))], [s])
    if kind == 8:  # two references to the same inner sub-robot
        s = sub(name + "in", 2)
        return graph(name, [a, b], [joint(f"{name}_s", end(a["n"], "i"), end(s["n"], "o", "fix")), j("j", a, b),
                                    joint(f"{name}_t", end(b["n"], "i"), end(s["n"], "o", "rev"))], [s])


def cases(ck):
    for n in (0, 1, 2, 3):
        for sel in structures(n, 4):
            for swap in range(1 << len(sel)) if n < 3 or len(sel) < 3 or ck.thorough else (0, (1 << len(sel)) - 1, 5):
                for first in ("links", "joints"):
                    yield ["tree", n, sel, swap, first]
    for sel in structures(4, 4 if ck.thorough else 3):
        yield ["tree", 4, sel, 0, "links"]
    # order of joints and of the handed elements
    for sel in structures(3, 3):
        for p in itertools.permutations(sel) if len(sel) == 3 else ():
            yield ["tree", 3, list(p), 0, "links"]
    for sel in structures(2, 2):
        yield ["order", 2, sel]
    # joint attributes
    for t0, t1 in itertools.product(TYPES, repeat=2):
        for ax in range(len(AXES)):
            for p0, p1 in itertools.product(range(len(POSES)), repeat=2):
                for lp in range(len(POSES)):
                    yield ["attr", t0, t1, ax, p0, p1, lp]
    # several ends per edge: up to two parents and three children
    for ends in itertools.product("io.", repeat=4):
        for w in "io.":
            yield ["multi", "".join(ends), w]
            yield ["multi", "".join(ends[::-1]) + "x", w]
    # edges that are no joints, next to joints
    for d in itertools.product("iob.", repeat=4):
        for js in ((), (("l0", "l1"),), (("l1", "l0"), ("l1", "l2"))):
            yield ["plain", "".join(d), list(js)]
    # names: those that contain other names, the special name, the separator or unusual characters
    for names in NAMES:
        for sel in structures(3, 3):
            yield ["names", names, sel]
    # larger robots
    for n in (6, 9, 12) if ck.thorough else (6, 11):
        for shape in ("chain", "back", "star", "sink", "all", "two", "world"):
            for t in TYPES:
                yield ["large", shape, n, t]
    # sub-robots
    for kind in range(1, 9):
        for refs in range(1, 4):
            for par in itertools.product(range(2), repeat=refs):
                for extra in (0, 1):
                    for swap in (0, 1):
                        yield ["sub", kind, list(par), extra, swap]
    for k1, k2 in itertools.product(range(1, 9), repeat=2):
        yield ["sub2", k1, k2]
    # several exports
    pool = [["tree", 2, [["l0", "l1"]], 0, "links"], ["tree", 3, [["world", "l0"], ["l0", "l1"], ["l1", "l2"]], 0, "links"], ["sub", 2, [0, 1], 1, 0],
            ["sub", 6, [0], 0, 0], ["tree", 0, [], 0, "links"], ["sub", 5, [1, 1], 0, 0]]
    for seq in itertools.product(range(len(pool)), repeat=3 if ck.thorough else 2):
        for shared in (0, 1, 2, 3):
            yield ["hist", [pool[i] for i in seq], shared]


NAMES = [["worldly", "the_world", "my.world"], ["World", "WORLD", "world_"], ["a", "a.b", "b"], ["l", "ll", "l l"], ["\u00fc\u20ac", "a/b", "<&>"],
         ["connect", "connect.connect", "basic"], ["robot", "link", "joint"], ["l1", "l11", "l111"]]


def large(shape, n):
    """(parent, child) pairs"""
    l = [f"l{i}" for i in range(n)]
    if shape == "chain":
        return [("world", "l0")] + [(l[i], l[i + 1]) for i in range(n - 1)]
    if shape == "back":
        return [(l[i + 1], l[i]) for i in range(n - 1)][::-1]
    if shape == "star":
        return [("l0", x) for x in l[1:]]
    if shape == "sink":
        return [(x, "l0") for x in l[:0:-1]]
    if shape == "all":
        return [(a, b) for a, b in itertools.combinations(l, 2)]
    if shape == "two":
        return [(l[i], l[i + 2]) for i in range(n - 2)]
    return [("world", x) for x in l]


def spec_of(case):
    k = case[0]
    if k == "names":
        ren = {"world": "world", **{f"l{i}": x for i, x in enumerate(case[1])}}
        g = mk(3, case[2])
        return graph("basic", [link(x) for x in case[1]], [joint(j["n"], *({**e, "to": ren[e["to"]]} for e in j["ends"])) for j in g["joints"]])
    if k == "large":
        return graph("basic", [link(f"l{i}", POSES[i % 3]) for i in range(case[2])],
                     [joint(f"j{i}", end(p, "i", "fix"), end(c, "o", case[3], AXES[i % 4], POSES[i % 3])) for i, (p, c) in enumerate(large(case[1], case[2]))])
    if k == "tree":
        return mk(case[1], case[2], case[3], case[4])
    if k == "sub":
        s = sub("s", case[1])
        js = []
        for i, p in enumerate(case[2]):
            a, b = end(f"l{p}", "i"), end("s", "o", "rev", AXES[i], POSES[i])
            js.append(joint(f"r{i}", *((b, a) if case[4] else (a, b))))
        if case[3]:
            js.insert(0, joint("base", end("world", "i"), end("l0", "o")))
            js.append(joint("arm", end("l0", "i"), end("l1", "o", "rev")))
        return graph("basic", L(2), js, [s])
    if k == "sub2":
        return graph("basic", L(1), [joint("r", end("l0", "i"), end("s", "o", "rev")), joint("q", end("l0", "i"), end("t", "o", "tr"))],
                     [sub("s", case[1]), sub("t", case[2])])
    if k == "attr":
        _, t0, t1, ax, p0, p1, lp = case
        return graph("basic", [link("l0", POSES[lp]), link("l1", POSES[(lp + 1) % 3]), link("l2", POSES[(lp + 2) % 3])],
                     [joint("j0", end("l0", "i", "fix", AXES[1], POSES[p1]), end("l1", "o", t0, AXES[ax], POSES[p0])),
                      joint("j1", end("l1", "i", t0), end("l2", "o", t1, AXES[(ax + 1) % 4], POSES[p1]))])
    if k == "multi":
        ends = [end(f"l{i}", d, "fix" if d == "i" else ("rev", "tr")[i % 2], AXES[i % 4] if d == "o" else None) for i, d in enumerate(case[1]) if d in "io"]
        if case[2] != ".":
            ends.insert(1, end("world", case[2], "fix")) if case[2] == "i" else None
        if case[1].endswith("x"):
            ends = ends[::-1]
        return graph("basic", L(4), [joint("j", *ends)])
    if k == "plain":
        g = graph("basic", L(3), [joint(f"j{i}", end(p, "i"), end(c, "o", "rev")) for i, (p, c) in enumerate(case[2])])
        d = case[1]
        g["plain"] = [{"n": "e0", "ends": [(f"l{i}", x) for i, x in enumerate(d[:2]) if x != "."]},
                      {"n": "e1", "ends": [(("l1", "l2")[i], x) for i, x in enumerate(d[2:]) if x != "."]}]
        return g


def run_case(ck, case):
    ck.traces += 1
    ck.states += 1
    ck.sample(case, 4)
    k = case[0]
    if k == "hist":
        docs = []
        models = []
        icon = None
        for i, c in enumerate(case[1]):
            g = spec_of(c)
            r = Robot(f"robot{i}", g)
            icon = icon if case[2] and icon is not None else CognilangSdfIcon(r.c)
            if case[2] == 2 and i == 0:     # the entity only after its elements
                sel = r.selection()
                export(r, icon, [x for x in sel if not isinstance(x, CognitiveEntity)])
                export(r, icon, [x for x in sel if isinstance(x, CognitiveEntity)])
            else:
                export(r, icon)
            models.append((r.name, g))
            if case[2] == 3:    # the same robot once more, into the same document
                export(r, icon)
                models.append((r.name, g))
            docs.append((r, g, icon))
            ck.outcome(repr(judge(icon, models if case[2] else models[-1:], f"export number {i + 1} after {[x[:4] for x in case[1][:i]]}, {show(g)}")))
            ck.transitions += 1
        for r, g, icon in docs:   # again, and the documents of the earlier ones are still the same
            if not case[2]:
                judge(icon, [(r.name, g)], f"document of {show(g)} after other exports")
            judge(export(r), [(r.name, g)], f"{show(g)} exported again")
            ck.transitions += 1
        return
    if k == "order":
        g = mk(case[1], case[2])
        sel = Robot("robot", g).selection()
        for p in itertools.permutations(range(len(sel))) if len(sel) <= 6 else (range(len(sel)), range(len(sel))[::-1]):
            r = Robot("robot", g)
            s = r.selection()
            ck.outcome(repr(judge(export(r, None, [s[i] for i in p]), [("robot", g)], f"{show(g)}, elements in the order {list(p)}")))
            ck.transitions += 1
        return
    g = spec_of(case)
    r = Robot("robot", g)
    w = Watch([r.root, r.world], lambda: (lambda x: [x.root, x.world])(Robot("robot", g)))
    icon = export(r)
    res = judge(icon, [("robot", g)], show(g))
    if w.change():
        raise Bad(f"{show(g)}: the export changed the robot: {w.change()}")
    again = export(r)
    if etree.tostring(again.root_xml) != etree.tostring(icon.root_xml):
        raise Bad(f"{show(g)}: a second export gives another document:\n{etree.tostring(icon.root_xml)}\n{etree.tostring(again.root_xml)}")
    for w in (1, 2):
        judge(export(Robot("robot", g, None, w)), [("robot", g)], f"{show(g)}, the world contained in {('a scene', 'the entity')[w - 1]}")
    ck.transitions += 4
    ck.outcome(repr(res))
