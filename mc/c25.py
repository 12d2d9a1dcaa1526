"""C25 importing a CogniLang description gives the described graph."""
import asyncio
import glob
import itertools
import os
import re

from mc.core import Bad, FRAMEWORK, describe_exc
from mc.cogni import Judge, STYLES, digest, end, entity, joint, kin, link, load, part, pose, text
from mc.hier import FixedClock, kids
from rei.foundations.clock import DummyClock, LocalClock
from rei.foundations.hypergraph_traversal_strategies import HypergraphTraversal
from rei.hypergraph.norm.norm_functions import SumNorm
from rei.hypergraph.base_elements import HypergraphEdge, HypergraphNode
from rei.hypergraph.homomorphism_functions import IndexHomomorphismGraphTensor

ASSUMPTIONS = ["texts are read by an interpreter of the repository's grammar files in place of the generated parser, which is not part of the repository",
               "elements are declared before they are referred to, parameters before they are used; names of elements without a name are free"]

P0 = pose(["0.1", "-0.25", "10.0"])
POSES = [None, P0, pose(["0.0", "0.0", "0.0"], ["90.0", "-45.5", "0.0"], "d"), pose(["1.0", "2.0", "3.0"], ["0.5", "-1.5", "3.25"], "r"),
         pose(["1.0", "2.0", "3.0"], ["0.5", "0.0", "-0.125"]), pose(["{A}", "0.0", "{B}"], ["{B}", "{A}", "0.0"], "d"), pose(["-1.0", "{A}", "0.0"], ["0.0", "{B}", "{B}"], "r"),
         pose(["0.0", "0.0", "0.0"], ["0.0", "0.0", "0.0"], "d"), pose(["0.0", "0.5", "0.0"], ["0.0", "0.0", "0.0"], "r")]
PARAMS = [("A", "1.5"), ("B", "-30.0")]
AXES = [None, ["0.0", "0.0", "1.0"], ["1.0", "-0.5", "0.0"], ["{A}", "0.0", "0.0"], ["0.0", "0.0", "0.0"]]
GEOMS = [{"t": "cylinder", "v": ["0.1", "1.4"]}, {"t": "polyhedron", "v": ["1.0", "2.0", "3.0"]}, {"t": "ellipsoid", "v": ["0.085"]},
         {"t": "ellipsoid", "v": ["3.0", "2.0", "1.0"]}, {"t": "cylinder", "v": ["{A}", "0.5"]}, {"t": "polyhedron", "v": "{A}"}, {"t": "cylinder", "id": "c1", "v": ["2.0", "{A}"]}]
NAMES = ["a", "link_01", "base", "A_b", "wheel_left_front", "x1y2", "robot", "World", "worlds", "the_world", "A", "ID", "None", "_"]
NUMS = ["0.0", "0.001", "0.5", "3.0", "-3.0", "57.0", "-90.0", "400.0", "123456.75", "-0.0", "0.12345678901", "98765432109.5", "-0.00012345678"]


def parts_menu(names):
    for v in (True, False):
        for n in names:
            for g in range(4):
                for mat in (None, "red") if v else (None,):
                    yield [v, n, g, mat]


def structures(n, kmax):
    es = [("world", f"l{i}") for i in range(n)] + [(f"l{i}", f"l{k}") for i in range(n) for k in range(n) if i != k]
    for k in range(kmax + 1):
        yield from itertools.combinations(es, k)


def ambients(depth, width):
    """items of an ambience: leaf kinds, nested ambiences, kinematic graphs"""
    leaves = [["act", 0], ["act", 1], ["sen", "imu"], ["sen", "gnss"], ["sen", "visual"], ["sen", "laserarray"], ["port", 0], ["kin", 0], ["edge", 0]]
    if depth == 0:
        yield []
        return
    inner = leaves + ([["amb", x] for x in ambients(depth - 1, 1)] if depth > 1 else [["amb", []]])
    for k in range(width + 1):
        for sel in itertools.product(inner, repeat=k):
            yield [list(x) for x in sel]


def cases(ck):
    th = ck.thorough
    # links and their poses, in every style of writing
    for k in range(0, 3):
        for sel in itertools.product(range(len(POSES)), repeat=k):
            for st in range(STYLES):
                yield ["links", list(sel), st]
    for sel in itertools.product(range(len(POSES)), repeat=3) if th else ():
        yield ["links", list(sel), 0]
    # numbers of every size at every place
    for where in ("t", "d", "r", "", "axis", "mass", "geom"):
        for x in NUMS:
            for pos in range(3):
                yield ["num", where, x, pos, 0]
                yield ["num", where, x, pos, 1]
        for x, y in itertools.product(NUMS, repeat=2) if th else zip(NUMS, NUMS[::-1]):
            yield ["num", where, [x, y, x], 0, 0]
            yield ["num", where, [y, y, x], 0, 1]
    # visuals and collisions of a link
    menu = list(parts_menu([None, "v"]))
    for a in menu:
        for st in range(STYLES):
            yield ["parts", [a], st]
    for a, b in itertools.product(menu, list(parts_menu([None, "w"]))):
        yield ["parts", [a, b], 0]
    few = [[True, None, 0, None], [True, None, 1, "red"], [False, None, 2, None], [False, "c", 0, None], [True, "v", 3, "blue"]]
    for k in (3, 4) if th else (3,):
        for sel in itertools.product(range(len(few)), repeat=k):
            if all(sel.count(i) < 2 for i in (3, 4)):
                yield ["parts", [few[i] for i in sel], sum(sel) % STYLES]
    for k in (8, 12):
        for i in range(3):
            yield ["parts", [few[i]] * k, 0]
    for g in range(len(GEOMS)):
        for v in (True, False):
            for m in ("0.1", "12.5", "0.0", "-1.0"):
                yield ["geom", g, v, m]
    # references: which part every later part takes its geometry from
    for n in (2, 3, 4, 5) if th else (2, 3, 4):
        for shape in (1, 2, 3):
            for sel in itertools.product(*[range(-1, i) for i in range(n)][1:]):
                for named in (0, 1) if n < 4 else (0,):
                    yield ["refs", shape, list(sel), named]
    # joints
    for n in (1, 2, 3):
        for sel in structures(n, 3 if n == 3 and not th else 4):
            yield ["joints", n, list(sel), 0]
            if len(sel) > 1:
                yield ["joints", n, list(sel), 1]
    for t0, t1 in itertools.product(("fix", "rev", "tr"), repeat=2):
        for d in itertools.product("iob", repeat=2):
            for st in range(STYLES):
                yield ["dirs", t0, t1, d, st]
    for p in itertools.product(range(len(POSES)), repeat=2):
        for a in itertools.product(range(len(AXES)), repeat=2):
            yield ["ends", p, a]
    for n in (3, 4):
        for d in itertools.product("iob", repeat=n):
            yield ["multi", d, 0]
            if th:
                yield ["multi", d, 1]
    # nested graphs: who contains whom, with equal names, joints to them, references across
    for n in (1, 2, 3, 4) if th else (1, 2, 3):
        for par in itertools.product(*[range(-1, i) for i in range(n)]):
            for names in (0, 1, 2):
                yield ["nest", list(par), names]
    # names that coincide between kinds of elements
    for e, k, a, b, j in itertools.product(("x", "y"), ("x", "k"), ("x", "l"), ("b", "k"), ("x", "j", "ref_a")):
        for order in (0, 1, 2):
            if a != j and b != j or order == 0:
                yield ["same", [e, k, a, b, j], order]
    for a, b in itertools.permutations(NAMES, 2):
        yield ["names", a, b]
    # ambience
    for items in ambients(3 if th else 2, 2):
        yield ["ambience", items]
    for items in ambients(1, 3):
        yield ["ambience", items]
    # parameters: where they are given, values of every notation, several uses
    for vals in itertools.product(("0.085", "-2.5", "3", "-7", "100.25"), repeat=2):
        for at in (0, 1, 2):
            for st in (0, 2, 4):
                yield ["params", vals, at, st]
    # larger descriptions
    for n in (6, 15, 40) if th else (6, 15):
        for shape in ("chain", "star", "loop", "deep"):
            yield ["large", shape, n]
    # several imports one after another, also of the same text
    for seq in itertools.product(range(5), repeat=3 if th else 2):
        for clk in (0, 1, 2):
            yield ["hist", seq, clk]
    for i in range(len(examples())):
        yield ["example", i]
    for d in itertools.product("io", repeat=2):
        yield ["traverse", d, 0]
        yield ["traverse", d, 1]


def examples():
    return sorted(glob.glob(os.path.join(FRAMEWORK, "**", "*.cogni"), recursive=True))


def mk(p):
    return part(p[0], p[1], GEOMS[p[2]], p[3])


AMB = {"act": lambda n, x: {"k": "act", "n": n, "f": ["double", "power", "=", "40.0", "int", "cnt", "=", "-3"] if x else []},
       "sen": lambda n, x: {"k": "sen", "n": n, "t": x, "f": ["int", "width", "=", "1960", "string", "format", "=", '"RGB8"'] if x == "visual" else []},
       "port": lambda n, x: {"k": "port", "n": n}, "kin": lambda n, x: kin(n, link("l", P0, "1.0", [mk([True, "v", 0, None])]), link("m"), joint("j", end("l", "i"), end("m", "o"))),
       "edge": lambda n, x: {"k": "edge", "n": n, "f": ["at", "->", "{", "k/l", "}", ",", "union", "comm", "<-", "stream", "{", "q", "}"]}}


def ambience(n, items):
    return {"k": "amb", "n": n, "items": [ambience(f"a{i}", x) if k == "amb" else AMB[k](f"{k}{'xyz'[i]}", x) for i, (k, x) in enumerate(items)]}


def large(shape, n):
    l = [link(f"l{i}", POSES[i % 5], "1.0", [part(True, f"v{i}", GEOMS[i % 4]), part(False, None, {"ref": "l0/v0" if shape == "star" else f"l{i}/v{i}"})]) for i in range(n)]
    if shape == "deep":
        k = kin(f"k{n - 1}", l[n - 1])
        for i in range(n - 2, -1, -1):
            k = kin(f"k{i}", l[i], k, joint(f"j{i}", end(f"l{i}", "i"), end(f"k{i + 1}", "o", "rev")))
        return entity("e", [k])
    prs = {"chain": [(i, i + 1) for i in range(n - 1)], "star": [(0, i) for i in range(1, n)], "loop": [(i, (i + 1) % n) for i in range(n)]}[shape]
    return entity("e", [kin("k", *l, *(joint(f"j{i}", end(f"l{a}", "i"), end(f"l{b}", "o", "rev", POSES[i % 5], AXES[i % 3])) for i, (a, b) in enumerate(prs)))])


def spec_of(case):
    k = case[0]
    if k == "links":
        return entity("e", [kin("k", *(link(f"l{i}", POSES[p], "2.5" if i % 2 else None, root=i == 0) for i, p in enumerate(case[1])))], PARAMS), case[2]
    if k == "num":
        _, where, x, pos, by = case
        v = list(x) if isinstance(x, list) else [x if i == pos else ("1.0", "0.0", "2.5")[i] for i in range(3)]
        ps = [("N", v[0]), ("M", v[1])] if by else []
        w = ["{N}", "{M}", v[2]] if by and where != "mass" else v
        pz = pose(w) if where == "t" else pose(["1.0", "2.0", "3.0"], w, where) if where in ("d", "r", "") else None
        return entity("e", [kin("k", link("a", pz, v[0] if where == "mass" else "1.0", [part(True, "v", {"t": "ellipsoid", "v": w})] if where == "geom" else []), link("b"),
                                joint("j", end("a", "i", "fix"), end("b", "o", "rev", pz, w if where == "axis" else None)))], ps), 0
    if k == "parts":
        return entity("e", [kin("k", link("l", None, "1.0", [mk(p) for p in case[1]]))]), case[2]
    if k == "geom":
        _, g, v, m = case
        return entity("e", [kin("k", link("l", P0, m, [part(v, "p", GEOMS[g])]), link("z", None, "1.0", [part(not v, None, GEOMS[g])]))], PARAMS), g % STYLES
    if k == "refs":
        _, shape, sel, named = case
        ps = []
        for i in range(len(sel) + 1):
            t = -1 if i == 0 else sel[i - 1]
            own = dict(GEOMS[i % 4])
            # one link each, two per link, or one graph each (the target is then addressed through its graph)
            path = (("k", f"l{i}", f"v{i}"), ("k", f"l{i // 2}", f"v{i}"), (f"k{i}", "l", "v"))[shape - 1]
            g = own if t < 0 else {"ref": "/".join([(f"l{t}", f"v{t}"), (f"l{t // 2}", f"v{t}"), (f"k{t}", "l", "v")][shape - 1])}
            ps.append((path, part(i % 2 == named, path[2], g, "red" if i == 2 and named == 0 else None)))
        ks = {}
        for path, p in ps:
            ks.setdefault(path[0], {}).setdefault(path[1], []).append(p)
        return entity("e", [kin(n, *(link(l, None, "1.0", x) for l, x in ls.items())) for n, ls in ks.items()]), 0
    if k == "joints":
        _, n, sel, early = case
        l = [link(f"l{i}", None, "1.0" if i else None) for i in range(n)]
        js = [joint(f"j{i}", *((end(a, "i"), end(b, "o", "rev")) if i % 2 == 0 else (end(b, "o", "tr"), end(a, "i", "rev")))) for i, (a, b) in enumerate(sel)]
        if not early:
            return entity("e", [kin("k", *l, *js)]), 0
        items, have = [], {"world"}       # a joint as soon as its links are there
        for x in l:
            items.append(x)
            have.add(x["n"])
            for j in list(js):
                if all(e["to"] in have for e in j["ends"]):
                    items.append(j)
                    js.remove(j)
        return entity("e", [kin("k", *items)]), 1
    if k == "dirs":
        _, t0, t1, d, st = case
        return entity("e", [kin("k", link("a"), link("b"), joint("j", end("a", d[0], t0), end("b", d[1], t1)), joint("j2", end("world", d[1], t1), end("a", d[0], t0)))]), st
    if k == "ends":
        p, a = case[1:]
        return entity("e", [kin("k", link("a"), link("b"), joint("j", end("a", "i", "fix", POSES[p[0]], AXES[a[0]]), end("b", "o", "rev", POSES[p[1]], AXES[a[1]])))], PARAMS), p[0] % STYLES
    if k == "multi":
        d = case[1]
        l = [link(f"l{i}") for i in range(len(d))]
        js = [joint("j", *(end(f"l{i}", x, ("fix", "rev", "tr")[i % 3], POSES[i % 3], AXES[i % 3]) for i, x in enumerate(d)))]
        if case[2]:
            js.append(joint("j2", *(end(f"l{i}", x) for i, x in reversed(list(enumerate(d))))))
        return entity("e", [kin("k", *l, *js)]), 0
    if k == "nest":
        _, par, names = case
        nm = [(f"k{i}", "k" if i == 0 else f"l{i}", f"k{i % 2}x{i}")[names] for i in range(len(par))]
        lk = [("l", f"l{i}", f"k{i}x")[names] for i in range(len(par))]

        def make(i):
            subs = [c for c in range(len(par)) if par[c] == i]
            js = [joint(f"j{c}", end(lk[i], "i"), end(nm[c], "o", "rev", POSES[c % 4])) for c in subs]
            own = link(lk[i], POSES[i % 4], "1.0", [part(True, "v", GEOMS[i % 4]), part(False, None, {"ref": lk[i] + "/v"})])
            return kin(nm[i], *([own] + [make(c) for c in subs] if i % 2 == 0 else [make(c) for c in subs] + [own]), *js)
        tops = [i for i in range(len(par)) if par[i] == -1]
        return entity("e", [make(i) for i in tops] + [joint("t", *(end(nm[i], "o") for i in tops), end("world", "i"))]), 0
    if k == "same":
        (e, kn, a, b, j), order = case[1:]
        la = link(a, P0, "1.0", [part(True, kn, GEOMS[0]), part(False, e + "c", {"ref": a + "/" + kn})])
        lb = link(b + "2", None, "1.0", [part(True, None, {"ref": a + "/" + kn})])
        jn = [joint(j, end(a, "i"), end(b + "2", "o", "rev"))] if a != j else [joint(j + "1", end(a, "i"), end(b + "2", "o", "rev"))]
        if order == 0:
            items = [la, lb] + jn
        elif order == 1:
            items = [la, lb] + jn + [link(j + "l"), joint("z", end(j + "l", "o"), end(a, "i", "tr"))]
        else:
            items = [lb, la, *jn, kin("in" + j, link(a), link(b + "2"), joint(jn[0]["n"], end(b + "2", "i"), end(a, "o")))]
            items[0] = link(b + "2")
        return entity(e, [kin(kn, *items)]), 0
    if k == "names":
        _, a, b = case
        return entity(a, [kin(b, link(a, None, "1.0", [part(True, b, GEOMS[0], a)]), link(b, P0, "1.0", [part(False, a, {"ref": f"{a}/{b}"})]), joint(a + "_" + b, end(a, "i"), end(b, "o")))]), 4
    if k == "ambience":
        return entity("e", [kin("k", link("l")), ambience("am", case[1])]), len(case[1])
    if k == "params":
        _, vals, at, st = case
        ps = [("W", vals[0]), ("WHEEL", vals[1]), ("w", "0.5")]
        if st == 2:     # the longer name first
            ps = ps[::-1]
        first = [{"k": "amb", "n": "q", "items": []}] if at > 0 else []
        second = [kin("z", link("y"))] if at > 1 else []
        return entity("e", first + second + [kin("k", link("a", pose(["{W}", "{WHEEL}", "{w}"], ["{w}", "{W}", "1.0"], "r"), "1.0",
                                                           [part(True, "v", {"t": "cylinder", "v": ["{WHEEL}", "{W}"]}), part(False, None, {"t": "ellipsoid", "v": "{w}"})]),
                                                 link("b"), joint("j", end("a", "i"), end("b", "o", "rev", pose(["{w}", "{w}", "{W}"], ["{WHEEL}", "0.0", "0.0"], "d"), ["{W}", "{w}", "0.0"])))],
                      ps, at), st
    if k == "large":
        return large(case[1], case[2]), 0
    raise KeyError(k)


HIST = [["links", [1, 2], 0], ["refs", 1, [0, 0], 0], ["nest", [-1, 0], 0], ["joints", 2, [("world", "l0"), ("l0", "l1")], 0], ["params", ("0.5", "2"), 0, 0]]


def run_case(ck, case):
    ck.traces += 1
    ck.states += 1
    ck.sample(case, 6)
    k = case[0]
    if k == "hist":
        clock = (FixedClock, DummyClock, LocalClock)[case[2]]()
        done = []
        for i in case[1]:
            spec, st = spec_of(HIST[i])
            txt = text(spec, st)
            root = load(txt, clock)
            Judge(spec, txt).run(root)
            done.append((spec, txt, root, digest(root)))
            for s, t, r, d in done:
                if digest(r) != d:
                    raise Bad(f"the graph of {t!r} changes with the import of {txt!r}")
            ck.transitions += 1
        return
    if k == "example":
        return example(ck, examples()[case[1]])
    if k == "traverse":
        return traverse(ck, case)
    spec, st = spec_of(case)
    txt = text(spec, st)
    root = load(txt)
    Judge(spec, txt).run(root)
    d = digest(root)
    if digest(load(txt)) != d:
        raise Bad(f"a second import of {txt!r} gives another graph")
    ck.transitions += 2
    ck.outcome(repr(d))


def example(ck, path):
    """what a plain reading of the file finds has to be in the graph"""
    with open(path, encoding="utf-8") as f:
        txt = f.read()
    if re.search(r"mass\s*\{", txt):        # not in the grammar
        return
    root = load(txt)
    bare = re.sub(r"//[^\n]*|/\*.*?\*/", "", txt, flags=re.S)
    got = {}

    def walk(x, into):
        for y in kids(x):
            into.setdefault(type(y).__name__, []).append(y)
            if isinstance(y, HypergraphEdge):
                for r in y.sub_relations:
                    if r.semantic_value_node is not None:
                        into.setdefault(type(r.semantic_value_node).__name__, []).append(r.semantic_value_node)
                    else:
                        into.setdefault("reference", []).append(r)
            else:
                walk(y, into)
    walk(root, got)
    exp = {"KinematicGraphDefinition": re.findall(r"\bkinematic\s+(\w+)", bare), "KinematicLink": re.findall(r"\blink\s+(\w+)", bare),
           "VisualMaterial": None, "HypergraphEdge": None}
    for t, names in exp.items():
        if names is not None and sorted(x.id_name for x in got.get(t, [])) != sorted(names):
            raise Bad(f"{path}: {t} of {sorted(x.id_name for x in got.get(t, []))} instead of {sorted(names)}")
    masses = [float(x) for x in re.findall(r"mass\s+(-?[\d.]+)", bare)]
    if sorted(float(x["mass"]) for x in got.get("InertiaElement", [])) != sorted(masses):
        raise Bad(f"{path}: masses {[x['mass'] for x in got.get('InertiaElement', [])]} instead of {masses}")
    joints = re.findall(r"\bjoint\s+(\w+)\s*:", bare)
    if sorted(e.id_name for e in got.get("HypergraphEdge", []) if any(r.semantic_value_node is not None for r in e.sub_relations)) != sorted(joints):
        raise Bad(f"{path}: joints {sorted(e.id_name for e in got.get('HypergraphEdge', []))} instead of {sorted(joints)}")
    rel = re.findall(r"\b(?:fix|rev|tr)\s*(?:->|<-|--)\s*\{", bare)
    if len(got.get("KinematicJoint", [])) != len(rel):
        raise Bad(f"{path}: {len(got.get('KinematicJoint', []))} joint relations instead of {len(rel)}")
    refs = re.findall(r"(?:visual|collision)\s*\w*\s*(?:\([^)]*\)\s*)?\{\s*\{", bare)
    if len(got.get("reference", [])) != 2 * len(refs):
        raise Bad(f"{path}: {len(got.get('reference', []))} ends of references for {len(refs)} references")
    vis = re.findall(r"\bvisual\b[^{]*\{\s*(?:\{|cyl|pol|ell)", bare)
    if len(got.get("VisualMaterial", [])) != len(vis):
        raise Bad(f"{path}: {len(got.get('VisualMaterial', []))} materials for {len(vis)} visuals")
    ck.transitions += 1
    ck.outcome(path + repr(sorted((k, len(v)) for k, v in got.items())))


def traverse(ck, case):
    """the imported graph can be analysed"""
    _, d, posed = case
    txt = text(entity("e", [kin("k", link("a"), link("b"), joint("j", end("a", d[0]), end("b", d[1], "rev", P0 if posed else None)))]))
    k = [x for x in load(txt).sub_nodes if isinstance(x, HypergraphNode)][0]
    h = IndexHomomorphismGraphTensor(True)
    out = []

    async def go():
        await h.execute(k)
        await HypergraphTraversal(lambda x: out.append(x), lambda x: True, SumNorm(), h).execute(k)
    try:
        asyncio.run(go())
    except AttributeError as e:
        if posed and "'list'" in str(e) and "'val'" in str(e):
            raise Bad(f"the traversal of the graph of {txt!r} raised {describe_exc(e)}", key="pose-as-weight")
        raise
    if len({y[:3] for x in out for y in x}) != (1 if d[0] != d[1] else 0):
        raise Bad(f"the traversal of the graph of {txt!r} emits {out}")
    ck.transitions += 1
