"""C26 the conversion tool: from the text of a description to the files it writes."""
import itertools
import os
import re
import shutil
import sys
import tempfile

from lxml import etree

from mc import antlr, c21, c22
from mc.core import Bad, describe_exc
from mc import cogni
from mc.robot import TYPES, end, graph, joint, judge_model, link, show

antlr.install()
from apps.simulation import convert_cognilang_sdf as tool  # noqa

ASSUMPTIONS = ["texts are read by an interpreter of the repository's grammar files in place of the generated parser, which is not part of the repository",
               "one kinematic graph per entity, nested ones are trees; the files are written into a directory which exists"]

TO = {"deg": "d", "rad": "r"}


def geom(t, v):
    return {"t": t, "v": [cogni.num(x) for x in v]}


def pose(p, unlettered=False):
    return None if p is None else cogni.pose([cogni.num(x) for x in p[0]], [cogni.num(x) for x in p[1]], "" if unlettered and p[2] == "rad" else TO[p[2]])


def described(g, opt):
    """robot spec -> description"""
    items = [described(s, opt) for s in g["subs"]]
    for l in g["links"]:
        ps = []
        for p in l["parts"]:
            gm = p["geoms"][0]
            g2 = {"ref": "/".join(gm["ref"])} if "ref" in gm else geom(gm["t"], gm["v"])
            mat = None if p.get("mat") is None or p.get("bare") else p["mat"]
            ps.append(cogni.part(p.get("mat") is not None, None if p.get("anon") else p["n"], g2, mat))
        items.append(cogni.link(l["n"], pose(l["pose"], opt), None if l["mass"] is None else cogni.num(l["mass"]), ps))
    js = []
    for j in g["joints"]:
        js.append(cogni.joint(j["n"], *(cogni.end(e["to"], e["d"], e["t"], pose(e["pose"], opt), None if e["axis"] is None else [cogni.num(x) for x in e["axis"]]) for e in j["ends"])))
    return cogni.kin(g["n"], *items, *js)


def part(n, t, v, mat=None, **kw):
    return {"n": n, "geoms": [{"n": "geom_" + n, "t": t, "v": list(v)}], "mat": mat, **kw}


def refer(n, to, mat=None, **kw):
    return {"n": n, "geoms": [{"n": "geom_" + n, "ref": list(to)}], "mat": mat, **kw}


def cases(ck):
    th = ck.thorough
    for n in (0, 1, 2, 3):
        for sel in c21.structures(n, 3 if n == 3 and not th else 4):
            yield ["c21", ["tree", n, sel, 0, "links"], 0]
            if th and sel:
                yield ["c21", ["tree", n, sel, (1 << len(sel)) - 1, "links"], 4]
    for t0, t1 in itertools.product(TYPES, repeat=2):
        for ax in range(len(c21.AXES)):
            for p0, p1, lp in itertools.product(range(len(c21.POSES)), repeat=3):
                if th or (p0 + p1 + lp + ax) % 3 == 0:
                    yield ["c21", ["attr", t0, t1, ax, p0, p1, lp], (p0 + ax) % 5]
    for ends in itertools.product("io.", repeat=4):
        for w in "i.":
            if w + "".join(ends) != ".....":
                yield ["c21", ["multi", "".join(ends), w], 0]
    for kind in range(1, 9):
        for refs in range(1, 4):
            for par in itertools.product(range(2), repeat=refs):
                for extra, swap in itertools.product((0, 1), repeat=2):
                    yield ["c21", ["sub", kind, list(par), extra, swap], (kind + refs) % 5]
    for k1, k2 in itertools.product(range(1, 9), repeat=2):
        yield ["c21", ["sub2", k1, k2], 0]
    for n in (6, 12) if th else (6,):
        for shape in ("chain", "back", "star", "sink", "all", "two", "world"):
            yield ["c21", ["large", shape, n, "rev"], 1]
    # geometry, materials, masses
    for t, v in c22.all_geoms(c22.DOM if th else c22.DOM[:2]):
        for mat in (None, "red", "DarkGrey"):
            for mass in (1.0, 0.1, 12.5):
                yield ["c22", ["one", t, v, mat, mass], 0]
    fine = (0.12345678901, 123456.789012, 0.00012345678, 7.000000001)
    for i, x in enumerate(fine):
        for t, k in c22.GEOMS:
            for v in itertools.product((x, fine[i - 1]), repeat=k):
                yield ["c22", ["one", t, list(v), c22.MATS[i % 2], fine[i - 2]], 0]
        for y in fine:
            for who in ("link", "joint"):
                for unit in ("rad", "deg"):
                    yield ["c22", ["pose", who, [x, -y, fine[i - 1]], [y, fine[i - 1], -x], unit], 0]
    for k in range(0, 3):
        for gs in itertools.product(range(5), repeat=k):
            for mats in itertools.product(range(3), repeat=k):
                yield ["c22", ["many", list(gs), list(mats)], k]
    for who in ("link", "joint"):
        for unit in ("rad", "deg"):
            for r in itertools.product(c22.ANGLES[:4], repeat=3):
                yield ["c22", ["pose", who, [0.5, -1.0, 2.0], list(r), unit], 0]
                if unit == "rad":
                    yield ["c22", ["pose", who, [0.5, -1.0, 2.0], list(r), unit], 1]
    for g in range(5):
        for m in range(3):
            for unit in ("rad", "deg"):
                yield ["c22", ["sub", g, m, unit], m]
    # parts without names and materials, references to earlier parts
    menu = [(v, anon, r) for v in ("white", "red", None) for anon in (False, True) for r in (-1, 0, 1)]
    for k in (1, 2, 3):
        for sel in itertools.product(range(len(menu)), repeat=k) if k < 3 or th else itertools.product(range(0, len(menu), 2), repeat=k):
            for same in (0, 1):
                yield ["parts", list(sel), same]
    # several kinematic graphs in the entity
    for a, b in itertools.product(range(1, 9), repeat=2):
        yield ["two", a, b]
    # a robot whose description changes between two runs
    for a, b in itertools.permutations(range(4), 2):
        yield ["change", a, b]
    # several runs of the tool, into one directory or into two
    for seq in itertools.product(range(4), repeat=3 if th else 2):
        for where in (0, 1):
            yield ["runs", list(seq), where]


RUNS = [["tree", 2, [["world", "l0"], ["l0", "l1"]], 0, "links"], ["sub", 6, [0, 1], 1, 0], ["tree", 1, [], 0, "links"], ["attr", "rev", "tr", 1, 1, 2, 1]]
MENU = [(v, anon, r) for v in ("white", "red", None) for anon in (False, True) for r in (-1, 0, 1)]


def spec_of(case):
    if case[0] == "c21":
        g = c21.spec_of(case[1])
        for j in g["joints"]:       # 'r' is a word of the language
            j["n"] = {"r": "jr"}.get(j["n"], j["n"])
        return g
    if case[0] == "c22":
        return c22.spec_of(case[1])
    _, sel, same = case
    links = [link("l0", None, [part("v", "cylinder", [0.1, 1.5], "white"), part("w", "ellipsoid", [0.5])], 2.0)]
    ps = []
    for i, k in enumerate(sel):
        v, anon, r = MENU[k]
        kw = {"mat": v, "anon": anon, "bare": v == "white"}
        ps.append(part(f"p{i}", *c22.SMALL[i], **kw) if r < 0 else refer(f"p{i}", ("l0", "vw"[r]), **kw))
    if same:        # all in one link, or one each
        links.append(link("l1", None, ps, 1.5))
    else:
        links += [link(f"l{i + 1}", None, [p], 1.5) for i, p in enumerate(ps)]
    return graph("basic", links, [joint("j", end("l0", "i"), end("l1", "o", "rev"))])


FILES = ("robot.cogni", "input.cogni", "robot_v2.cogni", "description", "a.b.txt")     # the entity names the document, not the file


def convert(name, g, style, d, opt=False, file=None):
    txt = cogni.text(cogni.entity(name, [described(x, opt) for x in (g if isinstance(g, list) else [g])]), style)
    src = os.path.join(d, file or name + ".cogni")
    with open(src, "w", encoding="utf-8") as f:
        f.write(txt)
    out = os.path.join(d, "out")
    os.makedirs(out, exist_ok=True)
    argv = sys.argv
    sys.argv = ["convert", "--input", src, "--output", out]
    try:
        tool.main()
    except (Exception, SystemExit) as e:  # noqa
        raise Bad(f"conversion of {txt!r} raised {describe_exc(e)}")
    finally:
        sys.argv = argv
    return txt, out


def judge_file(name, g, txt, out):
    path = os.path.join(out, name + ".sdf")
    if not os.path.exists(path):
        raise Bad(f"conversion of {txt!r} wrote {os.listdir(out)}")
    with open(path, "rb") as f:
        data = f.read()
    try:
        doc = etree.fromstring(data)
    except etree.XMLSyntaxError as e:
        raise Bad(f"conversion of {txt!r} wrote no XML: {e}")
    if doc.tag != "sdf" or not doc.get("version") or len(doc) != 1:
        raise Bad(f"conversion of {txt!r} wrote {doc.tag} with {len(doc)} elements")
    judge_model(doc[0], name, g, f"conversion of {txt!r}")
    return data


def loader(name, txt, out):
    path = os.path.join(out, name + ".load.sh")
    if not os.path.exists(path):
        raise Bad(f"conversion of {txt!r} writes no load script")
    with open(path, encoding="utf-8") as f:
        script = f.read()
    if not re.search(rf"(?<![\w/]){name}\.sdf\b", script):
        raise Bad(f"conversion of {txt!r}: the load script does not name the file")
    return script


def run_case(ck, case):
    ck.traces += 1
    ck.states += 1
    ck.sample(case, 6)
    d = tempfile.mkdtemp(prefix="mc26_")
    try:
        if case[0] == "change":
            for k in (case[1], case[2], case[1]):
                g = c21.spec_of(RUNS[k])
                judge_file("robot", g, *convert("robot", g, 0, d))
                ck.transitions += 1
            return
        if case[0] == "two":
            gs = [c21.sub("s", case[1]), c21.sub("t", case[2])]
            txt, out = convert("robot", gs, 0, d)
            judge_file("robot", gs, txt, out)
            ck.transitions += 1
            return
        if case[0] == "runs":
            done = []
            for i, k in enumerate(case[1]):
                g = c21.spec_of(RUNS[k])
                sub = d if case[2] == 0 else os.path.join(d, f"d{i % 2}")
                os.makedirs(sub, exist_ok=True)
                txt, out = convert(f"robot_{'abcd'[i]}", g, 0, sub)
                done.append((f"robot_{'abcd'[i]}", g, txt, out))
                for x in done:
                    judge_file(*x)
                ck.transitions += 1
            return
        g = spec_of(case)
        style = case[2] if case[0] != "parts" else 0
        file = FILES[ck.traces % len(FILES)]
        txt, out = convert("robot", g, style, d, case[0] == "c22" and bool(case[2]), file)
        data = judge_file("robot", g, txt, out)
        extra = sorted(x for x in os.listdir(out) if x not in ("robot.sdf", "robot.load.sh"))
        if extra or sorted(os.listdir(d)) != sorted(["out", file]):
            raise Bad(f"conversion of {txt!r} also wrote {extra} {os.listdir(d)}")
        script = loader("robot", txt, out)
        convert("robot", g, style, d, case[0] == "c22" and bool(case[2]), file)
        if judge_file("robot", g, txt, out) != data:
            raise Bad(f"a second conversion of {txt!r} writes another document")
        if loader("robot", txt, out) != script:
            raise Bad(f"a second conversion of {txt!r} writes another load script")
        ck.transitions += 2
        ck.outcome(data.decode())
    finally:
        shutil.rmtree(d)
