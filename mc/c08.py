"""C08 edge builders."""
import itertools

from mc.core import Bad, describe_exc
from mc.hier import FixedClock, TickClock, kids
from rei.factories.foundation_factory import HypergraphFactory
from rei.hypergraph.base_elements import HypergraphNode, HypergraphEdge, HypergraphPort
from rei.hypergraph.common_definitions import EnumRelationDirection as D
from rei.query.query_engine import HypergraphQueryEngine
from rei.hypergraph.value_node import ValueNode, SemanticValueNode

MANY = 14
NAMES = ["new", "box", "", "y", "a/b", " \u00e9 ", "root", "rel.new"]
DIRS = [D.INWARDS, D.OUTWARDS, D.BIDIRECTIONAL]
ASSUMPTIONS = ["up to 4 distinct endpoints (nodes of equal names, an edge, the container itself) in all orders, up to 14 in two orders; weights per position, none, or shared"]


def world(clock):
    c = {"fixed": FixedClock, "tick": TickClock}[clock]()
    f = HypergraphFactory("fac", c)
    root = f.generate_node("root")
    box = f.generate_node("box", root)
    box2 = f.generate_node("box2", root)
    pool = [f.generate_node("x", box), f.generate_node("x", box2), f.create_hyperedge(box, "e"), box]
    pool += [f.generate_node(f"n{i // 2}", (box, box2)[i % 2]) for i in range(MANY - 4)]
    # also without entries, and zero
    vals = [f.create_value(None, f"v{i}", [[float(i), 1.0], [], [0.0], [float(i)]][i % 4]) for i in range(MANY)]
    sems = [SemanticValueNode(b"s%d" % i, f"s{i}", f"f/s{i}", None, {"k": i}) for i in range(MANY)]
    # weights and semantic values which are already somewhere
    box.add_element(vals[1])
    pool[1].add_element(vals[2])
    pool[0].add_element(sems[1])
    pool[3].add_element(sems[2])
    box2.add_element(sems[0])
    return c, f, root, box, pool, vals, sems


def perms(k, small=False):
    return [list(p) for p in itertools.permutations(range(4), k)] if not small else [list(range(k)), list(range(4))[::-1][:k]]


def value_modes(k):
    return ["none", "each", "shared", "mixed", "wnone"] if k else ["none", "each"]


def pick(vals, k, mode):
    if mode == "none":
        return None
    if mode == "each":
        return vals[:k]
    if mode == "shared":
        return [vals[0]] * k
    if mode == "wnone":
        return [None] * k
    return [vals[i] if i % 2 else None for i in range(k)]


def cases(ck):
    yield from small(ck)
    yield from many(ck)


def small(ck):
    for clock in ("fixed", "tick"):
        for kind in ("generate_node", "generate_root", "list", "list_root", "hyperedge"):
            for n in (["a"], ["a", "b"], ["a", "b", "c"], [], *([x] for x in NAMES), NAMES, *([["a", "a"], ["b", "a", "b"]] if kind.endswith("root") else [])):
                if n or kind.startswith("list"):
                    yield ["make", clock, kind, n]
        for par in ("edge", "relation", "value", "semantic", "port", "nested"):
            for kind in ("generate_node", "list", "node", "edge", "engine"):
                for n in (["a"], ["a", "b"], ["a", "b", "c"], NAMES):
                    yield ["within", clock, par, kind, n]
        for par in (0, 1):
            for v in (None, [], [1.0], [1, 2.5, "t"], [[1], None, True]):
                for n in (["val"] if v is None or len(v) != 1 else ["val", *NAMES]):
                    yield ["value", clock, par, v, n]
        for k in range(5):
            for p in perms(k):
                for m in value_modes(k):
                    for d in (0, 1, 2, None):
                        yield ["nodes", clock, p, d, m]
        for k in range(5):
            for p in perms(k):
                for i in range(k + 1):
                    for m in value_modes(k):
                        yield ["dir2", clock, p, i, None, m]
                        if m == "none":
                            yield ["dir", clock, p, i]
            for p in perms(k, True):
                for i in range(k + 1):
                    for m in value_modes(k):
                        for ds in itertools.product((0, 1, 2), repeat=2):
                            yield ["dir2", clock, p, i, list(ds), m]
        for k in range(4 if ck.thorough else 3):
            for p in perms(k, k > 1 and not ck.thorough):
                for t in itertools.product(itertools.product((0, 1, 2), (0, 1), (0, 1)), repeat=k):
                    yield ["tuple", clock, p, [list(x) for x in t]]
        for k in (3, 4):
            for p in perms(k, True):
                for t in itertools.product((0, 1, 2), repeat=k):
                    for m in (0, 1, 2):
                        yield ["tuple", clock, p, [[d, (m + i) % 2 if m < 2 else 1, (m + i + 1) % 2] for i, d in enumerate(t)]]


def many(ck):
    for k in range(5, MANY + 1):
        for p in (list(range(k)), list(range(MANY))[::-1][:k]):
            for m in value_modes(k):
                for d in (0, 2):
                    yield ["nodes", "fixed", p, d, m]
                for i in range(k + 1):
                    yield ["dir2", "fixed", p, i, None if i % 2 else [2, 1], m]
            for t in range(6):
                yield ["tuple", "tick", p, [[(i + t) % 3, (i + t) % 2, (i * t) % 2] for i in range(k)]]


def ident(l):
    return [id(x) for x in l]


def run_case(ck, case):
    kind = case[0]
    c, f, root, box, pool, vals, sems = world(case[1])
    watched = [root, box, *pool, *kids(root)]
    ck.transitions += 1
    ck.traces += 1
    ck.keys.add(hash(repr(case)))
    if kind == "make":
        return make(ck, case, f, root, box)
    if kind == "within":
        return within(ck, case, c, f, root, box, pool, sems)
    if kind == "value":
        return value(ck, case, f, box)
    before = {id(x): kids(x) for x in watched}
    name = NAMES[(sum(case[2]) + len(case) + len(case[2])) % len(NAMES)]
    if kind == "nodes":
        _, _, p, d, m = case
        pts = [pool[i] for i in p]
        ws = pick(vals, len(p), m)
        kw = {} if ws is None else {"values": ws}
        if d is not None:
            kw["direction"] = DIRS[d]
        he = f.connect_nodes(box, name, pts, **kw)
        exp = [(x, D.BIDIRECTIONAL if d is None else DIRS[d], w, None) for x, w in zip(pts, ws or [None] * len(p))]
    elif kind in ("dir2", "dir"):
        p, i = case[2], case[3]
        pts = [pool[j] for j in p]
        if kind == "dir":
            ws, ds = None, (D.INWARDS, D.OUTWARDS)
            he = f.connect_dir_edges(box, name, pts[:i], pts[i:])
        else:
            ws = pick(vals, len(p), case[5])
            ds = (D.INWARDS, D.OUTWARDS) if case[4] is None else tuple(DIRS[x] for x in case[4])
            he = f.connect_2factor_edges(box, name, pts[:i], pts[i:], ds, *([] if ws is None else [ws]))
        exp = [(x, ds[0] if j < i else ds[1], w, None) for j, (x, w) in enumerate(zip(pts, ws or [None] * len(p)))]
    else:
        _, _, p, t = case
        exp = [(pool[i], DIRS[d], vals[j] if w else None, sems[j] if s else None) for j, (i, (d, w, s)) in enumerate(zip(p, t))]
        he = f.connect_tuple_nodes(box, name, list(exp))
    used = [id(x[3]) for x in exp]      # a semantic value moves to its relation
    before = {k: [x for x in v if id(x) not in used] for k, v in before.items()}
    verify(case, name, he, box, exp, before, watched, pool, c)
    ck.outcome((kind, len(exp)))
    ck.sample(case)


def verify(case, name, he, box, exp, before, watched, pool, c):
    if not isinstance(he, HypergraphEdge) or he.id_name != name:
        raise Bad(f"{case}: the builder returned {he!r} named {getattr(he, 'id_name', None)}")
    if he.parent is not box or he.qualified_name != "root/box/" + name or he.clock is not c:
        raise Bad(f"{case}: the edge lies at {he.qualified_name}")
    rels = list(he.sub_relations)
    if ident(kids(he)) != ident(rels):
        raise Bad(f"{case}: the edge contains something else than relations")
    got = [(r.endpoint, r.direction, r.weight, r.semantic_value_node) for r in rels]
    if len(got) != len(exp):
        raise Bad(f"{case}: {len(got)} relations, expected {len(exp)}")
    for i, (g, e) in enumerate(zip(got, exp)):
        for what, a, b in zip(("endpoint", "direction", "weight", "semantic value"), g, e):
            if (a is not b) if what != "direction" else (a != b):
                raise Bad(f"{case}: relation {i} has {what} {getattr(a, 'id_name', a)}, expected {getattr(b, 'id_name', b)}")
        if ident(kids(rels[i])) != ([] if e[3] is None else [id(e[3])]):
            raise Bad(f"{case}: relation {i} contains {[x.id_name for x in kids(rels[i])]}")
    for x in watched:
        now, was = kids(x), before[id(x)]
        exp_new = ([he] if x is box else [])
        fresh = now[len(was):]
        if ident(now[:len(was)]) != ident(was):
            raise Bad(f"{case}: children of {x.id_name} were reordered or removed")
        ports = [r for r, e in zip(rels, exp) if e[0] is x]
        gotp = [y for y in fresh if isinstance(y, HypergraphPort)]
        rest = [y for y in fresh if not isinstance(y, HypergraphPort)]
        if ident(y.endpoint for y in gotp) != ident(ports):
            raise Bad(f"{case}: {x.qualified_name} got ports to {[y.endpoint.id_name for y in gotp]}, expected {len(ports)}")
        if ident(rest) != ident(exp_new):
            raise Bad(f"{case}: {x.qualified_name} got new children {[y.id_name for y in rest]}")


def make(ck, case, f, root, box):
    _, clock, kind, names = case
    before = kids(box)
    if kind == "generate_node":
        got, parent = [f.generate_node(n, box) for n in names], box
    elif kind == "generate_root":
        got, parent = [f.generate_node(n) for n in names], None
    elif kind == "list":
        got, parent = f.generate_list_nodes(list(names), box), box
    elif kind == "list_root":
        got, parent = f.generate_list_nodes(list(names)), None
    else:
        got, parent = [f.create_hyperedge(box, n) for n in names], box
    cls = HypergraphEdge if kind == "hyperedge" else HypergraphNode
    if not isinstance(got, list) or [x.id_name for x in got] != names or any(type(x) is not cls for x in got):
        raise Bad(f"{case}: created {[getattr(x, 'id_name', x) for x in got]}")
    for x in got:
        if x.parent is not parent or kids(x):
            raise Bad(f"{case}: {x.id_name} is contained in {x.parent} or not empty")
        if x.qualified_name != ("root/box/" if parent else "") + x.id_name:
            raise Bad(f"{case}: {x.id_name} is called {x.qualified_name}")
    if ident(kids(box)) != ident(before + (got if parent is box else [])):
        raise Bad(f"{case}: children of the container are {[x.id_name for x in kids(box)]}")
    ck.outcome((kind, len(names)))


def within(ck, case, c, f, root, box, pool, sems):
    """elements created in containers of every kind: children in order, and one port each if the container is a relation"""
    _, clock, par, kind, names = case
    e = f.connect_nodes(box, "he", [pool[0], pool[1]])
    rel = list(e.sub_relations)[1]
    v = f.create_value(box, "val", [1.0])
    p = {"edge": e, "relation": rel, "value": v, "semantic": sems[1], "port": list(pool[0].sub_ports)[0], "nested": pool[0]}[par]
    before = kids(p)
    ways = {"node": HypergraphNode, "edge": HypergraphEdge, "engine": HypergraphQueryEngine}
    try:
        if kind == "generate_node":
            got = [f.generate_node(n, p) for n in names]
        elif kind == "list":
            got = f.generate_list_nodes(list(names), p)
        else:
            got = [ways[kind](n, b"%d" % i, "f/" + n, c, p) for i, n in enumerate(names)]
    except Exception as x:  # noqa
        raise Bad(f"{case}: raised {describe_exc(x)}")
    if ident(kids(p)) != ident(before + got):
        raise Bad(f"{case}: the container contains {[x.id_name for x in kids(p)]}")
    for n, x in zip(names, got):
        if type(x) is not ways.get(kind, HypergraphNode) or x.id_name != n or x.parent is not p or x.depth != p.depth + 1:
            raise Bad(f"{case}: created {type(x).__name__} {x.id_name} in {x.parent} at depth {x.depth}")
        if x.qualified_name != p.qualified_name + "/" + n:
            raise Bad(f"{case}: {n} is called {x.qualified_name}")
        if [id(y.endpoint) for y in x.sub_ports] != ([id(p)] if par == "relation" else []) or len(kids(x)) != len(list(x.sub_ports)):
            raise Bad(f"{case}: {n} has ports to {[y.endpoint.id_name for y in x.sub_ports]} and contains {[y.id_name for y in kids(x)]}")
    # they are like any other element afterwards
    for x in got:
        q = f.connect_nodes(box, "later." + x.id_name, [x])
        if x.cnt_subelements != len(kids(x)) or kids(x)[-1].endpoint is not next(q.sub_relations):
            raise Bad(f"{case}: {x.id_name} cannot be connected: {[y.id_name for y in kids(x)]}")
    ck.outcome(("within", par, kind))


def value(ck, case, f, box):
    _, clock, par, v, n = case
    before = kids(box)
    src = None if v is None else list(v)
    x = f.create_value(box if par else None, n, src)
    if type(x) is not ValueNode or x.id_name != n or x.parent is not (box if par else None):
        raise Bad(f"{case}: created {x!r}")
    if x.get_values() != (v or []) or x.dim != len(v or []) or list(x) != (v or []):
        raise Bad(f"{case}: holds {x.get_values()} (dim {x.dim})")
    if src:
        src[0] = "changed"
        if x.get_values() != v:
            raise Bad(f"{case}: the value node shares the list it was given")
    if ident(kids(box)) != ident(before + ([x] if par else [])):
        raise Bad(f"{case}: children of the container are {[y.id_name for y in kids(box)]}")
    if x.qualified_name != ("root/box/" if par else "") + n:
        raise Bad(f"{case}: called {x.qualified_name}")
    ck.outcome(("value", par))
