"""C27 the printed hierarchy."""
import contextlib
import io
import itertools

from mc import aio, trees
from mc.core import Bad, describe_exc
from mc.hier import FixedClock, kids, uid, WORLDS, op_menu, perform
from mc.view import Watch
from rei.foundations.hierarchical_traversal_strategies import print_graph_hierarchy
from rei.factories.foundation_factory import HypergraphFactory
from rei.hypergraph.base_elements import HypergraphNode, HypergraphEdge, HypergraphRelation
from rei.hypergraph.common_definitions import EnumRelationDirection as D
from rei.hypergraph.value_node import ValueNode, SemanticValueNode

ASSUMPTIONS = ["what is printed of a weight is left open, except that a missing weight is None"]
KINDS = ("node", "edge", "rel", "value", "sem", "item")
ARROW = {D.INWARDS: "<-", D.OUTWARDS: "->", D.BIDIRECTIONAL: "--"}


def line(x):
    """-> the expected line, or its beginning and True"""
    up = "" if x.parent is None else f" <- {x.parent.id_name}"
    if isinstance(x, HypergraphNode):
        return f"node {x.qualified_name}: {x.id_name}{up}", False
    if isinstance(x, HypergraphEdge):
        return f"edge {x.qualified_name}: {x.id_name} {len(kids(x))}{up}", False
    if isinstance(x, HypergraphRelation):
        t = f"relation {x.qualified_name}: {ARROW[x.direction]} {x.endpoint.id_name}:: "
        return (t + "None", False) if x.weight is None else (t, True)
    return None


def printed(start):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        try:
            res = aio.run(print_graph_hierarchy(start))
        except Exception as e:  # noqa
            raise Bad(f"printing {start.qualified_name} raised {describe_exc(e)}")
    return buf.getvalue(), res


def below(start):
    todo = [start]
    for x in todo:
        todo.extend(kids(x))
    return todo


def check(ck, start, text):
    els = below(start)
    exp = [x for x in map(line, els) if x is not None]
    got, res = printed(start)
    ck.transitions += 1
    rest = got
    for want, prefix in exp:
        if not rest.startswith(want if prefix else want + "\n"):
            raise Bad(f"{text}: printed {got!r}, expected the lines {[x[0] for x in exp]}")
        rest = rest[len(want):]
        if prefix and rest.split("\n", 1)[0] in ("", "None"):
            raise Bad(f"{text}: the weight of a relation is missing in {got!r}")
        if prefix or rest.startswith("\n"):
            rest = rest.split("\n", 1)[1]
    if rest:
        raise Bad(f"{text}: printed {rest!r} more than the lines {[x[0] for x in exp]}")
    return len(exp)


NAMES = ("n", "a b", "", "{x}", "%s", "\u00e9", "a/b", "0")


def build(par, ks, names):
    c = FixedClock()
    end = HypergraphNode("e/nd", uid("end"), "f", c)
    els = []
    for i, k in enumerate(ks):
        n, u = names[i % len(names)], uid(f"u{i}")
        if k == "rel":
            x = HypergraphRelation(u, n, "f/" + n, els[0] if els and i % 2 and isinstance(els[0], HypergraphNode) else end, ValueNode(uid(f"w{i}"), "w", "f/w", [1.0]) if i % 3 == 1 else None,
                                   direction=list(D)[i % 3])
        else:
            x = trees.make(k, i, c, n if n else " ", u)
        els.append(x)
    for i, p in enumerate(par):
        if p >= 0:
            els[p].add_element(els[i])
    return els


def cases(ck):
    for n in range(1, 6 if ck.thorough else 5):
        for t in trees.trees(n):
            par = trees.parents(t)
            for ks in itertools.product(KINDS if n < 4 or ck.thorough else KINDS[:4], repeat=n):
                yield ["tree", par, list(ks)]
    for s, par in trees.shapes(40):
        for k in range(6):
            yield ["tree", par, [KINDS[(i + k) % 6] for i in range(40)]]
    for k in range(4):
        for p in itertools.permutations(range(4), k):
            for ds in itertools.product(range(3), repeat=k):
                for w in range(1 << k):
                    yield ["edge", list(p), list(ds), w]
    for wn in ("nodes", "mixed", "holder", "wide", "items", "odd"):
        for d in range(3 if ck.thorough and wn != "odd" else 2):
            for h in itertools.product(op_menu(WORLDS[wn]()), repeat=d):
                yield ["history", wn, list(h)]


def run_case(ck, case):
    ck.traces += 1
    ck.states += 1
    ck.sample(case, 4)
    if case[0] == "tree":
        names = NAMES if len(case[1]) % 2 else NAMES[:1]
        els = build(case[1], case[2], names)
        w = Watch([els[0]], lambda: [build(case[1], case[2], names)[0]])
        for i, x in enumerate(els):
            if i < 5:
                ck.outcome((case[2][i], check(ck, x, f"{case} from {i}")))
        check(ck, els[0], f"{case} again")
        if w.change():
            raise Bad(f"{case}: printing changed the graph: {w.change()}")
    elif case[0] == "edge":
        f = HypergraphFactory("f", FixedClock())
        r = f.generate_node("r")
        ns = f.generate_list_nodes(["a", "b", "c"], r)
        e0 = f.connect_nodes(r, "e0", [ns[0]])
        ns.append(e0)
        v = f.create_value(r, "v", [2.0])
        s = SemanticValueNode(uid("s"), "s", "f/s", None, {"k": 1})
        e = f.connect_tuple_nodes(r, "e", [(ns[i], list(D)[d], v if case[3] >> j & 1 else None, s if j == 1 else None) for j, (i, d) in enumerate(zip(*case[1:3]))])
        for x in (r, e, *ns):
            ck.outcome(("edge", check(ck, x, f"{case} from {x.id_name}")))
        e.deregister()
        check(ck, e, f"{case}, the edge taken out")
        check(ck, r, f"{case}, without the edge")
    else:
        w = WORLDS[case[1]]()
        w.hist = []
        for o in case[2]:
            perform(w, o)
        for k, x in w.objs.items():
            ck.outcome(("history", check(ck, x, f"{k} after {case[2]}")))
