"""C17 factorizations."""
import itertools

from mc import aio
from mc.core import Bad, describe_exc
from mc.hier import FixedClock
from mc.tens import DIR, families
from rei.factories.foundation_factory import HypergraphFactory
from rei.hypergraph.base_elements import HypergraphNode, HypergraphEdge, HypergraphRelation
from rei.hypergraph.common_definitions import EnumRelationDirection as D
from rei.hypergraph.factorization_operations import Factorization2Operation, Factorization2SubsetOperation, \
    RelationFactorization2SubsetOperation, MapFactorizationToFactorGraph

ASSUMPTIONS = ["selections contain an element at most once"]
INC = (D.INWARDS, D.BIDIRECTIONAL)
OUT = (D.OUTWARDS, D.BIDIRECTIONAL)


class FG:
    """ctx {n0 {x, y, inner}, n1, n2, e0, e1 ...}; specs: per edge (container, endpoints, directions)"""

    def __init__(self, specs, twins=False):
        """an endpoint named again by the same edge gets a relation built by hand; twins 2: elements of different containers share identifiers"""
        f = self.f = HypergraphFactory("f", FixedClock())
        self.o = {"ctx": f.generate_node("ctx")}
        if twins == 2:
            c = FixedClock()
            for k, p in (("n0", "ctx"), ("n1", "ctx"), ("n2", "ctx"), ("x", "n0"), ("y", "n0")):
                self.o[k] = HypergraphNode(k, self.ident(p), f"f/{k}", c)
                self.o[p].add_element(self.o[k])
            self.edges = []
            for k, (cont, ends, dirs) in enumerate(specs):
                e = self.o[f"e{k}"] = HypergraphEdge(f"e{k}", self.ident(cont), f"f/e{k}", c)
                self.o[cont].add_element(e)
                self.edges.append(e)
            for e, (cont, ends, dirs) in zip(self.edges, specs):
                for i, (p, d) in enumerate(zip(ends, dirs)):
                    if d != ".":
                        e.add_element(HypergraphRelation(b"rel%d" % i, "rel", "f/rel", self.o[p], None, DIR[d]))
            return
        for k, p in (("n0", "ctx"), ("n1", "ctx"), ("n2", "ctx"), ("x", "n0"), ("y", "n0")):
            # twins: elements with the same name in one container (of other factories)
            g = HypergraphFactory(k, FixedClock()) if twins else f
            self.o[k] = g.generate_node({"n1": "n0", "n2": "n0", "y": "x"}.get(k, k) if twins else k, self.o[p])
        self.edges = []
        for k, (cont, ends, dirs) in enumerate(specs):
            g = HypergraphFactory(f"e{k}", FixedClock()) if twins else f
            e = self.o[f"e{k}"] = g.create_hyperedge(self.o[cont], "n0" if twins else f"e{k}")
            self.edges.append(e)
            for p, d in zip(ends, dirs):
                if d != "." and any(r.endpoint is self.o[p] for r in e.sub_relations):
                    e.add_element(HypergraphRelation(b"again%d" % e.cnt_subelements, "again", "f/again", self.o[p], None, DIR[d]))
                elif d != ".":
                    e.unary_connect(self.o[p], None, DIR[d])

    def ident(self, cont):
        return b"id%d" % len(list(self.o[cont].get_subelements(lambda x: True)))

    @classmethod
    def of(cls, n, dirs, twins=False, cont="ctx"):
        """nodes p0, p1 ... and one edge per string of directions over them"""
        g = cls([])
        for i in range(n):
            f = HypergraphFactory(f"p{i}", FixedClock()) if twins else g.f
            g.o[f"p{i}"] = f.generate_node("p" if twins else f"p{i}", g.o[cont])
        g.edges = []
        for k, ds in enumerate(dirs):
            f = HypergraphFactory(f"g{k}", FixedClock()) if twins else g.f
            # edges of the context and, every third, of a node
            e = g.o[f"e{k}"] = f.create_hyperedge(g.o[cont if k % 3 else f"p{k % n}"], "p" if twins else f"g{k}")
            g.edges.append(e)
            for i, d in enumerate(ds):
                if d != ".":
                    e.unary_connect(g.o[f"p{i}"], None, DIR[d])
        return g

    def lab(self, x):
        if isinstance(x, (list, tuple)):
            return [self.lab(y) for y in x]
        for k, v in self.o.items():
            if v is x:
                return k
        if getattr(x, "endpoint", None) is not None:
            return f"{self.lab(x.parent)}.{self.lab(x.endpoint)}"
        return repr(x)


def rels(e):
    return list(e.sub_relations)


def reached(start):
    """edges reached from an element: those it contains, and on through their outgoing endpoints"""
    seen, todo, edges = set(), [start], []
    while todo:
        x = todo.pop(0)
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, HypergraphNode):
            todo += [e for e in x.get_subelements(lambda y: isinstance(y, HypergraphEdge))]
        elif isinstance(x, HypergraphEdge):
            edges.append(x)
            todo += [r.endpoint for r in rels(x) if r.direction in OUT]
    return edges


def want_graph(start):
    return [(i, [o for o in rels(e) if o.direction in OUT]) for e in reached(start) for i in rels(e) if i.direction in INC]


def want_subset(sel, loops):
    nodes = [x for x in sel if isinstance(x, HypergraphNode)]
    has = lambda x: any(x is n for n in nodes)  # noqa
    return [(i, o) for e in sel if isinstance(e, HypergraphEdge) for i in rels(e) if i.direction in INC and has(i.endpoint)
            for o in rels(e) if o.direction in OUT and has(o.endpoint) and (loops or o.endpoint is not i.endpoint)]


def want_rel(sel, loops):
    return [(i, o) for i in sel if i.direction in INC for o in sel if o.direction in OUT and o.parent is i.parent
            and (loops or o.endpoint is not i.endpoint)]


def run(op, arg, text):
    try:
        return aio.run(op.execute(arg))
    except Exception as e:  # noqa
        raise Bad(f"{text}: raised {describe_exc(e)}")


def same_graph(g, got, exp, text):
    if len(got) != len(exp):
        raise Bad(f"{text}: gives {g.lab(got)}, expected {g.lab(exp)}")
    left = list(exp)
    for i, outs in got:
        hit = [k for k, (a, b) in enumerate(left) if a is i and sorted(map(id, b)) == sorted(map(id, outs))]
        if not hit:
            raise Bad(f"{text}: gives {g.lab(got)}, expected {g.lab(exp)}")
        left.pop(hit[0])


def same_pairs(g, got, exp, text, ordered):
    a, b = [(id(i), id(o)) for i, o in got], [(id(i), id(o)) for i, o in exp]
    if sorted(a) != sorted(b):
        raise Bad(f"{text}: gives {g.lab(got)}, expected {g.lab(exp)}")
    if ordered:
        if a != b:
            raise Bad(f"{text}: gives {g.lab(got)} instead of {g.lab(exp)} in this order")
    else:
        for e in {id(i.parent) for i, _ in exp}:
            pick = lambda l: [(id(i), id(o)) for i, o in l if id(i.parent) == e]  # noqa
            if pick(got) != pick(exp):
                raise Bad(f"{text}: gives {g.lab(got)}, for each edge expected in the order of {g.lab(exp)}")


def specs(n):
    return ["".join(s) for s in itertools.product(".iob", repeat=n)]


E01 = [["ctx", ["n0", "n1", "n2"]], ["ctx", ["n0", "n1", "n2"]]]
EDGE_SELS = ([], [0], [1], [0, 1], [1, 0])


def cases(ck):
    for a in specs(3):
        yield ["graph", [["ctx", ["n0", "n1", "ctx"], a]]]
        for b in specs(2):
            yield ["graph", [["ctx", ["n0", "n1", "ctx"], a], ["n1", ["n0", "e0"], b]]]
            for c in specs(3) if ck.thorough else [x for x in specs(3) if x.count(".") < 2]:
                yield ["graph", [["ctx", ["n0", "n1", "ctx"], a], ["ctx", ["n0", "e0"], b], ["n0", ["x", "n1", "ctx"], c]]]
    for a in specs(3):
        for b in specs(3):
            if a <= b or ck.thorough:
                yield ["subset", [a, b]]
            if ck.thorough or a <= b and a.count(".") < 2:
                yield ["shared", [a, b]]
    for a, b in itertools.product(specs(2), repeat=2):
        yield ["rel", [["ctx", ["n0", "n1"], a], ["ctx", ["n0", "n1"], b]]]
    for a in specs(3):
        yield ["rel", [["ctx", ["n0", "n1", "n2"], a]]]
        yield ["rel", [["ctx", ["n0", "n1", "n0"], a]]]
        yield ["rel", [["ctx", ["n0", "n0"], a[:2]], ["ctx", ["n0", "n2"], a[1:]]]]
        for b in ("io", "bb", "bi", "ib", "ob"):
            yield ["rel", [["ctx", ["n0", "n1", "n2"], a], ["ctx", ["n2", "n0"], b]]] if ck.thorough else ["rel", [["ctx", ["n0", "n1"], a[:2]], ["ctx", ["n2", "n0"], b]]]
    for _, n, s in families((5, 6, 7, 9, 12) if ck.thorough else (5, 11)):
        for twins in (0, 1):
            yield ["big", n, s, twins]
    fam = [["iob", "bio"], ["bbb", "io."], ["i.o", ".io"]]
    for f in fam:
        for h in itertools.product(range(6), repeat=3):
            yield ["hist", f, list(h)]


def contiguous(sel):
    """the relations of an edge are next to each other: the order of the selection is the order of the pairs"""
    runs = [id(k) for k, _ in itertools.groupby(sel, key=lambda r: r.parent)]
    return len(set(runs)) == len(runs)


def orders(items, limit):
    for k in range(len(items) + 1):
        if k <= limit:
            yield from itertools.permutations(items, k)
        else:
            for c in itertools.combinations(items, k):
                yield c
                yield c[::-1]


def run_case(ck, case):
    ck.traces += 1
    ck.states += 1
    k = case[0]
    ck.sample(case, 3)
    if k == "graph":
        for twins in (0, 1, 2):
            graph(ck, case, twins)
    elif k == "subset":
        for twins in (0, 1):
            subset(ck, case, twins)
        for ends in (["n0", "n1", "n0"], ["n0", "n0", "n0"]):
            subset(ck, case, 0, [["ctx", ends], E01[1]])
    elif k == "shared":
        shared(ck, case)
    elif k == "rel":
        rel(ck, case)
    elif k == "big":
        big(ck, *case[1:])
    else:
        history(ck, case)


def graph(ck, case, twins):
    g = FG(case[1], twins)
    for start in ("ctx", "n0", "n1", "e0"):
        op = Factorization2Operation()
        exp = want_graph(g.o[start])
        first = run(op, g.o[start], f"factorization from {start} of {case[1]}")
        kept = [(i, list(o)) for i, o in first]
        same_graph(g, first, exp, f"factorization from {start} of {case[1]}")
        same_graph(g, run(op, g.o[start], f"{case}, again"), exp, f"second factorization from {start} of {case[1]} by the same object")
        same_graph(g, first, kept, f"result of the first factorization from {start} of {case[1]} after the second")
        ck.transitions += 2
        ck.outcome(("graph", len(exp)))
    calls = []
    mp = MapFactorizationToFactorGraph(lambda x: calls.append(x) or len(calls))
    res = list(run(mp, first, f"mapping of {case[1]}"))
    if len(calls) != len(first) or any(a is not b for a, b in zip(calls, first)) or res != list(range(1, len(first) + 1)):
        raise Bad(f"mapping the factorization of {case[1]}: called with {g.lab(calls)} for {g.lab(first)}, gives {res}")


def big(ck, n, dirs, twins):
    g = FG.of(n, dirs, twins)
    text = f"{n} nodes, edges {dirs}"
    for start in ("ctx", "p0", f"p{n - 1}", "e0"):
        op = Factorization2Operation()
        exp = want_graph(g.o[start])
        for k in (1, 2):
            same_graph(g, run(op, g.o[start], text), exp, f"factorization {k} from {start} of {text}")
            ck.transitions += 1
    nodes = [g.o[f"p{i}"] for i in range(n)]
    for ns in (nodes, nodes[::-1], nodes[1:], nodes[:-1], nodes[::2], nodes[1:2] + nodes[-2:]):
        for es in (g.edges, g.edges[::-1], g.edges[1:], g.edges[-1:]):
            for sel in ([*ns, *es], [*es, *ns], [*ns[:2], *es[:1], *ns[2:], *es[1:]]):
                for loops in (False, True):
                    op = Factorization2SubsetOperation(loops)
                    t = f"selection {g.lab(sel)} with loops {loops} of {text}"
                    same_pairs(g, run(op, list(sel), t), want_subset(sel, loops), t, True)
                    ck.transitions += 1
            rl = [r for e in es for r in rels(e) if any(r.endpoint is x for x in ns)]
            for sel in (rl, rl[::-1], rl[::2] + rl[1::2]):
                for loops in (False, True):
                    op = RelationFactorization2SubsetOperation(loops)
                    t = f"relations {g.lab(sel)} with loops {loops} of {text}"
                    same_pairs(g, run(op, list(sel), t), want_rel(sel, loops), t, contiguous(sel))
                    ck.transitions += 1
    calls = []
    first = run(Factorization2Operation(), g.o["ctx"], text)
    res = list(run(MapFactorizationToFactorGraph(lambda x: calls.append(x) or len(calls)), first, text))
    if len(calls) != len(first) or any(a is not b for a, b in zip(calls, first)) or res != list(range(1, len(first) + 1)):
        raise Bad(f"mapping the factorization of {text}: {len(calls)} calls for {len(first)} factors")
    ck.outcome(("big", len(first)))


def rel(ck, case):
    g = FG(case[1], len(case[1]) == 1)
    every = [r for e in g.edges for r in rels(e)]
    for sel in orders(every, 4 if ck.thorough or len(every) < 5 else 3):
        for loops in (False, True):
            text = f"relations {g.lab(sel)} with loops {loops} of {case[1]}"
            op = RelationFactorization2SubsetOperation(loops)
            mixed = [g.o["n0"], *sel, *g.edges]
            same_pairs(g, run(op, list(sel), text), want_rel(sel, loops), text, contiguous(sel))
            same_pairs(g, run(op, mixed, text), want_rel(sel, loops), text + ", among other elements, same object", contiguous(sel))
            ck.transitions += 2
    ck.outcome(("rel", len(want_rel(every, True))))


def subset(ck, case, twins, at=E01):
    g = FG([[*c, d] for c, d in zip(at, case[1])], twins)
    nodes = [g.o["n0"], g.o["n1"], g.o["n2"]]
    for m in range(8):
        ns = [n for i, n in enumerate(nodes) if m >> i & 1]
        for es in EDGE_SELS:
            ed = [g.edges[i] for i in es]
            for sel in ([*ns, *ed], [*ed[:1], *ns[::-1], *ed[1:]]) if len(ns) > 1 else ([*ns, *ed],):
                for loops in (False, True):
                    text = f"selection {g.lab(sel)} with loops {loops} of edges {case[1]} over {at}"
                    op = Factorization2SubsetOperation(loops)
                    same_pairs(g, run(op, sel, text), want_subset(sel, loops), text, True)
                    ck.transitions += 1
    op = Factorization2SubsetOperation()
    same_pairs(g, run(op, nodes + g.edges, "all"), want_subset(nodes + g.edges, False), f"everything of {case[1]}, default options", True)
    ck.outcome(("subset", len(want_subset(nodes + g.edges, True))))


def shared(ck, case):
    """selected nodes (n0 and x, n1 and y) and edges (all) of the same identifier, of different containers"""
    g = FG([[c, e, d] for (c, e), d in zip((("n1", ["n0", "x", "n1"]), ("n2", ["y", "x", "n0"])), case[1])], 2)
    nodes = [g.o[k] for k in ("n0", "x", "n1", "y")]
    for m in range(16):
        ns = [n for i, n in enumerate(nodes) if m >> i & 1]
        for es in EDGE_SELS[1:]:
            ed = [g.edges[i] for i in es]
            for sel in ([*ns, *ed], [*ed[:1], *ns[::-1], *ed[1:]]) if len(ns) > 1 else ([*ns, *ed],):
                for loops in (False, True):
                    text = f"selection {g.lab(sel)} with loops {loops} of edges {case[1]}, identifiers shared"
                    same_pairs(g, run(Factorization2SubsetOperation(loops), sel, text), want_subset(sel, loops), text, True)
                    ck.transitions += 1
    every = [r for e in g.edges for r in rels(e)]
    for sel in (every, every[::-1], every[::2] + every[1::2]):
        for loops in (False, True):
            text = f"relations {g.lab(sel)} with loops {loops} of edges {case[1]}, identifiers shared"
            same_pairs(g, run(RelationFactorization2SubsetOperation(loops), sel, text), want_rel(sel, loops), text, contiguous(sel))
            ck.transitions += 1
    ck.outcome(("shared", len(want_subset(nodes + g.edges, True))))


def history(ck, case):
    """objects used several times, on changing graphs and selections; earlier results stay what they were"""
    gs = [FG([[*c, d] for c, d in zip(E01, case[1])]), FG([["ctx", ["n0", "n1"], "io"]])]
    ops = [Factorization2Operation(), Factorization2SubsetOperation(True), RelationFactorization2SubsetOperation(True)]
    kept = []
    lists = [([], []), ([], [])]
    for step, h in enumerate(case[2]):
        text = f"step {step} of {case[2]} on edges {case[1]}"
        gi, j = divmod(h, 3)
        g = gs[gi]
        if j == 2 and step and g.edges[0].cnt_subelements:      # mutate in between
            r = rels(g.edges[0])[0:1]
            for x in r:
                list(g.edges[0].remove_element(uuid=x.uuid))
        # the caller's lists, filled anew for every use
        sel, rl = lists[gi]
        sel[:] = [g.o["n0"], g.o["n1"], *g.edges] if step != 1 else [*g.edges, g.o["n1"]]
        rl[:] = [r for e in g.edges for r in rels(e)][step == 1:]
        a, b, c = run(ops[0], g.o["ctx"], text), run(ops[1], sel, text), run(ops[2], rl, text)
        same_graph(g, a, want_graph(g.o["ctx"]), text)
        same_pairs(g, b, want_subset(sel, True), text, True)
        same_pairs(g, c, want_rel(rl, True), text, True)
        for old, copy in kept:
            if list(map(id, old)) != copy:
                raise Bad(f"{text}: the result of an earlier execution has changed")
        kept += [(l, list(map(id, l))) for l in (a, b, c)]
        ck.transitions += 3
    ck.outcome(("hist", len(a), len(b), len(c)))
