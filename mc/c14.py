"""C14 the index mapping (unique identifiers to consecutive indices)."""
import itertools

from mc import aio, trees
from mc.core import Bad, describe_exc
from mc.hier import FixedClock, kids
from rei.factories.foundation_factory import HypergraphFactory
from rei.hypergraph.base_elements import HypergraphNode, HypergraphEdge
from rei.hypergraph.homomorphism_functions import IndexHomomorphismGraphTensor
from rei.hypergraph.value_node import ValueNode

ASSUMPTIONS = ["identifiers of the indexed elements are distinct"]
KINDS = (HypergraphNode, HypergraphEdge, ValueNode)
LOOK = (("node", "dim"), ("edge", "depth"), ("val", "ival"))


def expected(start, ignore_root, depth):
    """per kind: breadth first through elements of the kind"""
    res = []
    for k in KINDS:
        out = [start] if isinstance(start, k) and not ignore_root else []
        todo = [(start, 0)]
        while todo:
            x, d = todo.pop(0)
            if d < depth:
                for c in kids(x):
                    if isinstance(c, k):
                        out.append(c)
                        todo.append((c, d + 1))
        res.append([x.uuid for x in out])
    return res


def check(h, lists, every, text):
    """lists: identifiers in order of their index, per kind"""
    for (fwd, bwd), want in zip(LOOK, lists):
        for i, u in enumerate(want):
            try:
                a, b = getattr(h, fwd)(u), getattr(h, bwd)(i)
            except Exception as e:  # noqa
                raise Bad(f"{text}: {fwd}/{bwd} of element {i} raised {describe_exc(e)}")
            if a != i or b != u:
                raise Bad(f"{text}: {fwd}({u}) is {a}, {bwd}({i}) is {b}; expected {i} and {u}")
        for u in every:
            if u not in want:
                try:
                    a = getattr(h, fwd)(u)
                except Exception:  # noqa
                    continue
                if a is not None:
                    raise Bad(f"{text}: {fwd}({u}) is {a} although it is not indexed ({want})")
        for i in (len(want), len(want) + 1):
            try:
                b = getattr(h, bwd)(i)
            except Exception:  # noqa
                continue
            if b is not None:
                raise Bad(f"{text}: {bwd}({i}) is {b}, there are only {len(want)}")
    if (h.cnt_node, h.cnt_edges) != (len(lists[0]), len(lists[1])):
        raise Bad(f"{text}: counts {h.cnt_node}, {h.cnt_edges}; expected {len(lists[0])}, {len(lists[1])}")


def static(ck, par, ks):
    els = trees.build(par, ks)
    every = [e.uuid for e in els]
    for s, st in enumerate(els):
        for ignore in (True, False):
            for depth in (1, 2, 3, 9):
                h = IndexHomomorphismGraphTensor(ignore, depth)
                want = expected(st, ignore, depth)
                for k in (1, 2):
                    aio.run(h.execute(st))
                    check(h, want, every, f"mapping of element {s} of {par} {ks} (ignore_root={ignore}, depth {depth}), execution {k}")
                    ck.transitions += 1
                ck.outcome(str([len(x) for x in want]))
        h = IndexHomomorphismGraphTensor(True)
        aio.run(h.execute(st))
        check(h, expected(st, True, 1), every, f"mapping with the default depth of element {s} of {par} {ks}")
    ck.states += 1


def big(ck, par, ks):
    """deep and wide containment; depth limits around the depth"""
    els = trees.build(par, ks)
    every = [e.uuid for e in els]
    for s in (0, 1, len(els) // 2, len(els) - 1):
        for ignore in (True, False):
            for depth in (1, 2, 3, len(els) - 2, len(els) - 1, len(els), 99):
                h = IndexHomomorphismGraphTensor(ignore, depth)
                aio.run(h.execute(els[s]))
                check(h, expected(els[s], ignore, depth), every, f"mapping of element {s} of {par} {ks} (ignore_root={ignore}, depth {depth})")
                ck.transitions += 1
    ck.states += 1


def restored_big(ck, sizes, turn):
    """sizes: of the three lists; turn: by how much they are rotated"""
    lists = [[(b"%d-%d" % (j, i), i) for i in range(n)] for j, n in enumerate(sizes)]
    want = [[u for u, _ in l] for l in lists]
    lists = [l[turn:] + l[:turn] if turn >= 0 else l[::-1] for l in lists]
    h = IndexHomomorphismGraphTensor(True)
    for again in (1, 2):
        h.reset_from_bijection(*lists)
        check(h, want, [b"x", *[u for l in want for u in l]], f"mapping restored from lists of {sizes} entries, rotated by {turn} ({again})")
        ck.transitions += 1
    ck.states += 1


def restored(ck, case):
    """the lists need not be in the order of the indices"""
    _, k, perm = case
    lists = [[(b"%d%d" % (j, i), i) for i in range(2)] for j in range(3)]
    lists[k] = [(b"%d%d" % (k, i), i) for i in perm]
    want = [[u for u, _ in sorted(l, key=lambda t: t[1])] for l in lists]
    for h in (IndexHomomorphismGraphTensor(True), IndexHomomorphismGraphTensor(False, 3)):
        for again in (1, 2):
            h.reset_from_bijection(*lists)
            check(h, want, [b"x", *[u for l in want for u in l]], f"mapping restored from {lists} ({again})")
            ck.transitions += 1
    ck.states += 1
    ck.outcome(("restored", k, len(perm)))


class HW:
    def __init__(self):
        c = FixedClock()
        f = self.f = HypergraphFactory("h", c)
        self.ctx = {}
        r = self.ctx["r"] = f.generate_node("r")
        self.n = f.generate_list_nodes(["a", "b", "c"], r)
        self.e = f.connect_dir_edges(r, "e", self.n[:1], self.n[1:2])
        self.v = f.create_value(r, "v", [1.0])
        q = self.ctx["q"] = f.generate_node("q")
        self.m = f.generate_list_nodes(["a", "b"], q)
        self.g = f.connect_dir_edges(q, "e", self.m[:1], self.m[1:2])
        self.g2 = f.connect_dir_edges(q, "e2", self.m[1:2], self.m[:1])
        self.w = f.create_value(q, "v", [])
        self.w2 = f.create_value(q, "v2", [1.0, None])
        self.ctx["a"] = self.n[0]
        self.every = [x.uuid for x in (r, *self.n, self.e, self.v, q, *self.m, self.g, self.g2, self.w, self.w2)]
        self.saved = [[[b"11", 0], [b"22", 1], [b"33", 2]], [[b"44", 0]], [[b"55", 0], [b"66", 1]]]
        self.every += [b"11", b"22", b"33", b"44", b"55", b"66"]
        self.want = {0: [[], [], []], 1: [[], [], []]}
        self.h = [IndexHomomorphismGraphTensor(True, 1), IndexHomomorphismGraphTensor(True, 2)]

    def do(self, op):
        k = op[0]
        if k == "x":
            aio.run(self.h[op[1]].execute(self.ctx[op[2]]))
            self.want[op[1]] = expected(self.ctx[op[2]], True, op[1] + 1)
        elif k == "restore":
            lists = [[tuple(x) for x in l] for l in self.saved]
            if op[2]:
                lists = [l[::-1] for l in lists]
            self.h[op[1]].reset_from_bijection(*lists)
            self.want[op[1]] = [[u for u, _ in l] for l in self.saved]
        elif k == "empty":
            self.h[op[1]].reset_from_bijection([], [], [])
            self.want[op[1]] = [[], [], []]
        elif k == "reset":
            self.h[op[1]].reset_homology()
            self.want[op[1]] = [[], [], []]
        elif k == "copy":       # restore the mapping of the other one from its own answers
            o, w = self.h[1 - op[1]], self.want[1 - op[1]]
            self.h[op[1]].reset_from_bijection(*[[(u, getattr(o, fwd)(u)) for u in l] for (fwd, _), l in zip(LOOK, w)])
            self.want[op[1]] = w
        elif k == "mut":
            r, q = self.ctx["r"], self.ctx["q"]
            try:
                if op[1] == "move":
                    q.add_element(self.n[2])
                elif op[1] == "rm":
                    for x in (self.n[0], self.e, self.v):
                        if x.parent is r:
                            list(r.remove_element(uuid=x.uuid))
                elif op[1] == "nest":
                    self.n[1].add_element(self.n[2])
                elif op[1] == "edge":
                    r.add_element(self.g2)
                    r.add_element(self.w)
            except Exception:  # noqa  refused
                pass


MENU = [["x", 0, "r"], ["x", 0, "q"], ["x", 1, "r"], ["x", 0, "a"], ["restore", 0, 0], ["restore", 0, 1], ["empty", 0], ["reset", 0], ["copy", 0],
        ["mut", "move"], ["mut", "rm"], ["mut", "nest"], ["mut", "edge"]]


def cases(ck):
    for n in range(1, 6 if ck.thorough else 5):
        for t in trees.trees(n):
            par = trees.parents(t)
            for ks in itertools.product(("node", "edge", "value", "sem")[:4 if n < 4 else 3], repeat=n):
                if all(p < 0 or ks[p] in ("node", "edge") or n < 4 for p in par):
                    yield ["static", par, list(ks)]
    for k in range(3):
        for n in range(0, 7 if ck.thorough else 5):
            for perm in itertools.permutations(range(n)):
                yield ["restored", k, list(perm)]
    for n in range(6, 21) if ck.thorough else (7, 12, 15):
        for _, par in trees.shapes(n):
            for ks in (["node"], ["edge"], ["node", "edge"], ["node"] * (n - 4) + ["edge", "value"] * 2, ["node", "node", "edge", "value", "sem"], ["value"], ["edge"] + ["value"] * (n - 1)):
                yield ["big", par, [ks[i % len(ks)] for i in range(n)]]
    for sizes in itertools.product((0, 1, 5, 12), repeat=3):
        for turn in (-1, 0, 1, 5):
            yield ["restored big", list(sizes), turn]
    for d in range(1, 6 if ck.thorough else 5):
        for h in itertools.product(MENU, repeat=d):
            if h[-1][0] != "mut":
                yield ["hist", list(h)]


def run_case(ck, case):
    ck.traces += 1
    if case[0] == "static":
        return static(ck, *case[1:])
    if case[0] == "big":
        return big(ck, *case[1:])
    if case[0] == "restored big":
        return restored_big(ck, *case[1:])
    if case[0] == "restored":
        return restored(ck, case)
    w = HW()
    for i, op in enumerate(case[1]):
        w.do(op)
        ck.transitions += 1
    for k in (0, 1):
        check(w.h[k], w.want[k], w.every, f"mapping {k} after {case[1]}")
    ck.states += 1
    ck.outcome(str([len(x) for x in w.want[0]]))
    ck.sample(case, 3)
