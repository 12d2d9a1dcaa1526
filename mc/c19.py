"""C19 value nodes and value-update messages."""
import itertools

import cbor2

from mc import aio
from mc.core import Bad, describe_exc
from mc.hier import FixedClock, uid, kids
from mc.c18 import Ctx, shape, encode, decode
from rei.factories.foundation_factory import HypergraphFactory
from rei.hypergraph.common_definitions import EnumRelationDirection as D
from rei.hypergraph.encoding.graph_tensor_icon_cbor import GraphTensorCbor
from rei.hypergraph.value_node import ValueNode

ASSUMPTIONS = ["update messages are for a decoded graph with the same value nodes; a position is an index from 0 to the dimension"]

START = {"v": [1, 2.5], "u": None, "w": ["a", [1], None]}
WRITES = [["set", 0, 7], ["set", 1, "b"], ["set", 2, None], ["item", 0, 9.5], ["item", 1, [3]], ["item", 5, 0], ["all", []], ["all", [4]], ["all", [5, 6, 7]],
          ["all", (8, 9)], ["gen", 2], ["same"], ["readback"], ["item", 0, True], ["set", 0, 1.0], ["slice", 0, 1, []], ["slice", 1, 2, [1, 2]]]


class Values:
    def __init__(self):
        self.given = {k: (list(v) if v is not None else None) for k, v in START.items()}
        self.o = {k: ValueNode(uid(k), k, "f/" + k, v) if v is not None else ValueNode(uid(k), k, "f/" + k) for k, v in self.given.items()}
        self.ref = {k: list(v or []) for k, v in START.items()}
        f = HypergraphFactory("v", FixedClock())
        r = f.generate_node("r")
        a, b = f.generate_list_nodes(["a", "b"], r)
        self.edge = f.connect_tuple_nodes(r, "e", [(a, D.INWARDS, self.o["v"], None), (b, D.OUTWARDS, self.o["w"], None)])

    def do(self, k, op):
        v, ref = self.o[k], self.ref[k]
        if op[0] in ("set", "item"):
            i, x = op[1], op[2]
            try:
                if op[0] == "set":
                    v.update_value(i, x)
                else:
                    v[i] = x
                if i >= len(ref):
                    raise Bad(f"writing position {i} of {ref} is not refused")
            except IndexError:
                if i < len(ref):
                    raise Bad(f"writing position {i} of {ref} is refused")
                return
            ref[i] = x
        elif op[0] == "slice":
            v[op[1]:op[2]] = list(op[3])
            ref[op[1]:op[2]] = op[3]
        elif op[0] == "all":
            x = list(op[1]) if isinstance(op[1], list) else op[1]
            v.update_values(x)
            self.ref[k] = list(op[1])
            if isinstance(x, list):
                x.append("later")
        elif op[0] == "gen":
            v.update_values(i * 10 for i in range(op[1]))
            self.ref[k] = [i * 10 for i in range(op[1])]
        elif op[0] == "same":           # from another node
            v.update_values(self.o["w"].get_values())
            self.ref[k] = list(self.ref["w"])
        elif op[0] == "readback":
            out = v.get_values()
            out.append("mine")
            if out:
                out[0] = "mine"

    def check(self, text):
        for k, v in self.o.items():
            ref = self.ref[k]
            got = {"get_values": v.get_values(), "val": list(v.val), "iteration": list(v), "second iteration": list(v), "dim": v.dim,
                   "items": [v[i] for i in range(len(ref))], "get_value": [v.get_value(i) for i in range(len(ref))],
                   "nested iteration": [(a, b) for a in v for b in v]}
            exp = {"get_values": ref, "val": ref, "iteration": ref, "second iteration": ref, "dim": len(ref), "items": ref, "get_value": ref,
                   "nested iteration": [(a, b) for a in ref for b in ref]}
            for x in exp:
                if got[x] != exp[x] or repr(got[x]) != repr(exp[x]):
                    raise Bad(f"{text}: {x} of {k} is {got[x]}, expected {exp[x]}")
            try:
                v[len(ref)]
            except IndexError:
                pass
            else:
                raise Bad(f"{text}: {k} has a value beyond its {len(ref)} values")
            for i in range(1, len(ref) + 1):    # counted from the end, or refused
                for name, read in (("item", v.__getitem__), ("get_value", v.get_value)):
                    try:
                        x = read(-i)
                    except IndexError:
                        continue
                    if repr(x) != repr(ref[-i]):
                        raise Bad(f"{text}: {name} {-i} of {k} is {x!r}, its values are {ref}")
        seen = [r.weight.get_values() for r in self.edge.sub_relations]
        if repr(seen) != repr([self.ref["v"], self.ref["w"]]):
            raise Bad(f"{text}: relations see the weights {seen}, expected {[self.ref['v'], self.ref['w']]}")


class Sync:
    """a sender and a graph decoded from its full message"""

    def __init__(self, values, inside):
        self.src = Ctx(["a", "b"], ["io."], values, [(1.0,)], inside)
        self.tx, self.rx = GraphTensorCbor("tx", FixedClock(), self.src.root), GraphTensorCbor("rx", FixedClock(), None)
        self.full()
        self.kept = None
        self.tag = 0

    def now(self):
        """by the order of the value nodes in the decoded graph"""
        at = {v.uuid: v.get_values() for v in self.src.vals}
        return [at[v.uuid] for v in self.root.sub_values]

    def full(self):
        self.root, self.hom = decode(encode(self.src.root, self.tx, "full message"), self.rx, "full message")
        self.base = shape(self.root)
        self.want = self.now()

    def message(self):
        return self.tx.msg_value_update(), self.now()

    def apply(self, m):
        self.rx.from_msg_update_values(m[0])
        self.want = m[1]

    def do(self, op):
        k = op[0]
        vs = self.src.vals
        if k == "put":
            if op[1] < len(vs):
                vs[op[1]].update_values(op[2])
        elif k == "one":
            if op[1] < len(vs) and vs[op[1]].dim:
                self.tag += 1
                vs[op[1]][0] = self.tag
        elif k == "send":
            self.apply(self.message())
        elif k == "keep":
            self.kept = self.message()
        elif k == "apply":
            if self.kept is not None:
                self.apply(self.kept)
        elif k == "full":
            self.full()
            self.kept = None
        elif k == "turn":               # the first of the value nodes is taken out and becomes the last
            v = next(iter(self.src.root.sub_values), None)
            if v is not None:
                list(self.src.root.remove_element(uuid=v.uuid))
                self.src.root.add_element(v)
        elif k == "more":               # nodes and edges come and go
            self.tag += 1
            f = self.src.f
            n = f.generate_node(f"more{self.tag}", self.src.root)
            f.connect_nodes(self.src.root, f"edge{self.tag}", [n, self.src.nodes[0]])
            list(self.src.root.remove_element(uuid=self.src.edges[0].uuid)) if self.tag == 1 else None
        elif k == "local":              # the receiver writes by itself; the next message overrides it
            if op[1] < len(self.want):
                list(self.root.sub_values)[op[1]].update_values(["local"])
                self.want = [["local"] if i == op[1] else w for i, w in enumerate(self.want)]

    def check(self, text):
        got = [v.get_values() for v in self.root.sub_values]
        if got != self.want or repr(got) != repr(self.want):
            raise Bad(f"{text}: the decoded graph has the values {got}, expected {self.want}")
        if [v.dim for v in self.root.sub_values] != [len(w) for w in self.want]:
            raise Bad(f"{text}: dimensions {[v.dim for v in self.root.sub_values]} for {self.want}")
        now = shape(self.root)
        for k in ("context", "nodes", "edges", "count"):
            if now[k] != self.base[k]:
                raise Bad(f"{text}: {k} have changed from {self.base[k]} to {now[k]}")


SYNC = [["put", 0, [5.0]], ["put", 0, []], ["put", 1, [1, "x", 2.5]], ["put", 2, [0]], ["put", 2, [False]], ["one", 0], ["one", 1], ["send"], ["keep"], ["apply"], ["full"], ["local", 1], ["turn"], ["more"]]
SETUPS = [[([1.0], [2.0, 3.0], ["z"]), True], [([], [4]), False], [([1.0],), False], [(), False]]


def shared(ck, n, make, way):
    """several nodes from one list; every write operation at every position of one of them"""
    text = f"three nodes of dimension {n} created by {make} from one list, {way}"
    given = [float(i) for i in range(n)]
    if make == "node":
        vs = [ValueNode(uid(f"v{i}"), f"v{i}", f"f/v{i}", given) for i in range(3)]
    elif make == "factory":
        f = HypergraphFactory("v", FixedClock())
        r = f.generate_node("r")
        vs = [f.create_value(r, f"v{i}", given) for i in range(3)]
    else:
        vs = [ValueNode(uid(f"v{i}"), f"v{i}", f"f/v{i}") for i in range(3)]
        for v in vs:
            v.update_values(given)
    ref = [list(given) for _ in vs]

    def check(t):
        for i, v in enumerate(vs):
            if v.get_values() != ref[i] or list(v) != ref[i] or v.dim != len(ref[i]) or [v[k] for k in range(v.dim)] != ref[i]:
                raise Bad(f"{text}{t}: node {i} has the values {v.get_values()}, dimension {v.dim}, expected {ref[i]}")
        ck.transitions += 1
    check("")
    for k in range(n):
        who = k % 3
        if way == "item":
            vs[who][k] = ref[who][k] = f"w{k}"
        elif way == "update":
            vs[who].update_value(k, -k)
            ref[who][k] = -k
        elif way == "list":
            new = [f"{k}.{i}" for i in range(n - k)]
            vs[who].update_values(new)
            ref[who] = list(new)
            vs[(who + 1) % 3].update_values(new)
            ref[(who + 1) % 3] = list(new)
            check(f", after update {k}")
            if new:
                new[0] = "changed by the caller"
        elif way == "out":
            vs[who].get_values()[k] = "changed by the caller"
        elif way == "given":
            given[k] = "changed by the caller"
        elif way == "pass":     # from one to another
            vs[who].update_values(vs[(who + 1) % 3].get_values())
            ref[who] = list(ref[(who + 1) % 3])
            vs[who].update_value(k, "p")
            ref[who][k] = "p"
        check(f", after write {k}")
    given += [1]
    check(", after the given list has grown")


def cases(ck):
    for n in range(0, 40 if ck.thorough else 18):
        for make in ("node", "factory", "update"):
            for way in ("item", "update", "list", "out", "given", "pass"):
                yield ["shared", n, make, way]
    ops = [[k, *w] for k in ("v", "u") for w in WRITES] + [["w", "set", 1, 1], ["w", "all", [0]]]
    for d in range(0, 5 if ck.thorough else 4):
        for h in itertools.product(ops, repeat=d):
            yield ["values", list(h)]
    for i, _ in enumerate(SETUPS):
        for d in range(0, (6 if ck.thorough else 5) if i == 0 else 4):
            for h in itertools.product(SYNC, repeat=d):
                yield ["sync", i, list(h)]
    if not ck.thorough:
        few = ops[:13] if False else [o for o in ops if o[0] == "v" and o[1] in ("set", "all", "gen", "item")][:8]
        for h in itertools.product(few, repeat=4):
            yield ["values", list(h)]


def run_case(ck, case):
    ck.traces += 1
    ck.states += 1
    ck.sample(case, 4)
    if case[0] == "shared":
        shared(ck, *case[1:])
        ck.outcome(repr(case[1:]))
    elif case[0] == "values":
        w = Values()
        for op in case[1]:
            w.do(op[0], op[1:])
            ck.transitions += 1
        w.check(f"after {case[1]}")
        if w.given != START:
            raise Bad(f"after {case[1]}: the lists handed to the constructor have changed to {w.given}")
        for g in w.given.values():
            if g is not None:
                g.append("changed by the caller")
        w.check(f"after {case[1]} and a change of the lists handed to the constructor")
        ck.outcome(repr(w.ref))
    else:
        w = Sync(*SETUPS[case[1]])
        for op in case[2]:
            w.do(op)
            ck.transitions += 1
        w.check(f"values {SETUPS[case[1]]}, after {case[2]}")
        ck.outcome(repr(w.want))
