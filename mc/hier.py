"""Bounded worlds of hierarchical elements and the operations on them (C01-C06)."""
from mc.core import Bad, describe_exc
from rei.foundations.clock import MetaClock
from rei.foundations.conceptual_item import ConceptualItem
from rei.hypergraph.base_elements import HypergraphElement, HypergraphNode, HypergraphEdge, HypergraphRelation, HypergraphPort
from rei.hypergraph.value_node import ValueNode, SemanticValueNode


class FixedClock(MetaClock):
    """Environment clock that never advances."""

    def get_time_ns(self):
        return 0

    def get_time_sec(self):
        return 0.0


class TickClock(MetaClock):
    """Environment clock advancing at every reading; remembers what it answered."""

    def __init__(self, start=100):
        self.now = start

    def get_time_ns(self):
        self.now += 1
        return self.now

    def get_time_sec(self):
        return self.get_time_ns() / 1e9


def uid(s):
    return s.encode().ljust(4, b"_")


ALL = lambda _x: True  # noqa


def kids(e):
    return list(e.get_subelements(ALL))


class World:
    """objs: label -> element, in a fixed order; `parents`: label -> labels it may be given as children."""

    def __init__(self, clock=None):
        self.clock = clock or FixedClock()
        self.objs = {}
        self.may = {}
        self.names = []
        self.hist = []

    def make(self, label, kind, name, u=None, **kw):
        u = u if isinstance(u, bytes) else uid(u or label)
        c = self.clock
        if kind == "item":
            o = ConceptualItem(name, u, "f/" + name, c)
        elif kind == "node":
            o = HypergraphNode(name, u, "f/" + name, c)
        elif kind == "edge":
            o = HypergraphEdge(name, u, "f/" + name, c)
        elif kind == "value":
            o = ValueNode(u, name, "f/" + name, [1.0, 2.0])
        elif kind == "sem":
            o = SemanticValueNode(u, name, "f/" + name, None, {"name": name})
        elif kind == "rel":
            o = HypergraphRelation(u, name, "f/" + name, kw["endpoint"], None)
        elif kind == "port":
            o = HypergraphPort(u, name, "f/" + name, kw["endpoint"])
        else:
            raise ValueError(kind)
        self.objs[label] = o
        return o

    def label(self, o):
        if o is None:
            return None
        for k, v in self.objs.items():
            if v is o:
                return k
        return "?" + type(o).__name__ + ":" + o.id_name

    def everything(self):
        """all known elements plus whatever else hangs below them"""
        res, seen = [], set()
        todo = list(self.objs.values())
        while todo:
            o = todo.pop(0)
            if id(o) in seen:
                continue
            seen.add(id(o))
            res.append(o)
            todo.extend(kids(o))
        return res

    def is_ancestor_or_self(self, a, x):
        n = 0
        while x is not None:
            if x is a:
                return True
            x = x.parent
            n += 1
            if n > 1000:
                raise Bad("containment is cyclic: the chain of parents does not end")
        return False

    def structure(self):
        return {k: self.label(o.parent) for k, o in self.objs.items()}

    def observe(self, stamps=False):
        """everything the API shows of every element (used to compare before/after)"""
        res = {}
        for o in self.everything():
            k = self.label(o)
            d = [self.label(o.parent), [self.label(x) for x in kids(o)], o.qualified_name, o.depth, o.cid]
            if hasattr(o, "cnt_subelements"):
                d.append(o.cnt_subelements)
            if hasattr(o, "get_element_by_id_name"):
                d.append([[self.label(x) for x in o.get_element_by_id_name(n)] for n in self.names])
            if isinstance(o, HypergraphEdge):
                d.append([self.label(x) for x in o.induced_subset])
            if isinstance(o, HypergraphRelation):
                d.append(self.label(o.endpoint))
            if stamps and hasattr(o, "timestamp"):
                d.append(o.timestamp)
            res[k + "@" + str(list(self.objs.values()).index(o)) if k in self.objs else k] = d
        return res


# ---------------------------------------------------------------- worlds

def w_nodes():
    """five nodes; a and b share their name, d shares the identifier of a"""
    w = World()
    w.make("r", "node", "s")
    w.make("a", "node", "x")
    w.make("b", "node", "x")
    w.make("c", "node", "y")
    w.make("d", "node", "s", u="a")
    w.names = ["x", "y", "s", "zz"]
    w.may = {p: ["a", "b", "c", "d"] if p == "r" else list(w.objs) for p in ["r", "a", "b", "c"]}
    return w


def w_mixed():
    """one element of every kind, names collide"""
    w = World()
    n = w.make("n", "node", "s")
    w.make("e", "edge", "x")
    w.make("f", "edge", "e:2")
    w.make("q", "rel", "x", endpoint=n)
    w.make("v", "value", "y")
    w.make("t", "sem", "x")
    w.make("p", "port", "x.port", endpoint=None)
    w.names = ["x", "y", "s", "zz", "x.port", "e:2"]
    w.may = {"n": ["n", "e", "f", "v", "t", "p"], "e": ["e", "q", "v", "t", "n"], "f": ["q", "t", "e"],
             "q": ["v", "t"], "v": ["t"]}
    return w


def w_items():
    """a chain of six items, and a detached chain of two: moves of deep subtrees"""
    w = World()
    labs = ["r", "a", "b", "c", "d", "e"]
    for k in labs:
        w.make(k, "item", {"r": "root", "c": "a"}.get(k, k))
    for p, q in zip(labs, labs[1:]):
        w.objs[p].add_element(w.objs[q])
    w.make("g", "item", "g")
    w.make("h", "item", "a")
    w.objs["g"].add_element(w.objs["h"])
    w.names = ["a", "b", "g", "root", "zz"]
    w.may = {p: list(w.objs) for p in ["r", "a", "b", "d", "g", "h"]}
    return w


def w_wide():
    """a container with three same-named children and one other, and an empty container"""
    w = World()
    w.make("r", "node", "r")
    for k in "abc":
        w.make(k, "node", "x")
    w.make("d", "node", "y")
    for k in "abcd":
        w.objs["r"].add_element(w.objs[k])
    w.make("s", "node", "x")
    w.make("v", "value", "x")
    w.objs["s"].add_element(w.objs["v"])
    w.names = ["x", "y", "zz"]
    w.may = {"r": ["a", "b", "v", "s"], "s": ["a", "b", "d", "v"], "a": ["b", "v", "s"]}
    return w


def w_big():
    """a container with thirteen children of four names, each with a child of its own, and two more containers"""
    w = World()
    w.make("r", "node", "r")
    kinds = ["node", "edge", "node", "item"]
    for i in range(13):
        w.objs["r"].add_element(w.make(f"c{i}", kinds[i % 4], "wxyz"[i % 3 if i < 12 else 3]))
        w.objs[f"c{i}"].add_element(w.make(f"g{i}", "value" if i % 2 else "node", "w"))
    w.make("s", "node", "r")
    w.make("t", "edge", "w")
    w.names = ["w", "x", "z"]
    w.may = {"r": ["c0", "g5", "s", "t"], "s": ["c0", "c7", "c12", "r", "g4"], "c3": ["c4", "s", "g0"]}
    return w


def w_tall():
    """a chain of thirteen elements with side branches, and another of three"""
    w = World()
    prev = None
    for i in range(13):
        x = w.make(f"t{i}", ["node", "edge", "item"][i % 3], "pq"[i % 2])
        if prev is not None:
            prev.add_element(x)
        if i % 4 == 1:
            x.add_element(w.make(f"b{i}", "node", "q"))
        prev = x
    prev.add_element(w.make("v", "value", "v"))
    for i in range(3):
        x = w.make(f"u{i}", "node", "p")
        if i:
            w.objs[f"u{i - 1}"].add_element(x)
    w.names = ["p", "q", "v"]
    w.may = {"t0": ["u0", "t3"], "t6": ["u1", "b1", "t9"], "t12": ["u2", "t0", "u0"], "u2": ["t0", "t1", "t7", "t12"]}
    return w


def w_odd():
    """unusual names and identifiers"""
    w = World()
    w.make("r", "node", "r", u=b"")
    odd = [("", b"\0"), (" x", b"\0\0"), ("x ", b"x" * 70), ("x", b"\xff\xfe"), ("X", b"a"), ("\u00e9", b"A"), ("e\u0301", b"a "), ("a.b", b"."), ("*", b"0"), ("x:2", b"1"),
           ("None", b"None"), ("..", b"r"), ("0", b"/"), ("a\\b\n", b"\n")]
    for i, (n, u) in enumerate(odd):
        w.objs["r"].add_element(w.make(f"o{i}", ["node", "edge", "item"][i % 3], n, u=u))
        if i % 2:
            w.objs[f"o{i}"].add_element(w.make(f"p{i}", "node", odd[i - 1][0], u=u))
    w.make("s", "node", "", u=b"s")
    w.names = [" x", "x", "X", "e\u0301", "a.b", "*", ".."]
    w.may = {"r": ["s", "p1", "p5"], "s": ["o0", "o1", "o3", "o4", "o11"], "o0": ["o2", "s", "o5"], "o4": ["o3", "p3", "r"]}
    return w


def w_twin():
    """three levels of two namesakes each: every path leads to several elements"""
    w = World()
    w.make("r", "node", "r")

    def fill(up, d):
        for i in (0, 1):
            k = f"{up}{i}"
            w.objs[up].add_element(w.make(k, ["node", "edge", "item", "node"][(d + i) % 4], "xyz"[d]))
            if d < 2:
                fill(k, d + 1)
    fill("r", 0)
    w.make("s", "node", "x")
    w.names = ["x", "y", "z"]
    w.may = {"r": ["s", "r00", "r011"], "s": ["r00", "r01", "r1", "r110"], "r10": ["r00", "r000", "s"], "r111": ["s", "r0"]}
    return w


def w_home():
    """the roots are called what elements are said to come from when they are created: their first addition changes no qualified name"""
    w = World()
    w.make("r", "node", "f")
    w.make("s", "item", "f")
    for k, kind in (("a", "node"), ("b", "item"), ("c", "edge"), ("d", "value"), ("e", "node")):
        w.make(k, kind, "x" if k < "c" else k)
    w.objs["c"].add_element(w.objs["d"])
    w.names = ["f", "x", "c"]
    w.may = {"r": ["a", "b", "c", "s"], "s": ["a", "b", "c", "e", "r"], "a": ["e", "c"], "c": ["e"]}
    return w


def w_holder():
    """a relation as a container: what is added to it gets a port to it, unless it has one (its endpoint, or after an earlier addition)"""
    w = World()
    w.make("r", "node", "r")
    n = w.make("n", "node", "x")
    w.make("m", "node", "x")
    w.make("e", "edge", "y")
    q = w.make("q", "rel", "x", endpoint=n)
    w.make("v", "value", "y")
    w.make("k", "node", "k")
    w.objs["e"].add_element(q)
    n.connect(q)
    w.objs["m"].add_element(w.objs["k"])
    w.names = ["x", "y", "k", "zz"]
    w.may = {"q": ["n", "m", "e", "v", "k"], "r": ["n", "m", "e"], "e": ["q", "m"], "m": ["k", "v", "n"]}
    return w


def w_mile():
    """a chain of ninety elements, another of three; a container of forty"""
    w = World()
    prev = None
    for i in range(90):
        x = w.make(f"m{i}", ["node", "edge", "item"][i % 3], "pq"[i % 2])
        if prev is not None:
            prev.add_element(x)
        prev = x
    prev.add_element(w.make("v", "value", "v"))
    for i in range(3):
        x = w.make(f"u{i}", "node", "p")
        if i:
            w.objs[f"u{i - 1}"].add_element(x)
    for i in range(40):
        w.objs["u0"].add_element(w.make(f"k{i}", ["node", "value", "edge"][i % 3], "kpl"[i % 3]))
    for i in range(10):
        w.objs["k0"].add_element(w.make(f"a{i}", "node", "a"))
    w.objs["k39"].add_element(w.make("b", "node", "b"))
    w.names = ["p", "k", "v", "b"]
    w.few = ["m0", "m1", "m45", "m89", "v", "u0", "u1", "u2", "k0", "k39"]
    w.may = {"m0": ["u0", "m45"], "m88": ["u1", "k39", "k1"], "u0": ["m89", "v"], "u2": ["m0", "m1", "m60", "k20"]}
    return w


def w_abyss():
    """a chain of 270 elements and another of three"""
    w = World()
    prev = None
    for i in range(270):
        x = w.make(f"m{i}", ["node", "edge", "item"][i % 3], "pq"[i % 2])
        if prev is not None:
            prev.add_element(x)
        prev = x
    for i in range(3):
        x = w.make(f"u{i}", "node", "p")
        if i:
            w.objs[f"u{i - 1}"].add_element(x)
    w.names = ["p"]
    w.few = ["m0", "m1", "m267", "m269", "u0", "u2"]
    w.may = {"m0": ["u0"], "u0": ["m269", "m252"], "m267": ["u2", "m0"], "u2": ["m254"]}
    return w


WORLDS = {"abyss": w_abyss, "holder": w_holder, "home": w_home, "mile": w_mile, "twin": w_twin, "odd": w_odd, "nodes": w_nodes, "mixed": w_mixed, "items": w_items, "wide": w_wide, "big": w_big, "tall": w_tall}


def op_menu(w):
    ops = []
    objs = {k: w.objs[k] for k in getattr(w, "few", w.objs)}
    for p, es in w.may.items():
        for e in es:
            ops.append(["add", p, e])
    for p in w.may:
        for e in objs:
            if e != p:
                ops.append(["rm_uuid", p, e])
    for p in w.may:
        for n in w.names:
            ops.append(["rm_name", p, n])
            ops.append(["rm_name_partial", p, n])
        for e in objs:
            if e != p:
                o = w.objs[e]
                ops.append(["rm_both", p, o.id_name, e])
                for n in w.names:
                    if n != o.id_name:
                        ops.append(["rm_both", p, n, e])
                        break
        ops.append(["rm_none", p])
    for e, o in objs.items():
        if hasattr(o, "deregister"):
            ops.append(["dereg", e])
            for p in w.may:
                if e in w.may[p]:
                    ops.append(["reg", e, p])
    return ops


def classify(w, op):
    """-> (verdict, removed/added labels): 'ok' must succeed, 'refuse' must raise, 'noop' must change nothing"""
    k = op[0]
    o = w.objs
    if k in ("add", "reg"):
        p, e = (op[1], op[2]) if k == "add" else (op[2], op[1])
        if w.is_ancestor_or_self(o[e], o[p]):
            return "refuse", []
        if any(x.uuid == o[e].uuid for x in kids(o[p])):
            return "refuse", []
        return "ok", [(e, p)]
    if k == "dereg":
        if o[op[1]].parent is None:
            return "noop", []
        return "ok", [(op[1], None)]
    p = op[1]
    ch = kids(o[p])
    if k == "rm_none":
        return "refuse", []
    if k == "rm_uuid":
        hit = [x for x in ch if x.uuid == o[op[2]].uuid]
    elif k in ("rm_name", "rm_name_partial"):
        hit = [x for x in ch if x.id_name == op[2]]
    else:
        hit = [x for x in ch if x.uuid == o[op[3]].uuid and x.id_name == (op[2] or x.id_name)]     # no name: by identifier
    if not hit:
        return "noop", []
    if k == "rm_name_partial":
        return "partial", [(w.label(x), None) for x in hit]
    return "ok", [(w.label(x), None) for x in hit]


def perform(w, op):
    """execute on the real code; -> (exception or None, yielded elements)"""
    w.hist.append(op)
    k = op[0]
    o = w.objs
    got = []
    try:
        if k == "add":
            o[op[1]].add_element(o[op[2]])
        elif k == "reg":
            o[op[1]].register(o[op[2]])
        elif k == "dereg":
            o[op[1]].deregister()
        elif k == "rm_none":
            for x in o[op[1]].remove_element():
                got.append(x)
        elif k == "rm_uuid":
            for x in o[op[1]].remove_element(uuid=o[op[2]].uuid):
                got.append(x)
        elif k == "rm_name":
            for x in o[op[1]].remove_element(op[2]):
                got.append(x)
        elif k == "rm_name_partial":
            g = o[op[1]].remove_element(op[2])
            for x in g:
                got.append(x)
                break
            if hasattr(g, "close"):
                g.close()
        elif k == "rm_both":
            for x in o[op[1]].remove_element(op[2], o[op[3]].uuid):
                got.append(x)
        else:
            raise ValueError(k)
    except Exception as e:  # noqa
        return e, got
    return None, got


def port_of(w, now, was, e, p):
    """children `now` of e without the port which the addition of e to the relation p gives it; `was` are its children before"""
    o, q = w.objs[e], w.objs.get(p)
    if not isinstance(q, HypergraphRelation) or not isinstance(o, HypergraphElement):
        return now
    to = [w.label(x) for x in kids(o) if isinstance(x, HypergraphPort) and x.endpoint is q]
    if len(to) != 1:
        raise Bad(f"{e} has {len(to)} ports to the relation {p} it was added to")
    return now if to[0] in was else [x for x in now if x != to[0]] if now[-1] == to[0] else now


def show(w, op):
    return f"{op} on {w.structure()}"



# ---------------------------------------------------------------- shared search driver

def okey(w):
    """coarse identity of a state: everything the API shows, context ids by rank only"""
    obs = w.observe()
    res = []
    for k in obs:
        d = list(obs[k])
        d[4] = None
        res.append((k, repr(d)))
    cids = []
    for o in w.everything():
        ch = kids(o)
        cids.append(tuple(sorted(range(len(ch)), key=lambda i: ch[i].cid)) if ch else ())
    return tuple(res), tuple(cids)


def pre(w):
    """what an operation is judged against"""
    return {k: [w.label(x) for x in kids(o)] for k, o in w.objs.items()}, w.structure()


def drive(ck, plan, apply_op, check_state, check_new=None, ops=op_menu, worlds=WORLDS):
    """plan: list of (world, depth, exact?)"""
    for wn, depth, exact in plan:
        from mc.core import explore
        explore(ck, f"{wn}{'' if exact else '~'}", worlds[wn], ops, apply_op, check_state, depth,
                lambda w: list(w.objs.values()), check_new, key=None if exact else okey)
        if ck.violations:
            return


def rerun(case, apply_op, check_state, check_new=None, worlds=WORLDS):
    from mc.core import replay_history
    replay_history(worlds[case["world"].rstrip("~")], apply_op, check_state, check_new, case["history"])
