"""C06 timestamps."""
from mc.hier import *  # noqa
from mc.hier import World, TickClock, FixedClock
from mc import hier, c02
from rei.foundations.conceptual_item import ConceptualItem

ASSUMPTIONS = ["the environment's clocks advance at every reading; between operations the checker advances them or (worlds `<`) sets them back",
               "worlds of nodes, edges and items with two clocks of disjoint ranges",
               "the machine's own clock: each kind of change once; its readings lie between those of the system's clock around the change"]


class Clocked(World):
    """elements alternate between two clocks of disjoint ranges"""

    def __init__(self):
        super().__init__()
        self.clocks = [TickClock(1_000_000), TickClock(10_000_000)]
        self.own = {}
        self.n = 0

    def make(self, label, kind, name, u=None, **kw):
        c = self.clocks[self.n % 2]
        self.n += 1
        self.clock = c
        before = c.now
        o = super().make(label, kind, name, u, **kw)
        self.own[id(o)] = c
        if hasattr(o, "timestamp") and not before < o.timestamp <= c.now:
            raise Bad(f"{kind} {label} was created with timestamp {o.timestamp}, its clock answered {before + 1}..{c.now}")
        return o


class _Swap:
    def __enter__(self):
        self.old = hier.World, c02.World
        hier.World = c02.World = Clocked

    def __exit__(self, *a):
        hier.World, c02.World = self.old


def build(name):
    def b():
        with _Swap():
            w = c02.ALL_WORLDS[name.strip("<")]()
        w.back = name.endswith("<")
        return w
    return b


BUILD = {k: build(k) for n in c02.ALL_WORLDS for k in (n, n + "<")}


def stamped(w):
    return {k: o for k, o in w.objs.items() if hasattr(o, "timestamp")}


def tick(w):
    w.ops = getattr(w, "ops", 0) + 1
    for c in w.clocks:
        if w.back:      # every operation has a window of readings below all the earlier ones
            c.now = c.low = min(getattr(c, "low", c.now), c.now) - 1000
        else:
            c.now += 1000


def menu(w):
    """the structural operations; giving an element the other clock; connecting and disconnecting an endpoint"""
    ops = op_menu(w)
    for k in list(stamped(w))[:4]:
        ops.append(["clock", k])
    edges = [k for k, o in w.objs.items() if isinstance(o, HypergraphEdge)][:2]
    nodes = [k for k, o in w.objs.items() if isinstance(o, HypergraphNode)][:2]
    for e in edges:
        for n in nodes + [x for x in edges if x != e]:
            ops.append(["link", e, n])
    return ops


def other_op(w, op):
    """operations which affect no timestamp"""
    o = w.objs[op[1]]
    w.hist.append(op)
    if op[0] == "clock":
        c = w.clocks[1 - w.clocks.index(w.own[id(o)])]
        o.clock = c
        w.own[id(o)] = c
        if o.clock is not c:
            raise Bad(f"{op}: the clock of {op[1]} is not the given one")
        return
    n = w.objs[op[2]]
    r = next((x for x in o.sub_relations if x.endpoint is n), None)
    if r is None:
        o.unary_connect(n, None)
    else:
        list(o.remove_element(uuid=r.uuid))
        n.disconnect(r)


def apply_op(w, op, replay):
    tick(w)
    if op[0] in ("clock", "link"):
        before = {k: o.timestamp for k, o in stamped(w).items()}
        if op[0] == "link":     # a relation that goes takes along what it contains
            for r in [x for x in w.objs[op[1]].sub_relations if x.endpoint is w.objs[op[2]]][:1]:
                before = {k: t for k, t in before.items() if not w.is_ancestor_or_self(r, w.objs[k])}
        try:
            other_op(w, op)
        except Bad:
            raise
        except Exception as x:  # noqa
            if op[0] == "clock":
                raise Bad(f"{op} raised {describe_exc(x)}")
        for k, o in stamped(w).items():
            if k in before and o.timestamp != before[k] and not replay:
                raise Bad(f"{op} after {w.hist[:-1]} changed the timestamp of {k}, which was neither added, moved nor removed")
        return op[0]
    if replay:
        perform(w, op)
        return None
    start = [c.now for c in w.clocks]
    before = {k: o.timestamp for k, o in stamped(w).items()}
    verdict, delta = classify(w, op)
    text = show(w, op)
    inside = [k for k, o in stamped(w).items() if any(w.is_ancestor_or_self(w.objs[e], o) for e, _ in delta)]
    # names and order must not matter for removal by an abandoned generator: only the yielded element is certain
    exc, got = perform(w, op)
    if verdict == "ok" and exc is None:
        for k, o in stamped(w).items():
            i = w.clocks.index(w.own[id(o)])
            if k in inside:
                if not start[i] < o.timestamp <= w.clocks[i].now:
                    raise Bad(f"{text} left {k}, which it affected, with timestamp {o.timestamp}; its clock answered "
                              f"{start[i] + 1}..{w.clocks[i].now} meanwhile")
            elif o.timestamp != before[k]:
                raise Bad(f"{text} changed the timestamp of {k}, which it did not affect, from {before[k]} to {o.timestamp}")
    elif verdict in ("noop", "refuse"):
        for k, o in stamped(w).items():
            if o.timestamp != before[k]:
                raise Bad(f"{text} changes nothing but altered the timestamp of {k} from {before[k]} to {o.timestamp}")
    else:
        yielded = [k for k, o in stamped(w).items() if got and w.is_ancestor_or_self(got[0], o)]
        for k, o in stamped(w).items():
            i = w.clocks.index(w.own[id(o)])
            if k in yielded and not start[i] < o.timestamp <= w.clocks[i].now:
                raise Bad(f"{text} yielded a container of {k} but its timestamp {o.timestamp} is old")
            if k not in inside and o.timestamp != before[k]:
                raise Bad(f"{text} changed the timestamp of {k}, which it did not affect")
    return f"{verdict}{len(inside)}"


def check_state(w):
    before = {k: o.timestamp for k, o in stamped(w).items()}
    for o in w.everything():
        list(o.get_subelements(ALL))
        list(o.get_element_by_id_name("x"))
        list(o.get_element_by_id_name("x/y"))
        o.qualified_name, o.depth, o.parent  # noqa
    for k, o in stamped(w).items():
        if o.timestamp != before[k]:
            raise Bad(f"reading the graph changed the timestamp of {k}")


def skey(w):
    """timestamps by rank of age only: which of them are equal does not matter, as every operation gets its own window"""
    return hier.okey(w), tuple(w.clocks.index(c) for c in w.own.values())


LOCAL = [(k, m) for k in ("node", "edge", "engine") for m in ("created", "added", "moved", "removed")]


def local_clock(kind, change):
    """the clock of the machine: the stamp lies between two readings of the system's clock around the operation.
    The readings are repeated when the system's clock was set back meanwhile."""
    import time
    from rei.foundations.clock import LocalClock
    from rei.factories.foundation_factory import HypergraphFactory
    bad = None
    for _ in range(3):
        clock = LocalClock()
        f = HypergraphFactory("f", clock)
        top, other = f.generate_node("top"), f.generate_node("other")
        make = {"node": lambda q: f.generate_node("x", q), "edge": lambda q: f.create_hyperedge(q, "x"),
                "engine": lambda q: HypergraphNode("x", b"u1", "e/x", clock, q)}[kind]
        x = make(top) if change in ("moved", "removed") else None
        low = time.time_ns()
        if change == "created":
            x = make(top)
        elif change == "removed":
            list(top.remove_element(uuid=x.uuid))
        elif change == "moved":
            list(top.remove_element(uuid=x.uuid))
            low = time.time_ns()
            other.add_element(x)
        else:
            x = make(other)
            list(other.remove_element(uuid=x.uuid))
            low = time.time_ns()
            top.add_element(x)
        high = time.time_ns()
        t = x.timestamp
        if isinstance(t, int) and low <= t <= high:
            return
        bad = f"{kind} {change} with the machine's clock has the timestamp {t!r}, the system's clock answered {low} before and {high} after"
    raise Bad(bad)


def main(ck):
    from mc.core import explore
    from mc.core import guarded
    for kind, change in LOCAL:
        case = {"local": [kind, change]}
        ck.transitions += 1
        if not guarded(ck, lambda c, x: local_clock(*x["local"]), case):
            return
    if ck.thorough:
        plan = [("holder", 4), ("home", 3), ("twin", 2), ("slashes", 2), ("mile", 1), ("nodes", 6), ("mixed", 4), ("items", 3), ("wide", 4), ("deep", 3), ("nodes<", 4), ("mixed<", 3), ("items<", 2), ("wide<", 3), ("deep<", 2), ("odd", 2), ("big", 2), ("tall", 2), ("big<", 1), ("tall<", 1)]
    else:
        plan = [("holder", 2), ("home", 2), ("twin", 1), ("slashes", 1), ("mile", 1), ("nodes", 4), ("mixed", 3), ("items", 2), ("wide", 3), ("deep", 2), ("nodes<", 3), ("mixed<", 2), ("items<", 2), ("wide<", 2), ("deep<", 1), ("odd", 1), ("big", 1), ("tall", 1)]
    for wn, depth in plan:
        explore(ck, wn, BUILD[wn], menu, apply_op, check_state, depth, lambda w: list(w.objs.values()), None, key=skey)
        if ck.violations:
            return


def run_case(ck, case):
    from mc.core import replay_history
    if "local" in case:
        local_clock(*case["local"])
        return
    replay_history(BUILD[case["world"]], apply_op, check_state, None, case["history"])
