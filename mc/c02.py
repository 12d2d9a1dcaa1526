"""C02 qualified names and depths."""
from mc.hier import *  # noqa
from mc.hier import World, FixedClock

ASSUMPTIONS = ["names of the world `slashes` contain separators, a name is looked up in the other worlds only"]


def check_state(w):
    for e in w.everything():
        path, x, n = [], e, 0
        while x is not None:
            path.append(x.id_name)
            x = x.parent
            n += 1
            if n > 600:
                raise Bad("chain of parents does not end")
        exp = "/".join(reversed(path))
        if e.qualified_name != exp:
            raise Bad(f"{w.label(e)} lies at {exp} but is called {e.qualified_name!r} ({w.structure()})")
        if e.depth != n - 1:
            raise Bad(f"{w.label(e)} ({exp}) has depth {e.depth}, expected {n - 1} ({w.structure()})")


def apply_op(w, op, replay):
    if replay:
        perform(w, op)
        return None
    before = w.structure()
    names = {k: (o.qualified_name, o.depth) for k, o in w.objs.items()}
    exc, _ = perform(w, op)
    after = w.structure()
    moved = [k for k in before if before[k] != after[k]]
    for k, o in w.objs.items():
        if not any(w.is_ancestor_or_self(w.objs[m], o) for m in moved) and (o.qualified_name, o.depth) != names[k]:
            raise Bad(f"{op} on {before} renamed {k}, which was not moved, from {names[k]} to {(o.qualified_name, o.depth)}")
    return f"{len(moved)}"


def w_deep():
    """two chains, six and four deep, of alternating kinds, and single elements: moves of prepared subtrees"""
    w = World()
    kinds = ["node", "edge", "rel", "value", "sem", "value"]
    prev = None
    for i, k in enumerate(kinds):
        x = w.make(f"d{i}", k, "abcabc"[i], endpoint=None)
        if prev is not None:
            prev.add_element(x)
        prev = x
    prev = None
    for i, k in enumerate(["node", "node", "edge", "node"]):
        x = w.make(f"k{i}", k, "abab"[i])
        if prev is not None:
            prev.add_element(x)
        prev = x
    w.names = ["a", "b", "c"]
    w.may = {"d0": ["k0", "k1", "k2"], "d1": ["k0", "k3", "d2"], "k0": ["d0", "d1", "k3"], "k3": ["d0", "d1", "k1"], "d3": ["d5", "d4"],
             "k2": ["d2", "d0"]}
    return w


def w_slashes():
    """names that contain the separator, as the importer gives them to parts without a name"""
    w = World()
    for k, (kind, n) in {"r": ("node", "r/s"), "a": ("node", "r/s/coll"), "b": ("edge", "/"), "c": ("node", "a/"), "d": ("item", "//b")}.items():
        w.make(k, kind, n)
    w.names = ["r/s", "/"]
    w.may = {"r": ["a", "b", "c", "d"], "a": ["b", "c", "r"], "b": ["d", "a"], "c": ["a", "r", "b"], "d": ["c"]}
    return w


ALL_WORLDS = {**WORLDS, "deep": w_deep, "slashes": w_slashes}


def main(ck):
    if ck.thorough:
        plan = [("abyss", 2, False), ("mile", 2, False), ("home", 3, True), ("holder", 4, False), ("nodes", 4, True), ("nodes", 6, False), ("mixed", 3, True), ("mixed", 4, False), ("items", 4, False), ("wide", 4, False),
                ("deep", 4, False), ("odd", 2, False), ("big", 2, False), ("tall", 3, False), ("twin", 2, False), ("slashes", 4, False)]
    else:
        plan = [("abyss", 1, False), ("mile", 1, False), ("home", 2, True), ("holder", 2, False), ("nodes", 2, True), ("nodes", 4, False), ("mixed", 3, False), ("items", 2, False), ("wide", 3, False), ("deep", 3, False), ("odd", 1, True), ("big", 1, True), ("tall", 2, False), ("twin", 1, True), ("slashes", 3, False)]
    drive(ck, plan, apply_op, check_state, worlds=ALL_WORLDS)


def run_case(ck, case):
    rerun(case, apply_op, check_state, worlds=ALL_WORLDS)
