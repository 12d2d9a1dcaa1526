"""C04 path lookup."""
import itertools

from mc.hier import *  # noqa
from mc import c02
from mc.core import progress

ASSUMPTIONS = ["names contain no slash; paths of up to 3 steps (4 in the thorough tier) over the names of the world and an absent name, and the whole path to every element"]
DEPTH = 3


def expected(e, path):
    cur = [e]
    for step in path:
        cur = [c for x in cur for c in kids(x) if c.id_name == step]
    return cur


def check_new(w):
    names = [n for n in w.names]
    for e in w.everything():
        progress()
        for n in range(1, DEPTH + 1):
            for path in itertools.product(names, repeat=n):
                if n >= 3 and not expected(e, path[:n - 2]):
                    continue
                lookup(w, e, path)
        # the whole way to every element below
        ways, todo = {}, [(e, ())]
        while todo:
            x, way = todo.pop(0)
            for c in kids(x):
                ways[way + (c.id_name,)] = 0
                todo.append((c, way + (c.id_name,)))
        for way in ways:
            if len(way) > DEPTH or way[-1] not in names:
                lookup(w, e, way)


def lookup(w, e, path):
    exp = expected(e, path)
    p = "/".join(path)
    try:
        got = list(e.get_element_by_id_name(p))
    except Exception as x:  # noqa
        raise Bad(f"lookup of {p!r} from {w.label(e)} raised {describe_exc(x)} in {w.structure()}")
    if len(got) != len(exp) or any(a is not b for a, b in zip(got, exp)):
        raise Bad(f"lookup of {p!r} from {w.label(e)} gives {[w.label(x) for x in got]}, expected "
                  f"{[w.label(x) for x in exp]} in {w.structure()}")


def check_state(w):
    """some lookups after every operation; what they may leave behind must not show later"""
    if len(w.objs) > 12:
        return
    names = w.names
    for e in w.everything():
        ch = kids(e)
        for a in names:
            lookup(w, e, (a,))
            if any(c.id_name == a for c in ch):
                for b in names:
                    lookup(w, e, (a, b))
            else:
                lookup(w, e, (a, names[0]))


def apply_op(w, op, replay):
    exc, got = perform(w, op)
    return f"{type(exc).__name__}{len(got)}"


def main(ck):
    global DEPTH
    if ck.thorough:
        DEPTH = 4
        plan = [("mile", 1, False), ("home", 2, True), ("holder", 3, False), ("nodes", 3, True), ("nodes", 6, False), ("mixed", 3, True), ("mixed", 4, False), ("items", 3, False), ("wide", 4, False), ("deep", 3, False), ("odd", 2, False), ("big", 2, False), ("tall", 2, False), ("twin", 3, False)]
    else:
        plan = [("mile", 1, False), ("home", 2, True), ("holder", 2, False), ("nodes", 2, True), ("nodes", 4, False), ("mixed", 3, False), ("items", 2, False), ("wide", 3, False), ("deep", 2, False), ("odd", 1, True), ("big", 1, True), ("tall", 1, True), ("twin", 2, False)]
    drive(ck, plan, apply_op, check_state, check_new, worlds=c02.ALL_WORLDS)


def run_case(ck, case):
    rerun(case, apply_op, check_state, check_new, worlds=c02.ALL_WORLDS)
