"""C01 containment forest."""
from mc.hier import *  # noqa
from mc import hier
from rei.hypergraph.base_elements import HypergraphNode, HypergraphEdge, HypergraphRelation, HypergraphPort, HypergraphElement
from rei.hypergraph.value_node import ValueNode

ASSUMPTIONS = ["worlds of 5-8 elements; operations through the public methods; name lookups in a removal generator are consumed or abandoned after one element"]


def is_(o, l):
    return any(o is x for x in l)


def check_state(w):
    alls = w.everything()
    where = {}
    for e in alls:
        ch = kids(e)
        lab = w.label(e)
        if len({id(x) for x in ch}) != len(ch):
            raise Bad(f"{lab} lists a child twice: {[w.label(x) for x in ch]}")
        if len({x.uuid for x in ch}) != len(ch):
            raise Bad(f"{lab} contains two children with one identifier")
        for c in ch:
            where.setdefault(id(c), []).append(e)
            if c.parent is not e:
                raise Bad(f"{w.label(c)} is listed in {lab} but its parent is {w.label(c.parent)}")
        if hasattr(e, "cnt_subelements") and e.cnt_subelements != len(ch):
            raise Bad(f"{lab} counts {e.cnt_subelements} children but lists {len(ch)}")
        names = set(w.names) | {x.id_name for x in alls}
        for n in sorted(names):
            if "/" in n:
                continue
            got = list(e.get_element_by_id_name(n))
            exp = [x for x in ch if x.id_name == n]
            if [id(x) for x in got] != [id(x) for x in exp]:
                raise Bad(f"lookup of {n!r} in {lab} gives {[w.label(x) for x in got]}, children are "
                          f"{[(w.label(x), x.id_name) for x in ch]}")
        if len({x.cid for x in ch}) != len(ch):
            raise Bad(f"children of {lab} share a context id: {[(w.label(x), x.cid) for x in ch]}")
        if isinstance(e, HypergraphNode):
            for x in alls:
                exp = next((c for c in ch if c.uuid == x.uuid), None)
                try:
                    got = e[x.uuid]
                except KeyError:
                    got = None
                if got is not exp:
                    raise Bad(f"lookup of the identifier of {w.label(x)} in {lab} gives {w.label(got)}")
            for attr, cls in (("sub_nodes", HypergraphNode), ("sub_edges", HypergraphEdge), ("sub_values", ValueNode)):
                if [id(x) for x in getattr(e, attr)] != [id(x) for x in ch if isinstance(x, cls)]:
                    raise Bad(f"{attr} of {lab} disagrees with its children")
        if isinstance(e, HypergraphEdge) and \
                [id(x) for x in e.sub_relations] != [id(x) for x in ch if isinstance(x, HypergraphRelation)]:
            raise Bad(f"sub_relations of {lab} disagrees with its children")
        if isinstance(e, HypergraphElement) and \
                [id(x) for x in e.sub_ports] != [id(x) for x in ch if isinstance(x, HypergraphPort)]:
            raise Bad(f"sub_ports of {lab} disagrees with its children")
    for e in alls:
        cont = where.get(id(e), [])
        if e.parent is None and cont:
            raise Bad(f"{w.label(e)} has no parent but is listed in {[w.label(x) for x in cont]}")
        if e.parent is not None and (len(cont) != 1 or cont[0] is not e.parent):
            raise Bad(f"parent of {w.label(e)} is {w.label(e.parent)} but it is listed in {[w.label(x) for x in cont]}")
        w.is_ancestor_or_self(None, e)


def apply_op(w, op, replay):
    if replay:
        perform(w, op)
        return None
    verdict, delta = classify(w, op)
    children, _ = pre(w)
    text = show(w, op)
    exc, got = perform(w, op)
    if verdict == "ok":
        if exc is not None:
            raise Bad(f"{text} raised {describe_exc(exc)}")
        exp = {k: [x for x in v if x not in [d[0] for d in delta]] for k, v in children.items()}
        for e, p in delta:
            if p is not None:
                exp[p].append(e)
        if op[0].startswith("rm") and [w.label(x) for x in got] != [d[0] for d in delta]:
            raise Bad(f"{text} yielded {[w.label(x) for x in got]}, expected {[d[0] for d in delta]}")
        for k, o in w.objs.items():
            now = [w.label(x) for x in kids(o)]
            for e, p in delta:
                if e == k and p is not None:
                    now = port_of(w, now, children[k], e, p)
            if now != exp[k]:
                raise Bad(f"after {text} the children of {k} are {now}, expected {exp[k]}")
        for e, p in delta:
            if w.label(w.objs[e].parent) != p:
                raise Bad(f"after {text} the parent of {e} is {w.label(w.objs[e].parent)}, expected {p}")
    elif verdict == "partial":
        if exc is not None:
            raise Bad(f"{text} raised {describe_exc(exc)}")
        hits = [d[0] for d in delta]
        if [w.label(x) for x in got] != hits[:1]:
            raise Bad(f"{text} yielded {[w.label(x) for x in got]} first, expected {hits[0]}")
        if got[0].parent is not None:
            raise Bad(f"{text}: the yielded element still has a parent")
        p = op[1]
        for k, o in w.objs.items():
            now = [w.label(x) for x in kids(o)]
            exp = [x for x in children[k] if k != p or x != hits[0]]
            if k == p:
                now = [x for x in now if x not in hits]
                exp = [x for x in exp if x not in hits]
            if now != exp:
                raise Bad(f"after {text} the children of {k} are {now}, expected {exp}")
    elif verdict == "noop":
        if got:
            raise Bad(f"{text} yielded {[w.label(x) for x in got]} although nothing matches")
        for k, o in w.objs.items():
            now = [w.label(x) for x in kids(o)]
            if now != children[k]:
                raise Bad(f"{text} matches nothing but the children of {k} changed from {children[k]} to {now}")
    return f"{verdict}:{type(exc).__name__}"


def main(ck):
    if ck.thorough:
        plan = [("mile", 2, False), ("home", 3, True), ("holder", 3, True), ("holder", 5, False), ("nodes", 4, True), ("nodes", 6, False), ("mixed", 3, True), ("mixed", 5, False), ("items", 4, False), ("wide", 4, True),
                ("wide", 5, False), ("odd", 2, False), ("big", 2, False), ("tall", 2, False)]
    else:
        plan = [("mile", 1, False), ("home", 2, True), ("holder", 2, True), ("holder", 3, False), ("nodes", 2, True), ("nodes", 4, False), ("mixed", 2, True), ("mixed", 3, False), ("items", 2, False), ("wide", 2, True),
                ("wide", 3, False), ("odd", 1, True), ("big", 1, True), ("tall", 1, True)]
    drive(ck, plan, apply_op, check_state)


def run_case(ck, case):
    rerun(case, apply_op, check_state)
