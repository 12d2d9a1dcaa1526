"""C07 incidence of edges: relations, endpoints, ports."""
import numpy as np

from mc.conn import *  # noqa
from mc import conn

ASSUMPTIONS = ["a relation moved to another edge belongs to that edge and keeps its endpoint's port; its endpoint is not connected again", "ports are removed through disconnect only; an endpoint is not reconnected while it still has the port of a removed relation; "
               "identifiers of the endpoints are distinct"]


def ids(l):
    return [id(x) for x in l]


def used(w):
    """semantic values that belong to a relation, present or removed"""
    return getattr(w, "usedup", set())


def check_state(w):
    for e in w.edges:
        o = w.objs[e]
        m = w.model[e]
        rels = list(o.sub_relations)
        if ids(rels) != ids([x[4] for x in m]):
            raise Bad(f"edge {e} has relations {[w.label(x) for x in rels]}, expected {[(x[0], x[1]) for x in m]}")
        if ids(o.induced_subset) != ids([w.objs[x[0]] for x in m]):
            raise Bad(f"edge {e} links {[w.label(x) for x in o.induced_subset]}, expected {[x[0] for x in m]}")
        if ids(o.get_incoming_relations()) != ids([x[4] for x in m if x[1] != "out"]):
            raise Bad(f"incoming relations of {e} are {[w.label(x) for x in o.get_incoming_relations()]}, expected "
                      f"{[(x[0], x[1]) for x in m if x[1] != 'out']}")
        if ids(o.get_outgoing_relations()) != ids([x[4] for x in m if x[1] != "in"]):
            raise Bad(f"outgoing relations of {e} are {[w.label(x) for x in o.get_outgoing_relations()]}, expected "
                      f"{[(x[0], x[1]) for x in m if x[1] != 'in']}")
        for p, d, v, s, r in m:
            t = f"relation of {e} to {p}"
            if r.endpoint is not w.objs[p]:
                raise Bad(f"{t} leads to {w.label(r.endpoint)}")
            if r.direction != DIRS[d]:
                raise Bad(f"{t} has direction {r.direction!r}, expected {DIRS[d]!r}")
            if r.parent is not o:
                raise Bad(f"{t} is contained in {w.label(r.parent)}")
            if r.weight is not (None if v is None else w.objs[v]):
                raise Bad(f"{t} has weight {w.label(r.weight)}, expected {v}")
            if r.semantic_value_node is not (None if s is None else w.objs[s]):
                raise Bad(f"{t} has semantic value {w.label(r.semantic_value_node)}, expected {s}")
            if ids(kids(r)) != ([] if s is None else [id(w.objs[s])]):
                raise Bad(f"{t} contains {[w.label(x) for x in kids(r)]}, expected {s}")
            inc = r.relation_incidence_value
            if np.asarray(inc).tolist() != INC[d]:
                raise Bad(f"{t} ({d}) has incidence {inc}")
            inc[:] = 7.0
            if np.asarray(r.relation_incidence_value).tolist() != INC[d]:
                raise Bad(f"writing to a copy of the incidence of {t} changed it")
    uu = [x[4].uuid for e in w.edges for x in w.model[e]]
    if len(set(uu)) != len(uu):
        raise Bad("two relations share an identifier")
    for p in w.points:
        o = w.objs[p]
        ports = list(o.sub_ports)
        if ids([x.endpoint for x in ports]) != ids(w.ports[p]):
            raise Bad(f"ports of {p} lead to {[w.label(x.endpoint) for x in ports]}, expected {[w.label(x) for x in w.ports[p]]}")
        if any(x.parent is not o for x in ports):
            raise Bad(f"a port of {p} is contained elsewhere")
        rest = [x for x in kids(o) if not isinstance(x, (HypergraphPort, HypergraphRelation))]
        # what was there before, but for semantic values which moved to a relation
        within = [w.objs[x] for x in getattr(w, "within", {}).get(p, []) if not (x in w.sems and x in used(w))]
        if ids(rest) != ids(within):
            raise Bad(f"{p} contains {[w.label(x) for x in rest]}")
        if p not in w.edges and ids(kids(o)) != ids(within + ports):
            raise Bad(f"{p} contains {[w.label(x) for x in kids(o)]}, its ports are {[w.label(x) for x in ports]}")


def apply_op(w, op, replay):
    o = w.objs
    if op[0] == "connect":
        _, e, p, d, v, s = op
        dup = w.rel(e, p) is not None
        n = len(list(o[e].sub_relations))
        exc, _ = conn_perform(w, op)
        if dup:
            if exc is None and not replay:
                raise Bad(f"{op}: second connection of one endpoint was accepted, model {w.model}")
            return "refused"
        if exc is not None:
            raise Bad(f"{w.hist}: connect raised {describe_exc(exc)}")
        rels = list(o[e].sub_relations)
        if len(rels) != n + 1:
            raise Bad(f"{w.hist}: the edge has {len(rels)} relations, expected {n + 1}")
        r = rels[-1]
        w.model[e].append((p, d, v, s, r))
        if s is not None:
            w.usedup = getattr(w, "usedup", set()) | {s}
        w.ports[p].append(r)
        return "connected"
    if op[0] == "disconnect":
        _, e, p = op
        r = w.rel(e, p)
        has = any(x is r for x in w.ports[p])
        exc, _ = conn_perform(w, op)
        if has:
            if exc is not None:
                raise Bad(f"{w.hist}: disconnect raised {describe_exc(exc)}")
            w.ports[p] = [x for x in w.ports[p] if x is not r]
        elif exc is None and not replay:
            raise Bad(f"{w.hist}: disconnecting a relation without a port did not raise")
        return f"disconnect{has}"
    if op[0] == "rm_rel":
        _, e, p, how = op
        r = w.rel(e, p)
        exc, got = conn_perform(w, op)
        if exc is not None:
            raise Bad(f"{w.hist}: removing a relation raised {describe_exc(exc)}")
        hit = [r] if how != "name" else [x[4] for x in w.model[e] if x[4].id_name == r.id_name]
        if ids(got) != ids(hit):
            raise Bad(f"{w.hist}: removal yielded {[w.label(x) for x in got]}, expected {[w.label(x) for x in hit]}")
        if any(x.parent is not None for x in hit):
            raise Bad(f"{w.hist}: a removed relation still has a parent")
        w.model[e] = [x for x in w.model[e] if not any(x[4] is y for y in hit)]
        w.gone = getattr(w, "gone", []) + [(e, x) for x in hit]
        return f"removed{len(hit)}"
    if op[0] == "disc_gone":
        _, p, i = op
        r = w.gone[i][1]
        w.hist.append(op)
        try:
            w.objs[p].disconnect(r)
        except Exception as x:  # noqa
            raise Bad(f"{w.hist}: disconnecting a removed relation raised {describe_exc(x)}")
        w.ports[p] = [x for x in w.ports[p] if x is not r]
        return op[0]
    if op[0] == "mv_rel":
        _, e, p, f = op
        w.hist.append(op)
        c = next(x for x in w.model[e] if x[0] == p)
        try:
            o[f].add_element(c[4])
        except Exception as x:  # noqa
            raise Bad(f"{w.hist}: moving a relation to another edge raised {describe_exc(x)}")
        w.model[e] = [x for x in w.model[e] if x is not c]
        w.model[f].append(c)
        w.moved = getattr(w, "moved", set()) | {p}
        return op[0]
    exc, _ = conn_perform(w, op)
    if exc is not None:
        raise Bad(f"{w.hist}: {op} raised {describe_exc(exc)}")
    return op[0]


def menu(w):
    ops = []
    moved = getattr(w, "moved", set())
    for op in conn_menu(w):
        # an endpoint whose relation went to another edge is not connected again
        if op[0] == "connect" and op[2] in moved:
            continue
        if op[0] == "connect" and w.rel(op[1], op[2]) is None:
            # the endpoint still has the port of a removed relation of this edge
            if any(e == op[1] and any(x is r for x in w.ports[op[2]]) for e, r in getattr(w, "gone", [])):
                continue
        ops.append(op)
    for i, (e, r) in enumerate(getattr(w, "gone", [])):
        for p in w.points:
            if any(x is r for x in w.ports[p]):
                ops.append(["disc_gone", p, i])
    for e in w.edges:
        for x in w.model[e]:
            for f in w.edges:
                if f not in (e, x[0]) and w.rel(f, x[0]) is None:
                    ops.append(["mv_rel", e, x[0], f])
    return ops



def main(ck):
    from mc.core import explore
    plan = [("inner", 4), ("linked", 4), ("names", 4), ("edges", 4), ("one", 4)] if ck.thorough else [("inner", 3), ("linked", 3), ("names", 3), ("edges", 3), ("one", 3)]
    for wn, depth in plan:
        explore(ck, wn, CONN_WORLDS[wn], menu, apply_op, check_state, depth, lambda w: w.roots())
        if ck.violations:
            return


def run_case(ck, case):
    from mc.core import replay_history
    replay_history(CONN_WORLDS[case["world"]], apply_op, check_state, None, case["history"])
