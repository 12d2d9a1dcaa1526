"""C03 refused operations change nothing."""
from mc.core import Bad, describe_exc, snapshot, explore, replay_history
from mc import hier, conn, c07
from mc.hier import WORLDS, classify, perform, op_menu, kids
from rei.factories.abstract_factory import ErrorInsufficientValues
from rei.factories.foundation_factory import HypergraphFactory
from rei.foundations.common_errors import ErrorDuplicateElement, ErrorRecursiveHierarchy, ErrorInvalidQuery
from rei.hypergraph.common_definitions import EnumRelationDirection as D

ASSUMPTIONS = ["removal of something absent may raise or not, but has to leave everything as it is",
               "where a refused operation leaves a hidden trace, all single continuations are compared with those of an untouched twin"]


def twin(build, replay, roots_observe, menu, hist, op, attempt):
    """hidden state differs after the refused op: is it visible in the next operation?"""
    w = build()
    for h in hist:
        replay(w, h)
    for op2 in menu(w):
        res = []
        for refused in (False, True):
            x = build()
            for h in hist:
                replay(x, h)
            if refused:
                attempt(x, op)
            out = replay(x, op2)
            res.append((out, norm(roots_observe(x), x)))
        if res[0] != res[1]:
            raise Bad(f"after {hist} the refused {op} changes what {op2} does: {res[0][0]} without, {res[1][0]} with it, "
                      f"or the state after it")


def norm(obs, w):
    return repr(obs)


# ------------------------------------------------------------ containment

def h_outcome(w, op):
    exc, got = perform(w, op)
    return type(exc).__name__, [w.label(x) for x in got]


def h_apply(wname):
    def apply_op(w, op, replay):
        if replay:
            perform(w, op)
            return None
        verdict, _ = classify(w, op)
        if verdict not in ("refuse", "noop"):
            perform(w, op)
            return None
        text = hier.show(w, op)
        want = None
        if op[0] == "rm_none":
            want = (ErrorInvalidQuery,)
        elif verdict == "refuse":
            p, e = (op[1], op[2]) if op[0] == "add" else (op[2], op[1])
            want = ()
            if w.is_ancestor_or_self(w.objs[e], w.objs[p]):
                want += (ErrorRecursiveHierarchy,)
            if any(x.uuid == w.objs[e].uuid for x in kids(w.objs[p])):
                want += (ErrorDuplicateElement,)
        hist = list(w.hist)
        before, deep = w.observe(stamps=True), snapshot(w.objs.values())
        exc, got = perform(w, op)
        w.hist.pop()
        after = w.observe(stamps=True)
        if after != before:
            diff = [k for k in before if before[k] != after.get(k)] + [k for k in after if k not in before]
            raise Bad(f"refused {text} changed {diff[0]}: {before.get(diff[0])} -> {after.get(diff[0])}")
        if got:
            raise Bad(f"{text} matches nothing but yielded {[w.label(x) for x in got]}")
        if want is not None and not isinstance(exc, want):
            raise Bad(f"{text} gave {type(exc).__name__} instead of {[x.__name__ for x in want]}")
        if snapshot(w.objs.values()) != deep:
            twin(WORLDS[wname.rstrip("~")], h_outcome, lambda x: x.observe(), op_menu, hist, op, h_outcome)
        return f"{verdict}:{type(exc).__name__}"
    return apply_op


# ------------------------------------------------------------ edges and builders

def c_menu(w):
    ops = c07.menu(w)
    bad = []
    for e in w.edges:
        for p in w.points:
            if p == e:
                continue
            if w.rel(e, p) is not None:
                for d in conn.DIRS:
                    bad.append(["!connect", e, p, d, None, None])
                for v in w.weights:
                    bad.append(["!connect", e, p, "out", v, None])
                for s in w.sems:
                    bad.append(["!connect", e, p, "bi", None, s])       # also one that is contained elsewhere
        for x in w.model[e]:
            for p in w.points:
                if p != x[0]:
                    bad.append(["!disconnect", e, x[0], p])         # relation of x[0], asked of p
            bad.append(["!disconnect", e, x[0], x[0]])
            bad.append(["!rm_both", e, x[0]])
            for f in w.edges:
                if f != e:
                    bad.append(["!rm_other", f, e, x[0]])
        bad.append(["!rm_name", e])
        bad.append(["!rm_none", e])
    for e, r in getattr(w, "gone", []):
        for p in w.points:
            if any(x is r for x in w.ports[p]) and w.rel(e, p) is None:
                for d in conn.DIRS:
                    bad.append(["?stale", e, p, d, None, None])
                    for s in w.sems:
                        bad.append(["?stale", e, p, d, None, s])
    n = len(w.points)
    for k in range(0, n + 3):
        if k != n:
            bad.append(["!nodes", k])
        for i in range(n + 1):
            if k != n:
                bad.append(["!2factor", i, k])
    return bad + ops


def refused(w, op):
    o = w.objs
    fac = HypergraphFactory("fac", w.clock)
    pts = [o[p] for p in w.points]
    vals = [o[w.weights[0]] if w.weights else None] * 9
    k = op[0]
    try:
        if k in ("!connect", "?stale"):
            _, e, p, d, v, s = op
            o[e].unary_connect(o[p], None if v is None else o[v], conn.DIRS[d], None if s is None else o[s])
        elif k == "!disconnect":
            o[op[3]].disconnect(w.rel(op[1], op[2]))
        elif k == "!rm_both":
            list(o[op[1]].remove_element("zz", w.rel(op[1], op[2]).uuid))
        elif k == "!rm_other":
            list(o[op[1]].remove_element(uuid=w.rel(op[2], op[3]).uuid))
        elif k == "!rm_name":
            list(o[op[1]].remove_element("zz"))
        elif k == "!rm_none":
            list(o[op[1]].remove_element())
        elif k == "!nodes":
            fac.connect_nodes(w.r, "new", pts, D.OUTWARDS, vals[:op[1]])
        elif k == "!2factor":
            fac.connect_2factor_edges(w.r, "new", pts[:op[1]], pts[op[1]:], (D.INWARDS, D.OUTWARDS), vals[:op[2]])
    except Exception as x:  # noqa
        return x
    return None


WANT = {"!connect": ErrorDuplicateElement, "!rm_none": ErrorInvalidQuery, "!nodes": ErrorInsufficientValues, "!2factor": ErrorInsufficientValues}


def c_outcome(w, op):
    if op[0].startswith("!"):
        return type(refused(w, op)).__name__
    exc, got = c_do(w, op)
    return type(exc).__name__, [w.label(x) for x in got]


def c_do(w, op):
    try:
        return None, [c07.apply_op(w, op, True)] and []
    except Exception as x:  # noqa
        return x, []


def named(w):
    """observation with labels instead of object identities (for twins)"""
    return [[w.label(o), w.label(o.parent), [w.label(x) for x in kids(o)], o.qualified_name, o.depth] for o in w.objs.values()]


def c_apply(wname):
    def apply_op(w, op, replay):
        if op[0] == "?stale":
            # the endpoint still has the port of a removed relation: accepted or refused, but never half done
            if replay:
                return None
            x = conn.CONN_WORLDS[wname]()
            for h in w.hist:
                c07.apply_op(x, h, True)
            before = x.observe()
            exc = refused(x, op)
            if exc is not None and x.observe() != before:
                raise Bad(f"refused {op} after {w.hist} changed the state")
            return f"stale:{type(exc).__name__}"
        if not op[0].startswith("!"):
            try:
                c07.apply_op(w, op, True)
            except Bad:
                pass                        # that is C07's matter
            return None
        if replay:
            refused(w, op)
            return None
        if op[0] == "!disconnect" and op[2] == op[3] and any(x is w.rel(op[1], op[2]) for x in w.ports[op[3]]):
            return "n/a"
        hist = list(w.hist)
        before, deep = w.observe(), snapshot(w.roots())
        exc = refused(w, op)
        after = w.observe()
        if before != after:
            d = next((a, b) for a, b in zip(before + [None] * 9, after + [None] * 9) if a != b)
            raise Bad(f"refused {op} after {hist} changed the state: {d[0]} -> {d[1]}")
        if op[0] in WANT and not isinstance(exc, WANT[op[0]]):
            raise Bad(f"{op} after {hist} gave {describe_exc(exc) if exc else 'no error'} instead of {WANT[op[0]].__name__}")
        if snapshot(w.roots()) != deep:
            twin(conn.CONN_WORLDS[wname], c_outcome, named, c_menu, hist, op, c_outcome)
        return f"{op[0]}:{type(exc).__name__}"
    return apply_op


def nothing(w):
    pass


def main(ck):
    if ck.thorough:
        hp = [("holder", 3, True), ("nodes", 4, True), ("nodes", 6, False), ("mixed", 3, True), ("mixed", 4, False), ("items", 3, False), ("wide", 4, False), ("odd", 2, False), ("big", 2, False), ("tall", 2, False)]
        cp = [("names", 3), ("edges", 4), ("one", 3), ("stale", 4)]
    else:
        hp = [("holder", 2, True), ("holder", 3, False), ("nodes", 2, True), ("nodes", 4, False), ("mixed", 3, False), ("items", 2, False), ("wide", 3, False), ("odd", 1, True), ("big", 1, True), ("tall", 1, True)]
        cp = [("names", 2), ("edges", 2), ("one", 2), ("stale", 3)]
    for wn, depth, exact in hp:
        explore(ck, wn + ("" if exact else "~"), WORLDS[wn], op_menu, h_apply(wn), nothing, depth, lambda w: list(w.objs.values()),
                key=None if exact else hier.okey)
        if ck.violations:
            return
    for wn, depth in cp:
        explore(ck, "conn:" + wn, conn.CONN_WORLDS[wn], c_menu, c_apply(wn), nothing, depth, lambda w: w.roots())
        if ck.violations:
            return


def run_case(ck, case):
    n = case["world"].rstrip("~")
    if n.startswith("conn:"):
        n = n[5:]
        replay_history(conn.CONN_WORLDS[n], c_apply(n), nothing, None, case["history"])
    else:
        replay_history(WORLDS[n], h_apply(n), nothing, None, case["history"])
