"""C05 bulk operations equal the sequence of single operations."""
import asyncio
import itertools

from mc.core import Bad, describe_exc, snapshot, explore, replay_history
from mc import hier, aio, core
from mc.hier import WORLDS, perform, op_menu, kids

ASSUMPTIONS = ["argument lists of up to 2 entries in all states, up to 3 in those near the start, and lists of all elements with one entry out of line; repetitions and refused entries included",
               "the caller awaits the bulk call and, if it gives an awaitable, that one, too"]
MAXLEN = 2


def flatten(x):
    if isinstance(x, (list, tuple)):
        for y in x:
            yield from flatten(y)
    elif x is not None:
        yield x


async def bulk(coro):
    exc = res = None
    try:
        res = await coro
        if asyncio.isfuture(res) or asyncio.iscoroutine(res):
            res = await res
    except Exception as e:  # noqa
        exc = e
    for _ in range(6):                 # let the rest of the group finish
        await asyncio.sleep(0)
    return exc, res


def arglists(w, p, maxlen):
    labs = [e for e in w.may[p]]
    adds = [["add", e] for e in labs]
    ch = [k for k in (w.label(x) for x in kids(w.objs[p])) if k in w.objs]
    rms = []
    for e in ch:
        rms.append(["uuid", e])
        rms.append(["both", e])
    for n in w.names[:3]:
        rms.append(["name", n])
    other = next((e for e in w.objs if e not in ch and e != p), None)
    if other:
        rms.append(["uuid", other])
        rms.append(["wrong", other])
    for n in range(0, maxlen + 1):
        for c in itertools.product(adds, repeat=n):
            yield "add", list(c)
    for n in range(0, maxlen + 1):
        for c in itertools.product(rms, repeat=n):
            yield "rm", list(c)


def long_lists(w, p):
    """everything at once, with at most two refused entries in between"""
    if len(w.objs) < 20 or p not in ("r", "s"):
        return
    good = [e for e in w.objs if e[0] == "c"]
    if p == "s":
        for k in range(len(good)):
            rot = good[k:] + good[:k]
            for bad in ([], [p], [rot[0]], ["r"]):
                for i in range(0, len(rot) + 1, 2 if bad else 99):
                    yield "add", [["add", e] for e in rot[:i] + bad + rot[i:]]
    else:
        for way in ("uuid", "both"):
            for k in range(len(good)):
                rot = [[way, e] for e in good[k:] + good[:k]]
                for bad in ([], [["uuid", "s"]], [["wrong", "c3"]], [["name", "w"]], [rot[0]]):
                    for i in range(0, len(rot) + 1, 2 if bad else 99):
                        yield "rm", rot[:i] + bad + rot[i:]


def entry(w, a):
    k, e = a
    if k == "uuid":
        return "", w.objs[e].uuid
    if k == "both":
        return w.objs[e].id_name, w.objs[e].uuid
    if k == "wrong":
        return "zz", w.objs[e].uuid
    return e, None


def single(w, p, kind, args):
    first, got = None, []
    entries = [w.objs[a[1]] for a in args] if kind == "add" else [entry(w, a) for a in args]
    for x in entries:
        try:
            if kind == "add":
                w.objs[p].add_element(x)
            else:
                got += list(w.objs[p].remove_element(x[0], x[1]))
        except Exception as e:  # noqa
            first = first or e
    return first, [w.label(x) for x in got]


def fresh(build, hist):
    core.progress()
    w = build()
    for h in hist:
        perform(w, h)
    return w


def compare(build, hist, p, kind, args, how):
    w1, w2 = fresh(build, hist), fresh(build, hist)
    exc1, got1 = single(w1, p, kind, args)
    obj = w2.objs[p]
    entries = [w2.objs[a[1]] for a in args] if kind == "add" else [entry(w2, a) for a in args]
    it = iter(entries) if how == "iter" else tuple(entries) if how == "tuple" else entries
    exc2, res = aio.run(bulk(obj.add_elements(it) if kind == "add" else obj.remove_elements(it)))
    text = f"{kind}_elements({args}) on {p} after {hist}"
    o1, o2 = w1.observe(), w2.observe()
    if o1 != o2:
        k = next(k for k in o1 if o1[k] != o2.get(k))
        raise Bad(f"{text}: {k} is {o2.get(k)} but {o1[k]} after the single operations")
    if type(exc1) is not type(exc2):
        raise Bad(f"{text} reported {describe_exc(exc2) if exc2 else None}, the single operations {describe_exc(exc1) if exc1 else None}")
    if kind == "rm" and exc2 is None:
        got2 = [w2.label(x) for x in flatten(res)]
        if got2 != got1:
            raise Bad(f"{text} gave {got2}, the single operations {got1}")
    if snapshot(w1.objs.values()) != snapshot(w2.objs.values()):
        # hidden difference: is it visible in the next single operation?
        for op in op_menu(w1):
            a, b = fresh(build, hist), fresh(build, hist)
            single(a, p, kind, args)
            obj = b.objs[p]
            entries = [b.objs[x[1]] for x in args] if kind == "add" else [entry(b, x) for x in args]
            aio.run(bulk(obj.add_elements(entries) if kind == "add" else obj.remove_elements(entries)))
            ra, rb = perform(a, op), perform(b, op)
            if type(ra[0]) is not type(rb[0]) or a.observe() != b.observe():
                raise Bad(f"{text}: a following {op} behaves differently than after the single operations")
    return f"{kind}{len(args)}:{type(exc1).__name__}"


def bulks(w, p):
    """some bulk calls on p"""
    labs = w.may[p]
    ch = [k for k in (w.label(x) for x in kids(w.objs[p])) if k in w.objs]
    for n in (1, 2):
        for c in itertools.permutations(labs[:3], n):
            yield "add", [["add", e] for e in c]
        for c in itertools.permutations(ch[:3], n):
            yield "rm", [["uuid", e] for e in c]
    yield "rm", [["name", n] for n in w.names[:2]]
    yield "add", [["add", p]]


async def together(coros):
    return await asyncio.gather(*[bulk(c) for c in coros])


def series(build, hist, calls, how):
    """bulk calls one after the other (the later ones are given after the earlier ones were awaited) or at the same time"""
    w1, w2 = fresh(build, hist), fresh(build, hist)
    res1 = [single(w1, *c) for c in calls]

    def coro(p, kind, args):
        obj = w2.objs[p]
        entries = [w2.objs[a[1]] for a in args] if kind == "add" else [entry(w2, a) for a in args]
        return obj.add_elements(entries) if kind == "add" else obj.remove_elements(entries)
    if how == "after":
        res2 = [aio.run(bulk(coro(*c))) for c in calls]
    else:
        res2 = aio.run(together([coro(*c) for c in calls]))
    text = f"{calls} after {hist}" + (" at the same time" if how != "after" else "")
    o1, o2 = w1.observe(), w2.observe()
    if o1 != o2:
        k = next(k for k in o1 if o1[k] != o2.get(k))
        raise Bad(f"{text}: {k} is {o2.get(k)} but {o1[k]} after the single operations")
    for (exc1, got1), (exc2, res), c in zip(res1, res2, calls):
        if type(exc1) is not type(exc2):
            raise Bad(f"{text}: {c} reported {describe_exc(exc2) if exc2 else None}, the single operations {describe_exc(exc1) if exc1 else None}")
        if c[1] == "rm" and exc2 is None and [w2.label(x) for x in flatten(res)] != got1:
            raise Bad(f"{text}: {c} gave {[w2.label(x) for x in flatten(res)]}, the single operations {got1}")


def all_series(ck, build, hist, w):
    ps = [p for p in w.may if hasattr(w.objs[p], "add_elements")]
    for p in ps:
        for kind, args in bulks(w, p):
            for q in ps:
                w2 = fresh(build, hist)
                single(w2, p, kind, args)
                for kind2, args2 in bulks(w2, q):
                    series(build, hist, [(p, kind, args), (q, kind2, args2)], "after")
                    ck.transitions += 1
                if q == p:
                    continue
                for kind2, args2 in bulks(w, q):
                    # calls which have nothing in common: other containers, elements and former containers
                    if disjoint(w, (p, kind, args), (q, kind2, args2)):
                        series(build, hist, [(p, kind, args), (q, kind2, args2)], "together")
                        ck.transitions += 1


def touched(w, call):
    p, kind, args = call
    res = {p}
    for a in args:
        els = [e for e, o in w.objs.items() if o.id_name == a[1]] if a[0] == "name" else [a[1]]
        for e in els:
            res.add(e)
            res |= {k for k, o in w.objs.items() if o is w.objs[e].parent}
    for e in list(res):     # with everything around
        res |= {k for k, o in w.objs.items() if k != e and k != p and w.is_ancestor_or_self(o, w.objs[e]) and o.parent is not None}
    return res


def disjoint(w, a, b):
    return not touched(w, a) & touched(w, b)


def make(ck, wname):
    build = WORLDS[wname]

    def check_new(w):
        if len(w.hist) < (2 if MAXLEN > 2 and core.CURRENT.thorough else 1) and len(w.objs) < 12:
            all_series(core.CURRENT, build, w.hist, w)
        for p in w.may:
            if not hasattr(w.objs[p], "add_elements"):
                continue
            for kind, args in arglists(w, p, MAXLEN):
                core.CURRENT.outcome(compare(build, w.hist, p, kind, args, "list"))
                core.CURRENT.transitions += 1
            for kind, args in long_lists(w, p):
                core.CURRENT.outcome(compare(build, w.hist, p, kind, args, "list"))
                core.CURRENT.transitions += 1
            for kind, args in arglists(w, p, 2):
                # whatever may be gone through once
                if len(args) == 2 and len(w.hist) < 2:
                    compare(build, w.hist, p, kind, args, "iter")
                    compare(build, w.hist, p, kind, args, "tuple")
    return check_new


def apply_op(w, op, replay):
    perform(w, op)


def nothing(w):
    pass


def main(ck):
    global MAXLEN
    few = [("items", 1), ("odd", 0), ("big", 0), ("tall", 0)]
    if ck.thorough:
        plan = [(2, [("holder", 2), ("nodes", 3), ("mixed", 2), ("wide", 2), *few]), (3, [("holder", 1), ("nodes", 2), ("mixed", 1), ("wide", 0)])]
    else:
        plan = [(2, [("holder", 1), ("nodes", 2), ("mixed", 1), ("wide", 1), *few]), (3, [("nodes", 0), ("wide", 0)])]
    for MAXLEN, worlds in plan:
        for wn, depth in worlds:
            explore(ck, wn + "3" * (MAXLEN > 2), WORLDS[wn], op_menu, apply_op, nothing, depth, lambda w: list(w.objs.values()), make(ck, wn))
            if ck.violations:
                return


def run_case(ck, case):
    global MAXLEN
    MAXLEN = 3
    wn = case["world"].rstrip("3~")
    replay_history(WORLDS[wn], apply_op, nothing, make(ck, wn), case["history"])
