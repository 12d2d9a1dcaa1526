"""C11 searching by qualified name."""
import itertools

from mc import aio, trees
from mc.core import Bad, describe_exc
from mc.hier import World, FixedClock, kids, ALL, uid
from rei.foundations.query.search_elements import QuerySearchSubElement, QuerySearchElement
from rei.hypergraph.base_elements import HypergraphNode

ASSUMPTIONS = ["the queue the query classes share (known finding of C12) is drained before every search",
               "of several elements in reach with the asked name any one is accepted; names contain no slash"]
CLS = {"sub": QuerySearchSubElement, "all": QuerySearchElement}


def drain():
    q = QuerySearchSubElement()
    q.query_def = "~nothing~"
    aio.run(q.execute(HypergraphNode("~lone~", b"~~~~", "~", FixedClock())))


def w_twins():
    """same-named siblings with same-named children, of several kinds, and a second tree with the same names"""
    w = World()
    r = w.make("r", "node", "r")
    for k, kind, name, par in (("a", "node", "x", "r"), ("c", "edge", "x", "r"), ("b", "node", "y", "a"), ("d", "value", "y", "c"), ("v", "sem", "z", "b")):
        w.make(k, kind, name)
        w.objs[par].add_element(w.objs[k])
    w.make("s", "node", "r")
    w.make("t", "node", "x", u="a")
    w.objs["s"].add_element(w.objs["t"])
    w.may = {"r": ["b", "t", "d"], "a": ["d", "t", "c"], "c": ["b", "v"], "s": ["a", "b"], "t": ["b", "c", "d"]}
    return w


def w_chain():
    """a chain with a repeated name, and side branches"""
    w = World()
    prev = None
    for k, name in (("r", "r"), ("a", "a"), ("b", "a"), ("c", "a"), ("d", "d")):
        w.make(k, "node", name)
        if prev:
            w.objs[prev].add_element(w.objs[k])
        prev = k
    w.make("e", "node", "d")
    w.objs["a"].add_element(w.objs["e"])
    w.make("s", "node", "s")
    w.may = {"r": ["c", "d", "e"], "s": ["a", "b", "r", "e"], "e": ["b", "d", "c"], "d": ["e", "s"], "b": ["e", "s"]}
    return w


def w_tall():
    """two long chains in one tree"""
    w = World()
    w.make("r", "node", "r")
    for c in "ab":
        prev = "r"
        for i in range(11):
            w.make(f"{c}{i}", ["node", "edge"][i % 2], "n" if c == "a" else f"{'mn'[i % 2]}")
            w.objs[prev].add_element(w.objs[f"{c}{i}"])
            prev = f"{c}{i}"
    w.make("s", "node", "s")
    w.may = {"a10": ["b0", "b5", "s"], "b3": ["a5", "a9"], "s": ["a2", "r"]}
    return w


def w_broad():
    """many children with many children"""
    w = World()
    w.make("r", "node", "r")
    for i in range(12):
        w.make(f"c{i}", "node", f"n{i}" if i % 3 else "n")
        w.objs["r"].add_element(w.objs[f"c{i}"])
        for k in range(3):
            w.make(f"c{i}.{k}", "node", f"m{k}")
            w.objs[f"c{i}"].add_element(w.objs[f"c{i}.{k}"])
    w.may = {"c0": ["c11", "c5.2"], "c7.1": ["c3", "c11.0"]}
    return w


WORLDS = {"twins": w_twins, "chain": w_chain}
LARGE = {"tall": w_tall, "broad": w_broad}
BOTH = {**WORLDS, **LARGE}


def path(e):
    res = []
    while e is not None:
        res.append(e.id_name)
        e = e.parent
    return "/".join(reversed(res))


def reach(cls, start):
    if cls == "all":
        while start.parent is not None:
            start = start.parent
    res, todo = [], [start]
    while todo:
        x = todo.pop(0)
        res.append(x)
        todo += kids(x)
    return res


def search(w, q, cls, start, name, text):
    drain()
    old = q.query_result
    was = list(old)
    q.query_def = name
    before = w.observe(stamps=True)
    try:
        aio.run(q.execute(w.objs[start]))
    except Exception as e:  # noqa
        raise Bad(f"{text}: search for {name!r} from {start} raised {describe_exc(e)}")
    got = list(q.query_result)
    if len(old) != len(was) or any(a is not b for a, b in zip(old, was)):
        raise Bad(f"{text}: the result of the earlier search changed with the search for {name!r}: {[w.label(x) for x in was]} became {[w.label(x) for x in old]}")
    exp = [x for x in reach(cls, w.objs[start]) if path(x) == name]
    if not exp and got:
        raise Bad(f"{text}: {cls} search for {name!r} from {start} found {[w.label(x) for x in got]} ({[path(x) for x in got]}), which is "
                  f"not there; {w.structure()}")
    if exp and (len(got) != 1 or not any(got[0] is x for x in exp)):
        raise Bad(f"{text}: {cls} search for {name!r} from {start} found {[w.label(x) for x in got]}, expected one of "
                  f"{[w.label(x) for x in exp]}; {w.structure()}")
    if w.observe(stamps=True) != before:
        raise Bad(f"{text}: the search for {name!r} changed the graph")
    return bool(exp)


def mutations(w):
    res = []
    for p, es in w.may.items():
        for e in es:
            res.append(["add", p, e])
    for e, o in w.objs.items():
        if o.parent is not None:
            res.append(["rm", e])
    return res


def mutate(w, m):
    try:
        if m[0] == "add":
            w.objs[m[1]].add_element(w.objs[m[2]])
        else:
            o = w.objs[m[1]]
            if o.parent is not None:
                list(o.parent.remove_element(uuid=o.uuid))
    except Exception:  # noqa  refused
        return False
    return True


def names(w):
    return sorted({path(o) for o in w.objs.values()})


def cases(ck):
    for n in range(1, 7 if ck.thorough else 6):
        for t in trees.trees(n):
            for nm in itertools.product("xy", repeat=n):
                yield ["static", trees.parents(t), "".join(nm)]
    for wn in WORLDS:
        w = WORLDS[wn]()
        muts = mutations(w)
        found = [[s, n] for s in w.objs for n in names(w)]
        hits = {c: [f for f in found if any(path(x) == f[1] for x in reach(c, w.objs[f[0]]))] for c in CLS}
        for c in CLS:
            for s1 in hits[c]:
                for m1 in muts:
                    yield ["hist", wn, c, [["s", *s1], ["m", *m1]]]
            firsts = hits[c] if ck.thorough else hits[c][::5]
            for s1 in firsts:
                for m1 in muts:
                    for m2 in muts:
                        yield ["hist", wn, c, [["s", *s1], ["m", *m1], ["m", *m2]]]
                        yield ["hist", wn, c, [["m", *m1], ["s", *s1], ["m", *m2]]]


    for wn in LARGE:
        w = LARGE[wn]()
        muts = mutations(w)
        for c in CLS:
            yield ["hist", wn, c, []]
            for m in muts if ck.thorough else [x for x in muts if x[0] == "add"] + muts[::7]:
                for s in (["r", path(w.objs["c11.0" if wn == "broad" else "a10"])], ["c11" if wn == "broad" else "b7", "r"]):
                    yield ["hist", wn, c, [["s", *s], ["m", *m]]]


def static(ck, par, nm, few):
    w = World()
    w.objs = {f"n{i}": e for i, e in enumerate(trees.build(par, ("node",), list(nm), few))}
    w.names = ["x"]
    every = names(w) + ["x/zz", "", "zz", "x/x/x/x/x/x/x", "x/", "/x", "x/y/", "/", "X", " x", "x//y"]
    for cls in CLS:
        for s in w.objs:
            q = CLS[cls]()
            for n in every:
                hit = search(w, q, cls, s, n, f"tree {par} named {nm}" + (", identifiers repeated" if few else ""))
                ck.transitions += 1
                ck.outcome((cls, hit))


def run_case(ck, case):
    ck.traces += 1
    if case[0] == "static":
        _, par, nm = case
        for few in (False, True):       # True: only siblings have different identifiers
            static(ck, par, nm, few)
        ck.states += 1
        return
    _, wn, cls, hist = case
    w = BOTH[wn]()
    q = CLS[cls]()
    for i, op in enumerate(hist):
        if op[0] == "s":
            search(w, q, cls, op[1], op[2], f"{wn} after {hist[:i]}")
        elif not mutate(w, op[1:]):
            return
    ck.states += 1
    ck.sample(case)
    every = names(w) + ["r/x/zz"]
    asked = [op[1:] for op in hist if op[0] == "s"]
    for s, n in asked:
        ck.outcome((wn, cls, search(w, q, cls, s, n, f"{wn} after {hist}")))
    for s in w.objs:
        for n in every:
            search(w, q, cls, s, n, f"{wn} after {hist} and earlier searches")
            ck.transitions += 1
        if wn in LARGE or len(hist) < 3 and ck.thorough:
            for n in every:     # nothing remembered
                search(w, CLS[cls](), cls, s, n, f"{wn} after {hist}, new search object")
                ck.transitions += 1
