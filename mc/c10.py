"""C10 hierarchical traversals."""
import math

from mc import aio, trees
from mc.core import Bad, describe_exc
from rei.foundations.hierarchical_traversal_strategies import BreadthFirstHierarchicalTraversal, DepthFirstHierarchicalTraversal, \
    DepthLimitedDepthVisitChildren, DepthLimitedBreadthVisitChildren

ASSUMPTIONS = ["the start is expanded whether or not the filter accepts it; the order of siblings in a depth-first visit is left open",
               "containment at most 300 deep in the chains (names are computed recursively by the library)"]
KINDS = [("node",), ("node", "edge", "value", "sem"), ("item",), ("edge", "node", "item"), ("node", "item")]


def cases(ck):
    n_max = 8 if ck.thorough else 6
    for n in range(1, n_max + 1):
        for t in trees.trees(n):
            par = trees.parents(t)
            for start in range(n):
                yield ["tree", par, start]
    for shape in ("chain", "star", "comb"):
        for n in (50, 300 if shape != "star" else 2000):
            yield ["big", shape, n]


def reference(ch, start, keep, limit, ignore):
    """-> breadth-first list and set"""
    order = []
    if start in keep and not ignore:
        order.append(start)
    level, d = [start], 0
    while level and d < limit:
        nxt = [c for x in level for c in ch[x] if c in keep]
        order += nxt
        level = nxt
        d += 1
    return order


def check_dfs(got, par, start, text):
    """every visited subtree is contiguous and begins with its root"""
    pos = {x: i for i, x in enumerate(got)}
    size = {}
    for x in got:
        y = x
        while True:
            size[y] = size.get(y, 0) + 1
            if y == start:
                break
            y = par[y]
    for x in got:
        span = [pos[y] for y in got if _below(par, y, x, start)]
        if min(span) != pos[x] or max(span) - min(span) + 1 != len(span):
            raise Bad(f"{text}: depth-first order {got} leaves the branch of {x} before it is finished")


def _below(par, y, x, start):
    while True:
        if y == x:
            return True
        if y == start:
            return False
        y = par[y]


STRATEGIES = [("bfs", None), ("dfs", None)] + [(s, d) for s in ("lbfs", "ldfs") for d in (0, 1, 2, 3, math.inf)]


def instance(s, d, visit, keep, ignore):
    if s == "bfs":
        return BreadthFirstHierarchicalTraversal(visit, keep, ignore)
    if s == "dfs":
        return DepthFirstHierarchicalTraversal(visit, keep, ignore)
    if s == "lbfs":
        return DepthLimitedBreadthVisitChildren(visit, keep, d, ignore)
    return DepthLimitedDepthVisitChildren(visit, keep, d, ignore)


def one(els, index, par, ch, start, keep, s, d, ignore, text, mode=0):
    visited = []

    def visit(x):
        visited.append(index[id(x)])
        return ("r", index[id(x)])

    async def avisit(x):
        visited.append(index[id(x)])
        return ("r", index[id(x)])

    tr = instance(s, d, avisit if mode == 1 else visit, lambda x: index[id(x)] in keep, ignore)
    exp = reference(ch, start, keep, math.inf if d is None else d, ignore)

    async def go():
        res = await tr.execute(els[start])
        if mode == 1:
            import asyncio
            return [await x for x in res] if d is None or d != 1 else list(await asyncio.gather(*res))
        return res
    for again in range(2 if mode == 0 else 1):
        visited.clear()
        res = aio.run(go())
        t = f"{text} strategy {s} limit {d} ignore_root {ignore} filter {sorted(keep)}" + (" (executed again)" if again else "")
        if [x[1] for x in res] != visited:
            raise Bad(f"{t}: results {res} are not in the order of visits {visited}")
        if s.endswith("bfs"):
            if visited != exp:
                raise Bad(f"{t}: visited {visited}, expected {exp}")
        else:
            if sorted(visited) != sorted(exp):
                raise Bad(f"{t}: visited {visited}, expected the set {sorted(exp)}")
            check_dfs(visited, par, start, t)
    return len(exp)


def run_case(ck, case):
    if case[0] == "big":
        return big(ck, case)
    _, par, start = case
    n = len(par)
    ch = trees.children(par)
    ck.keys.add(hash(repr(case)))
    ck.sample(case)
    for ki, kinds in enumerate(KINDS):
        # the last but one: every element has the same name; the last: only siblings have different identifiers
        els = trees.build(par, kinds, ["n"] * n if ki == 3 else None, ki == 4)
        index = {id(e): i for i, e in enumerate(els)}
        for mask in range(1 << n):
            if ki and mask not in (0, (1 << n) - 1) and bin(mask).count("1") not in (n - 1,):
                continue
            keep = {i for i in range(n) if mask >> i & 1}
            for s, d in STRATEGIES:
                for ignore in (False, True):
                    k = one(els, index, par, ch, start, keep, s, d, ignore, f"tree {par} start {start} of {kinds}", 1 if ki == 2 else 0)
                    ck.transitions += 1
                    ck.states += 1
                    ck.outcome((s, str(d), k))
    ck.traces += 1


EMPTY = [None, 0, "", False, [], ()]


def big(ck, case):
    _, shape, n = case
    if shape == "chain":
        par = list(range(-1, n - 1))
    elif shape == "star":
        par = [-1] + [0] * (n - 1)
    else:
        par = [-1] + [i - 1 if i % 2 else (i - 2 if i > 1 else 0) for i in range(1, n)]
    els = trees.build(par)
    index = {id(e): i for i, e in enumerate(els)}
    ch = trees.children(par)
    for keep in (set(range(n)), {i for i in range(n) if i % 7 != 5}):
        for s, d in STRATEGIES + [("lbfs", n // 2), ("ldfs", n // 2)]:
            for start in (0, min(n - 1, 10)):
                exp = reference(ch, start, keep, math.inf if d is None else d, False)
                got = aio.run(instance(s, d, lambda x: index[id(x)], lambda x: index[id(x)] in keep, False).execute(els[start]))
                if (got if s.endswith("bfs") else sorted(got)) != (exp if s.endswith("bfs") else sorted(exp)):
                    raise Bad(f"{case} start {start} {s} {d}: visited {len(got)} elements, expected {len(exp)}")
                seen = []

                def quiet(x):
                    seen.append(index[id(x)])
                    return EMPTY[index[id(x)] % len(EMPTY)]
                res = aio.run(instance(s, d, quiet, lambda x: index[id(x)] in keep, False).execute(els[start]))
                if seen != got or len(res) != len(seen) or any(r is not EMPTY[i % len(EMPTY)] for r, i in zip(res, seen)):
                    raise Bad(f"{case} start {start} {s} {d}: results {res} of visitors that return {[EMPTY[i % len(EMPTY)] for i in seen]}")
                ck.transitions += 1
    ck.traces += 1
