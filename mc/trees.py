"""All ordered rooted trees, and real containment trees built from them."""
import functools

from mc.hier import FixedClock, uid
from rei.foundations.conceptual_item import ConceptualItem
from rei.hypergraph.base_elements import HypergraphNode, HypergraphEdge
from rei.hypergraph.value_node import ValueNode, SemanticValueNode


@functools.lru_cache(None)
def forests(n):
    """ordered forests with n vertices: nested tuples of children"""
    if n == 0:
        return [()]
    res = []
    for k in range(1, n + 1):
        for first in forests(k - 1):
            for rest in forests(n - k):
                res.append((first,) + rest)
    return res


def trees(n):
    return forests(n - 1)


def parents(t):
    """preorder parent vector of a nested-tuple tree"""
    res = []

    def go(node, par):
        i = len(res)
        res.append(par)
        for c in node:
            go(c, i)
    go(t, -1)
    return res


def make(kind, i, clock, name=None, u=None):
    name = name or f"n{i}"
    u = u or uid(f"u{i}")
    if kind == "item":
        return ConceptualItem(name, u, "f/" + name, clock)
    if kind == "node":
        return HypergraphNode(name, u, "f/" + name, clock)
    if kind == "edge":
        return HypergraphEdge(name, u, "f/" + name, clock)
    if kind == "value":
        return ValueNode(u, name, "f/" + name, [float(i)] * (i % 3))
    return SemanticValueNode(u, name, "f/" + name, None, {"i": i})


def build(par, kinds=("node",), names=None, few_ids=False):
    """elements of a real tree in preorder; children are added in order; few_ids: only siblings have different identifiers"""
    c = FixedClock()
    u = [uid(f"i{par[:i].count(p)}") if few_ids else None for i, p in enumerate(par)]
    els = [make(kinds[i % len(kinds)], i, c, names[i] if names else None, u[i]) for i in range(len(par))]
    for i, p in enumerate(par):
        if p >= 0:
            els[p].add_element(els[i])
    return els


def children(par):
    ch = [[] for _ in par]
    for i, p in enumerate(par):
        if p >= 0:
            ch[p].append(i)
    return ch


def shapes(n):
    """parent vectors beyond the sizes enumerated in full: chain, star, broom, comb, binary, two levels"""
    yield "chain", list(range(-1, n - 1))
    yield "star", [-1] + [0] * (n - 1)
    yield "broom", [max(i - 1, -1) if i < n // 2 else n // 2 - 1 for i in range(n)]
    yield "comb", [-1] + [i - 1 if i % 2 else (i - 2 if i > 1 else 0) for i in range(1, n)]
    yield "binary", [-1] + [(i - 1) // 2 for i in range(1, n)]
    yield "levels", [-1] + [0 if i <= 3 else 1 + i % 3 for i in range(1, n)]
