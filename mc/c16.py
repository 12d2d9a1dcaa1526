"""C16 degrees, Laplacians and entropies."""
import itertools
import math
from fractions import Fraction

import numpy as np

from mc import aio
from mc.core import Bad, describe_exc
from mc.hier import FixedClock
from mc.tens import Graph, tensors, families, weights
from rei.hypergraph.sample_graphs.fano_graph import create_fano_graph
from rei.tensor.tensor_representation import NumpyHypergraphTensorTransformer

ASSUMPTIONS = ["weights uniform per edge, positive ones for normalized Laplacian and entropies", "normalized Laplacian: at least two edges; projected entropy: at least one connected pair",
               "floating point: 1e-9 (relative to the largest entry if above 1), entropies of eigenvalues 5e-3 (defective matrices)"]
READ = {"deg": lambda r: r.deg, "D": lambda r: r.D, "total_deg": lambda r: r.total_deg, "Lp": lambda r: r.Lp, "DD": lambda r: r.DD, "L": lambda r: r.L,
        "Lnorm": lambda r: r.Lnorm, "entropy_vector": lambda r: r.entropy_vector(), "entropy": lambda r: r.entropy(),
        "entropy_projected": lambda r: r.entropy_projected(), "entropy_projected_vector": lambda r: np.sort(np.abs(r.entropy_projected_vector()))}
LOOSE = ("entropy_projected", "entropy_projected_vector")


def h(x):
    return -x * math.log2(x) if x > 0 else 0.0


def expected(root):
    w, io, ii = tensors(root)
    m, n = len(w), len([1 for _ in root.sub_nodes])
    N, E = range(n), range(m)
    deg = [sum(io[e][i] + ii[e][i] for e in E) / (2 if all(io[e][i] == ii[e][i] for e in E) else 1) for i in N]
    col = [[sum(w[e][i][j] for i in N) for j in N] for e in E]
    exact = lambda l: sum(map(Fraction, l))  # noqa
    even = [[exact(w[e][i][j] for i in N) == exact(w[e][j][i] for i in N) for j in N] for e in E]
    dd = [[[(col[e][i] / (2 if even[e][i] else 1)) if i == j else 0.0 for j in N] for i in N] for e in E]
    lap = [[[dd[e][i][j] - w[e][i][j] for j in N] for i in N] for e in E]
    lp = [[(deg[i] if i == j else 0.0) - sum(w[e][i][j] for e in E) for j in N] for i in N]
    total = sum(deg)
    res = {"deg": deg, "D": [[deg[i] if i == j else 0.0 for j in N] for i in N], "total_deg": total, "Lp": lp, "DD": dd, "L": lap}
    if any(x < 0 for e in w for row in e for x in row):     # roots and logarithms of negative numbers are not specified
        return res
    if m > 1:
        ln = [[[lap[e][i][j] / math.sqrt(deg[j] + 1) / (m - 1) for j in N] for i in N] for e in E]
        ev = [[h(ln[e][i][i]) for i in N] for e in E]
        res.update({"Lnorm": ln, "entropy_vector": ev, "entropy": sum(map(sum, ev))})
    if total > 0:
        x, vec = np.linalg.eig(np.array(lp) / total)
        v = [h(abs(x)) for x in x]
        if n < 5 or np.linalg.cond(vec) < 1e4:      # larger defective matrices have no reliable eigenvalues
            res.update({"entropy_projected": sum(v), "entropy_projected_vector": sorted(map(abs, v))})
    return res


def close(a, b, key):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= (5e-3 if key in LOOSE else 1e-9 * max(1.0, np.max(np.abs(b), initial=0)))))


def read(r, key, text):
    try:
        return READ[key](r)
    except Exception as e:  # noqa
        raise Bad(f"{text}: reading {key} raised {describe_exc(e)}")


def check(root, text, order=None, rounds=2):
    tr = NumpyHypergraphTensorTransformer()
    aio.run(tr.execute(root))
    r = tr.tensor_representation
    exp = expected(root)
    for k in range(rounds):
        keys = order or list(exp)
        for key in keys if k % 2 == 0 else keys[::-1]:
            if key not in exp:
                continue
            got = read(r, key, text)
            if not close(got, exp[key], key):
                raise Bad(f"{text}: {key} (reading {k + 1}) is {np.asarray(got).tolist()}, expected {np.asarray(exp[key]).tolist()}")
    for name, a, b in zip(("W", "Io", "Ii"), (r.W, r.Io, r.Ii), tensors(root)):
        if not np.array_equal(a, np.array(b, dtype=float).reshape(a.shape)):
            raise Bad(f"{text}: {name} has changed by reading: {a.tolist()}")
    return r, exp


def specs(n):
    return ["".join(s) for s in itertools.product(".iob", repeat=n)]


WS = [None, (2.0,), (0.5, 3.0)]
SMALL = [(1e-9,), (3e-12,), (-1.0,), (-2.5,), (-1e-10,), (1e6,)]
FAMILY = [(3, ["io.", ".io"], [None, None]), (3, ["bb.", ".bb"], [None, (2.0,)]), (3, ["iob", "obi"], [(3.0,), None]), (4, ["bbb.", "i..o", "oo.i"], [None] * 3),
          (2, ["bb", "io"], [(0.5,), (2.0,)])]


def cases(ck):
    for n in range(1, 5):
        for s in specs(n):
            for w in WS:
                yield ["graph", n, [s], [w]]
    for n in range(1, 4):
        for s in itertools.product(specs(n), repeat=2):
            for w in itertools.product(WS[:2], repeat=2) if n < 3 or ck.thorough else [(None, None), ((2.0,), None)]:
                yield ["graph", n, list(s), list(w)]
    for s in itertools.product(specs(2), repeat=3):
        yield ["graph", 2, list(s), [None, None, (2.0,)]]
    for name, n, s in families((5, 6, 7, 8, 10) if ck.thorough else (5, 8)):
        for w in (0, 1, 2, 3):
            yield ["graph", n, s, weights(len(s), w), w != 1]
    # tiny, negative and large weights
    for n in (2, 3):
        for s in specs(n):
            for w in SMALL:
                yield ["graph", n, [s], [w]]
        for s in itertools.product(specs(n), repeat=2) if n == 2 or ck.thorough else itertools.product([x for x in specs(3) if x.count(".") < 2][::3], repeat=2):
            for w in itertools.permutations([None, *SMALL], 2) if n == 2 else zip(SMALL, SMALL[1:]):
                yield ["graph", n, list(s), list(w)]
    yield ["fano"]
    for k, f in enumerate(FAMILY):
        for a, b in itertools.product(READ, repeat=2):
            yield ["read", k, [a, b, a]]
        for p in itertools.permutations(("deg", "L", "Lp", "entropy", "entropy_projected")):
            yield ["read", k, list(p)]
    for s in itertools.combinations_with_replacement([x for x in specs(3) if x.count(".") < 2], 2):
        yield ["perm", 3, list(s), [None, (2.0,)] if ck.thorough else [None, None]]
    if ck.thorough:
        for s in itertools.product([x for x in specs(3) if x.count(".") < 2], repeat=3):
            yield ["graph", 3, list(s), [None, (2.0,), None]]
        for s in itertools.combinations_with_replacement(specs(4), 2):
            yield ["graph", 4, list(s), [None, None]]


def run_case(ck, case):
    ck.traces += 1
    ck.states += 1
    k = case[0]
    if k == "graph":
        _, n, s, w, *twins = case
        r, exp = check(Graph(n, s, w, twins=bool(twins and twins[0])).root, f"graph {case[1:]}")
        ck.transitions += len(exp)
        ck.outcome(repr(exp["deg"]))
    elif k == "fano":
        _, root, nodes, edges = create_fano_graph("fano", FixedClock())
        r, exp = check(root, "Fano graph")
        if exp["deg"] != [3.0] * 7 or len(edges) != 7 or len(nodes) != 7:
            raise Bad(f"Fano graph has degrees {exp['deg']}")
        for a, b in itertools.combinations(range(7), 2):
            if sum(1 for e in range(7) if r.W[e, a, b]) != 1:
                raise Bad(f"points {a} and {b} of the Fano graph are not on exactly one line")
    elif k == "read":
        n, s, w = FAMILY[case[1]]
        check(Graph(n, s, w).root, f"graph {FAMILY[case[1]]} read in the order {case[2]}", case[2], 3)
        ck.transitions += len(case[2])
    else:
        _, n, s, w = case
        base = None
        for po in itertools.permutations(range(n)):
            for eo in itertools.permutations(range(len(s))):
                g = Graph(n, s, w, norder=po, eorder=eo)
                r, exp = check(g.root, f"graph {case[1:]} with nodes created in the order {po}, edges {eo}", rounds=1)
                # values by element, not by index
                deg = dict(zip(po, np.asarray(r.deg).tolist()))
                now = {"degrees": [deg[i] for i in range(n)], "total_deg": float(r.total_deg)}
                for key in ("entropy", "entropy_projected"):
                    if key in exp:
                        now[key] = float(READ[key](r))
                base = base or now
                for key in now:
                    if not close(now[key], base[key], key):
                        raise Bad(f"{case[1:]}: {key} depends on the order of creation: {base[key]} and with nodes {po}, edges {eo} {now[key]}")
                ck.transitions += 1
    ck.sample(case, 3)
