"""Exact feasibility of x >= 0, A x = b over the rationals (phase one of the simplex method, Bland's rule).
Returns ("x", x) or ("y", y) with y A <= 0 and y b > 0 (a Farkas certificate).  Only used by scenario
generators: the specification checks every certificate."""
from fractions import Fraction as F


def feasible(A, b):
    m, n = len(A), len(A[0])
    T = []
    sg = []
    for i in range(m):
        s = -1 if b[i] < 0 else 1
        sg.append(s)
        T.append([F(s * a) for a in A[i]] + [F(1 if k == i else 0) for k in range(m)] + [F(s * b[i])])
    basis = [n + i for i in range(m)]
    cost = [F(0)] * (n + m + 1)
    for j in range(n + m + 1):
        cost[j] = -sum(T[i][j] for i in range(m)) if not (n <= j < n + m) else F(0)
    while True:
        e = next((j for j in range(n + m) if cost[j] < 0), None)
        if e is None: break
        r, best = None, None
        for i in range(m):
            if T[i][e] > 0:
                t = T[i][-1] / T[i][e]
                if best is None or t < best or (t == best and basis[i] < basis[r]): r, best = i, t
        p = T[r][e]
        T[r] = [x / p for x in T[r]]
        for i in range(m):
            if i != r and T[i][e] != 0:
                f = T[i][e]; T[i] = [x - f * y for x, y in zip(T[i], T[r])]
        f = cost[e]; cost = [x - f * y for x, y in zip(cost, T[r])]
        basis[r] = e
    if -cost[-1] == 0:
        x = [F(0)] * n
        for i in range(m):
            if basis[i] < n: x[basis[i]] = T[i][-1]
        return "x", x
    y = [F(1) * sg[i] - cost[n + i] * sg[i] for i in range(m)]
    return "y", y


def ints(v):
    d = 1
    from math import gcd
    for x in v: d = d * x.denominator // gcd(d, x.denominator)
    r = [int(x * d) for x in v]
    g = 0
    for x in r: g = gcd(g, x)
    return [x // g for x in r] if g else r


def apart_or_common(P, Q):
    """("apart", d) with d.p < d.q, or ("common", l, m): convex weights with the same point"""
    k = len(P[0])
    A = [[p[c] for p in P] + [-q[c] for q in Q] for c in range(k)]
    A += [[1] * len(P) + [0] * len(Q), [0] * len(P) + [1] * len(Q)]
    t, v = feasible(A, [0] * k + [1, 1])
    if t == "x":
        w = ints(v); return "common", w[:len(P)], w[len(P):]
    d = ints(v[:k])
    if max(sum(a * b for a, b in zip(d, p)) for p in P) < min(sum(a * b for a, b in zip(d, q)) for q in Q): return "apart", d
    raise AssertionError("certificate")


def cones(P, Q, ones=False):
    """("apart", d) with d.p > 0 > d.q, or ("common", l, m): nonnegative weights with sum l p = sum m q
    (ones: all weights positive, or ("none",))"""
    V = [list(p) for p in P] + [[-x for x in q] for q in Q]
    if ones:
        s = [sum(v[c] for v in V) for c in range(3)]
        t, v = feasible([[u[c] for u in V] for c in range(3)], [-x for x in s])
        if t == "y": return ("none",)
        w = ints([x + 1 for x in v]); return "common", w[:len(P)], w[len(P):]
    t, v = feasible([[u[c] for u in V] for c in range(3)] + [[1] * len(V)], [0, 0, 0, 1])
    if t == "x":
        w = ints(v); return "common", w[:len(P)], w[len(P):]
    d = ints([-x for x in v[:3]])
    if min(sum(a * b for a, b in zip(d, u)) for u in V) > 0: return "apart", d
    raise AssertionError("certificate")
