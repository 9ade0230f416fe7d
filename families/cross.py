"""Intersections (I01): curves with certified crossings."""
from fractions import Fraction as F
from lib.fw import q, fl, NotDyadic
from lib.shadow import Curve, Surface, Ovf, cross, c as c31
from families.curve import rknots
from families.surface import many
from families.meet import H as Base

U = 1024


def fcurve(c):
    """floating-point evaluation for searching candidates"""
    kn = [float(x) for x in c.kn]; cp = [[x / p[4] for x in p[:4]] for p in c.cp]; p = c.deg

    def ev(t):
        k = max(k for k in range(p, len(cp)) if kn[k] <= t and kn[k] < kn[k + 1])
        d = [cp[k - p + j] for j in range(p + 1)]
        for r in range(1, p + 1):
            for j in range(p, r - 1, -1):
                a = (t - kn[k - p + j]) / (kn[j + 1 + k - r] - kn[k - p + j]); d[j] = [(1 - a) * x + a * y for x, y in zip(d[j - 1], d[j])]
        h = d[p]; return [h[0] / h[3], h[1] / h[3], h[2] / h[3]]
    return ev


def dnp(d, h):
    if h[3] > 1 << 20: raise Ovf()
    a = c31(sum(abs(x * y) for x, y in zip(d, h))) and sum(x * y for x, y in zip(d, h))
    return c31((a // h[3]) * U) + ((a % h[3]) * U) // h[3]
def upp(d, h): return -dnp([-x for x in d], h)
def sub(c, a, b):
    r = c if a == c.lo else c.right(a)
    return r if b == r.hi else r.left(b)
def end(c, t): return c.cp[0] if t == c.lo else c.cp[-1] if t == c.hi else c.point(t)
def n1(d): return sum(abs(x) for x in d)
def within(c, S, a, b, E, d, tol):
    lo, hi = a - E, b + E
    return not (lo > c.lo and not upp(d, end(c, lo)) + n1(d) * tol < min(dnp(d, p) for p in S)) and \
        not (hi < c.hi and not dnp(d, end(c, hi)) - n1(d) * tol > max(upp(d, p) for p in S))


def isec(p, r, a, b):
    """planar segments p-r and a-b: parameters of the crossing"""
    dx, dy, ex, ey = r[0] - p[0], r[1] - p[1], b[0] - a[0], b[1] - a[1]; det = dx * ey - dy * ex
    if abs(det) < 1e-9: return None
    s, t = ((a[0] - p[0]) * ey - (a[1] - p[1]) * ex) / det, ((a[0] - p[0]) * dy - (a[1] - p[1]) * dx) / det
    return (s, t) if 0 <= s <= 1 and 0 <= t <= 1 else None


def small(v, k=4):
    m = max(abs(x) for x in v)
    return [round(k * x / m) for x in v] if m > 1e-12 else [0] * len(v)


PLANES = [((1, 0, 0), (0, 1, 0))] * 3 + [((0, 1, 0), (0, 0, 1)), ((1, 0, 0), (0, 0, -1)), ((1, 0, 1), (1, 0, -1)), ((1, 2, 2), (2, 1, -2)), ((1, 1, 0), (-1, 1, 0))]


def pcurve(rng, plane, o, wt, big=5):
    """a curve in the plane o + x e1 + y e2 (o in units of 1/4)"""
    d = rng.choice([1, 1, 2, 2, 3]); kn = rknots(rng, d, rng.choice([0, 0, 1, 1, 2]))
    n = len(kn) - d - 1; a, b = rng.randint(-big, big), rng.randint(-big, big); cp = []
    for j in range(n):
        x, y = a + rng.randint(-1, 3) * j, b + rng.randint(-2, 2)
        if rng.random() < .5: a, b = b, a
        w = rng.choice([(1, 1), (1, 1), (2, 1), (3, 2), (1, 2)]) if wt else (1, 1)
        e = [o[m] + 4 * (x * plane[0][m] + y * plane[1][m]) for m in range(3)]
        cp.append(tuple(v * w[0] for v in e) + (4 * w[0], 4 * w[1]))
    return Curve(d, kn, cp)


def rough(rng, plane, o, up):
    """a rational cubic with several pieces across the square [0, 6]^2: its pieces carry rounding errors"""
    n = rng.choice([5, 6, 6]); kn = [F(0)] * 4 + sorted(rng.sample([F(1), F(3, 2), F(2), F(5, 2)], n - 4)) + [F(3)] * 4; cp = []
    for j in range(n):
        x = 6 * j // (n - 1); y = (x if up else 6 - x) + rng.randint(-1, 1); w = rng.choice([1, 2, 3])
        cp.append(tuple(w * (o[m] + 4 * (x * plane[0][m] + y * plane[1][m])) for m in range(3)) + (4 * w, 4))
    return Curve(3, kn, cp)


def crossings(rng, c1, c2, plane, o, tol):
    """certified boxes around the crossings found by sampling"""
    e1, e2 = plane; l2 = sum(x * x for x in e1); N = 48
    def flat(ev):
        def f(t): P = ev(t); v = [P[m] - o[m] / 4 for m in range(3)]; return [sum(v[m] * e1[m] for m in range(3)) / l2, sum(v[m] * e2[m] for m in range(3)) / l2]
        return f
    f, g = flat(fcurve(c1)), flat(fcurve(c2))
    a = [float(c1.lo + (c1.hi - c1.lo) * F(j, N)) for j in range(N + 1)]; b = [float(c2.lo + (c2.hi - c2.lo) * F(j, N)) for j in range(N + 1)]
    a[-1] -= 1e-9; b[-1] -= 1e-9
    P, Q = [f(t) for t in a], [g(t) for t in b]; certs = []
    for j in range(N):
        for k in range(N):
            r = isec(P[j], P[j + 1], Q[k], Q[k + 1])
            if r is None: continue
            s, t = a[j] + r[0] * (a[j + 1] - a[j]), b[k] + r[1] * (b[k + 1] - b[k])
            if any(x["s"][0][0] / x["s"][0][1] <= s <= x["s"][1][0] / x["s"][1][1] and x["t"][0][0] / x["t"][0][1] <= t <= x["t"][1][0] / x["t"][1][1] for x in certs): continue
            x = boxcert(c1, c2, s, t, [P[j + 1][m] - P[j][m] for m in (0, 1)], [Q[k + 1][m] - Q[k][m] for m in (0, 1)], plane, tol)
            if x: certs.append(x)
    return certs


def boxcert(c1, c2, s, t, d1, d2, plane, tol):
    e1, e2 = plane
    n2, m2 = small([-d2[1], d2[0]]), small([-d1[1], d1[0]])
    if n2[0] * d1[0] + n2[1] * d1[1] < 0: n2 = [-x for x in n2]
    if m2[0] * d2[0] + m2[1] * d2[1] < 0: m2 = [-x for x in m2]
    n, m = ([v[0] * e1[k] + v[1] * e2[k] for k in range(3)] for v in (n2, m2))
    if not any(cross(n, m)): return None
    for w1, w2 in [(2, 2), (3, 3), (4, 4), (5, 5), (3, 4), (4, 3), (4, 5), (5, 4), (6, 6)]:
        def iv(c, s, w):
            # dyadic interval of length about (domain length) / 2^w around s, clipped
            h = F(1, 2 ** w) * 2 ** max(0, (c.hi - c.lo).numerator.bit_length() - 1); a = F(round(F(s) / (h / 4) - 2)) * (h / 4)
            return max(a, c.lo), min(a + h, c.hi), h
        s0, s1, E1 = iv(c1, s, w1); t0, t1, E2 = iv(c2, t, w2)
        if not (s0 < s1 and t0 < t1): continue
        try:
            A, B = sub(c1, s0, s1).cp, sub(c2, t0, t1).cp
            if upp(n, A[0]) < min(dnp(n, p) for p in B) and max(upp(n, p) for p in B) < dnp(n, A[-1]) and upp(m, B[0]) < min(dnp(m, p) for p in A) and max(upp(m, p) for p in A) < dnp(m, B[-1]) \
               and within(c1, A, s0, s1, E1, n, tol) and within(c2, B, t0, t1, E2, m, tol):
                return {"kind": "box", "s": [q(s0), q(s1)], "t": [q(t0), q(t1)], "n": n, "m": m, "E": [q(E1), q(E2)]}
        except Ovf: pass
    return None


def euc(h): return [F(h[j], h[3]) for j in range(3)]


def pointcert(c1, c2, s, t, tol):
    T1, T2 = ([D[1] for D in c.derivs(x, 1)] for c, x in ((c1, s), (c2, t)))
    if cross(T1, T2) == [0, 0, 0]: return None
    n, m = small([float(x) for x in T1]), small([float(x) for x in T2])
    for k in range(0, 7):
        E1, E2 = F(1, 2 ** k), F(1, 2 ** k)
        try:
            if within(c1, [end(c1, s)], s, s, E1, n, tol) and within(c2, [end(c2, t)], t, t, E2, m, tol):
                return {"kind": "pt", "s": [q(s), q(s)], "t": [q(t), q(t)], "n": n, "m": m, "E": [q(E1), q(E2)]}
        except Ovf: pass
    return None


def gen_i01(ctx):
    def b(h, k):
        rng = h.rng; te = rng.choice([8, 10, 10, 12, 14, 16, 18]); tol = 1 if te >= 10 else 2 ** (10 - te); wt = rng.random() < .4
        tries = 0
        while True:
            tries += 1
            if tries > 60: return False
            if k % 3 == 0:
                plane = rng.choice(PLANES[2:5]); o = [rng.choice([3, -5, 7, 27]) for _ in range(3)]
                c1, c2 = rough(rng, plane, o, True), rough(rng, plane, o, False)
                certs = crossings(rng, c1, c2, plane, o, tol)
                if not certs: continue
            elif rng.random() < .7:
                plane = rng.choice(PLANES); o = [rng.choice([0, 0, 1, 3, -5, 7]) for _ in range(3)]
                c1, c2 = pcurve(rng, plane, o, wt), pcurve(rng, plane, o, wt and rng.random() < .7)
                certs = crossings(rng, c1, c2, plane, o, tol)
                if not certs and rng.random() < .95: continue
            else:
                c1 = pcurve(rng, ((1, 0, 0), (0, 1, 0)), [0, 0, 0], False)
                c1, c2 = (Curve(d := rng.choice([1, 2, 3]), kn := rknots(rng, d, rng.choice([0, 1, 2])), [tuple(rng.randint(-4, 4) for _ in range(3)) + (1, 1) for _ in range(len(kn) - d - 1)]) for _ in (0, 1))
                def par(c): a, e = rng.choice(list(zip(sorted(set(c.kn)), sorted(set(c.kn))[1:]))); return a + (e - a) * F(rng.choice([0, 0, 1, 2, 3, 4, 5, 6, 8, 8]), 8)
                try:
                    s, t = par(c1), par(c2); P, Q = euc(end(c1, s)), euc(end(c2, t)); v = [x - y for x, y in zip(P, Q)]
                    if any(4096 % x.denominator for x in v) or any(x in c1.kn[c1.deg + 1:-c1.deg - 1] for x in [s]) or t in c2.kn[c2.deg + 1:-c2.deg - 1]: continue
                    c2 = Curve(c2.deg, c2.kn, [tuple(p[m] * 4096 + int(4096 * v[m]) * p[4] for m in range(3)) + (p[3] * 4096, p[4] * 4096) for p in c2.cp])
                    x = pointcert(c1, c2, s, t, tol)
                except Ovf: continue
                if not x: continue
                certs = [x]
            break
        h.curve(1, c1); h.curve(2, c2)
        def put(a, b_, cs): h.add(f"ccx {a} {b_} {fl(F(1, 2 ** te))}", op="ccx", a=a, b=b_, tol=te, cert=cs)
        put(1, 2, certs)
        if rng.random() < .6:
            put(2, 1, [dict(x, s=x["t"], t=x["s"], n=x["m"], m=x["n"], E=x["E"][::-1]) for x in certs])
        if rng.random() < .4:
            # the same curve over other knots
            try:
                u = sorted(set(c1.kn)); a, e = rng.choice(list(zip(u, u[1:]))); t = a + (e - a) * F(rng.choice([1, 2, 3]), 4)
                h.curve(3, c1.insert(t, rng.randint(1, c1.deg))); put(3, 2, certs)
            except (Ovf, NotDyadic): pass
    return many(ctx, "ccx", 300, 3000, b, Base)


def rdot(a, b): return sum(x * y for x, y in zip(a, b))
def r1(a): return sum(abs(x) for x in a)


def csurf(rng, wt, level=True):
    """a surface spread over the plane of two random axes"""
    du, dv = rng.choice([(1, 1), (1, 2), (2, 1), (2, 2), (2, 2), (3, 2), (3, 3)]); ku, kv = rknots(rng, du, rng.choice([0, 0, 0, 1])), rknots(rng, dv, rng.choice([0, 0, 0, 1]))
    ax = rng.sample([0, 1, 2], 3); k = rng.choice([2, 3, 4]); cp = []; flat = level and rng.random() < .25; sq = flat and rng.random() < .5
    for i in range(len(ku) - du - 1):
        r = []
        for j in range(len(kv) - dv - 1):
            P = [0, 0, 0]; P[ax[0]], P[ax[1]], P[ax[2]] = k * i - 3 + (0 if sq else rng.randint(0, 1)), k * j - 3 + (0 if sq else rng.randint(0, 1)), 0 if flat else rng.randint(-2, 2)
            w = rng.choice([(1, 1), (2, 1), (1, 2)]) if wt else (1, 1)
            r.append(tuple(w[0] * x for x in P) + w)
        cp.append(r)
    return Surface(du, dv, ku, kv, cp)


def ccurve(rng, wt):
    d = rng.choice([1, 1, 2, 2, 3]); kn = rknots(rng, d, rng.choice([0, 0, 1]) if d > 1 else 0); n = len(kn) - d - 1
    a, v = [rng.randint(-4, 4) for _ in range(3)], [rng.randint(-3, 3) for _ in range(3)]; cp = []; m0 = rng.randrange(3); ln = rng.random() < .2
    if ln: v = [rng.choice([-2, 1, 3]) if m == m0 else 0 for m in range(3)]
    for j in range(n):
        w = rng.choice([(1, 1), (2, 1), (1, 2)]) if wt else (1, 1)
        cp.append(tuple(w[0] * (a[m] + j * v[m] + (0 if ln else rng.randint(-1, 1))) for m in range(3)) + w)
    return Curve(d, kn, cp)


def par(rng, kn, lo, hi, edge=False, knots=False):
    """a parameter off the interior knots (unless knots), inside the domain (unless edge)"""
    u = [x for x in sorted(set(kn)) if lo <= x <= hi]
    while True:
        if edge and rng.random() < .5: return rng.choice([lo, hi])
        if knots and rng.random() < .2: return rng.choice(u)
        a, e = rng.choice(list(zip(u, u[1:]))); t = a + (e - a) * F(rng.randint(1, 15), 16)
        return t


def shift(x, v, den):
    """x translated by v (multiples of 1/den)"""
    f = lambda p: tuple(p[m] * den + int(den * v[m]) * p[3] for m in range(3)) + (p[3] * den, p[4] * den)
    return Curve(x.deg, x.kn, [f(p) for p in x.cp]) if isinstance(x, Curve) else Surface(x.du, x.dv, x.ku, x.kv, [[f(p) for p in r] for r in x.cp])


def meetcert(c, s, t, u, v):
    T = [D[1] for D in c.derivs(t, 1)]; a, b = s.partial(0, u, v), s.partial(1, u, v); d = abs(rdot(T, cross(a, b)))
    if d == 0 or r1(T) * r1(a) * r1(b) > 8 * d: return None
    d = s.dom
    return {"t": q(t), "u": q(u), "v": q(v), "E": [q((c.hi - c.lo) / 8), q((d[1] - d[0]) / 8), q((d[3] - d[2]) / 8)]}


def through(rng, pts, ts):
    """the polynomial curve of degree len(pts) - 1 that passes through pts at the parameters ts, over [lo, hi]"""
    lo, hi = rng.choice([(ts[0], ts[-1]), (ts[0] - 1, ts[-1] + 1), (ts[0] - F(1, 2), ts[-1] + F(1, 2)), (ts[0], ts[-1] + 1), (ts[0] - F(1, 4), ts[-1] + F(3, 4))])
    n = len(pts)
    def blossom(args):
        # multiaffine interpolation: Neville's scheme is not symmetric, so use the power basis
        r = [F(0)] * 3
        for k in range(n):
            # Lagrange polynomial k, polarised
            den = F(1)
            for m in range(n):
                if m != k: den *= ts[k] - ts[m]
            rs = [ts[m] for m in range(n) if m != k]
            if n == 2: val = args[0] - rs[0]
            else: val = args[0] * args[1] - (rs[0] + rs[1]) * (args[0] + args[1]) / 2 + rs[0] * rs[1]
            r = [x + pts[k][m] * val / den for m, x in enumerate(r)]
        return r
    d = n - 1; cp = []
    for j in range(n):
        P = blossom([hi] * j + [lo] * (d - j))
        if any(4096 % x.denominator for x in P): return None
        cp.append(tuple(int(4096 * x) for x in P) + (4096, 4096))
    return Curve(d, [lo] * n + [hi] * n, cp)


def gen_i02(ctx):
    def b(h, k):
        rng = h.rng; te = rng.choice([10, 10, 12, 14]); wt = rng.random() < .3
        for _ in range(300):
            try:
                s = csurf(rng, wt)
                if any(b - a < F(1, 64) for kn in (s.ku, s.kv) for a, b in zip(kn, kn[1:]) if a < b): continue  # knots far apart compared with the resolution
                d = s.dom; ed = rng.random() < .4; su = lambda: (par(rng, s.ku, d[0], d[1], ed), par(rng, s.kv, d[2], d[3], ed))
                if k % 3:
                    c = ccurve(rng, wt and rng.random() < .5)
                    t = par(rng, c.kn, c.lo, c.hi, rng.random() < .3); u, v = su()
                    w = [x - y for x, y in zip(euc(s.point(u, v)), euc(c.point(t)))]
                    if any(1024 % x.denominator for x in w): continue
                    c = shift(c, w, 1024); x = [meetcert(c, s, t, u, v)]
                else:
                    n = rng.choice([2, 2, 3]); uv = [su() for _ in range(n)]; ts = [F(0), F(1), F(2)][:n]
                    c = through(rng, [euc(s.point(*y)) for y in uv], ts)
                    if c is None or any(t != e and euc(c.cp[i]) == euc(c.point(t)) for e, i in ((c.lo, 0), (c.hi, -1)) for t in ts): continue     # see kf-csx-loop
                    x = [meetcert(c, s, t, *y) for t, y in zip(ts, uv)]
                if all(x): break
            except Ovf: pass
        else: return False
        h.curve(1, c); h.surf(1, s)
        h.add(f"csx 1 1 {rng.randint(0, 1)} {fl(F(1, 2 ** te))}", op="csx", a=1, b=1, tol=te, cert=x)
    h = Base("kf-csx-loop", ctx["rng"])      # the curve ends where it passes a corner of the surface a second time
    h.curve(1, Curve(2, [0, 0, 0, 3, 3, 3], [(-2, 6, -2, 1, 1), (-17, 48, -8, 4, 4), (7, -18, -2, 1, 1)]))
    h.surf(1, Surface(2, 1, [0, 0, 0, 2, 2, 2], [0, 0, 2, 2], [[(-2, -2, -2, 1, 1), (2, -4, -4, 2, 1)], [(-2, 2, 1, 1, 1), (2, 2, 2, 2, 1)], [(-2, 6, -2, 1, 1), (2, 5, -2, 1, 1)]]))
    h.add(f"csx 1 1 0 {fl(F(1, 2 ** 10))}", op="csx", a=1, b=1, tol=10, cert=[{"t": [t, 1], "u": [u, 1], "v": [v, 1], "E": [[3, 8], [1, 4], [1, 4]]} for t, u, v in ((0, 2, 0), (1, 2, 0), (2, 0, 2))])
    return many(ctx, "csx", 200, 2500, b, Base) + [h.doc()]


def two(rng, wt, bnd, k=1):
    """surfaces 1 and 2 that share a point where an iso line of one of them crosses the other; bnd: on its boundary"""
    ed = bnd and rng.random() < .4
    a, b = csurf(rng, wt, not ed), csurf(rng, wt and rng.random() < .5, not ed)      # an edge of one that lies within the other is not transversal
    if k > 1: a, b = shrink(a, k), shrink(b, k)
    if any(y - x < F(1, 64) for kn in (a.ku, a.kv, b.ku, b.kv) for x, y in zip(kn, kn[1:]) if x < y): return None
    f = rng.randint(0, 1); X, Y = (a, b) if f else (b, a); i = rng.randint(0, 3); d = X.dom; e = Y.dom
    t = par(rng, (X.kv, X.ku)[i // 2], *((d[2:], d[:2])[i // 2]), ed and rng.random() < .5); fix = d[(0, 1, 2, 3)[i]]
    if not bnd: fix = par(rng, (X.ku, X.kv)[i // 2], *((d[:2], d[2:])[i // 2]))
    u, v = par(rng, Y.ku, e[0], e[1], ed), par(rng, Y.kv, e[2], e[3], ed)
    P = X.point(*((fix, t) if i < 2 else (t, fix))); w = [x - y for x, y in zip(euc(P), euc(Y.point(u, v)))]
    if any(1024 % x.denominator for x in w): return None
    Y = shift(Y, w, 1024)
    x = meetcert(X.iso(i // 2, fix), Y, t, u, v)
    if not x: return None
    x.update(f=bool(f), i=i, fix=q(fix)); return (X, Y) + ([x],) if f else (Y, X) + ([x],)


def isoflat(X, Y):
    """a line of Y at which it gets subdivided lies in the plane of the flat surface X: pieces then overlap along it"""
    for m in range(3):
        c = {euc(p)[m] for r in X.cp for p in r}
        if len(c) > 1: continue
        for d, kn in ((0, Y.ku), (1, Y.kv)):
            lo, hi = Y.dom[2 * d:2 * d + 2]; u = [x for x in sorted(set(kn)) if lo <= x <= hi]
            for a, e in zip(u, u[1:]):
                if any({euc(p)[m] for p in Y.iso(d, a + (e - a) * F(k, 8)).cp} == c for k in range(9)): return True
    return False


def shrink(s, k): return Surface(s.du, s.dv, s.ku, s.kv, [[tuple(p[:3]) + (p[3] * k, p[4] * k) for p in r] for r in s.cp])


def apart(x, y, d, a, b, n):
    w = x.left(d, b).right(d, a)
    return max(upp(n, p) for r in y.cp for p in r) < min(dnp(n, p) for r in w.cp for p in r)


def arch(rng):
    """a surface that dips through a bilinear one on both sides of a strip that stays above it"""
    k = rng.choice([1, 1, 4, 16]); dv = rng.choice([1, 1, 2]); kv = rknots(rng, dv, 0); ku = rknots(rng, 2, rng.choice([0, 0, 1]))
    ax = rng.sample([0, 1, 2], 3); n = len(ku) - 3; cp = []
    if any(y - x < F(1, 64) for x, y in zip(ku, ku[1:]) if x < y): return None
    for i in range(n):
        r = []
        for j in range(dv + 1):
            P = [0, 0, 0]; P[ax[0]], P[ax[1]] = 3 * i - 3 + rng.randint(0, 1), 3 * j - 3 + rng.randint(0, 1)
            P[ax[2]] = rng.randint(-6, -4) if i in (0, n - 1) else rng.randint(5, 9); r.append(tuple(P) + (k, k))
        cp.append(r)
    s = Surface(2, dv, ku, kv, cp); d = s.dom; e = lambda a, b, w: a + (b - a) * F(w, 16)
    va, vb = e(d[2], d[3], rng.randint(5, 11)), e(d[2], d[3], rng.randint(5, 11)); ua, ub = e(d[0], d[1], rng.randint(1, 4)), e(d[0], d[1], rng.randint(12, 15))
    A, B = euc(s.point(ua, va)), euc(s.point(ub, vb)); w = [F(0)] * 3; w[ax[1]] = F(rng.choice([6, 8, 12]), k); w[ax[0]] = F(rng.randint(-1, 1), k); w[ax[2]] = F(rng.randint(-1, 1), k)
    q_ = lambda x, y: [A[m] + (B[m] - A[m]) * (x - F(1, 4)) * 2 + w[m] * (y - F(1, 2)) for m in range(3)]
    c = [[q_(x, y) for y in (0, 1)] for x in (0, 1)]
    if any(4096 % x.denominator for r in c for p in r for x in p): return None
    t = Surface(1, 1, [0, 0, 1, 1], [0, 0, 1, 1], [[tuple(int(4096 * x) for x in p) + (4096, 4096) for p in r] for r in c])
    certs = []
    for u, v, x in ((ua, va, F(1, 4)), (ub, vb, F(3, 4))):
        m = meetcert(s.iso(1, v), t, u, x, F(1, 2))
        if not m: return None
        m.update(f=True, i=2, fix=q(v)); certs.append(m)
    nn = small([float(x) for x in cross([b - a for a, b in zip(A, B)], w)])
    if nn[ax[2]] < 0: nn = [-x for x in nn]
    a, b = e(d[0], d[1], 7), e(d[0], d[1], 9)
    if a in ku or b in ku or not (ua < a and b < ub) or not apart(s, t, 0, a, b, nn): return None
    return s, t, certs, [{"dir": 0, "a": q(a), "b": q(b), "n": nn}]


def gen_i03(ctx):
    def b(h, k):
        rng = h.rng; te = rng.choice([10, 10, 12, 14]); m = k % 5
        if m == 4 and k % 2:
            n = rng.randint(0, 7); pts = [[rng.randint(-4, 4) for _ in range(3)] for _ in range(n)]
            h.add(f"bsort {n} " + " ".join(f"{x} {y} {z}" for x, y, z in pts), op="bsort", pts=pts); return
        for _ in range(600):
            try:
                if m == 3: r = arch(rng)
                else: r = two(rng, rng.random() < .3, m % 2, rng.choice([1, 1, 4, 16, 32]))
                if r and not isoflat(r[0], r[1]) and not isoflat(r[1], r[0]): break
            except Ovf: pass
        else: return False
        h.surf(1, r[0]); h.surf(2, r[1])
        if m in (1, 4): h.add(f"bnd 1 2 0 {fl(F(1, 2 ** te))}", op="bnd", a=1, b=2, tol=te, cert=r[2] if m == 1 else [])
        if m != 1: h.add(f"ssx 1 2 {fl(F(1, 2 ** te))}", op="ssx", a=1, b=2, tol=te, cert=r[2], strip=r[3] if m == 3 else [])
    return many(ctx, "ssx", 200, 2500, b, Base)


CHECKS = {
    "I03": {"mc": [{"tier": t, "module": "SsxModel", "what": "subdivision into simple pieces: every branch of the intersection keeps a start point, points are paired without loss",
                    "cfg": {"spec": "Spec", "constants": k, "invariants": ["Sound", "Paired", "Kept"], **({"properties": ["Done"]} if t == "quick" else {})}}
                   for t, k in (("quick", {"W": 3, "H": 2}), ("thorough", {"W": 4, "H": 2}), ("thorough", {"W": 3, "H": 3}))],
            "driver": "drv_cross", "gen": gen_i03, "trace": "TraceCross", "assumptions": ["surface crossings of curves are certified by exact bracketing (MeetCert); branches are certified as arches separated by strips without intersection","tangential contact of surfaces is not claimed"]},
    "I02": {"mc": [{"tier": t, "module": "CsxModel", "what": "bisection with Newton's method: no crossing is lost where pieces are split at crossings, on edges and dropped by projection",
                    "cfg": {"spec": "Spec", "constants": k, "invariants": ["Kept", "Sound"], **({"properties": ["Ends"]} if t == "quick" else {})}}
                   for t, k in (("quick", {"N": 5, "M": 4, "Most": 2, "Sep": 4, "Large": 4}), ("thorough", {"N": 8, "M": 8, "Most": 3, "Sep": 4, "Large": 4}))],
            "driver": "drv_cross", "gen": gen_i02, "trace": "TraceCross", "assumptions": ["crossings are certified by exact bracketing (MeetCert); knot spans are at least 1/64 long"]},
    "I01": {"mc": [{"tier": t, "module": "CcxModel", "what": "bisection of two lattice curves: every common point is reported, every report lies between small pieces that meet",
                    "cfg": {"spec": "Spec", "constants": k, "invariants": ["Kept", "Sound"], **({"properties": ["Ends"]} if t == "quick" else {})}}
                   for t, k in (("quick", {"N": 2, "W": 2, "H": 1, "Small": 2, "Gap": 0, "ParTol": 1}), ("thorough", {"N": 4, "W": 1, "H": 1, "Small": 1, "Gap": 0, "ParTol": 1}), ("thorough", {"N": 3, "W": 2, "H": 1, "Small": 2, "Gap": 1, "ParTol": 0}))],
            "driver": "drv_cross", "gen": gen_i01, "trace": "TraceCross", "assumptions": ["crossings are certified for planar curves of degree up to 3 (topologically) and for spatial curves at constructed common points"]},
}
