"""Vectors (Q01), matrices and binomials (N04), linear systems and Newton (N03), scalar minimisation (N02),
quadrature and arc length (N01), serialisation (R01), segments joined into polylines (L01)."""
from fractions import Fraction as F
from lib.fw import q, fl, fls
from families.spatial import W, sp


def ri(rng, k): return rng.randint(-k, k)


def gen_vec(ctx):
    rng, out = ctx["rng"], []
    for t in range(400 if ctx["quick"] else 6000):
        w = W(f"vec-{t}")
        for _ in range(10):
            r = rng.random(); den = rng.choice([1, 1, 2, 8, 64]); ext = rng.choice([2, 9, 60, 400])
            dim = rng.choice([2, 3, 3, 4, 4])
            a = [ri(rng, ext) for _ in range(dim)]; b = [ri(rng, ext) for _ in range(dim)]
            z = rng.random()
            if z < .08: a = [0] * dim
            elif z < .14: b = [0] * dim
            elif z < .24: b = a[:]
            elif z < .34: b = a[:]; b[rng.randrange(dim)] += rng.choice([-1, 1])
            elif z < .44: b = [-x for x in a]
            elif z < .56: k = rng.randrange(dim); a = [x if j == k else 0 for j, x in enumerate(a)]
            if r < .85:
                m = rng.choice([0, 1, -1, 2, -3, 4, 7])
                w.add(f"v{dim} {den} {sp(a)} {sp(b)} {m}", op=f"v{dim}", den=den, a=a, b=b, m=m)
            elif r < .93:
                n = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 13]); v = [ri(rng, 50) for _ in range(3)]; x, y, zz = ([ri(rng, 50) for _ in range(n)] for _ in range(3))
                w.add(f"dots {sp(v)} {n} {sp(x)} {n} {sp(y)} {n} {sp(zz)}", op="dots", v=v, x=x, y=y, z=zz)
            else:
                a = [ri(rng, rng.choice([2, 9])) for _ in range(3)]
                if rng.random() < .3: a[rng.randrange(3)] = 0
                if rng.random() < .2: k = rng.randrange(3); a = [x if j == k else 0 for j, x in enumerate(a)]
                if not any(a): continue
                w.add(f"sph {den} {sp(a)}", op="sph", den=den, a=a)
        out.append(w.doc())
    return out


def mt(A): return f"{len(A)} {len(A[0])} " + " ".join(sp(r) for r in A)
def rm(rng, r, c, e): return [[ri(rng, e) for _ in range(c)] for _ in range(r)]


def gen_mat(ctx):
    rng, out = ctx["rng"], []
    w = W("binomials")
    for n in range(31):
        for k in range(31): w.add(f"binom {n} {k}", op="binom", n=n, k=k)
    out.append(w.doc())
    for t in range(300 if ctx["quick"] else 4000):
        w = W(f"mat-{t}")
        for _ in range(8):
            r = rng.random()
            if r < .3:
                A, B = rm(rng, 2, 2, 6), rm(rng, 2, 2, 6); v = [ri(rng, 6), ri(rng, 6)]
                if rng.random() < .3: A[1] = [x * rng.choice([-1, 0, 1, 2]) for x in A[0]]
                w.add(f"m2 {sp(A[0] + A[1] + B[0] + B[1] + v)}", op="m2", A=A, B=B, v=v)
            elif r < .55:
                a, b, c = (rng.randint(1, 5 if rng.random() < .85 else 13) for _ in range(3)); d = b if rng.random() < .8 else rng.randint(1, 5)
                A, B = rm(rng, a, b, 9), rm(rng, d, c, 9)
                w.add(f"mm {mt(A)} {mt(B)}", op="mm", A=A, B=B)
            elif r < .92:
                n = rng.choice([1, 2, 2, 3, 3, 4, 4, 5]); A = rm(rng, n, n if rng.random() < .94 else n + rng.choice([-1, 1]) or 2, 5 if n < 5 else 3)
                if len(A[0]) == n and n > 1:
                    z = rng.random()
                    if z < .15:                                  # singular
                        i, j = rng.sample(range(n), 2); k = rng.randrange(n); A[i] = [rng.choice([1, 2]) * 1 * A[j][c] + (A[k][c] if k not in (i, j) else 0) for c in range(n)]
                    elif z < .4:                                 # needs pivoting
                        for c in range(n): A[c][c] = 0
                    elif z < .55:                                # permutation, scaled
                        p = rng.sample(range(n), n); A = [[rng.choice([-2, 1, 3]) if p[r2] == c else 0 for c in range(n)] for r2 in range(n)]
                if rng.random() < .06:                           # larger, with a small inverse: rows of a signed permutation added to one another
                    n = rng.randint(6, 9); p = rng.sample(range(n), n); A = [[rng.choice([-1, 1]) if p[r2] == c else 0 for c in range(n)] for r2 in range(n)]
                    for _ in range(n):
                        i, j = rng.sample(range(n), 2); k = rng.choice([-1, 1]); A[i] = [x + k * y for x, y in zip(A[i], A[j])]
                    if rng.random() < .2: A[rng.randrange(n)] = [0] * n
                w.add(f"minv {mt(A)}", op="minv", A=A)
            else:
                A = rm(rng, rng.randint(1, 6), rng.randint(1, 5), 9); c = rng.randint(0, 5)
                w.add(f"col {mt(A)} {c}", op="col", A=A, c=c)
        out.append(w.doc())
    return out


def spd(rng, n, e):
    L = [[ri(rng, e) if j < i else (rng.randint(1, e) if j == i else 0) for j in range(n)] for i in range(n)]
    A = [[sum(L[i][k] * L[j][k] for k in range(n)) for j in range(n)] for i in range(n)]
    if rng.random() < .5:
        for i in range(n): A[i][i] += rng.randint(0, 2)
    return A


def flat(A): return [x for r in A for x in r]


def inv_max(A):
    """largest entry of the inverse (selects well-conditioned inputs)"""
    n = len(A); M = [[F(x) for x in r] + [F(int(i == j)) for j in range(n)] for i, r in enumerate(A)]
    for i in range(n):
        p = next(k for k in range(i, n) if M[k][i]); M[i], M[p] = M[p], M[i]; M[i] = [x / M[i][i] for x in M[i]]
        for k in range(n):
            if k != i: M[k] = [x - M[k][i] * y for x, y in zip(M[k], M[i])]
    return max(abs(x) for r in M for x in r[n:])


def gen_lin(ctx):
    rng, out = ctx["rng"], []
    for t in range(300 if ctx["quick"] else 4000):
        w = W(f"lin-{t}")
        for _ in range(6):
            n = rng.choice([1, 2, 2, 3, 3, 4, 4, 5]); r = rng.random()
            if r < .5:
                if rng.random() < .65: A = spd(rng, n, 2)
                else:
                    A = rm(rng, n, n, 4)
                    for i in range(n):
                        for j in range(i): A[i][j] = A[j][i]
                        if rng.random() < .6: A[i][i] = abs(A[i][i]) + 1
                b = [ri(rng, 9) for _ in range(n)]
                if rng.random() < .15:                      # an exact factor with a vanishing pivot: singular or indefinite
                    k = rng.randint(1, n)
                    l0 = [[ri(rng, 2) if j < i else (rng.choice([1, 2]) if i == j < k - 1 else 0) for j in range(k)] for i in range(k)]
                    for i in range(k):
                        for j in range(k): A[i][j] = sum(x * y for x, y in zip(l0[i], l0[j]))
                    w.add(f"chol {n} {sp(flat(A))} {sp(b)}", op="chol", A=A, b=b, l0=l0); continue
                w.add(f"chol {n} {sp(flat(A))} {sp(b)}", op="chol", A=A, b=b)
            elif r < .75:
                A = rm(rng, n, n, 5)
                for i in range(n):
                    for j in range(i): A[i][j] = A[j][i]
                b, m, p = ([ri(rng, 4) for _ in range(n)] for _ in range(3)); c = [ri(rng, 1) if rng.random() < .5 else 0 for _ in range(n)]; k = ri(rng, 5)
                if rng.random() < .3: m = p[:]
                u = [x - y for x, y in zip(p, m)]
                mag = sum(abs(A[i][j] * u[i] * u[j]) for i in range(n) for j in range(n)) + sum(abs(x * y) for x, y in zip(b, u)) + sum(abs(x) * y ** 4 for x, y in zip(c, u)) + abs(k) + 1
                # central differences with steps 1e-7 and 1e-5: rounding error of the values over the step(s), in 1e-9
                tg, th = int(20 + mag * 40), int(min(2e8, 1000 + mag * 30000))
                w.add(f"grad {n} {sp(flat(A))} {sp(b)} {sp(c)} {sp(m)} {sp(p)} {k}", op="grad", A=A, b=b, q=c, m=m, p=p, tg=tg, th=th)
            else:
                A = spd(rng, n, 2)
                if inv_max(A) > 3: continue                 # finite differences: only well-conditioned systems
                far = rng.choice([1, 4, 20]); p = [ri(rng, far) for _ in range(n)]; m = [ri(rng, 4) for _ in range(n)]; k = ri(rng, 5)
                b = [ri(rng, 5) for _ in range(n)]; c = [0] * n
                if rng.random() < .35: b = [0] * n; c = [rng.randint(0, 1) for _ in range(n)]; p = [x + ri(rng, 3) for x in m]
                w.add(f"newton {n} {sp(flat(A))} {sp(b)} {sp(c)} {sp(m)} {sp(p)} {k}", op="newton", A=A, b=b, q=c, m=m, p=p)
        out.append(w.doc())
    return out


def gen_min(ctx):
    rng, out = ctx["rng"], []
    for t in range(500 if ctx["quick"] else 8000):
        w = W(f"min-{t}")
        for _ in range(6):
            k = rng.choice(["sq", "abs", "quart", "skew", "step", "sq", "abs", "wave", "const", "nan", "poly"])
            d = rng.choice([1, 1, 4, 64])
            lo, hi = F(ri(rng, 8 * d), d), F(ri(rng, 8 * d), d); bad = 0
            if lo > hi and rng.random() < .85: lo, hi = hi, lo
            if rng.random() < .06: hi = lo
            span = abs(hi - lo)
            c = lo + span * F(rng.randint(-2, 18), 16) if rng.random() < .8 else rng.choice([lo, hi])
            c = F(int(c * 1024), 1024)
            extra = {"skew": [rng.randint(1, 4), rng.choice([0, 1, 3])], "step": [rng.randint(1, 3)], "wave": [rng.randint(1, 9), F(rng.randint(0, 3), 4)], "const": [ri(rng, 3)]}.get(k, [])
            cs = [c] + extra
            if k == "poly": cs = [ri(rng, 3) for _ in range(rng.randint(1, 6))]
            xt = rng.choice([1000, 10000, 100000, 1000000])          # 1e-9
            mx = rng.choice([2, 3, 5, 10, 20, 500, 500, 500])
            los, his = fl(lo), fl(hi)
            if rng.random() < .05: bad = 1; los, his = rng.choice([("nan", his), (los, "inf"), ("-inf", his), (los, "nan")])
            w.add(f"min {k} {len(cs)} {fls(cs)} {los} {his} {xt}e-9 {mx}", op="min", k=k, c=q(c), lo=q(lo), hi=q(hi), xtol=xt, max=mx, bad=bad)
        out.append(w.doc())
    return out


# ---- quadrature and arc length ----
def pint(c, a, b): return sum(F(x) * (F(b) ** (k + 1) - F(a) ** (k + 1)) / (k + 1) for k, x in enumerate(c))
def pmul(a, b):
    r = [F(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b): r[i + j] += x * y
    return r


def bez(c, T):
    """control values on [0,T] of the polynomial with coefficients c"""
    from math import comb
    n = len(c) - 1
    return [sum(F(comb(j, k), comb(n, k)) * c[k] * F(T) ** k for k in range(j + 1)) for j in range(n + 1)]


def ph(rng):
    """a planar curve with polynomial speed; None when the control points are not dyadic"""
    d = rng.choice([0, 1, 1, 1, 2])
    T = rng.choice([1, 1, 2])
    u, v = ([F(ri(rng, 2)) for _ in range(d + 1)] for _ in range(2))
    if d == 2: v = [F(ri(rng, 1)) for _ in range(3)]
    s = {0: 1, 1: 3, 2: 15}[d]; g = rng.choice([1, s, s]) if d else 1
    # scale u, v so that the integrated hodograph has dyadic control points (try)
    for k in range(3):
        x = [a - b for a, b in zip(pmul(u, u), pmul(v, v))]; y = [2 * a for a in pmul(u, v)]
        ix = [F(ri(rng, 3))] + [a / (j + 1) for j, a in enumerate(x)]; iy = [F(ri(rng, 3))] + [a / (j + 1) for j, a in enumerate(y)]
        bx, by = bez(ix, T), bez(iy, T)
        if all((z.denominator & (z.denominator - 1)) == 0 for z in bx + by): break
        u = [a * (3 if k == 0 else 5) for a in u]; v = [a * (3 if k == 0 else 5) for a in v]
    else: return None
    speed = [a + b for a, b in zip(pmul(u, u), pmul(v, v))]
    return u, v, T, bx, by, speed


def tcurve(deg, kn, cp): return f"{deg} 0 {len(kn)} {fls(kn)} {len(cp)} " + " ".join(fls(list(p) + [1]) for p in cp)


def gen_quad(ctx):
    rng, out = ctx["rng"], []
    while len(out) < (350 if ctx["quick"] else 5000):
        w = W(f"quad-{len(out)}")
        for _ in range(5):
            r = rng.random()
            if r < .12:
                kk = rng.choice([2, 3, 5, 7, 8, 9, 10, 11, 12]); n = rng.randrange(1, 2 ** kk, 2); h = rng.choice([1, 1, 2]); c0, c1 = ri(rng, 3), rng.randint(1, 4); a = F(ri(rng, 4), 2)
                tol = max(t for t in (1, 10, 100, 1000) if 90 * t * 2 ** kk < 10 ** 9 * h * h * c1)
                w.add(f"kink {c0} {c1} {fl(a + h * F(n, 2 ** kk))} {fl(a)} {fl(a + h)} {tol}e-9", op="kink", c0=c0, c1=c1, kk=kk, n=n, h=h, a=q(a), tol=tol)
            elif r < .45:
                n = rng.choice([1, 2, 3, 4, 4, 5, 5, 6, 6]); c = [F(ri(rng, 4), rng.choice([1, 1, 2])) for _ in range(n)]
                a, b = (F(ri(rng, 4), rng.choice([1, 2])) for _ in range(2)); tol = rng.choice([10, 1000, 100000, 1000000])
                if n > 4: a, b = a / 2, b / 2
                w.add(f"quad {n} {fls(c)} {fl(a)} {fl(b)} {tol}e-9", op="quad", c=[q(x) for x in c], a=q(a), b=q(b), tol=tol)
            elif r < .6:
                # positive integrand: the upper limit with a given integral
                n = rng.choice([1, 2, 3]); c = [F(rng.randint(1, 5))] + [F(0)] * (n - 1)
                if n == 3: c = [F(rng.randint(2, 6)), F(ri(rng, 1)), F(1)]
                t0, t1 = F(ri(rng, 8), 4), F(ri(rng, 8), 4); I = pint(c, t0, t1)
                if (I.denominator & (I.denominator - 1)): I = pint([3 * x for x in c], t0, t1); c = [3 * x for x in c]
                g = t1 + F(ri(rng, 4), 8)
                w.add(f"root {n} {fls(c)} {fl(t0)} {fl(I)} {fl(g)} 1e-9", op="root", t=q(t1), tol=1000)
            else:
                p = ph(rng)
                if p is None: continue
                u, v, T, bx, by, speed = p
                if all(x == 0 for x in speed): continue
                ax = rng.sample([1, 2, 3], 2); cp = []
                o = F(ri(rng, 3))
                for x, y in zip(bx, by):
                    pt = [o, o, o]; pt[ax[0] - 1], pt[ax[1] - 1] = x, y; cp.append(pt)
                deg = len(bx) - 1; kn = [F(0)] * (deg + 1) + [F(T)] * (deg + 1)
                if r < .85:
                    ts = sorted(F(rng.randint(0, 8 * T), 8) for _ in range(rng.randint(2, 4))); tol = rng.choice([100, 10000, 1000000])
                    if rng.random() < .3: ts[0] = F(0)
                    if rng.random() < .3: ts[-1] = F(T)
                    w.add(f"len {tcurve(deg, kn, cp)} {len(ts)} {fls(ts)} {tol}e-9", op="len", u=[q(x) for x in u], v=[q(x) for x in v], cp=[[q(x) for x in c] for c in cp], ax=ax, iv=[0, T], ts=[q(x) for x in ts], tol=tol)
                else:
                    # speed must not come close to zero for the iteration to be well posed
                    if min(sum(c * F(k, 16) ** j for j, c in enumerate(speed)) for k in range(0, 16 * T + 1)) < F(max(abs(sum(c * F(k, 16) ** j for j, c in enumerate(speed))) for k in range(0, 16 * T + 1))) / 6: continue
                    t0, t1 = F(rng.randint(0, 4 * T), 8), F(rng.randint(0, 8 * T), 8)
                    if rng.random() < .5: t0 = F(0)
                    L = pint(speed, t0, t1)
                    if L.denominator & (L.denominator - 1): continue
                    if t0 == 0 and rng.random() < .6: w.add(f"lat0 {tcurve(deg, kn, cp)} {fl(L)} 1e-6", op="lat", t=q(t1), l=q(L), tol=20000)
                    else: w.add(f"lat {tcurve(deg, kn, cp)} {fl(L)} {fl(t0)} {fl(min(max(t1 + F(ri(rng, 2), 8), F(0)), F(T)))} 1e-6", op="lat", t=q(t1), l=q(L), tol=20000)
        if rng.random() < .4:                       # straight, uniformly parametrised, any degree and axis
            deg = rng.choice([1, 2, 3, 5]); nint = rng.choice([0, 0, 1, 2]); d = rng.choice([(3, 4, 0), (0, 0, 1), (1, 2, 2), (-2, 3, 6)]); ln = {3: 5, 0: 1, 1: 3, -2: 7}[d[0]]
            kn = [F(0)] * (deg + 1) + [F(k + 1) for k in range(nint)] + [F(nint + 1)] * (deg + 1)
            gv = [sum(kn[j + 1:j + deg + 1]) / deg for j in range(deg + nint + 1)]       # Greville abscissae: the identity
            if all((x.denominator & (x.denominator - 1)) == 0 for x in gv):
                o = [ri(rng, 3) for _ in range(3)]; k = rng.choice([1, 2])
                cp = [[o[j] + d[j] * k * x for j in range(3)] for x in gv]; ts = sorted({F(rng.randint(0, 8 * (nint + 1)), 8) for _ in range(3)})
                w.add(f"len {tcurve(deg, kn, cp)} {len(ts)} {fls(ts)} 1e-6", op="line", len=q(ln * k), ts=[q(x) for x in ts], iv=[0, nint + 1], tol=1000)
        if rng.random() < .35:                      # polyline: piecewise constant speed
            n = rng.randint(1, 5); o = [ri(rng, 3) for _ in range(3)]; cp = [o]; sps = []
            for _ in range(n):
                d = rng.choice([(3, 4, 0), (0, 0, 1), (1, 2, 2), (2, -3, 6), (0, -2, 0), (-4, 0, 3), (0, 5, 0)]); k = rng.choice([1, 1, 2, -1]); d = [x * k for x in d]
                sps.append(int(sum(x * x for x in d) ** .5 + .5)); cp.append([x + y for x, y in zip(cp[-1], d)])
            kn = [F(0)] + [F(k) for k in range(n + 1)] + [F(n)]; ts = sorted({F(rng.randint(0, 8 * n), 8) for _ in range(3)}); tol = rng.choice([1000, 100000])
            if len(ts) > 1: w.add(f"len {tcurve(1, kn, cp)} {len(ts)} {fls(ts)} {tol}e-9", op="steps", sp=sps, cp=cp, ts=[q(x) for x in ts], tol=tol)
        if rng.random() < .3:                       # rational circle, 1 to 4 quarters
            n = rng.randint(1, 4); r = rng.randint(1, 5); ax = rng.sample(range(3), 2); ring = [(1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1), (0, -1), (1, -1), (1, 0)][:2 * n + 1]
            ws = [2 ** ((k + 1) // 2) if k % 2 == 0 else 2 ** (k // 2) for k in range(2 * n + 1)]; cp = []
            o = [ri(rng, 3) for _ in range(3)]
            for (x, y), wt in zip(ring, ws):
                pt = o[:]; pt[ax[0]] += r * x; pt[ax[1]] += r * y; cp.append([c * wt for c in pt] + [wt])
            kn = [0] * 3 + [k for k in range(1, n) for _ in (0, 1)] + [n] * 3
            ts = sorted({F(0), F(n)} | {F(rng.randint(1, 16 * n - 1), 16) for _ in range(rng.randint(0, 3))}); tol = rng.choice([1, 10, 100])
            w.add(f"len 2 0 {len(kn)} {fls(kn)} {len(cp)} {' '.join(fls(p) for p in cp)} {len(ts)} {fls(ts)} {tol}e-9", op="circle", r=r, n=n, tol=tol)
        if w.ev: out.append(w.doc())
    return out


# ---- serialisation ----
def rcurve(rng, n=0, deg=0):
    deg = deg or rng.choice([1, 2, 3, 4, 5, 8]); n = n or deg + 1 + rng.choice([0, 0, 1, 3, 6]); kn = [F(0)] * (deg + 1) + [F(k + 1, 2) for k in range(n - deg - 1)] + [F(n - deg, 2)] * (deg + 1)
    cp = [[F(ri(rng, 99), rng.choice([1, 4])) for _ in range(3)] + [F(rng.randint(1, 5), rng.choice([1, 2]))] for _ in range(n)]
    if rng.random() < .15 and n < 50:              # periodic
        cp += cp[:deg]; n += deg; kn = [F(k - deg) for k in range(n + deg + 1)]
        return f"{deg} 1 {len(kn)} {fls(kn)} {n} " + " ".join(fls(p) for p in cp), ["curve", deg, 1, [q(x) for x in kn], [[q(x) for x in p] for p in cp]]
    cmd = f"{deg} 0 {len(kn)} {fls(kn)} {n} " + " ".join(fls(p) for p in cp)
    return cmd, ["curve", deg, 0, [q(x) for x in kn], [[q(x) for x in p] for p in cp]]


def wild(rng): return rng.choice(["0.1", "-3.3333333333333335", "1e300", "-2.5e-310", "5e-324", "inf", "-inf", "nan", "-0.0", "1.7976931348623157e308", repr(rng.uniform(-1, 1)), repr(rng.gauss(0, 1e9))])


def gen_ser(ctx):
    rng, out = ctx["rng"], []
    for t in range(250 if ctx["quick"] else 3000):
        w = W(f"ser-{t}")
        if t % 25 == 7: l = [F(k, 4) for k in range(rng.choice([255, 256, 257, 300]))]; w.add(f"ser 2 int 5 vd {len(l)} {fls(l)}", op="ser", v=[["int", 5], ["vd", [q(y) for y in l]]])
        if t % 25 == 8: a, b = rcurve(rng, rng.choice([130, 258]), rng.choice([1, 2])); w.add("file 1 " + a, op="file", v=[b])
        if t % 50 == 9: cs = [rcurve(rng, 2, 1) for _ in range(257)]; w.add("list 257 " + " ".join(a for a, _ in cs), op="list", v=[b for _, b in cs])
        for _ in range(4):
            r = rng.random()
            if r < .5:
                c, v = [], []
                for _ in range(rng.choice([1, 2, 5, 9])):
                    k = rng.choice(["int", "dbl", "bool", "vd", "v4", "vv4", "curve"]); x = lambda: F(ri(rng, 999), rng.choice([1, 2, 64]))
                    if k == "int": n = rng.choice([0, 1, -1, 255, 256, 65536, -65537, 2 ** 31 - 2 ** 28, ri(rng, 10 ** 9)]); n = max(-1999999999, min(1999999999, n)); c.append(f"int {n}"); v.append(["int", n])
                    elif k == "dbl":
                        if rng.random() < .4: c.append("dbl " + wild(rng)); v.append(["dbl_any"]); c[-1] = c[-1]; v[-1] = None
                        else: y = x(); c.append("dbl " + fl(y)); v.append(["dbl", q(y)])
                    elif k == "bool": n = rng.randint(0, 1); c.append(f"bool {n}"); v.append(["bool", n])
                    elif k == "vd": l = [x() for _ in range(rng.choice([0, 1, 2, 7]))]; c.append(f"vd {len(l)} {fls(l)}"); v.append(["vd", [q(y) for y in l]])
                    elif k == "v4": l = [x() for _ in range(4)]; c.append("v4 " + fls(l)); v.append(["v4", [q(y) for y in l]])
                    elif k == "vv4": l = [[x() for _ in range(4)] for _ in range(rng.choice([0, 1, 3]))]; c.append(f"vv4 {len(l)} " + " ".join(fls(p) for p in l)); v.append(["vv4", [[q(y) for y in p] for p in l]])
                    else: a, b = rcurve(rng); c.append("curve " + a); v.append(b)
                # wild doubles have no exact value for the specification: only their bits are compared
                w.add(f"ser {len(c)} " + " ".join(c), op="ser", v=[y if y is not None else ["any"] for y in v])
            elif r < .92:
                cs = [rcurve(rng) for _ in range(rng.choice([0, 1, 2, 5]))]; op = rng.choice(["list", "file"])
                w.add(f"{op} {len(cs)} " + " ".join(a for a, _ in cs), op=op, v=[b for _, b in cs])
            else: w.add("nofile", op="nofile")
        out.append(w.doc())
    return out


# ---- polylines ----
def gen_chain(ctx):
    rng, out = ctx["rng"], []
    for t in range(500 if ctx["quick"] else 8000):
        w = W(f"chain-{t}")
        for _ in range(3):
            den = rng.choice([1, 1, 4, 1024, 2 ** 20, 2 ** 24]); g = []
            ext = rng.choice([1, 3, 1000]); used = set()
            def pt():
                while True:
                    p = tuple(ri(rng, ext) for _ in range(3))
                    if p not in used or rng.random() < .15 or len(used) > 15: used.add(p); return list(p)
            k = rng.choice(["random", "chains", "chains", "chains"])
            if k == "random":
                ps = [pt() for _ in range(rng.randint(2, 5))]; g = [[rng.choice(ps), rng.choice(ps)] for _ in range(rng.randint(0, 7))]
            else:
                for _ in range(rng.choice([1, 1, 2, 3])):
                    ch = [pt() for _ in range(rng.randint(2, 6))]
                    if rng.random() < .5: ch.append(ch[0])
                    g += [[a, b] for a, b in zip(ch, ch[1:])]
            g = [s if rng.random() < .5 else s[::-1] for s in g]
            if rng.random() < .12:                   # a star, or one long chain
                if rng.random() < .5: c = pt(); g = [[c, pt()] for _ in range(rng.randint(3, 8))]
                else: ch = [pt() for _ in range(rng.randint(12, 40))]; g = [[a, b] for a, b in zip(ch, ch[1:])]
                g = [s if rng.random() < .5 else s[::-1] for s in g]
            if rng.random() < .8: rng.shuffle(g)
            if rng.random() < .2:                    # ends that meet within the machine epsilon only
                den = rng.choice([2 ** 12, 2 ** 24]); jp = lambda p: " ".join(f"{x} {rng.choice([0, 0, 1, 2])}" for x in p)
                w.add(f"chainj {den} {len(g)} " + " ".join(jp(a) + " " + jp(b) for a, b in g), op="chain", g=g); continue
            w.add(f"chain {den} {len(g)} " + " ".join(sp(a) + " " + sp(b) for a, b in g), op="chain", g=g)
        out.append(w.doc())
    return out


def mc(module, what, inv, quick, thorough=None):
    r = [{"tier": "quick", "module": module, "what": what, "cfg": {"constants": quick, "invariants": inv}}]
    return r + [{"tier": "thorough", "module": module, "what": what, "cfg": {"constants": thorough or quick, "invariants": inv}}]


CHECKS = {
    "Q01": {"driver": "drv_algebra", "gen": gen_vec, "trace": "TraceAlgebra", "assumptions": ["components are integers over a power of two, so component results are exact"],
            "mc": mc("VecModel", "laws of the exact vector operations on every pair of small vectors", ["Laws"], {"E": 1}, {"E": 3})},
    "N04": {"driver": "drv_algebra", "gen": gen_mat, "trace": "TraceAlgebra", "assumptions": ["integer matrices up to 5x5, some products up to 13x13 and inverses up to 9x9"],
            "mc": mc("InvModel", "Gauss-Jordan with partial pivoting: singularity and inverse, every small matrix", ["Singular", "Inverse", "Laws"], {"N": 2, "E": 3}, {"N": 3, "E": 1})},
    "N03": {"driver": "drv_algebra", "gen": gen_lin, "trace": "TraceAlgebra", "assumptions": ["integer systems up to 5 unknowns; matrices with a vanishing leading minor before any negative one are not judged (rounding decides them)"],
            "mc": mc("CholModel", "triangular solver accepts exactly the positive definite 3x3 matrices and solves the system", ["Accepts", "Solves"], {"E": 1, "K": 2}, {"E": 2, "K": 3})},
    "N02": {"driver": "drv_algebra", "gen": gen_min, "trace": "TraceAlgebra", "assumptions": ["at least two evaluations allowed"],
            "mc": mc("BracketModel", "the bracket keeps the minimiser for any choice of trial points, every strictly unimodal function on a grid", ["Inside", "Holds", "Best", "Done"], {"N": 6, "V": 5}, {"N": 8, "V": 6})},
    "N01": {"driver": "drv_algebra", "gen": gen_quad, "trace": "TraceAlgebra", "assumptions": ["polynomial integrands up to degree 5, for which the step's error estimate is exact; curves of polynomial speed, polylines and circles"],
            "mc": mc("SimpsonModel", "accumulated estimate bounds the error over any refinement, polynomials up to degree 5", ["Bound", "Cubic"], {"C": 1, "Degree": 5, "Depth": 1}, {"C": 1, "Degree": 5, "Depth": 2}) +
                  mc("KinkModel", "halving isolates a kink at a dyadic point: the estimate vanishes only when the kink is a node, and is large before", ["Seen", "Exact"], {"K": 8}, {"K": 12})},
    "R01": {"driver": "drv_algebra", "gen": gen_ser, "trace": "TraceAlgebra", "assumptions": ["same build writes and reads"],
            "mc": mc("SerialModel", "length-prefixed values read back in order, each read ending where its value ends", ["RoundTrip"], {"MaxVals": 2}, {"MaxVals": 3})},
    "L01": {"driver": "drv_algebra", "gen": gen_chain, "trace": "TraceAlgebra", "assumptions": ["end points that are to meet are identical"],
            "mc": mc("ChainModel", "greedy assembly in any order uses each segment once and stops only where it must, every small segment list", ["Assembled"], {"Points": 3, "MaxSegs": 3}, {"Points": 3, "MaxSegs": 4})},
}
