"""Point inversion (G03): Newton starts inside certified neighbourhoods of known feet; arbitrary starts elsewhere."""
from fractions import Fraction as F
from lib.fw import q, fl, fls, NotDyadic
from lib.shadow import Curve, Surface, Ovf, cross, primitive, rchk, radd, rsub, rmul
from families.curve import rknots, rcps, tkn, tcp
from families.surface import rsurf, many


class H:
    def __init__(self, sid, rng): self.id, self.ev, self.c, self.s, self.rng = sid, [], {}, {}, rng
    def doc(self): return {"id": self.id, "ev": self.ev}
    def add(self, cmd, **e): self.ev.append(dict(e, cmd=cmd))

    def curve(self, k, c):
        self.c[k] = c
        self.add(f"cnew {k} {c.deg} {tkn(c.kn)} {tcp(c.cp)}", op="cnew", k=k, deg=c.deg, kn=[q(x) for x in c.kn], cp=[list(p) for p in c.cp])

    def surf(self, k, s):
        self.s[k] = s
        body = " ".join(fls([F(p[0], p[4]), F(p[1], p[4]), F(p[2], p[4]), F(p[3], p[4])]) for r in s.cp for p in r)
        self.add(f"snew {k} {s.du} {s.dv} {tkn(s.ku)} {tkn(s.kv)} {s.nu} {s.nv} {body}", op="snew", k=k, du=s.du, dv=s.dv,
                 ku=[q(x) for x in s.ku], kv=[q(x) for x in s.kv], cp=[[list(p) for p in r] for r in s.cp])


def up1(h): return -((-(abs(h[0]) + abs(h[1]) + abs(h[2]))) // h[4])
def bc(c): return max(up1(p) for p in c.cp)
def bs(s): return max(up1(p) for r in s.cp for p in r)
def euc(h): return [rchk(F(h[j], h[3])) for j in range(3)]
def clear(kn, lo, hi, t, r): return all(not lo < x < hi or abs(x - t) > r + F(1, 4096) for x in kn)
def dot(a, b): return sum(x * y for x, y in zip(a, b))
def dn(x): return F(64 * x.numerator // x.denominator, 64)
def up(x): return -dn(-x)
def sq(v, f):
    a, b, c = [rmul(f(abs(F(x))), f(abs(F(x)))) for x in v]
    return radd(radd(a, b), c)
RS = [F(2), F(1)] + [F(1, 2 ** k) for k in range(1, 13)]


def rcurve(rng, weights="unit"):
    d = rng.choice([1, 2, 2, 3, 3, 4]); kn = rknots(rng, d, rng.choice([0, 0, 1, 2, 3]))
    return Curve(d, kn, rcps(rng, len(kn) - d - 1, weights, rng.choice([3, 6])))


def fcurve(rng):
    """a curve of one segment that is traversed fast"""
    d = rng.choice([2, 2, 3]); v = [rng.choice([-1, 1]) * rng.randint(8, 40) for _ in range(2)] + [rng.choice([0, 0, rng.randint(-20, 20)])]; h = rng.choice([1, 1, 2, 4])
    return Curve(d, [F(0)] * (d + 1) + [F(h)] * (d + 1), [tuple(k * x + rng.randint(-3, 3) for x in v) + (1, 1) for k in range(d + 1)])


def tpar(rng, kn, lo, hi):
    a, b = rng.choice([x for x in zip(sorted(set(kn)), sorted(set(kn))[1:]) if lo <= x[0] and x[1] <= hi])
    return a + (b - a) * F(rng.randint(0, 16), 16)


def near(rng, t, r, lo, hi):
    f = rng.choice([F(1), F(1), F(-1), F(-1), F(1, 2), F(-3, 4), F(1, 8), F(0)])
    return min(max(t + f * r, lo), hi)


def curve_cert(c, t, w1):
    D = c.hderivs(t, 1); T = [F(D[1][j], D[1][4]) for j in range(3)]
    if max(x.denominator for x in T) > 256: return None
    h = c.hodograph(); M1 = bc(h); h2 = h.hodograph() if c.deg > 1 else None
    M2 = bc(h2) if h2 else 0; M3 = bc(h2.hodograph()) if c.deg > 2 else 0
    m = max(abs(x) for x in T); m = dn(m); W = -(-w1.numerator // w1.denominator)
    for r in RS:
        off = W + up(M1 * r); a = m - up(M2 * r); g = a * a - M2 * off; g2 = M3 * off + 3 * M2 * M1
        if clear(c.kn, c.lo, c.hi, t, r) and a >= F(1, 64) and g > 0 and up(2 * g2 * r) <= g and M1 * off <= 100 * g: return r


def surf_cert(s, u, v, w1, flat):
    a, b = s.partial(0, u, v), s.partial(1, u, v)
    if max(x.denominator for x in a + b) > 64: return None
    n = cross(a, b); G = sq(a, up) + sq(b, up); N = sq(n, dn)
    sg = next((F(k, 16) for k in range(160, 0, -1) if F(k * k, 256) * G <= N), None)
    if sg is None: return None
    rsub(rmul(sg * sg, G), N)
    su, sv = s.deriv(0), s.deriv(1)
    def bb(x, p, d): return 0 if p == 0 else bs(x.deriv(d))
    B = bb(su, su.du, 0) + 2 * bb(su, su.dv, 1) + bb(sv, sv.dv, 1)
    if w1 and B or w1 * (bs(su) + bs(sv)) > 32 * sg * sg: return None
    d = s.dom
    for r in RS:
        if 4 * B * r <= sg and clear(s.ku, d[0], d[1], u, r) and clear(s.kv, d[2], d[3], v, r): return r, sg


def gen_g03(ctx):
    def b(h, k):
        rng = h.rng; n = 0
        def tols(it, angle=False):
            e = rng.choice([20, 27, 27]); g = rng.choice([e, 10, 12, 14, 17]) if angle else e
            return (e, g), f"{fl(F(1, 2**e))} {fl(F(1, 2**g))} {it}"
        its = lambda: rng.choice([100, 100, 100, 40, 1, 2, 3, 4, 5])
        def point(lo=-8, hi=8): return [F(rng.randint(4 * lo, 4 * hi), 4) for _ in range(3)]
        if rng.random() < .55:
            fast = rng.random() < .3
            c = fcurve(rng) if fast else rcurve(rng, rng.choice(["unit", "unit", "unit", "rand"])); h.curve(1, c); unit = all(p[3] == p[4] for p in c.cp)
            for _ in range(60):
                if n >= 6: break
                how = "foot" if fast else rng.choice(["foot", "foot", "foot", "exact", "any"] if unit else ["exact", "any"])
                t = tpar(rng, c.kn, c.lo, c.hi); it = its(); e, tl = tols(it, how == "foot")
                def put(P, u, **x): h.add(f"ci 1 {fls(P)} {fl(u)} {tl}", op="ci", k=1, how=how, P=[q(y) for y in P], u=q(u), tol=e[0], tol2=e[1], it=it, **x)
                try:
                    if how == "any":
                        u = c.lo + (c.hi - c.lo) * F(rng.randint(-2, 18), 16) if rng.random() < .3 else t
                        put(rng.choice([point, lambda: point(-40, 40), lambda: euc(c.point(tpar(rng, c.kn, c.lo, c.hi)))])(), u)
                    elif how == "exact":
                        if max(abs(D[1]) for D in c.derivs(t, 1)) < F(1, 8): continue
                        put(euc(c.point(t)), t, t=q(t))
                    else:
                        D = c.hderivs(t, 1); P = euc(D[0]); w = [F(0)] * 3
                        if fast or rng.random() < .5: sc = 2 ** rng.randint(*(0, 4) if fast else (3, 7)); w = [F(x) / sc for x in cross([F(x) for x in primitive([F(D[1][j], D[1][4]) for j in range(3)])], [F(rng.randint(-3, 3)) for _ in range(3)])]
                        r = curve_cert(c, t, sum(abs(x) for x in w))
                        if r is None: continue
                        u = near(rng, t, r, c.lo, c.hi)
                        if rng.random() < .1 and t in (c.lo, c.hi): u = t
                        [fl(x) for x in P]; put([rchk(x + y) for x, y in zip(P, w)], u, t=q(t), r=q(r))
                    n += 1
                except (NotDyadic, Ovf): pass
        else:
            flat = rng.random() < .3
            if flat:
                o, a, bb = point(), [rng.randint(-3, 3) for _ in range(3)], [rng.randint(-3, 3) for _ in range(3)]
                du, dv = rng.choice([(1, 1), (1, 1), (2, 1), (1, 2), (2, 2)]); iu, iv = rng.choice([(F(0), F(1)), (F(0), F(2)), (F(-1), F(1))]), rng.choice([(F(0), F(1)), (F(1), F(3))])
                s = Surface(du, dv, [iu[0]] * (du + 1) + [iu[1]] * (du + 1), [iv[0]] * (dv + 1) + [iv[1]] * (dv + 1),
                            [[tuple(int(4 * x) + 4 * a[m] * i + 4 * bb[m] * j for m, x in enumerate(o)) + (4, 4) for j in range(dv + 1)] for i in range(du + 1)])
            else:
                x = rsurf(rng, 3, 1, rng.choice(["unit", "unit", "unit", "rand"]), 2); k2 = rng.choice([1, 2, 3])
                # spread the net so that the surface is regular
                s = Surface(x.du, x.dv, x.ku, x.kv, [[tuple(p[m] + p[4] * [k2 * i, k2 * j, 0][m] for m in range(3)) + p[3:] for j, p in enumerate(r)] for i, r in enumerate(x.cp)]) if all(p[3] == p[4] for r in x.cp for p in r) else x
            h.surf(1, s); unit = all(p[3] == p[4] for r in s.cp for p in r); d = s.dom
            for _ in range(60):
                if n >= 5: break
                how = rng.choice(["foot", "foot", "foot", "any"]) if unit else "any"
                u, v = tpar(rng, s.ku, d[0], d[1]), tpar(rng, s.kv, d[2], d[3]); it = its(); e, tl = tols(it, how == "foot")
                def put(P, a, c, **x): h.add(f"si 1 {fls(P)} {fl(a)} {fl(c)} {tl}", op="si", k=1, how=how, P=[q(y) for y in P], u=q(a), v=q(c), tol=e[0], tol2=e[1], it=it, **x)
                try:
                    if how == "any": put(rng.choice([point, lambda: euc(s.point(tpar(rng, s.ku, d[0], d[1]), v))])(), u, v)
                    else:
                        P = euc(s.point(u, v)); w = [F(0)] * 3
                        if flat and rng.random() < .6: sc = 2 ** rng.randint(0, 6); w = [F(x) / sc for x in primitive(cross(s.partial(0, u, v), s.partial(1, u, v)))]
                        r = surf_cert(s, u, v, sum(abs(x) for x in w), flat)
                        if r is None: continue
                        r, sg = r
                        off = rng.choice([(F(1, 2), F(1, 2)), (F(-1, 2), F(1, 2)), (F(3, 4), F(-1, 2)), (F(1), F(0)), (F(0), F(-1)), (F(-1, 2), F(-3, 4)), (F(-1), F(0)), (F(1, 4), F(-3, 4))])
                        put([rchk(x + y) for x, y in zip(P, w)], min(max(u + off[0] * r, d[0]), d[1]), min(max(v + off[1] * r, d[2]), d[3]), t=[q(u), q(v)], r=q(r), sg=q(sg))
                    n += 1
                except (NotDyadic, Ovf): pass
        return n > 2
    return many(ctx, "inv", 260, 3000, b, H)


CHECKS = {
    "G03": {"mc": [{"tier": t, "module": "NewtonModel", "what": "clamped Newton iteration halves the distance to a certified foot and stops near it, every small quadratic curve",
                    "cfg": {"spec": "Spec", "constants": k, "invariants": ["Near", "Def", "Stop23", "StopAng"], "properties": ["Stop1"]}} for t, k in (("quick", {"E": 2, "Starts": 2}), ("thorough", {"E": 4, "Starts": 4}))],
            "driver": "drv_meet", "gen": gen_g03, "trace": "TraceMeet", "assumptions": ["certified neighbourhoods are for polynomial splines of degree up to 4, surfaces up to bidegree 3"]},
}
