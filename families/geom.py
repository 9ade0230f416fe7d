"""Hulls (H01 H02), polygons (P01), planes (G01), closest points (G02), separation tests (X01 X02 X03)."""
from families.spatial import W, sp, cloud
from lib import lp


def pl(ps): return f"{len(ps)} " + " ".join(sp(p) for p in ps)


def cr(p, q, r): return (q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])


def cloud2(rng, n, ext):
    kind = rng.choice(["uniform", "uniform", "lattice", "dup", "line", "twolines", "circle", "box"])
    base = [rng.randint(-ext, ext) for _ in range(2)]
    d, e = ([rng.randint(-2, 2) for _ in range(2)] for _ in range(2))
    if rng.random() < .5: d[rng.randint(0, 1)] = 0
    pts = []
    for k in range(n):
        if kind == "uniform": p = [rng.randint(-ext, ext) for _ in range(2)]
        elif kind == "lattice": p = [rng.randint(0, 3) for _ in range(2)]
        elif kind == "dup": p = list(rng.choice(pts)) if pts and rng.random() < .5 else [rng.randint(-3, 3) for _ in range(2)]
        elif kind == "line": t = rng.randint(-6, 6); p = [b + t * x for b, x in zip(base, d)]
        elif kind == "twolines": t = rng.randint(-6, 6); p = [b + t * x for b, x in zip(base, d if rng.random() < .5 else e)]
        elif kind == "circle":
            a, b = rng.choice([(5, 0), (4, 3), (3, 4), (0, 5)]); p = [base[0] + rng.choice([-1, 1]) * a, base[1] + rng.choice([-1, 1]) * b]
        else:
            p = [rng.choice([-4, 4]), rng.randint(-4, 4)]
            if rng.random() < .5: p.reverse()
        pts.append(p)
    return pts


def gen_h2(ctx):
    rng, out = ctx["rng"], []
    for t in range(700 if ctx["quick"] else 8000):
        w = W(f"h2-{t}")
        den = rng.choice([1, 1, 8, 64]); w.add(f"den {den}", op="unit", den=den)
        for _ in range(rng.randint(1, 4)):
            n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 13, 18, 30] + [70] * (t % 6 == 0))
            p = cloud2(rng, n, rng.choice([2, 5, 30, 1000]))
            if rng.random() < .15: p.sort()
            w.add("h2 " + pl(p), op="h2", pts=p)
        out.append(w.doc())
    return out


def cloud3(rng, n, ext):
    r = rng.random()
    if r < .55: return cloud(rng, n, ext)
    if r < .65:            # a skew plane
        b, u, v = ([rng.randint(-3, 3) for _ in range(3)] for _ in range(3))
        return [[x + rs[0] * y + rs[1] * z for x, y, z in zip(b, u, v)] for rs in ([rng.randint(-3, 3), rng.randint(-3, 3)] for _ in range(n))]
    if r < .75: return [[rng.choice([-2, 0, 2]) for _ in range(3)] for _ in range(n)]          # cube with mid points
    if r < .85:            # a prism: two parallel layers
        return [[rng.randint(-3, 3), rng.randint(-3, 3), rng.choice([0, 5])] for _ in range(n)]
    if r < .93:            # a skew plane and one point off it
        b, u, v = ([rng.randint(-3, 3) for _ in range(3)] for _ in range(3))
        p = [[x + rs[0] * y + rs[1] * z for x, y, z in zip(b, u, v)] for rs in ([rng.randint(-3, 3), rng.randint(-3, 3)] for _ in range(n))]
        if p: p[rng.randrange(len(p))] = [rng.randint(-6, 6) for _ in range(3)]
        return p
    return [[a, b, a * a + b * b - 5] for a, b in ([rng.randint(-3, 3), rng.randint(-3, 3)] for _ in range(n))]   # paraboloid: all extreme


def gen_h3(ctx):
    rng, out = ctx["rng"], []
    for t in range(420 if ctx["quick"] else 4500):
        w = W(f"h3-{t}")
        den = rng.choice([1, 1, 4, 32]); w.add(f"den {den}", op="unit", den=den)
        n = rng.choice([1, 2, 3, 4, 4, 5, 5, 6, 7, 8, 10, 12, 14] + ([] if ctx["quick"] else [18, 24]))
        if t % 84 == 7: n = rng.choice([24, 30, 36])
        for z in range(1 if n > 14 else 2):
            p = cloud3(rng, n, rng.choice([1, 2, 6, 20]))
            if z and t % 3 == 0:                    # a pyramid: many points on one skew plane, one off it
                c = [rng.randint(-2, 2) for _ in range(2)]; e = rng.choice([3, 6, 15])
                p = [[x, y, c[0] * x + c[1] * y] for x, y in ([rng.randint(-e, e) for _ in range(2)] for _ in range(rng.randint(8, 16)))]
                p[rng.randrange(len(p))][2] += rng.choice([-2, -1, 1, 2])
            if rng.random() < .2:                   # far from the origin
                z = [rng.randint(-500, 500) for _ in range(3)]; p = [[x + y for x, y in zip(q, z)] for q in p]
            w.add("h3 " + pl(p), op="h3", pts=p)
        out.append(w.doc())
    return out


# ---- polygons ----
def between(p, q, r): return cr(p, q, r) == 0 and (p[0] - r[0]) * (q[0] - r[0]) + (p[1] - r[1]) * (q[1] - r[1]) <= 0


def meet(a, b, c, d):
    if between(a, b, c) or between(a, b, d) or between(c, d, a) or between(c, d, b): return True
    s = lambda x: (x > 0) - (x < 0)
    return s(cr(a, b, c)) * s(cr(a, b, d)) < 0 and s(cr(c, d, a)) * s(cr(c, d, b)) < 0


def simple(g):
    n = len(g)
    if len({tuple(p) for p in g}) < n: return False
    for k in range(n):
        a, b, c = g[k], g[(k + 1) % n], g[(k + 2) % n]
        if cr(a, b, c) == 0 and (a[0] - b[0]) * (c[0] - b[0]) + (a[1] - b[1]) * (c[1] - b[1]) >= 0: return False
        for l in range(k + 2, n):
            if k == 0 and l == n - 1: continue
            if meet(g[k], g[(k + 1) % n], g[l], g[(l + 1) % n]): return False
    return True


def polygon(rng, ext, big=False):
    while True:
        n = rng.choice([3, 3, 4, 4, 5, 6, 7, 8, 10]) if not big else rng.choice([15, 20, 26])
        g = [[rng.randint(-ext, ext) for _ in range(2)] for _ in range(n)]
        for _ in range(60 if not big else 400):                    # untangle by reversing chains
            m = [(k, l) for k in range(n) for l in range(k + 1, n) if l != k + 1 and not (k == 0 and l == n - 1) and meet(g[k], g[(k + 1) % n], g[l], g[(l + 1) % n])]
            if not m: break
            k, l = rng.choice(m); g[k + 1:l + 1] = reversed(g[k + 1:l + 1])
        if rng.random() < .2:                  # a collinear vertex
            k = rng.randrange(n); a, b = g[k], g[(k + 1) % n]
            if all((x + y) % 2 == 0 for x, y in zip(a, b)): g.insert(k + 1, [(x + y) // 2 for x, y in zip(a, b)])
        if simple(g): break
    if rng.random() < .5: g.reverse()
    k = rng.randrange(len(g)); return g[k:] + g[:k]


def hull(ps):
    ps = sorted({tuple(p) for p in ps})
    if len(ps) <= 2: return [list(p) for p in ps]
    def half(s):
        h = []
        for p in s:
            while len(h) > 1 and cr(h[-2], h[-1], p) <= 0: h.pop()
            h.append(p)
        return h[:-1]
    return [list(p) for p in half(ps) + half(ps[::-1])]


def ring(rng, ext, minimum=1):
    e20 = rng.random() > .06                   # else a polygon with many corners
    while True:
        kind = rng.random()
        c = [rng.randint(-ext, ext) for _ in range(2)]
        r = rng.choice([1, 2, ext, ext])
        n = rng.choice([1, 2, 3, 4, 5, 7]) if e20 else 40
        if not e20: r = 9
        h = hull([[x + rng.randint(-r, r) for x in c] for _ in range(n)])
        if kind < .25: h = [[c[0], c[1]], [c[0] + r, c[1]], [c[0] + r, c[1] + 1], [c[0], c[1] + 1]]
        if len(h) >= minimum: break
    if len(h) > 2 and rng.random() < .25:      # a collinear vertex
        k = rng.randrange(len(h)); a, b = h[k], h[(k + 1) % len(h)]
        if all((x + y) % 2 == 0 for x, y in zip(a, b)): h.insert(k + 1, [(x + y) // 2 for x, y in zip(a, b)])
    if rng.random() < .5: h.reverse()
    k = rng.randrange(len(h)); return h[k:] + h[:k]


def gen_poly(ctx):
    rng, out = ctx["rng"], []
    for t in range(500 if ctx["quick"] else 6000):
        w = W(f"pol-{t}")
        den = rng.choice([1, 1, 8, 1 << 16]); w.add(f"den {den}", op="unit", den=den)
        ext = rng.choice([2, 4, 12])
        for _ in range(3):
            g = polygon(rng, ext, big=t % 12 == 5 and ext > 10); q = []
            for _ in range(14):
                p = [rng.randint(-ext - 1, ext + 1) for _ in range(2)]
                if rng.random() < .5: p[1] = rng.choice(g)[1]          # level with a vertex
                if not any(between(g[k], g[(k + 1) % len(g)], p) for k in range(len(g))): q.append(p)
            w.add(f"pip {pl(g)} {pl(q)}", op="pip", g=g, q=q, far=1000)
            w.add("pn " + pl(g), op="pn", g=g)
        for _ in range(5):
            a, b = ring(rng, rng.choice([2, 4]), 3), ring(rng, rng.choice([2, 4]), 3)
            w.add(f"rel {pl(a)} {pl(b)}", op="rel", a=a, b=b)
        out.append(w.doc())
    return out


def gen_sat2(ctx):
    rng, out = ctx["rng"], []
    for t in range(500 if ctx["quick"] else 6000):
        w = W(f"sat-{t}")
        den = rng.choice([1, 1, 8, 1 << 20]); w.add(f"den {den}", op="unit", den=den)
        for _ in range(8):
            e = rng.choice([2, 3, 5, 9])
            if rng.random() < .8:
                a, b = ring(rng, e), ring(rng, e)
                w.add(f"sat2 {pl(a)} {pl(b)}", op="sat2", a=a, b=b)
            else:
                a, b = (cloud(rng, rng.randint(1, 6) if rng.random() < .9 else rng.randint(7, 40), e) for _ in range(2))
                s = [rng.randint(-e, 2 * e) for _ in range(3)]; b = [[x + y for x, y in zip(p, s)] for p in b]
                w.add(f"aabb {pl(a)} {pl(b)}", op="aabb", a=a, b=b)
        out.append(w.doc())
    return out


BIG = 4000000


def pair3(rng):
    """two point sets near each other: apart, touching or overlapping, with a certificate"""
    while True:
        e = rng.choice([1, 2, 3, 5])
        a, b = (cloud3(rng, rng.randint(1, 8) if rng.random() < .93 else rng.randint(9, 30), e) for _ in range(2))
        s = [rng.randint(-2 * e, 2 * e) for _ in range(3)] if rng.random() < .6 else [0, 0, 0]
        b = [[x + y for x, y in zip(p, s)] for p in b]
        c = lp.apart_or_common(a, b)
        if all(abs(x) < BIG // 40 for y in c[1:] for x in y): return a, b, c


def gen_sep3(ctx):
    rng, out = ctx["rng"], []
    for t in range(500 if ctx["quick"] else 6000):
        w = W(f"sep-{t}")
        den = rng.choice([1, 1, 8, 1 << 14, 1 << 20]); w.add(f"den {den}", op="unit", den=den)
        for _ in range(8):
            a, b, c = pair3(rng)
            op = "gjk" if rng.random() < .6 else "sat3"
            f = {"cert": "apart", "d": c[1]} if c[0] == "apart" else {"cert": "common", "l": c[1], "m": c[2]}
            w.add(f"{op} {pl(a)} {pl(b)}", op=op, a=a, b=b, **f)
        out.append(w.doc())
    return out


def dirs(rng, n):
    k = rng.random(); r = []
    base = [rng.randint(-4, 4) for _ in range(3)]
    while len(r) < n:
        if k < .4: v = [rng.randint(-3, 3) for _ in range(3)]
        elif k < .85: v = [b + rng.randint(-2, 2) for b in base]
        else: v = [rng.choice([-1, 0, 1]) for _ in range(3)]
        if any(v): r.append(v)
    return r


def cone_cert(a, b):
    c = lp.cones(a, b, True)             # overlapping cones
    if c[0] == "common": return c
    c = lp.cones(a, b)
    return c if c[0] == "apart" else ("none",)      # cones that only touch: decided by rounding, not claimed


def gen_sph(ctx):
    rng, out = ctx["rng"], []
    ok = lambda c: c[0] != "none" and all(abs(x) < 100000 for y in c[1:] for x in y)
    def fld(c): return {"cert": "apart", "d": c[1], "l": [], "m": []} if c[0] == "apart" else {"cert": "common", "l": c[1], "m": c[2], "d": []}
    for t in range(400 if ctx["quick"] else 5000):
        w = W(f"sph-{t}")
        n = 0
        while n < 8:
            if rng.random() < .7:
                a, b = (dirs(rng, rng.randint(1, 9) if rng.random() < .93 else rng.randint(10, 30)) for _ in range(2))
                c = cone_cert(a, b)
                if not ok(c): continue
                w.add(f"sph {pl(a)} {pl(b)}", op="sph", a=a, b=b, **fld(c))
            else:
                sz = [(rng.randint(2, 3), rng.randint(2, 3)) for _ in range(2)]
                a, b = (dirs(rng, x * y) for x, y in sz)
                c1, c2 = cone_cert(a, b), cone_cert(a, [[-x for x in p] for p in b])
                if not (ok(c1) and ok(c2)): continue
                w.add(f"gms {sz[0][0]} {sz[0][1]} {' '.join(sp(p) for p in a)} {sz[1][0]} {sz[1][1]} {' '.join(sp(p) for p in b)}", op="gms", a=a, b=b, c1=fld(c1), c2=fld(c2))
            n += 1
        out.append(w.doc())
    return out


# ---- planes and closest points ----
def sub(a, b): return [x - y for x, y in zip(a, b)]
def dot(a, b): return sum(x * y for x, y in zip(a, b))
def cross(a, b): return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def rv(rng, e, nz=False):
    while True:
        v = [0 if rng.random() < .2 else rng.randint(-e, e) for _ in range(3)]
        if any(v) or not nz: return v


def rplane(rng, kinds=("eq", "pn", "n", "z", "pts", "pts"), e=4):
    k = rng.choice(kinds)
    if k == "eq":
        v = rv(rng, e, True) + [rng.randint(-8, 8)]; return "eq " + sp(v), {"k": k, "v": v}
    if k == "pn":
        o, n = rv(rng, e), rv(rng, e, True); return f"pn {sp(o)} {sp(n)}", {"k": k, "o": o, "n": n}
    if k == "n":
        n = rv(rng, e, True); return "n " + sp(n), {"k": k, "n": n}
    if k == "z": return "z", {"k": k}
    while True:
        p = [rv(rng, e) for _ in range(3)]
        if any(cross(sub(p[1], p[0]), sub(p[2], p[0]))): return "pts " + " ".join(sp(x) for x in p), {"k": k, "p": p}


def eq(p):
    if p["k"] == "eq": return p["v"]
    if p["k"] == "z": return [0, 0, 1, 0]
    if p["k"] == "n": return p["n"] + [0]
    if p["k"] == "pn": return p["n"] + [-dot(p["n"], p["o"])]
    a, b, c = p["p"]; n = cross(sub(b, a), sub(c, a)); return n + [-dot(n, a)]


FRAMES = [([1, 0, 0], [0, 1, 0]), ([0, 1, 0], [0, 0, 1]), ([0, 0, -1], [1, 0, 0]), ([0, -1, 0], [1, 0, 0]), ([-1, 0, 0], [0, 0, -1]), ([0, 0, 1], [0, 1, 0])]


def gen_plane(ctx):
    rng, out = ctx["rng"], []
    for t in range(450 if ctx["quick"] else 5000):
        w = W(f"pla-{t}")
        den = rng.choice([1, 1, 1, 4]); w.add(f"den {den}", op="unit", den=den)
        for _ in range(8):
            r = rng.random()
            if r < .22:
                c, p = rplane(rng); q = [rv(rng, 5) for _ in range(5)]
                if p["k"] == "pts": q += p["p"]
                if p["k"] == "pn": q.append(p["o"])
                w.add(f"dist {c} {pl(q)}", op="dist", pl=p, q=q)
            elif r < .5:
                op = rng.choice(["ray", "seg"]); c, p = rplane(rng); a, b = rv(rng, 5), rv(rng, 5, True)
                v = eq(p)
                if rng.random() < .25:                                   # parallel to the plane (inside it or not)
                    d = cross(v[:3], rv(rng, 2, True))
                    if any(d) and max(map(abs, d)) < 60: b = d if op == "ray" else [x + y for x, y in zip(a, d)]
                    if p["k"] in ("pts", "pn") and rng.random() < .6:
                        o = p["p"][0] if p["k"] == "pts" else p["o"]
                        b = b if op == "ray" else [x + y - z for x, y, z in zip(b, o, a)]; a = o
                if p["k"] == "pts" and rng.random() < .2: a = p["p"][0]   # starts (or ends) on the plane
                if op == "seg" and a == b: continue
                w.add(f"{op} {c} {sp(a)} {sp(b)}", op=op, pl=p, a=a, b=b)
            elif r < .62 and den == 1:
                ks = ("eq", "eq", "pn", "n", "z")
                c, p = rplane(rng, ks, 3); d, q = rplane(rng, ks, 3)
                if rng.random() < .15:
                    k = rng.choice([-2, -1, 1, 2, 3]); v = eq(p); d = "eq " + sp(x * k for x in v[:3]) + f" {v[3] * k + rng.choice([0, 1])}"
                    q = {"k": "eq", "v": [float(x) for x in d.split()[1:]]}; q["v"] = [int(x) for x in q["v"]]
                w.add(f"pp {c} {d}", op="pp", p1=p, p2=q)
            elif r < .75 and den == 1:
                (c, p), (d, q), (f, s) = (rplane(rng, ("eq", "eq", "pn", "n", "z"), 3) for _ in range(3))
                w.add(f"ppp {c} {d} {f}", op="ppp", p1=p, p2=q, p3=s)
            elif r < .87:
                n = rng.choice([0, 1, 2, 3, 4, 4, 5, 6, 8]); p = cloud3(rng, n, 4)
                if rng.random() < .3 and p: p = [p[0]] * rng.randint(1, 2) + p
                w.add("copl " + pl(p), op="copl", pts=p)
            elif r < .93:
                x, y = rng.choice(FRAMES); o = rv(rng, 5); uv = [[rng.randint(-5, 5), rng.randint(-5, 5)] for _ in range(3)]; q = [rv(rng, 5) for _ in range(3)]
                w.add(f"frame {sp(o)} {sp(x)} {sp(y)} {pl(uv)} {pl(q)}", op="frame", o=o, x=x, y=y, uv=uv, q=q)
            else:
                c, p = rplane(rng, ("pts",)); a, b, d = p["p"]; q = [a, b, d]
                if rng.random() < .3: p["p"] = [[0, 0, 0]] + [sub(z, a) for z in (b, d)]; a, b, d = p["p"]; q = [a, b, d]
                for _ in range(3):
                    i, j = rng.randint(-2, 2), rng.randint(-2, 2); q.append([x + i * (y - x) + j * (z - x) for x, y, z in zip(a, b, d)])
                w.add(f"cpl {' '.join(sp(x) for x in p['p'])} {pl(q)}", op="cpl", p=p["p"], q=q)
        out.append(w.doc())
    return out


def gen_near(ctx):
    rng, out = ctx["rng"], []
    for t in range(450 if ctx["quick"] else 5000):
        w = W(f"cl-{t}")
        den = rng.choice([1, 1, 8]); w.add(f"den {den}", op="unit", den=den)
        while len(w.ev) < 12:
            n = rng.choice([1, 2, 2, 3, 3, 3, 4, 4, 5])
            q = [rng.randint(-5, 5) for _ in range(3)]
            v = [[x + rng.randint(-3, 3) for x in q] for _ in range(min(n, 4))]
            if n == 5:                                      # a line
                a, b = v[0], v[1]
                if a == b: continue
                w.add(f"line {sp(q)} {sp(a)} {sp(b)}", op="line", q=q, a=a, b=b); continue
            if n == 4:
                if dot(cross(sub(v[1], v[0]), sub(v[2], v[0])), sub(v[3], v[0])) == 0: continue
                s = lambda i, j, k, p: dot(cross(sub(v[j], v[i]), sub(v[k], v[i])), sub(p, v[i]))
                if all(s(*f, q) * s(*f, v[o]) >= 0 for f, o in (((0, 1, 2), 3), ((0, 1, 3), 2), ((0, 2, 3), 1), ((1, 2, 3), 0))): continue
            if n == 3 and not any(cross(sub(v[1], v[0]), sub(v[2], v[0]))): continue
            w.add(f"near {sp(q)} {pl(v)}", op="near", q=q, pts=v)
        out.append(w.doc())
    return out


def gen_segd(ctx):
    rng, out = ctx["rng"], []
    for t in range(500 if ctx["quick"] else 6000):
        w = W(f"sg-{t}"); den = rng.choice([1, 1, 8]); w.add(f"den {den}", op="unit", den=den)
        while len(w.ev) < 14:
            e = rng.choice([1, 2, 3, 5])
            pt = lambda e=e: [rng.randint(-e, e) for _ in range(3)]
            if rng.random() < .12: o, q = pt(), pt(); w.add(f"cproj {sp(o)} {sp(q)}", op="cproj", o=o, q=q); continue
            p, q, x, y = [pt() for _ in range(4)]
            r = rng.random()
            if r < .15:                                     # parallel
                k = rng.choice([-2, -1, 1, 2]); d = [rng.randint(-2, 2) for _ in range(3)]; q = [a + b for a, b in zip(p, d)]; y = [a + k * b for a, b in zip(x, d)]
                if rng.random() < .5: j = rng.randint(-3, 3); x = [a + j * b for a, b in zip(p, d)]; y = [a + k * b for a, b in zip(x, d)]      # on one line
            elif r < .3: z = rng.randrange(3); v = rng.choice([0, 1]); p[z] = q[z] = 0; x[z] = y[z] = v                                      # in parallel planes
            elif r < .4: y = [2 * b - a for a, b in zip(x, rng.choice([p, q]))]                                                               # through an end
            elif r < .5:                                                                                                                        # points
                if rng.random() < .6: q = list(p)
                if rng.random() < .5: y = list(x)
            w.add(f"segd {sp(p)} {sp(q)} {sp(x)} {sp(y)}", op="segd", p=[p, q, x, y])
        out.append(w.doc())
    return out


A = ["coordinates are integers scaled by a power of two, so every predicate has an exact value"]
CERT = A + ["the hulls' relation is certified inside the scenario (separating direction, or weights of a common point); the specification checks the certificate"]
CHECKS = {
    "H01": {"driver": "drv_geom", "gen": gen_h2, "trace": "TraceGeom", "assumptions": A, "mc": [
        {"tier": "quick", "module": "Hull2Model", "what": "the angular scan yields the convex hull for every list of up to 5 points of a 3x3 grid",
         "cfg": {"constants": {"Ext": 2, "Max": 5}, "invariants": ["HullOK"]}},
        {"tier": "thorough", "module": "Hull2Model", "what": "the angular scan yields the convex hull for every list of up to 6 points of a 3x3 grid",
         "cfg": {"constants": {"Ext": 2, "Max": 6}, "invariants": ["HullOK"]}}]},
    "H02": {"driver": "drv_geom", "gen": gen_h3, "trace": "TraceGeom", "assumptions": A + ["points at least one unit apart relative to an extent of at most 40 units"], "mc": [
        {"tier": "quick", "module": "Hull3Model", "what": "definition of extreme points by facets agrees with not being in the hull of the others",
         "cfg": {"constants": {"Ext": 1, "Max": 4}, "invariants": ["ExtremeOK"]}},
        {"tier": "thorough", "module": "Hull3Model", "what": "definition of extreme points by facets agrees with not being in the hull of the others",
         "cfg": {"constants": {"Ext": 1, "Max": 5}, "invariants": ["ExtremeOK"]}}]},
    "P01": {"driver": "drv_geom", "gen": gen_poly, "trace": "TraceGeom", "assumptions": A + ["query points off the boundary; relations of convex polygons"], "mc": [
        {"tier": "quick", "module": "PolyModel", "what": "half-open crossing parity = crossings of a generic ray, for every simple triangle and quadrilateral on a grid",
         "cfg": {"constants": {"Ext": 2, "Max": 4}, "invariants": ["ParityOK"]}},
        {"tier": "thorough", "module": "PolyModel", "what": "half-open crossing parity = crossings of a generic ray, for every simple triangle and quadrilateral on a 4x4 grid",
         "cfg": {"constants": {"Ext": 3, "Max": 4}, "invariants": ["ParityOK"]}}]},
    "G01": {"driver": "drv_geom", "gen": gen_plane, "trace": "TraceGeom", "assumptions": A, "mc": [
        {"tier": t, "module": "PlaneModel", "what": "intersections of planes with rays, one and two other planes lie on all of them; the coplanarity test finds exactly the coplanar lists",
         "cfg": {"constants": c, "invariants": ["TwoOK", "ParallelOK", "ThreeOK", "RayOK", "CoplanarOK", "SpecOK"]}}
        for t, c in (("quick", {"E": 1, "Ext": 1, "MaxPts": 5, "MaxPl": 2}), ("thorough", {"E": 2, "Ext": 1, "MaxPts": 6, "MaxPl": 2}), ("thorough", {"E": 1, "Ext": 2, "MaxPts": 3, "MaxPl": 3}))]},
    "G02": {"driver": "drv_geom", "gen": gen_near, "trace": "TraceGeom", "assumptions": A + ["tetrahedra not containing the query point"], "mc": [
        {"tier": "quick", "module": "NearModel", "what": "the region tests of the triangle routine select the closest feature, for every triangle on a grid",
         "cfg": {"constants": {"Ext": 1}, "invariants": ["TriOK", "UniqueOK"]}}]},
    "G04": {"driver": "drv_geom", "gen": gen_segd, "trace": "TraceGeom", "assumptions": A, "mc": [
        {"tier": t, "module": "SegModel", "what": "clamping one parameter, solving for the other and clamping back reaches a closest pair, for every pair of segments of a grid",
         "cfg": {"constants": c, "invariants": ["PairOK", "Stays"]}} for t, c in (("quick", {"Ext": 1, "Far": 1}), ("thorough", {"Ext": 2, "Far": 2}))]},
    "X01": {"driver": "drv_geom", "gen": gen_sat2, "trace": "TraceGeom", "assumptions": A, "mc": [
        {"tier": "quick", "module": "SatModel", "what": "edge normals (and a segment's direction) decide disjointness of convex rings",
         "cfg": {"constants": {"Ext": 1, "Shift": 2}, "invariants": ["SatOK"]}},
        {"tier": "thorough", "module": "SatModel", "what": "edge normals (and a segment's direction) decide disjointness of convex rings",
         "cfg": {"constants": {"Ext": 2, "Shift": 2}, "invariants": ["SatOK"]}}]},
    "X02": {"driver": "drv_geom", "gen": gen_sep3, "trace": "TraceGeom", "assumptions": CERT, "mc": [
        {"tier": "quick", "module": "GjkModel", "what": "the simplex descent terminates with the right verdict for every set of up to 3 Minkowski points",
         "cfg": {"constants": {"Ext": 1, "Max": 3}, "invariants": ["VerdictOK", "Progress"]}},
        {"tier": "thorough", "module": "GjkModel", "what": "the simplex descent terminates with the right verdict for every set of up to 4 Minkowski points",
         "cfg": {"constants": {"Ext": 1, "Max": 4}, "invariants": ["VerdictOK", "Progress"]}}]},
    "X03": {"driver": "drv_geom", "gen": gen_sph, "trace": "TraceGeom", "assumptions": CERT + ["cones that only touch are not judged (their directions are normalised in floating point)"], "mc": [
        {"tier": "quick", "module": "GjkModel", "what": "the simplex descent terminates with the right verdict for every set of up to 3 Minkowski points",
         "cfg": {"constants": {"Ext": 1, "Max": 3}, "invariants": ["VerdictOK", "Progress"]}}]},
}
