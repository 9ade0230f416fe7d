from fractions import Fraction as F
from math import comb
from lib.fw import q, fl, fls, NotDyadic
from lib import fw
from lib.shadow import Surface, Curve, Ovf, default_knots, dyadic, cross, primitive, rsub, rmul, rdiv
from families.curve import rknots, rcps, tkn


class H:
    def __init__(self, sid, rng): self.id, self.ev, self.s, self.rng = sid, [], {}, rng
    def doc(self): return {"id": self.id, "ev": self.ev}
    def add(self, cmd, **e): self.ev.append(dict(e, cmd=cmd))

    def new(self, k, s, how="full"):
        body = " ".join(fls([F(p[0], p[4]), F(p[1], p[4]), F(p[2], p[4]), F(p[3], p[4])]) for r in s.cp for p in r)
        ku, kv = (s.ku, s.kv) if how in ("full", "vec3") else ([], []) if how == "def" else (s.ku, [])
        self.add(f"new {k} {how} {s.du} {s.dv} {tkn(ku)} {tkn(kv)} {s.nu} {s.nv} {body}", op="new", k=k, how=how, du=s.du, dv=s.dv,
                 ku=[q(x) for x in ku], kv=[q(x) for x in kv], cp=[[list(p) for p in r] for r in s.cp])
        self.s[k] = Surface(s.du, s.dv, ku or default_knots(s.nu, s.du), kv or default_knots(s.nv, s.dv), s.cp)

    def simple(self, op, k): self.add(f"{op} {k}", op=op, k=k)
    def eval(self, k, u, v): self.s[k].point(u, v); self.add(f"eval {k} {fl(u)} {fl(v)}", op="eval", k=k, u=q(u), v=q(v))

    def par(self, k, d, knots=True, inner=False):
        s, rng = self.s[k], self.rng
        kn = sorted(set(s.ku if d == 0 else s.kv))
        while True:
            if knots and rng.random() < .3: t = rng.choice(kn)
            else:
                a, b = rng.choice(list(zip(kn, kn[1:])))
                t = a + (b - a) * rng.choice([F(1, 2), F(1, 4), F(3, 4), F(1, 2), F(1, 8)])
            if not inner or kn[0] < t < kn[-1]: return t

    def near(self, t, kn):
        if t not in kn or self.rng.random() > .3 or abs(t) > 500: return fl(t)
        return repr(float(t) + self.rng.choice([-1, 1]) * 2.0 ** -41)

    def insert(self, k, d, t, n, gen=0):
        x = self.near(t, (self.s[k].ku, self.s[k].kv)[d])
        self.s[k] = self.s[k].insert(d, t, n)
        self.add(f"insert {k} {d} {x} {n} {gen}", op="insert", k=k, dir=d, t=q(t), n=n)

    def split(self, k, d, t, l, r):
        s = self.s[k]; dom = s.dom[2 * d:2 * d + 2]; x = fl(t)
        if dom[0] < t < dom[1]: x = self.near(t, (s.ku, s.kv)[d]); self.s[l], self.s[r] = s.left(d, t), s.right(d, t)
        self.add(f"split {k} {d} {x} {l} {r}", op="split", k=k, dir=d, t=q(t), l=l, r=r)

    def sub(self, k, how, u=None, v=None):
        s = self.s[k]; a, b, c, d = s.dom
        mid = how.startswith("mid")
        if mid: u, v = (a + b) / 2, (c + d) / 2
        if a < u < b and c < v < d:
            l, r = s.left(0, u), s.right(0, u)
            self.s[3], self.s[4], self.s[5], self.s[6] = l.left(1, v), l.right(1, v), r.left(1, v), r.right(1, v)
        self.add(f"sub {k} {how} {fl(u)} {fl(v)}", op="sub", k=k, mid=mid, u=q(u), v=q(v))

    def iso(self, k, fr, d, t):
        s = self.s[k]; dom = s.dom[2 * d:2 * d + 2]
        if dom[0] <= t <= dom[1]:
            c = s.iso(d, t)
            for j in range(5): c.point(c.lo + (c.hi - c.lo) * F(j, 4))
        self.add(f"iso {k} {fr} {d} {fl(t)}", op="iso", k=k, dir=d, t=q(t))


def rsurf(rng, maxdeg=3, maxint=2, weights="mixed", big=3, degs=None):
    du, dv = degs or (rng.randint(1, maxdeg), rng.randint(1, maxdeg))
    ku, kv = rknots(rng, du, rng.randint(0, maxint)), rknots(rng, dv, rng.randint(0, maxint))
    mode = rng.choice(["unit", "unit", "rand"]) if weights == "mixed" else weights
    return Surface(du, dv, ku, kv, [rcps(rng, len(kv) - dv - 1, mode, big) for _ in range(len(ku) - du - 1)])


def shape(rng, k, maxdeg=3):
    """degrees: mostly small, now and then high in one direction, or a long net in one direction"""
    if k % 6 == 5:
        d = (rng.randint(4, 8), rng.randint(1, 2))
        return {"degs": d if rng.random() < .5 else d[::-1], "maxint": 1 if max(d) < 6 else 0, "big": 2}
    return {"maxdeg": maxdeg}


def rlong(rng):
    """bilinear or quadratic with many knots in one direction"""
    d = [rng.randint(1, 2), rng.randint(1, 2)]; n = [rng.randint(7, 15), rng.randint(0, 1)]; rng.shuffle(n)
    ku, kv = (rknots(rng, a, b) for a, b in zip(d, n))
    return Surface(*d, ku, kv, [rcps(rng, len(kv) - d[1] - 1, "mixed", 3) for _ in range(len(ku) - d[0] - 1)])


def many(ctx, name, nq, nt, build, cls=H):
    out, n = [], (nq if ctx["quick"] else nt)
    k = tries = 0
    while k < n:
        tries += 1
        assert tries < 80 * n + 1000, f"{name}: cannot generate"
        h = cls(f"{name}-{k}", ctx["rng"])
        try:
            if build(h, k) is False: continue
        except (Ovf, NotDyadic):
            continue
        out.append(h.doc()); k += 1
    return out


def gen_s01(ctx):
    rng = ctx["rng"]

    def b(h, k):
        if k % 3 == 0: degs = (k // 3 % 8 + 1, rng.randint(1, 2)) if k % 2 else (rng.randint(1, 2), k // 3 % 8 + 1)
        else: degs = (rng.randint(1, 4), rng.randint(1, 4))
        how = rng.choice(["full", "full", "def", "vec3", "ukn"])
        if k % 8 == 7: how = "full"; h.new(1, rlong(rng))
        else: h.new(1, rsurf(rng, degs=degs, weights="unit" if how == "vec3" else "mixed", maxint=2 if max(degs) < 5 else 0), how)
        a, b_, c, d = h.s[1].dom
        for u in (a, b_):
            for v in (c, d): h.eval(1, u, v)
        for _ in range(6): h.eval(1, h.par(1, 0), h.par(1, 1))
        h.simple("corners", 1); h.simple("flat", 1)
    return many(ctx, "seval", 110, 1200, b)


def gen_s02(ctx):
    rng = ctx["rng"]

    def b(h, k):
        h.new(1, rlong(rng) if k % 9 == 8 else rsurf(rng, **shape(rng, k)))
        for _ in range(rng.randint(1, 4)):
            d = rng.randint(0, 1); t = h.par(1, d, inner=True)
            s = h.s[1]; room = (s.du, s.dv)[d] - (s.ku, s.kv)[d].count(t)
            if room < 1: continue
            h.insert(1, d, t, rng.randint(1, room), rng.randint(0, 1))
            h.eval(1, h.par(1, 0), h.par(1, 1))
        if len(h.ev) < 2: return False
        h.state(1) if False else h.simple("state", 1)
        for _ in range(3): h.eval(1, h.par(1, 0), h.par(1, 1))
    return many(ctx, "sins", 110, 1200, b)


def gen_s03(ctx):
    rng = ctx["rng"]

    def b(h, k):
        m = k % 4
        h.new(1, rsurf(rng, 2) if m == 3 else rlong(rng) if k % 9 == 8 else rsurf(rng, **shape(rng, k // 4)))
        if m == 0:
            a, b_, c, d = h.s[1].dom
            for t in (a, b_, a - 1, b_ + F(1, 2)): h.split(1, 0, t, 2, 3)
            for t in (c, d, c - 1, d + 2): h.split(1, 1, t, 2, 3)
            h.sub(1, "at", a, (c + d) / 2)
            h.simple("state", 1)
        if m in (0, 1):
            d = rng.randint(0, 1)
            h.split(1, d, h.par(1, d, inner=True), 2, 3)
            for k2 in (2, 3): h.eval(k2, h.par(k2, 0), h.par(k2, 1))
            k2 = rng.choice([2, 3]); d = rng.randint(0, 1)
            h.split(k2, d, h.par(k2, d, inner=True), 4, 5)
            h.simple("state", k2); h.simple("state", 1)
        elif m == 2:
            how = rng.choice(["mid", "midout", "at", "atout"])
            h.sub(1, how, h.par(1, 0, inner=True), h.par(1, 1, inner=True))
            for k2 in (3, 4, 5, 6): h.eval(k2, h.par(k2, 0), h.par(k2, 1))
            if rng.random() < .3: h.sub(rng.choice([3, 4, 5, 6]), "mid")
            h.simple("state", 1)
        else:
            s = h.s[1]; d = rng.randint(0, 2)
            us = sorted(set(s.ku)); vs = sorted(set(s.kv))
            for a, b_ in zip(us, us[1:]):
                x = s.over(0, [a] * (s.du + 1) + [b_] * (s.du + 1)) if d != 1 else s
                if d != 0:
                    for c, e in zip(vs, vs[1:]): x.over(1, [c] * (s.dv + 1) + [e] * (s.dv + 1))
            h.add(f"decompose 1 {d}", op="decompose", k=1, dir=d)
            h.simple("state", 1)
    return many(ctx, "ssplit", 120, 1000, b)


def gen_s04(ctx):
    rng = ctx["rng"]

    def b(h, k):
        h.new(1, rlong(rng) if k % 9 == 8 else rsurf(rng, **shape(rng, k, 4)))
        a, b_, c, d = h.s[1].dom
        for fr in (0, 1):
            for dr in (0, 1):
                lo, hi = ((a, b_), (c, d))[dr]
                for t in {h.par(1, dr), h.par(1, dr), rng.choice([lo, hi])}: h.iso(1, fr, dr, t)
                if rng.random() < .4: h.iso(1, fr, dr, rng.choice([lo - F(1, 4), hi + F(1, 2)]))
            for dr in (0, 1):
                for t in ((a, b_), (c, d))[dr]:
                    cv = h.s[1].iso(dr, t)
                    for j in range(5): cv.point(cv.lo + (cv.hi - cv.lo) * F(j, 4))
            h.add(f"bounds 1 {fr}", op="bounds", k=1)
    return many(ctx, "iso", 90, 900, b)


def gen_s05(ctx):
    rng = ctx["rng"]

    def b(h, k):
        poly = k % 3 != 2
        x = {} if not poly or k % 7 else shape(rng, 5)
        h.new(1, rsurf(rng, weights="unit" if poly else "rand", **dict({"big": 4, "maxint": 1}, **x)))
        s = h.s[1]
        ok = 0
        for _ in range(3):
            u, v = h.par(1, 0, knots=False), h.par(1, 1, knots=False)
            try:
                pu, pv = s.partial(0, u, v), s.partial(1, u, v)
                if max(abs(x) for x in pu + pv) > 300: continue
                h.add(f"dnum 1 {fl(u)} {fl(v)}", op="dnum", k=1, u=q(u), v=q(v)); ok += 1
                c = primitive(cross(pu, pv)); m = max(abs(x) for x in c)
                cr = cross(pu, pv)
                if m and m <= 700 and max(abs(x) for x in cr) >= F(1, 10):
                    h.add(f"normal 1 {fl(u)} {fl(v)}", op="normal", k=1, u=q(u), v=q(v)); ok += 1
            except Ovf: continue
        if poly:
            cur = 1
            for _ in range(rng.randint(1, 3)):
                d = rng.randint(0, 1); x = h.s[cur]
                if (x.du, x.dv)[d] < 2: d = 1 - d
                if (x.du, x.dv)[d] < 2: break
                nxt = 2 if cur != 2 else 3
                h.add(f"gder {cur} {d} {nxt} {rng.randint(0, 1)}", op="gder", k=cur, dir=d, l=nxt); h.s[nxt] = x.deriv(d)
                cur = nxt
                for _ in range(3): h.eval(cur, h.par(cur, 0, knots=False), h.par(cur, 1, knots=False))
                h.simple("state", cur)
                if cur == 2 and rng.random() < .3: h.simple("aabb", 2); [h.s[2].point(u, v) for u in lat(h.s[2].dom[:2]) for v in lat(h.s[2].dom[2:])]
        return ok > 0
    return many(ctx, "sder", 110, 1200, b)


def lat(ab): return (ab[0], (ab[0] + ab[1]) / 2, ab[1])


def gen_s06(ctx):
    rng = ctx["rng"]

    def boxes(h, k):
        s = h.s[k]
        for r in s.cp:
            for p in r:
                for j in range(3): F(p[j], p[3])
        for u in lat(s.dom[:2]):
            for v in lat(s.dom[2:]): s.point(u, v)
        h.simple("bbox", k); h.simple("aabb", k)

    def b(h, k):
        h.new(1, rlong(rng) if k % 30 == 29 else rsurf(rng, **dict({"big": 5}, **shape(rng, k))), rng.choice(["full", "full", "def"]))
        boxes(h, 1)
        for _ in range(rng.randint(1, 4)):
            k2 = rng.choice(list(h.s)); d = rng.randint(0, 1); op = rng.choice(["insert", "split", "copy", "sub"])
            s = h.s[k2]
            if op == "insert":
                t = h.par(k2, d, inner=True); room = (s.du, s.dv)[d] - (s.ku, s.kv)[d].count(t)
                if room > 0: h.insert(k2, d, t, 1); boxes(h, k2)
            elif op == "split":
                l, r = [x for x in (1, 2, 3, 4, 5, 6) if x != k2][:2]
                h.split(k2, d, h.par(k2, d, inner=True), l, r); boxes(h, l); boxes(h, r)
            elif op == "copy":
                l = rng.choice([x for x in (1, 2, 3, 4, 5, 6) if x != k2])
                h.add(f"copy {k2} {l} {rng.randint(0, 1)}", op="copy", k=k2, l=l); h.s[l] = s.copy(); boxes(h, l)
            elif k2 < 3:
                h.sub(k2, rng.choice(["mid", "midout"]))
                for x in (3, 4, 5, 6): boxes(h, x)
        for x in sorted(h.s): h.simple("bbox", x)
    return many(ctx, "sbox", 90, 900, b)


def gen_s07(ctx):
    rng = ctx["rng"]

    def clean(kn, d, n, r1, r2, order):      # no vanishing denominator in the range
        return all(kn[r1 + i + d + 1] != kn[r1 + i + k] for k in range(1, order + 1) for i in range(r2 - r1 - k + 1))

    def rng_pair(n):
        m = rng.randint(0, 3)
        if m == 0: return 0, n - 1
        a = rng.randint(0, n - 1); return a, rng.randint(a, n - 1)

    def b(h, k):
        if k % 3 == 2:
            d = rng.randint(0, 4); den = rng.choice([1, 1, 2, 4])
            a = [[[rng.randint(-9, 9) for _ in range(4)] + [den] for _ in range(d + 1)] for _ in range(d + 1)]
            a[0][0][3] = den * rng.choice([1, 1, 2, 4, -2])
            w = F(a[0][0][3], a[0][0][4]); big = max([abs(x) for r in a for p in r for x in p[:4]])
            f = {}
            for n in range(d + 1):
                for kk in range(n + 1):
                    l = n - kk
                    for j in range(3):
                        t = F(a[kk][l][j], den)
                        for x in range(kk + 1):
                            for y in range(l + 1):
                                if x + y: t = rsub(t, rmul(rmul(F(comb(kk, x) * comb(l, y)), F(a[x][y][3], den)), f[kk - x, l - y, j]))
                        f[kk, l, j] = rdiv(t, w)
            if any(abs(v) > 10 ** 5 or v.denominator > 10 ** 4 for v in f.values()): return False
            h.add(f"rsder {d} " + " ".join(fl(F(x, den)) for r in a for p in r for x in p[:4]), op="rsder", d=d, a=a)
            return
        h.new(1, rsurf(rng, 4, degs=(rng.randint(1, 5), rng.randint(1, 3)) if k % 2 else (rng.randint(1, 3), rng.randint(1, 5))))
        s = h.s[1]; ok = 0
        for _ in range(4):
            dr = rng.randint(0, 1); n = (s.nu, s.nv)[dr]; deg = (s.du, s.dv)[dr]; kn = (s.ku, s.kv)[dr]
            d = rng.randint(0, deg); r1, r2 = rng_pair(n)
            if not clean(kn, deg, n, r1, r2, d): continue
            line = rng.randint(0, (s.nv, s.nu)[dr] - 1)
            c = s.col(line) if dr == 0 else s.row(line)
            for _ in range(d): c = c.hodograph()
            h.add(f"dcpts 1 {dr} {line} {d} {r1} {r2}", op="dcpts", k=1, dir=dr, line=line + 1, d=d, r1=r1); ok += 1
        for _ in range(2):
            r1, r2 = rng_pair(s.nu); s1, s2 = rng_pair(s.nv); d = rng.randint(0, max(s.du, s.dv))
            if not clean(s.ku, s.du, s.nu, r1, r2, min(d, s.du)) or not clean(s.kv, s.dv, s.nv, s1, s2, min(d, s.dv)): continue
            for kk in range(min(d, s.du) + 1):
                x = s
                for _ in range(kk): x = x.map(0, lambda c: c.hodograph())
                for _ in range(min(d - kk, s.dv)): x = x.map(1, lambda c: c.hodograph())
            h.add(f"sdcpts 1 {r1} {r2} {s1} {s2} {d}", op="sdcpts", k=1, rs=[r1, r2], ss=[s1, s2]); ok += 1
        return ok > 1
    return many(ctx, "sdcp", 120, 1400, b)


A = ["knots, parameters and control points are dyadic rationals of moderate size; results are compared to about 2e-8 absolute / 1e-9 relative (finite differences to 2e-4 relative)"]
INV = {"S01": ["OrderFree", "Corners"], "S02": ["SamePoints", "Edits"], "S03": ["SamePoints", "Commute"], "S04": ["IsoOn"], "S05": ["DerivComm"], "S06": ["Boxed"], "S07": ["DerivNet"]}


def mcs(pid):
    what = "library surface algorithms = tensor-product polar form: " + ", ".join(INV[pid])
    tiers = (("quick", 2, 0), ("thorough", 4, 0)) if pid == "S07" else (("quick", 2, 1), ("thorough", 3 if pid == "S05" else 2, 2))
    return [{"tier": t, "module": "SurfaceModel", "what": what,
             "cfg": {"constants": {"MaxDeg": d, "MaxOps": o}, "invariants": INV[pid]}} for t, d, o in tiers]


CHECKS = {}
for pid, g in {"S01": gen_s01, "S02": gen_s02, "S03": gen_s03, "S04": gen_s04, "S05": gen_s05, "S06": gen_s06, "S07": gen_s07}.items():
    CHECKS[pid] = {"driver": "drv_surface", "gen": g, "trace": "TraceSurface", "mc": mcs(pid), "assumptions": A}
