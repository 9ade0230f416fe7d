from fractions import Fraction as F
from lib.fw import q, fl, fls, NotDyadic
from lib import fw
from lib.shadow import rsub, Curve, Ovf, default_knots, dyadic

# ---------- generating curves ----------
def rknots(rng, deg, nint, dyadic_only=True):
    """clamped knots with nint distinct interior values of random multiplicity <= deg"""
    step = rng.choice([F(1), F(1), F(1, 2), F(2), F(1, 4)])
    start = rng.choice([F(0), F(0), F(0), F(-1), F(1), F(5, 2)])
    kn, u = [start] * (deg + 1), start
    for _ in range(nint):
        u += step * rng.choice([1, 1, 1, 2])
        kn += [u] * rng.choice([1, 1, 1, rng.randint(1, deg)])
        if deg <= 3 and rng.random() < .12:           # distinct knots that nearly coincide
            u += F(1, 2 ** rng.choice([8, 9, 10, 11, 12, 13]))
            kn += [u] * rng.choice([1, 1, rng.randint(1, deg)])
    u += step * rng.choice([1, 1, 2])
    return kn + [u] * (deg + 1)


def rcps(rng, n, weights="mixed", big=6):
    r = []
    mode = rng.choice(["unit", "unit", "rand"]) if weights == "mixed" else weights
    for _ in range(n):
        if mode == "unit": w, d = 1, 1
        else: w, d = rng.choice([(1, 1), (2, 1), (1, 2), (3, 1), (3, 2), (1, 4)])
        x = [rng.randint(-big, big) for _ in range(3)]
        if rng.random() < .05: x = [0, 0, 0]
        r.append((x[0], x[1], x[2], w, d) if d == 1 else (x[0], x[1], x[2], w, d))
    return r


def jcp(cp): return [list(p) for p in cp]
def tcp(cp): return f"{len(cp)} " + " ".join(fls([F(p[0], p[4]), F(p[1], p[4]), F(p[2], p[4]), F(p[3], p[4])]) for p in cp)
def tkn(kn): return f"{len(kn)} {fls(kn)}" if kn else "0"


class H:
    """a history under construction: events plus the shadow state of the four slots"""
    def __init__(self, sid, rng):
        self.id, self.ev, self.s, self.rng = sid, [], {}, rng

    def doc(self): return {"id": self.id, "ev": self.ev}
    def add(self, cmd, **e): self.ev.append(dict(e, cmd=cmd))

    def new(self, k, c, how="full"):
        self.add(f"new {k} {how} {c.deg} {tkn(c.kn if how == 'full' else [])} {tcp(c.cp)}", op="new", k=k, how=how, deg=c.deg,
                 kn=[q(x) for x in c.kn] if how == "full" else [], cp=jcp(c.cp))
        n = len(c.cp)
        if how == "auto": c = Curve(3 if n >= 4 else 1, default_knots(n, 3 if n >= 4 else 1), c.cp)
        elif how in ("def", "vec3"): c = Curve(c.deg, default_knots(n, c.deg), c.cp)
        elif how in ("per", "pervec3"): c = self.per(c)
        self.s[k] = c

    @staticmethod
    def per(c):
        cp, p = list(c.cp), c.deg
        if not all(cp[j] == cp[len(cp) - p + j] for j in range(p)): cp = cp + cp[:p]
        return Curve(p, [F(j - p) for j in range(len(cp) + p + 1)], cp, True)

    def eval(self, k, t): self.s[k].point(t); self.add(f"eval {k} {fl(t)}", op="eval", k=k, t=q(t))
    def state(self, k): self.add(f"state {k}", op="state", k=k)

    def near(self, t, kn):
        """t, or for a knot sometimes a parameter that the library identifies with it (2^-41 away)"""
        if t not in kn or self.rng.random() > .3 or abs(t) > 500: return fl(t)
        return repr(float(t) + self.rng.choice([-1, 1]) * 2.0 ** -41)

    def insert(self, k, t, n):
        x = self.near(t, self.s[k].kn)
        self.s[k] = self.s[k].insert(t, n)
        self.add(f"insert {k} {x} {n}", op="insert", k=k, t=q(t), n=n)

    def split(self, k, t, l, r, norm=False):
        c = self.s[k]; x = fl(t)
        if c.lo < t < c.hi:
            x = self.near(t, c.kn); a, b = c.left(t), c.right(t)
            self.s[l], self.s[r] = (a.norm(), b.norm()) if norm else (a, b)
        self.add(f"split {k} {x} {int(norm)} {l} {r}", op="split", k=k, t=q(t), norm=norm, l=l, r=r)

    def simple(self, op, k, **kw): self.add(f"{op} {k}", op=op, k=k, **kw)

    def decompose(self, k): self.s[k].pieces(); self.simple("decompose", k)

    def tpar(self, k, knots=True):
        """a dyadic parameter of the domain of slot k"""
        c, rng = self.s[k], self.rng
        u = sorted({x for x in c.kn if c.lo <= x <= c.hi})
        m = rng.random()
        if knots and m < .15: return rng.choice([c.lo, c.hi])
        if knots and m < .35: return rng.choice(u)
        a, b = rng.choice(list(zip(u, u[1:])))
        return a + (b - a) * rng.choice([F(1, 2), F(1, 4), F(3, 4), F(1, 2), F(1, 8), F(7, 8)])

    def inner(self, k, knots=True):
        c = self.s[k]
        while True:
            t = self.tpar(k, knots)
            if c.lo < t < c.hi: return t


def rcurve(rng, maxdeg=8, weights="mixed", maxint=3):
    deg = rng.randint(1, maxdeg)
    nint = rng.randint(0, maxint) if deg <= 4 else rng.randint(0, min(maxint, 1))
    kn = rknots(rng, deg, nint)
    n = len(kn) - deg - 1
    return Curve(deg, kn, rcps(rng, n, weights, 6 if deg < 5 else 3))


def shape(rng, k, big=3):
    """degree and number of interior knots: every degree, now and then a long knot vector"""
    if k % 13 == 12: return rng.randint(1, 3), rng.randint(8, 24)
    deg = k % 8 + 1
    return deg, rng.randint(0, big if deg <= 4 else 2 if deg == 5 else 1)


def many(ctx, name, nq, nt, build):
    """nq/nt histories; a history whose exact evaluation would overflow is drawn again"""
    out, n = [], (nq if ctx["quick"] else nt)
    k = tries = 0
    while k < n:
        tries += 1
        assert tries < 60 * n + 1000, f"{name}: cannot generate"
        h = H(f"{name}-{k}", ctx["rng"])
        try:
            if build(h, k) is False: continue
        except (Ovf, NotDyadic):
            continue
        out.append(h.doc()); k += 1
    return out


# ---------- C01 ----------
def gen_c01(ctx):
    rng = ctx["rng"]

    def b(h, k):
        deg = k % 8 + 1
        how = ["full", "full", "full", "def", "vec3", "auto"][k // 8 % 6]
        if how == "full":
            if k % 5 == 4: deg, nint = rng.randint(1, 3), rng.randint(8, 24)
            else: nint = rng.randint(0, 3 if deg <= 4 else 2)
            kn = rknots(rng, deg, nint)
            c = Curve(deg, kn, rcps(rng, len(kn) - deg - 1, "mixed", 6 if deg < 5 else 3))
        elif how == "auto":
            n = rng.randint(2, 7); c = Curve(1, default_knots(n, 1), rcps(rng, n))
        else:
            n = deg + 1 + rng.randint(0, 3)
            c = Curve(deg, default_knots(n, deg), rcps(rng, n, "unit" if how == "vec3" else "mixed"))
        h.new(1, c, how)
        c = h.s[1]
        h.eval(1, c.lo); h.eval(1, c.hi)
        for u in sorted(set(c.kn)): h.eval(1, u)
        for _ in range(6): h.eval(1, h.tpar(1))
        h.simple("cps3d", 1)
    return many(ctx, "eval", 160, 1600, b)


# ---------- C02 ----------
def gen_c02(ctx):
    rng = ctx["rng"]

    def b(h, k):
        deg, nint = shape(rng, k)
        kn = rknots(rng, deg, nint)
        h.new(1, Curve(deg, kn, rcps(rng, len(kn) - deg - 1, big=4 if deg < 6 else 2)))
        for _ in range(rng.randint(1, 4)):
            t = h.inner(1)
            room = deg - h.s[1].kn.count(t)
            if room < 1: continue
            h.insert(1, t, rng.randint(1, room))
            h.eval(1, h.tpar(1)); h.eval(1, t)
        if len(h.ev) < 2: return False
        h.state(1)
        c = h.s[1]
        for u in sorted(set(c.kn)): h.eval(1, u)
    return gen_model(ctx, "insert") + many(ctx, "ins", 130, 1500, b)


# ---------- C03 ----------
def gen_c03(ctx):
    rng = ctx["rng"]

    def b(h, k):
        deg, nint = shape(rng, k)
        kn = rknots(rng, deg, nint)
        h.new(1, Curve(deg, kn, rcps(rng, len(kn) - deg - 1, big=4 if deg < 6 else 2)))
        m = k // 8 % 4
        if m == 0:
            h.decompose(1); h.state(1)
        elif m == 1:
            c = h.s[1]
            for t in [c.lo, c.hi, c.lo - 1, c.hi + F(1, 2)]: h.split(1, t, 2, 3)
            h.state(1); h.split(1, h.inner(1), 2, 3, rng.random() < .5)
        else:
            cur, others = 1, [2, 3]
            for _ in range(rng.randint(1, 3)):
                t = h.inner(cur)
                others = others[:2]
                h.split(cur, t, others[0], others[1], rng.random() < .25)
                for o in others: h.eval(o, h.tpar(o))
                h.eval(cur, t)
                nxt = rng.choice(others)
                others = [x for x in (1, 2, 3, 4) if x != nxt][:2] if rng.random() < .5 else [x for x in (2, 3, 4) if x != nxt]
                cur = nxt
                if not all(dyadic(x) for x in h.s[cur].kn): break
            h.state(1); h.state(cur)
            if rng.random() < .4 and all(dyadic(x) for x in h.s[cur].kn): h.decompose(cur)
    return gen_model(ctx, "split") + many(ctx, "split", 120, 1200, b)


# ---------- C04 ----------
def gen_c04(ctx):
    rng = ctx["rng"]

    def b(h, k):
        deg = k % 8 + 1
        rat = k // 8 % 2 == 1
        kn = rknots(rng, deg, rng.randint(0, 2 if deg < 5 else 1))
        h.new(1, Curve(deg, kn, rcps(rng, len(kn) - deg - 1, "rand" if rat else "unit", 3 if rat else 5)))
        c = h.s[1]
        ts = [h.inner(1, False) for _ in range(2)] + [c.lo, c.hi]
        for t in ts:
            c.derivs(t, 1)
            h.add(f"deriv 1 {fl(t)}", op="deriv", k=1, t=q(t))
        for t in ts[:3]:
            for n in ([2, 3] if rat else [1, min(deg, 3) + 1, deg + 1, deg + 3]):
                try: D = c.derivs(t, n - 1)
                except Ovf: continue
                if any(abs(x) > 1e6 for d in D for x in d): continue
                pre = rng.randint(0, 1)
                h.add(f"derivl 1 {fl(t)} {n} {pre}", op="derivl", k=1, t=q(t), n=n)
        t = ts[0]
        try:
            D = c.derivs(t, 2)
            if all(abs(d[2]) < 300 for d in D):
                h.add(f"fdm 1 {fl(t)}", op="fdm", k=1, t=q(t))
        except Ovf: pass
        if not rat and deg >= 2:
            for t in ts[:2] + [c.lo, c.hi]:
                c.hodograph().point(t)
                h.add(f"dcurve 1 {fl(t)} {rng.randint(0, 1)}", op="dcurve", k=1, t=q(t))
    return many(ctx, "der", 96, 800, b)


# ---------- C05 ----------
def gen_c05(ctx):
    rng = ctx["rng"]

    def b(h, k):
        deg = k % 8 + 1
        kn = rknots(rng, deg, rng.randint(0, 4) if k % 9 else rng.randint(9, 20))
        n = len(kn) - deg - 1
        us = sorted(set(kn))
        ts = us + [a + (b_ - a) * rng.choice([F(1, 2), F(1, 4), F(7, 8)]) for a, b_ in zip(us, us[1:])]
        jk = [q(x) for x in kn]
        for t in ts:
            h.add(f"span {deg} {fl(t)} {tkn(kn)}", op="span", deg=deg, kn=jk, t=q(t))
        for t in rng.sample(ts, min(4, len(ts))):
            B = [Curve(deg, kn, [(int(i == j), 0, 0, 1, 1) for i in range(n)]) for j in range(n)]
            k0 = B[0].span(t); nd = rng.choice([0, 1, deg])
            big = max(abs(F(x[0], x[4])) for j in range(deg + 1) for x in B[k0 - deg + j].hderivs(t, nd))
            if big > 1e6: nd = 1
            h.add(f"basis {deg} {fl(t)} {nd} {tkn(kn)}", op="basis", deg=deg, kn=jk, t=q(t), nd=nd)
        for t in us + [us[0] + F(1, 16)]:
            h.add(f"mult {fl(t)} {tkn(kn)}", op="mult", kn=jk, t=q(t))
        h.add(f"uniq {tkn(kn)}", op="uniq", kn=jk)
        # distinct knots down to 2^-20 apart: counted and located by exact comparison
        e = F(1, 2 ** rng.choice([8, 10, 12, 14, 16, 18, 20]))
        kc = sorted(kn + [x + e * rng.choice([1, 1, 2]) for x in rng.sample(us[:-1], rng.randint(1, len(us) - 1))])
        for t in sorted(set(kc)): h.add(f"mult {fl(t)} {tkn(kc)}", op="mult", kn=[q(x) for x in kc], t=q(t))
        h.add(f"uniq {tkn(kc)}", op="uniq", kn=[q(x) for x in kc])
        kd = kn[:deg + 1] + sorted(x for x in kc if kn[0] < x < kn[-1]) + kn[-deg - 1:]
        for t in sorted(set(kd)): h.add(f"span {deg} {fl(t)} {tkn(kd)}", op="span", deg=deg, kn=[q(x) for x in kd], t=q(t))
        if k % 3 == 0:
            h.new(1, Curve(deg, kn, [(1, 2, 3, 1, 1)] * n))
            h.simple("norm", 1); h.s[1] = h.s[1].norm()
            h.simple("genkn", 1)
    return many(ctx, "knots", 80, 1000, b)


# ---------- C06 ----------
def gen_c06(ctx):
    rng = ctx["rng"]

    def b(h, k):
        deg = k // 2 % 8 + 1
        if k % 2 == 0:
            kn = rknots(rng, deg, rng.randint(0, 2 if deg < 6 else 1))
            c = Curve(deg, kn, rcps(rng, len(kn) - deg - 1, big=4)); h.new(1, c)
            lst, add, dens = [], [], 1
            m = rng.randint(0, 3)
            if m == 1: lst = sorted({h.inner(1) for _ in range(rng.randint(1, 2))})
            if m == 2: add = [h.inner(1) for _ in range(rng.randint(1, 2))]
            if m == 3 or (deg <= 2 and rng.random() < .3): dens = rng.choice([2, 2, 3]) if deg <= 3 else 1
            full = sorted(set((lst or kn[deg:len(kn) - deg]) + add))
            for _ in range(dens - 1):
                full = sorted(set(full) | {(a + b_) / 2 for a, b_ in zip(full, full[1:])})
            new = list(kn)
            for t in full: new += [t] * max(0, deg - kn.count(t))
            if len(new) != len(kn): c.over(sorted(new))
            if not all(dyadic(t) for t in full): return False
            h.add(f"refine 1 {tkn(lst)} {tkn(add)} {dens}", op="refine", k=1, list=[q(x) for x in lst], add=[q(x) for x in add], density=dens)
            h.state(1)
        else:
            if deg == 1: deg = 2
            kn = rknots(rng, deg, rng.randint(0, 3 if deg < 6 else 1))
            c = Curve(deg, kn, rcps(rng, len(kn) - deg - 1, "unit" if rng.random() < .5 else "rand", big=4))
            h.new(1, c); h.new(2, c)
            t = h.inner(1)
            room = deg - kn.count(t)
            if room < 1: return False
            n = rng.randint(1, room)
            h.insert(1, t, n)
            h.add(f"remove 1 {fl(t)} {n}", op="remove", k=1, l=2, t=q(t), n=n)
    return many(ctx, "refine", 140, 1200, b)


# ---------- C07 ----------
def gen_c07(ctx):
    rng = ctx["rng"]

    def b(h, k):
        deg = rng.choice([6, 7, 8]) if k % 10 == 9 else k % 5 + 1
        n = deg + 1 + rng.randint(0, 4)
        how = rng.choice(["per", "per", "pervec3", "mk"])
        cp = rcps(rng, n, "unit" if how == "pervec3" else "mixed")
        if rng.random() < .4:            # the ends repeat, or do so but for a single coordinate of one point
            for j in range(deg): cp[n - deg + j] = cp[j]
            if rng.random() < .8:
                j, i = n - deg + rng.randrange(deg), rng.choice([0, 1, 2] if how == "pervec3" else [0, 1, 2, 3, 3, 3])
                x = list(cp[j]); x[i] = x[i] + (1 if i < 3 else x[4]); cp[j] = tuple(x)
        c = Curve(deg, default_knots(n, deg), cp)
        if how == "mk":
            h.new(1, c, "def"); h.s[1] = H.per(c); h.simple("mkper", 1)
            if len(h.s[1].cp) == n: h.s[1] = c        # already closed: nothing to do
        else: h.new(1, c, how)
        h.simple("isper", 1)
        c = h.s[1]
        for t in [c.lo, c.hi] + [h.tpar(1) for _ in range(5)]: h.eval(1, t)
        for t in [c.lo, c.hi, h.inner(1, False)]:
            c.derivs(t, 1)
            h.add(f"deriv 1 {fl(t)}", op="deriv", k=1, t=q(t))
        h.simple("mkper", 1); h.state(1)
        how2 = rng.choice(["ctor", "assign", "move"])
        h.add(f"copy 1 2 {how2}", op="copy", k=1, l=2, how=how2); h.s[2] = c.copy()
        h.state(2); h.simple("isper", 2); h.eval(2, h.tpar(2)); h.simple("bbox", 2)
    return many(ctx, "per", 90, 700, b)


# ---------- C08 ----------
def boxok(c):
    """the exact comparisons of the box stay within TLC's integers"""
    for j in range(3):
        xs = [F(p[j], p[3]) for p in c.cp]
        for a in xs:
            for b in xs: rsub(a, b)


def gen_c08(ctx):
    rng = ctx["rng"]

    def hist(h, k):
        def fresh(slot):
            c = rcurve(rng, 4, maxint=2)
            how = rng.choice(["full", "full", "def", "per"])
            h.new(slot, c, how)
        fresh(1)
        for _ in range(rng.randint(4, 10)):
            slot = rng.choice(list(h.s)); c = h.s[slot]
            op = rng.choice(["insert", "split", "copy", "copy", "setcp", "setkn", "norm", "bbox", "aabb", "cps3d", "new", "state", "eval"])
            if op in ("insert", "split", "norm") and c.per: continue
            if not all(dyadic(x) for x in c.kn): op = rng.choice(["bbox", "copy", "state"])
            if op == "insert":
                t = h.inner(slot); room = c.deg - c.kn.count(t)
                if room > 0: h.insert(slot, t, rng.randint(1, room))
            elif op == "split":
                d = [x for x in (1, 2, 3, 4) if x != slot]; rng.shuffle(d)
                h.split(slot, h.inner(slot), d[0], d[1], rng.random() < .2)
            elif op == "copy":
                d = rng.choice([x for x in (1, 2, 3, 4) if x != slot]); how = rng.choice(["ctor", "assign", "move"])
                h.add(f"copy {slot} {d} {how}", op="copy", k=slot, l=d, how=how)
                h.s[d] = c.copy()
                if how == "move": del h.s[slot]
            elif op == "setcp":
                n = rng.choice([len(c.cp), len(c.cp), c.deg + 1 + rng.randint(0, 3)])
                cp = rcps(rng, n)
                h.add(f"setcp {slot} {tcp(cp)}", op="setcp", k=slot, cp=jcp(cp))
                kn = c.kn if n == len(c.cp) else [F(j - c.deg) for j in range(n + c.deg + 1)] if c.per else default_knots(n, c.deg)
                h.s[slot] = Curve(c.deg, kn, cp, c.per)
                h.simple("aabb", slot)
            elif op == "setkn":
                if c.per: continue
                a, b_ = rng.choice([(2, 0), (1, 1), (F(1, 2), -1)])
                kn = [x * a + b_ for x in c.kn]
                h.add(f"setkn {slot} {tkn(kn)}", op="setkn", k=slot, kn=[q(x) for x in kn])
                h.s[slot] = Curve(c.deg, kn, c.cp, c.per)
            elif op == "norm": h.s[slot] = c.norm(); h.simple("norm", slot)
            elif op == "new": fresh(rng.randint(1, 4))
            elif op == "eval": h.eval(slot, h.tpar(slot))
            else:
                if op == "aabb":
                    us = sorted(set(c.kn))
                    for a, b_ in zip(us, us[1:]): c.point((a + b_) / 2); c.point(a); c.point(b_)
                if op == "bbox": boxok(c)
                h.simple(op, slot)
        for slot in h.s: boxok(h.s[slot]); h.state(slot); h.simple("bbox", slot)

    def join(h, k):
        deg = rng.randint(1, 3)
        kn1, kn2 = rknots(rng, deg, rng.randint(0, 2)), rknots(rng, deg, rng.randint(0, 2))
        w = rng.choice(["unit", "rand"])
        a = [list(p) for p in rcps(rng, len(kn1) - deg - 1, w)]
        b = [list(p) for p in rcps(rng, len(kn2) - deg - 1, w)]
        m = k % 5
        e = lambda p: tuple(F(p[i], p[3]) for i in range(3))
        if m < 4:
            src = a[-1] if m in (0, 2) else a[0]
            dst = 0 if m in (0, 1) else -1
            s = rng.choice([1, 1, 2])
            b[dst] = [src[0] * s, src[1] * s, src[2] * s, src[3] * s, src[4]]
            near = k % 11 == 3                       # ends that nearly meet
            if near:
                f = 1 << rng.randint(12, 19); b[dst] = [x * f for x in b[dst]]; b[dst][rng.randint(0, 2)] += rng.choice([-1, 1])
        else: near = False
        ends = [e(a[0]), e(a[-1]), e(b[0]), e(b[-1])]
        if len(set(ends)) != (4 if m == 4 or near else 3): return False
        a = Curve(deg, kn1, [tuple(p) for p in a]); b = Curve(deg, kn2, [tuple(p) for p in b])
        for cc in (a, b):
            if all(cc.cp[j] == cc.cp[len(cc.cp) - deg + j] for j in range(deg)): return False
        h.new(1, a); h.new(2, b)
        ts = sorted({h.tpar(1) for _ in range(4)} | {a.lo, a.hi})
        ts += sorted({a.hi + h.tpar(2) - b.lo for _ in range(4)} | {a.hi + b.hi - b.lo})
        for t in [] if near else ts:
            # evaluated on the operands or on their reversals
            for cc, x in ((a, t), (b, t - a.hi + b.lo)):
                if cc.lo <= x <= cc.hi: cc.point(x); cc.point(cc.lo + cc.hi - x)
        h.add(f"join 1 2 {tkn(ts)}", op="join", k=1, l=2, ts=[q(t) for t in ts])
        h.state(1); h.state(2)
    return many(ctx, "hist", 90, 900, hist) + many(ctx, "join", 50, 400, join)


# ---------- behaviours generated by TLC from CurveModel ----------
def gen_model(ctx, kind):
    rng = ctx["rng"]
    docs, _ = fw.tlc_simulate("CurveModel", {"constants": {"MaxDeg": 4, "MaxOps": 3, "Coords": "{0, 1, 2}"}, "invariants": ["Emit"]},
                              12 if ctx["quick"] else 150, 5, ctx["seed"])
    docs = [d for d in docs if any(o["op"] == kind for o in d["hist"])]
    docs.sort(key=lambda d: str(d)); rng.shuffle(docs)
    want = docs[:80 if ctx["quick"] else 1500]

    out = []
    for k, d in enumerate(want):
        h = H(f"tlc-{kind}-{k}", rng)
        c0 = d["c0"]
        c = Curve(c0["deg"], [F(a, b) for a, b in c0["kn"]], [tuple(p) for p in c0["cp"]])
        try:
            h.new(1, c); cur = 1
            for o in d["hist"]:
                t = F(*o["t"])
                if o["op"] == "insert": h.insert(cur, t, o["n"])
                else:
                    l, r = [x for x in (1, 2, 3) if x != cur]
                    h.split(cur, t, l, r); h.state(cur); cur = (l, r)[o["side"] - 1]
                h.eval(cur, h.tpar(cur))
            for s in sorted(h.s): h.state(s)
        except (Ovf, NotDyadic):
            continue
        out.append(h.doc())
    return out


INV = {"C01": ["TypeOK", "PolarForm"], "C02": ["TypeOK", "SamePoints", "Insertion"], "C03": ["TypeOK", "SamePoints", "Splitting"],
       "C04": ["Deriv"], "C05": ["SpanOK", "Unity"], "C06": ["Insertion"], "C08": ["TypeOK", "InHull"]}


def mcs(pid):
    what = "library algorithms = polar form of the curve: " + ", ".join(INV[pid])
    return [{"tier": "quick", "module": "CurveModel", "what": what,
             "cfg": {"constants": {"MaxDeg": 2, "MaxOps": 2 if pid in ("C02", "C03", "C05") else 1, "Coords": "{0}"}, "view": "View", "invariants": INV[pid]}},
            {"tier": "thorough", "module": "CurveModel", "what": what,
             "cfg": {"constants": {"MaxDeg": 3, "MaxOps": 2, "Coords": "{0}"}, "view": "View", "invariants": INV[pid]}}]


A = ["knots, parameters and control points are dyadic rationals of moderate size; results are compared to about 2e-8 absolute / 1e-9 relative",
     "the portable (non-NEON, non-x86) branch of vec.h is compiled, as in the repository's own build here"]
PER = [{"tier": t, "module": "PeriodModel", "what": "wrapped control points with uniform knots = periodic uniform B-spline: closes with all derivatives below the degree, wrapping twice changes nothing, no corner is special",
        "cfg": {"constants": c, "invariants": ["Domain", "Closed", "Idem", "Shift", "Weighted"]}}
       for t, c in (("quick", {"Degrees": "{1, 2, 3}", "MaxN": 4, "Coords": "{0, 2}", "Weights": "{1, 2}"}), ("thorough", {"Degrees": "{1, 2, 3, 4}", "MaxN": 5, "Coords": "{0, 1, 3}", "Weights": "{1, 2, 3}"}))]
CHECKS = {}
for pid, g in {"C01": gen_c01, "C02": gen_c02, "C03": gen_c03, "C04": gen_c04, "C05": gen_c05, "C06": gen_c06, "C07": gen_c07, "C08": gen_c08}.items():
    CHECKS[pid] = {"driver": "drv_curve", "gen": g, "trace": "TraceCurve", "mc": mcs(pid) if pid in INV else PER if pid == "C07" else [], "assumptions": A}
