"""Monomial and Bezier forms (N05), Gauss maps (N06): histories over monomials, surfaces and Gauss maps."""
from fractions import Fraction as F
from families.spatial import W
from lib.fw import q, fl


def net(rng, n, m, big): return [[[rng.randint(-big, big) for _ in range(3)] for _ in range(m)] for _ in range(n)]
def pn(x): return f"{len(x)} {len(x[0])} " + " ".join(str(c) for r in x for p in r for c in p)


class H(W):
    def __init__(self, sid, rng): super().__init__(sid); self.rng, self.s, self.m = rng, {}, {}     # degrees + 1, domain
    def new(self, k, n, m, big, dom=None):
        x = net(self.rng, n, m, big); self.s[k] = (n, m); self.dom = dom or [0, 1, 0, 1]
        if k == 1: self.d1 = self.dom
        self.add(f"new {k} {' '.join(str(v) for v in self.dom)} {pn(x)}", op="new", k=k, dom=[[[self.dom[0], 1], [self.dom[1], 1]], [[self.dom[2], 1], [self.dom[3], 1]]], cp=x)
    def val(self, k, dom):
        u, v = (F(self.rng.choice([0, 1, 2, 3, 4]), 4) * (dom[j + 1] - dom[j]) + dom[j] for j in (0, 2))
        self.add(f"ev {k} {fl(u)} {fl(v)}", op="ev", k=k, u=q(u), v=q(v))


U = [0, 1, 0, 1]


def dom(rng): return rng.choice([U, U, [0, 2, 1, 2], [-1, 0, 0, 4], [1, 3, -2, 2]])


def gen_mono(ctx):
    rng, out = ctx["rng"], []
    for t in range(260 if ctx["quick"] else 3000):
        h = H(f"mono-{t}", rng); deg = lambda top: rng.choice([1, 1, 2, 2, 3, 3, 4, 5][:top + 3]) + 1
        if t % 9 == 0: n = rng.randint(0, 9); h.add(f"bp {n}", op="bp", n=n)
        if t % 6 == 1:
            p, r, o = net(rng, rng.randint(1, 4), rng.randint(1, 4), 4), net(rng, rng.randint(1, 4), rng.randint(1, 4), 4), net(rng, rng.randint(1, 5), rng.randint(1, 5), 3)
            h.add(f"tens {pn(p)} {pn(r)} {pn(o)}", op="tens", p=p, q=r)
        n, m = deg(4), deg(4); d1 = dom(rng)
        h.new(1, n, m, 4 if max(n, m) < 5 else 2, d1)
        h.add(f"mono 1 1 {rng.randint(0, 1)}", op="mono", a=1, k=1); h.m[1] = (n, m)
        doms = {1: d1}
        for _ in range(rng.randint(3, 8)):
            r = rng.random(); a = rng.choice(list(h.m)); k = rng.randint(1, 4); n, m = h.m[a]
            if r < .2 and min(n, m) > 1:
                k = rng.randint(1, 4); h.add(f"mtob {a} {k}", op="mtob", a=a, k=k); h.s[k] = (n, m); doms[k] = U
                h.val(k, U); h.val(k, U)
            elif r < .4:
                d = rng.randint(0, 1); h.add(f"mpd {a} {k} {d}", op="mpd", a=a, k=k, dir=d); h.m[k] = (max(n - 1 + d, 1), max(m - d, 1))
            elif r < .5 and max(n, m) < 5 and n > 1 and m > 1: h.add(f"mnrm {a} {k}", op="mnrm", a=a, k=k); h.m[k] = (2 * n - 2, 2 * m - 2)
            elif r < .65: how = rng.choice(["assign", "ctor", "self"]); k = a if how == "self" else k; h.add(f"mcp {how} {a} {k}", op="mcp", a=a, k=k); h.m[k] = (n, m)
            elif r < .8:
                n, m = deg(3), deg(3); how = rng.choice(["co", "dim", "zero", "set"]); x = net(rng, n, m, 4); z = [[[0, 0, 0]] * m] * n
                h.add(f"mco {how} {k} {pn(x)}", op="mco", k=k, co=z if how == "zero" else x); h.m[k] = (n, m)
            elif r < .9: n, m = deg(4), deg(4); k = rng.randint(1, 4); d1 = dom(rng); h.new(k, n, m, 3, d1); doms[k] = d1
            else: a = rng.choice(list(h.s)); h.add(f"mono {a} {k} 0", op="mono", a=a, k=k); h.m[k] = h.s[a]
        out.append(h.doc())
    return out


def gen_gauss(ctx):
    rng, out = ctx["rng"], []
    for t in range(160 if ctx["quick"] else 2500):
        h = H(f"gauss-{t}", rng); n, m = rng.choice([(2, 2), (2, 3), (3, 2), (3, 3), (3, 3), (2, 4), (4, 2), (3, 4), (4, 3), (4, 4)])
        for rep in range(rng.choice([1, 1, 2])):
            h.new(1, n, m, 3 if max(n, m) < 4 else 2)
            k = rng.randint(1, 2); h.add(f"gb 1 {k} {rng.randint(0, 1)}", op="gb", a=1, k=k)
            def gev(k, lo, w):
                for _ in range(2):
                    D = 2 if n * m == 16 and w < 1 else 4; u, v = (lo[j] + w * F(rng.randint(0, D), D) for j in (0, 1)); h.add(f"gev {k} {fl(u)} {fl(v)}", op="gev", k=k, u=q(u), v=q(v))
            gev(k, (F(0), F(0)), F(1))
            if rng.random() < .8:
                h.add(f"gs {k} 3", op="gs", a=k, b=3)
                qs = [(F(a, 2), F(b, 2)) for a in (0, 1) for b in (0, 1)]
                for j in rng.sample(range(4), 3): gev(3 + j, qs[j], F(1, 2))
                if n * m <= 6 or (n, m) == (3, 3) and rng.random() < .25:        # a quarter of a quarter, not on the diagonal of the domain
                    a = rng.choice([1, 1, 2, 2, 0, 3]); h.add(f"gs {3 + a} 7", op="gs", a=3 + a, b=7)
                    for j in rng.sample(range(4), 2): gev(7 + j, (qs[a][0] + qs[j][0] / 2, qs[a][1] + qs[j][1] / 2), F(1, 4))
            if rng.random() < .6: h.add("gmap 1 2", op="gmap", a=1, k=2); h.val(2, U); h.val(2, U)
            if rng.random() < .3: h.new(3, m, n, 2, dom(rng)); h.add("gmap 3 4", op="gmap", a=3, k=4); h.val(4, U)
            if rng.random() < .2:
                p = [[[rng.randint(-9, 9) for _ in range(3)] for _ in range(rng.randint(1, 6))]]; h.add(f"inv {pn(p)} {rng.randint(0, 8)}", op="inv", p=p[0])
            n, m = rng.choice([(2, 2), (3, 2), (2, 3), (3, 3)])
        out.append(h.doc())
    return out


def mc(what, inv, quick, thorough):
    return [{"tier": t, "module": "MonoModel", "what": what, "cfg": {"constants": c, "invariants": inv}} for t, c in (("quick", quick), ("thorough", thorough))]


CHECKS = {
    "N05": {"driver": "drv_bezier", "gen": gen_mono, "trace": "TraceBez", "assumptions": ["integer control points, unit weights, degrees up to 6 (9 for the conversion matrices)"],
            "mc": mc("conversions are inverse, values and partial derivatives agree with de Casteljau, on every small net", ["Inverse", "Values"], {"E": 1, "N": 3, "M": 2}, {"E": 1, "N": 3, "M": 3})},
    "N06": {"driver": "drv_bezier", "gen": gen_gauss, "trace": "TraceBez", "assumptions": ["integer control points, unit weights, degrees up to 3"],
            "mc": mc("normal polynomial is the cross product of the partial derivatives, quarters agree with the whole, on every small height net", ["Cross", "Quarters"], {"E": 1, "N": 3, "M": 2}, {"E": 2, "N": 3, "M": 2})},
}
