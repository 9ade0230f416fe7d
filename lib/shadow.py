"""Mirror of BSpline.tla's exact arithmetic, used only to generate inputs: it keeps track of what a
generated history builds (so that parameters can be chosen inside domains) and rejects inputs whose
exact evaluation would leave TLC's 32-bit integers.  It never judges an observation."""
from fractions import Fraction as F
from math import gcd
LIM = 2**31 - 1


class Ovf(Exception):
    pass


def c(n):
    if abs(n) > LIM: raise Ovf()
    return n


def rchk(f):
    c(f.numerator); c(f.denominator); return f


def radd(a, b):
    g = gcd(a.denominator, b.denominator)
    c(c(a.numerator * (b.denominator // g)) + c(b.numerator * (a.denominator // g))); c(a.denominator * (b.denominator // g))
    return rchk(a + b)


def rsub(a, b): return radd(a, -b)
def rmul(a, b): return rchk(a * b)
def rdiv(a, b): return rchk(a / b)


def hnorm(p):
    g = gcd(gcd(gcd(gcd(p[4], p[0]), p[1]), p[2]), p[3])
    return tuple(x // g for x in p) if g != 1 else tuple(p)


def lcm(a, b): return c((a // gcd(a, b)) * b)


def hlerp(p, q, a):
    an, ad = a.numerator, a.denominator
    l = lcm(p[4], q[4])
    fp = c(c(ad - an) * (l // p[4])); fq = c(an * (l // q[4]))
    return hnorm([c(c(fp * p[k]) + c(fq * q[k])) for k in range(4)] + [c(ad * l)])


def hscalesub(q, p, s):
    l = lcm(p[4], q[4]); fp = l // p[4]; fq = l // q[4]
    if s == 0: return (0, 0, 0, 0, 1)
    return hnorm([c(s.numerator * c(c(fq * q[k]) - c(fp * p[k]))) for k in range(4)] + [c(s.denominator * l)])


class Curve:
    def __init__(self, deg, kn, cp, per=False):
        self.deg, self.kn, self.cp, self.per = deg, [F(x) for x in kn], [hnorm(p) for p in cp], per

    def copy(self): return Curve(self.deg, self.kn, self.cp, self.per)
    @property
    def lo(self): return self.kn[self.deg]
    @property
    def hi(self): return self.kn[len(self.kn) - 1 - self.deg]

    def span(self, t):
        S = [k for k in range(self.deg, len(self.cp)) if self.kn[k] < self.kn[k + 1]]
        H = [k for k in S if self.kn[k] <= t]
        return max(H) if H else min(S)

    def blossom(self, k, args):
        p = self.deg
        row = [self.cp[k - p + j] for j in range(p + 1)]
        for r in range(1, p + 1):
            nxt = []
            for j in range(p + 1 - r):
                i = k - p + r + j
                u, v = self.kn[i], self.kn[i + p + 1 - r]
                nxt.append(hlerp(row[j], row[j + 1], rdiv(rsub(args[r - 1], u), rsub(v, u))))
            row = nxt
        return row[0]

    def point(self, t):
        p = self.blossom(self.span(t), [t] * self.deg)
        if abs(p[3]) > 200000000 or p[4] > 200000000: raise Ovf()
        return p

    def over(self, kn):
        n = len(kn) - self.deg - 1; cp = []
        for i in range(n):
            j = next(j for j in range(i, i + self.deg + 1) if kn[j] < kn[j + 1])
            cp.append(self.blossom(self.span(kn[j]), kn[i + 1:i + 1 + self.deg]))
        if any(x[4] > 200000000 for x in cp): raise Ovf()
        return Curve(self.deg, kn, cp)

    def insert(self, t, k): return self.over(sorted(self.kn + [t] * k))
    def left(self, t): return self.over([u for u in self.kn if u < t] + [t] * (self.deg + 1))
    def right(self, t): return self.over([t] * (self.deg + 1) + [u for u in self.kn if u > t])
    def norm(self):
        a, b = self.kn[0], self.kn[-1]
        return Curve(self.deg, [rdiv(rsub(u, a), rsub(b, a)) for u in self.kn], self.cp, self.per)

    def pieces(self):
        u = sorted(set(self.kn))
        return [self.over([a] * (self.deg + 1) + [b] * (self.deg + 1)) for a, b in zip(u, u[1:])]

    def hodograph(self):
        cp = []
        for i in range(len(self.cp) - 1):
            h = self.kn[i + self.deg + 1] - self.kn[i + 1]
            cp.append((0, 0, 0, 0, 1) if h == 0 else hscalesub(self.cp[i + 1], self.cp[i], rdiv(F(self.deg), h)))
        return Curve(self.deg - 1, self.kn[1:-1], cp)

    def hderivs(self, t, d):
        out, cur = [], self
        for k in range(d + 1):
            out.append((0, 0, 0, 0, 1) if cur is None else cur.point(t))
            cur = None if cur is None or cur.deg == 0 else cur.hodograph()
        return out

    def derivs(self, t, d):
        from math import comb
        hs = self.hderivs(t, d)
        res = []
        for j in range(3):
            D = []
            for k in range(d + 1):
                s = F(0)
                for m in range(k, 0, -1):
                    s = radd(rmul(rmul(F(comb(k, m)), F(hs[m][3], hs[m][4])), D[k - m]), s)
                D.append(rdiv(rsub(F(hs[k][j], hs[k][4]), s), F(hs[0][3], hs[0][4])))
                if D[-1].denominator > 200000000: raise Ovf()
            res.append(D)
        return res


def default_knots(n, p): return [F(0)] * (p + 1) + [F(i) for i in range(1, n - p)] + [F(n - p)] * (p + 1)
def dyadic(f): return f.denominator & (f.denominator - 1) == 0


class Surface:
    def __init__(self, du, dv, ku, kv, cp):
        self.du, self.dv, self.ku, self.kv = du, dv, [F(x) for x in ku], [F(x) for x in kv]
        self.cp = [[hnorm(p) for p in r] for r in cp]

    def copy(self): return Surface(self.du, self.dv, self.ku, self.kv, self.cp)
    @property
    def nu(self): return len(self.cp)
    @property
    def nv(self): return len(self.cp[0])
    def col(self, j): return Curve(self.du, self.ku, [r[j] for r in self.cp])
    def row(self, i): return Curve(self.dv, self.kv, self.cp[i])
    @property
    def dom(self): return (self.col(0).lo, self.col(0).hi, self.row(0).lo, self.row(0).hi)

    def iso(self, d, t):
        if d == 0: return Curve(self.dv, self.kv, [self.col(j).point(t) for j in range(self.nv)])
        return Curve(self.du, self.ku, [self.row(i).point(t) for i in range(self.nu)])

    def point(self, u, v): return self.iso(0, u).point(v)

    def map(self, d, f):
        if d == 0:
            cs = [f(self.col(j)) for j in range(self.nv)]
            return Surface(cs[0].deg, self.dv, cs[0].kn, self.kv, [[c_.cp[i] for c_ in cs] for i in range(len(cs[0].cp))])
        cs = [f(self.row(i)) for i in range(self.nu)]
        return Surface(self.du, cs[0].deg, self.ku, cs[0].kn, [c_.cp for c_ in cs])

    def insert(self, d, t, n): return self.map(d, lambda x: x.insert(t, n))
    def left(self, d, t): return self.map(d, lambda x: x.left(t))
    def right(self, d, t): return self.map(d, lambda x: x.right(t))
    def over(self, d, kn): return self.map(d, lambda x: x.over(kn))

    def deriv(self, d):
        s = self.map(d, lambda x: x.hodograph())
        s.cp = [[hnorm((p[0], p[1], p[2], p[4], p[4])) for p in r] for r in s.cp]
        return s

    def partial(self, d, u, v):
        h = self.point(u, v)
        cv, t = (self.iso(1, v), u) if d == 0 else (self.iso(0, u), v)
        h1 = cv.hderivs(t, 1)[1]
        w = rchk(F(h[3], h[4])); out = []
        for j in range(3):
            r = rdiv(rsub(F(h1[j], h1[4]), rmul(F(h1[3], h1[4]), rdiv(F(h[j], h[4]), w))), w)
            if r.denominator > 200000000: raise Ovf()
            out.append(r)
        return out


def cross(a, b):
    return [rsub(rmul(a[1], b[2]), rmul(a[2], b[1])), rsub(rmul(a[2], b[0]), rmul(a[0], b[2])), rsub(rmul(a[0], b[1]), rmul(a[1], b[0]))]


def primitive(r):
    l = lcm(lcm(r[0].denominator, r[1].denominator), r[2].denominator)
    v = [c(x.numerator * (l // x.denominator)) for x in r]
    g = gcd(gcd(v[0], v[1]), v[2])
    return v if g == 0 else [x // g for x in v]
