"""Array views: M01, M02."""
import itertools


class W:
    """What the generator needs to know about a view: its shape and element count (to choose sensible operations)."""
    def __init__(self, sid): self.id, self.ev, self.v = sid, [], {}
    def doc(self): return {"id": self.id, "ev": self.ev}
    def add(self, cmd, **e): self.ev.append(dict(e, cmd=cmd))


def prod(s):
    r = 1
    for x in s: r *= x
    return r


def lst(x): return f"{len(x)} " + " ".join(str(a) for a in x)


def new(w, rng, l, shape):
    d = [rng.randint(-99, 99) for _ in range(prod(shape))]
    w.add(f"new {l} {lst(shape)} {lst(d)}", op="new", l=l, shape=list(shape), data=d)
    w.v[l] = list(shape)


def rslice(rng, n, bad=0.04):
    k = rng.random()
    z = {"i": False, "idx": 0, "hs": False, "s": 0, "he": False, "e": 0, "st": 1}
    if k < .2:
        x = rng.randint(-n - 1, n) if rng.random() < bad * 2 or n == 0 else rng.randint(-n, n - 1)
        return dict(z, i=True, idx=x), f"i {x}"
    if k < .35: return z, "f"
    st = rng.choice([1, 1, 1, 2, 3, -1, -1, -2, -3, 5, -7]) if rng.random() > bad else 0
    a, b = rng.randint(-n - 2, n + 2), rng.randint(-n - 2, n + 2)
    if k < .75: return dict(z, hs=True, s=a, he=True, e=b, st=st), f"r {a} {b} {st}"
    hs, he = rng.random() < .4, rng.random() < .4
    return dict(z, hs=hs, s=a, he=he, e=b, st=st), f"g {int(hs)} {a} {int(he)} {b} {st}"


def shape_after(shape, sls):
    out = []
    for k, n in enumerate(shape):
        if k >= len(sls): out.append(n); continue
        s = sls[k]
        if s["i"]:
            if not -n <= s["idx"] < n: return None
        else:
            if s["st"] == 0: return None
            out.append(len(range(*slice(s["s"] if s["hs"] else None, s["e"] if s["he"] else None, s["st"]).indices(n))))
    return out if len(sls) <= len(shape) else None


def do_slice(w, rng, k, l):
    n = len(w.v[k])
    m = n + 1 if rng.random() < .03 else rng.randint(0, n)
    sl = [rslice(rng, w.v[k][q] if q < n else 2) for q in range(m)]
    w.add(f"slice {k} {l} {m} " + " ".join(c for _, c in sl), op="slice", k=k, l=l, sl=[s for s, _ in sl])
    r = shape_after(w.v[k], [s for s, _ in sl])
    if r is not None: w.v[l] = r


def do_elem(w, rng, k, op):
    sh = w.v[k]
    if rng.random() < .12 or 0 in sh:
        ix = [rng.randint(0, x + 1) for x in sh]
        if rng.random() < .3: ix = ix + [0] if rng.random() < .5 else ix[:-1]
    else: ix = [rng.randrange(x) for x in sh]
    if op == "get": w.add(f"get {k} {lst(ix)}", op="get", k=k, idx=ix)
    else:
        x = rng.randint(100, 999)
        w.add(f"set {k} {lst(ix)} {x}", op="set", k=k, idx=ix, val=x)


def rshape(rng, lo=0, dims=4):
    if rng.random() < .08:                      # now and then many dimensions or many elements
        while True:
            s = [rng.choice([1, 1, 2, 2, 3, 4]) for _ in range(rng.randint(5, 8))] if rng.random() < .6 else [rng.randint(3, 19) for _ in range(rng.randint(1, 3))]
            if prod(s) <= 300: return s
    while True:
        s = [rng.choice([1, 2, 3, 4, 5, 1, 2, 3, lo]) for _ in range(rng.randint(1, dims))]
        if prod(s) <= 60: return s


def gen_m01(ctx):
    rng, out = ctx["rng"], []
    for t in range(500 if ctx["quick"] else 6000):
        w = W(f"view-{t}")
        new(w, rng, 1, rshape(rng))
        if rng.random() < .3: new(w, rng, 2, rshape(rng))
        for _ in range(rng.randint(4, 12)):
            k = rng.choice(list(w.v)); l = rng.randint(2, 6); r = rng.random()
            if r < .5: do_slice(w, rng, k, l)
            elif r < .62:
                x = rng.randint(0, (w.v[k][0] if w.v[k] else 0) + (1 if rng.random() < .2 else 0)) if w.v[k] else 0
                w.add(f"index {k} {l} {x}", op="index", k=k, l=l, idx=x)
                if w.v[k] and 0 <= x < w.v[k][0]: w.v[l] = w.v[k][1:]
            elif r < .9: do_elem(w, rng, k, "set")
            else: do_elem(w, rng, k, "get")
        out.append(w.doc())
    return out


def factorings(n, rng):
    s = []
    while n > 1:
        d = rng.choice([x for x in range(2, n + 1) if n % x == 0]); s.append(d); n //= d
    for _ in range(rng.randint(0, 2)): s.insert(rng.randint(0, len(s)), 1)
    return s or [1]


def gen_m02(ctx):
    rng, out = ctx["rng"], []
    for t in range(450 if ctx["quick"] else 5000):
        w = W(f"copy-{t}")
        new(w, rng, 1, rshape(rng))
        for _ in range(rng.randint(5, 12)):
            nz = [x for x in w.v if len(w.v[x]) > 0]
            k = rng.choice(nz); l = rng.randint(2, 6); r = rng.random()
            if r < .25: do_slice(w, rng, k, l)
            elif r < .37:
                w.add(f"copy {k} {l}", op="copy", k=k, l=l); w.v[l] = list(w.v[k])
            elif r < .52:
                if rng.random() < .2 or prod(w.v[k]) == 0: sh = rshape(rng)
                else: sh = factorings(prod(w.v[k]), rng)
                w.add(f"reshape {k} {lst(sh)}", op="reshape", k=k, shape=sh)
                # a view that is not contiguous may refuse: the generator then no longer knows the shape, so it drops the slot
                if prod(sh) == prod(w.v[k]):
                    if k == 1: w.v[1] = sh
                    else: del w.v[k]
            elif r < .62:
                f = rng.randint(0, 1)
                w.add(f"round {k} {l} {f}", op="round", k=k, l=l); w.v[l] = list(w.v[k])
            elif r < .66: w.add(f"trunc {k}", op="trunc", k=k)
            elif r < .7:
                ty = rng.choice(["double", "float", "char", "unsigned"])
                w.add(f"wrongtype {k} {ty}", op="wrongtype", k=k)
            elif r < .8: w.add(f"size {k}", op="size", k=k)
            elif r < .85: w.add(f"range {k}", op="range", k=k)
            elif r < .87: w.add(f"typed {k} {rng.choice(['double', 'float', 'short', 'long', 'tri'])} {rng.randint(0, 1)}", op="typed", k=k)
            elif r < .91: w.add(f"print {k}", op="print", k=k)
            else: do_elem(w, rng, k, "set")
            if not any(len(w.v[x]) for x in w.v): break
        out.append(w.doc())
    return out


def mc(tier, ext, dims, ops):
    return {"tier": tier, "module": "MemViewModel", "what": "offset/stride addressing, slice lengths and in-place reshaping = row-major positions of the mathematical array",
            "cfg": {"constants": {"MaxExt": ext, "MaxDims": dims, "MaxOps": ops}, "invariants": ["SameView", "CanReshape"]}}


A = ["element type int (other types for the type check and the typed round trip), mostly up to 4 dimensions and 60 elements, some up to 8 dimensions and 300 elements"]
CHECKS = {p: {"driver": "drv_memview", "gen": g, "trace": "TraceMemView", "mc": [mc("quick", 2, 2, 2), mc("thorough", 3, 2, 2), mc("thorough", 2, 3, 2)], "assumptions": A}
          for p, g in (("M01", gen_m01), ("M02", gen_m02))}
