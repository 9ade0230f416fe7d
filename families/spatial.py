"""k-d trees (T01), bounding volume hierarchies (V01), boxes (A01)."""


class W:
    def __init__(self, sid): self.id, self.ev = sid, []
    def doc(self): return {"id": self.id, "ev": self.ev}
    def add(self, cmd, **e): self.ev.append(dict(e, cmd=cmd))


def sp(p): return " ".join(str(x) for x in p)


def cloud(rng, n, ext):
    kind = rng.choice(["uniform", "uniform", "dup", "line", "plane", "cluster", "lattice"])
    pts = []
    base = [rng.randint(-ext, ext) for _ in range(3)]
    dirn = [rng.randint(-2, 2) for _ in range(3)]
    for _ in range(n):
        if kind == "uniform": p = [rng.randint(-ext, ext) for _ in range(3)]
        elif kind == "dup": p = rng.choice(pts)[:] if pts and rng.random() < .6 else [rng.randint(-2, 2) for _ in range(3)]
        elif kind == "line": t = rng.randint(-6, 6); p = [b + t * d for b, d in zip(base, dirn)]
        elif kind == "plane": p = [rng.randint(-ext, ext) for _ in range(3)]; p[base[0] % 3] = base[1]
        elif kind == "cluster": p = [b + rng.randint(-2, 2) for b in base]
        else: p = [4 * rng.randint(-1, 1) for _ in range(3)]
        pts.append(p)
    return pts


def gen_kd(ctx):
    rng, out = ctx["rng"], []
    for t in range(260 if ctx["quick"] else 3000):
        w = W(f"kd-{t}")
        ext = rng.choice([3, 8, 60])
        pool = cloud(rng, 60 if t % 8 else 220, ext)
        for _ in range(rng.randint(4, 16)):
            k = 1 if rng.random() < .85 else 2
            r = rng.random()
            if r < .12 or (not w.ev and rng.random() < .7):
                n = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 33, 60] + [200] * (t % 8 == 0))
                p = [rng.choice(pool) for _ in range(n)]
                w.add(f"kd build {k} {n} " + " ".join(sp(x) for x in p), op="build", t=k, pts=p)
            elif r < .45:
                p = rng.choice(pool) if rng.random() < .7 else [rng.randint(-ext, ext) for _ in range(3)]
                w.add(f"kd insert {k} {sp(p)}", op="insert", t=k, p=p)
            elif r < .72:
                a, b = rng.choice(pool), rng.choice(pool)
                if rng.random() < .4: b = [x + rng.randint(0, ext) for x in a]
                lo, hi = [min(x, y) for x, y in zip(a, b)], [max(x, y) for x, y in zip(a, b)]
                if rng.random() < .06: lo, hi = hi, lo
                w.add(f"kd range {k} {sp(lo)} {sp(hi)}", op="range", t=k, lo=lo, hi=hi)
            else:
                p = rng.choice(pool) if rng.random() < .3 else [rng.randint(-ext - 4, ext + 4) for _ in range(3)]
                w.add(f"kd near {k} {sp(p)}", op="near", t=k, p=p)
        out.append(w.doc())
    return out


def rbox(rng, ext, flat=.2):
    a = [rng.randint(-ext, ext) for _ in range(3)]
    s = [0 if rng.random() < flat else rng.randint(1, max(1, ext // rng.choice([1, 2, 4]))) for _ in range(3)]
    return a, [x + y for x, y in zip(a, s)]


def boxlist(rng, n, ext):
    kind = rng.choice(["mix", "mix", "dup", "point", "stack", "nest", "flat"])
    out = []
    for q in range(n):
        if kind == "dup" and out and rng.random() < .6: out.append(rng.choice(out)); continue
        if kind == "point": a = [rng.randint(-ext, ext) for _ in range(3)]; out.append((a, a[:])); continue
        if kind == "stack": a = [q % 3 * 4, (q // 3) * 4, 0]; out.append((a, [x + 4 for x in a])); continue
        if kind == "nest": out.append(([-q] * 3, [q + 1] * 3)); continue
        out.append(rbox(rng, ext, .6 if kind == "flat" else .15))
    return out


def gen_bvh(ctx):
    rng, out = ctx["rng"], []
    for t in range(300 if ctx["quick"] else 3500):
        w = W(f"bvh-{t}")
        ext = rng.choice([2, 6, 25])
        den = rng.choice([8, 8, 8, 1, 128])
        thr = {1: 0, 8: 0, 128: 2}[den]          # 10^-6 in units of 1/den^3, rounded down
        trees, own = {}, {}
        w.add(f"den {den}", op="unit")
        cmd = w.add
        for k in (1, 2):
            n = rng.choice([0, 1, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 30] + [70] * (t % 5 == 0))
            bl = boxlist(rng, n, ext); up = rng.randint(0, 3)
            cmd(f"bvh build {k} {up} {n} " + " ".join(sp(a) + " " + sp(b) for a, b in bl), op="build", t=k, boxes=[{"lo": a, "hi": b} for a, b in bl])
            trees[k] = n; own[k] = {k}
        for _ in range(rng.randint(4, 10)):
            k = rng.choice(list(trees)); r = rng.random()
            if r < .35:
                a, b = rbox(rng, ext + 2, .3); cmd(f"bvh query {k} {sp(a)} {sp(b)}", op="query", t=k, lo=a, hi=b)
            elif r < .55:
                a = [rng.randint(-ext - 1, ext + 1) for _ in range(3)]; cmd(f"bvh point {k} {sp(a)}", op="point", t=k, p=a)
            elif r < .72:
                l = rng.choice(list(trees)); cmd(f"bvh isect {k} {l}", op="isect", t=k, l=l, thr=thr)
            elif r < .9:
                l = rng.choice([1, 2, 3, 4]); cmd(f"bvh copy {k} {l} {rng.randint(0, 1)}", op="copy", t=k, l=l); trees[l] = trees[k]; own[l] = own[k]
                if rng.random() < .5: cmd(f"bvh state {k}", op="state", t=k)
            else:
                l = rng.choice([x for x in trees if x != k]); m = rng.choice([3, 4])
                if trees[k] and trees[l] and m not in (k, l) and not own[k] & own[l]:
                    cmd(f"bvh graft {k} {l} {m}", op="graft", t=k, l=l, m=m); trees[m] = trees[k] + trees[l]; own[m] = own[k] | own[l]
        out.append(w.doc())
    return out


def gen_box(ctx):
    rng, out = ctx["rng"], []
    for t in range(300 if ctx["quick"] else 4000):
        w = W(f"box-{t}")
        ext = rng.choice([2, 5, 40]); have = {k: False for k in range(1, 7)}     # slot holds a non-empty box
        for _ in range(rng.randint(6, 18)):
            k, l, m = (rng.randint(1, 6) for _ in range(3)); r = rng.random()
            if r < .25:
                a, b = rbox(rng, ext); w.add(f"box set {k} {sp(a)} {sp(b)}", op="set", k=k, lo=a, hi=b); have[k] = True
            elif r < .28: w.add(f"box empty {k}", op="empty", k=k); have[k] = False
            elif r < .38:
                p = [[rng.randint(-ext, ext) for _ in range(3)] for _ in range(rng.randint(1, 6) if rng.random() < .85 else rng.randint(7, 60))]
                w.add(f"box points {k} {len(p)} " + " ".join(sp(x) for x in p), op="points", k=k, pts=p); have[k] = True
            elif r < .5:
                p = [rng.randint(-ext - 1, ext + 1) for _ in range(3)]
                w.add(f"box expand {k} {sp(p)}", op="expand", k=k, p=p); have[k] = True
            elif r < .65: w.add(f"box merge {k} {l} {m}", op="merge", k=k, l=l, m=m); have[m] = have[k] or have[l]
            elif r < .8: w.add(f"box meet {k} {l}", op="meet", k=k, l=l)
            elif r < .93:
                w.add(f"box common {k} {l} {m}", op="common", k=k, l=l, m=m)
            elif have[k]: w.add(f"box volume {k}", op="volume", k=k)
        out.append(w.doc())
    return out


A = ["coordinates are integers in units of 1/8 (1 and 1/128 too for hierarchies), so every comparison is exact"]
CHECKS = {
    "T01": {"driver": "drv_spatial", "gen": gen_kd, "trace": "TraceKd", "assumptions": A, "mc": [
        {"tier": "quick", "module": "KdModel", "what": "median building, insertion, pruned range and nearest search = multiset semantics",
         "cfg": {"constants": {"Ext": 1, "MaxBuild": 3, "MaxIns": 1}, "invariants": ["RangeOK", "NearOK"]}},
        {"tier": "thorough", "module": "KdModel", "what": "median building, insertion, pruned range and nearest search = multiset semantics",
         "cfg": {"constants": {"Ext": 1, "MaxBuild": 4, "MaxIns": 2}, "invariants": ["RangeOK", "NearOK"]}}]},
    "V01": {"driver": "drv_spatial", "gen": gen_bvh, "trace": "TraceBvh", "assumptions": A + ["the recursive intersection ignores overlaps of volume below 1e-6"], "mc": [
        {"tier": "quick", "module": "BvhModel", "what": "both builders hold each object once under tight boxes; queries and intersections are exact",
         "cfg": {"constants": {"Ext": 1, "MaxObj": 3, "Max2": 1}, "invariants": ["EachOnce", "TightBoxes", "QueryOK", "IsectOK"]}},
        {"tier": "thorough", "module": "BvhModel", "what": "both builders hold each object once under tight boxes; queries and intersections are exact",
         "cfg": {"constants": {"Ext": 1, "MaxObj": 4, "Max2": 1}, "invariants": ["EachOnce", "TightBoxes", "QueryOK", "IsectOK"]}},
        {"tier": "thorough", "module": "BvhModel", "what": "intersections of two hierarchies of up to three and two objects",
         "cfg": {"constants": {"Ext": 1, "MaxObj": 3, "Max2": 2}, "invariants": ["IsectOK"]}}]},
    "A01": {"driver": "drv_spatial", "gen": gen_box, "trace": "TraceBox", "assumptions": A, "mc": [
        {"tier": "quick", "module": "BoxModel", "what": "componentwise box operations = operations on point sets",
         "cfg": {"constants": {"Ext": 1}, "invariants": ["MeetOK", "CommonOK", "JoinOK", "SmallestOK"]}},
        {"tier": "thorough", "module": "BoxModel", "what": "componentwise box operations = operations on point sets",
         "cfg": {"constants": {"Ext": 2}, "invariants": ["MeetOK", "CommonOK", "JoinOK", "SmallestOK"]}}]},
}
