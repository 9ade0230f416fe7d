"""STEP export (E01): histories of curve and surface exports into one exchange structure, and files."""
from lib.fw import q, fl
from fractions import Fraction as F
from lib.shadow import Curve, Surface
from families.curve import rknots, rcps, tkn
from families.surface import rsurf, many
from families.meet import H as Base


class H(Base):
    def curve(self, k, c): super().curve(k, c); self.c[k] = c
    def op(self, cmd, **e): self.add(cmd, **e)


def fine(rng, cp, bits):
    """control points with binary fractions that need many decimal digits"""
    if not bits: return cp
    d = 1 << bits
    return [tuple(p[m] * d + rng.choice([0, 1, -1, 3]) for m in range(3)) + (p[3] * d, p[4] * d) for p in cp]


def gen_e01(ctx):
    def b(h, k):
        rng = h.rng; start = rng.choice([1, 1, 10, 10, 100, 4711, 999990])
        h.add(f"open {start} {(p := rng.choice([0, 0, 0, 2, 12]))}", op="open", id=start)
        bits = rng.choice([0, 0, 3, 7, 10])
        def curve(k):
            d = rng.choice([1, 1, 2, 3, 3, 4]); kn = rknots(rng, d, rng.choice([0, 0, 1, 2, 3]))
            c = Curve(d, kn, fine(rng, rcps(rng, len(kn) - d - 1, rng.choice(["unit", "rand", "rand"]), rng.choice([3, 6, 2000])), bits)); h.curve(k, c)
        def surf(k):
            x = rsurf(rng, 3, 1, rng.choice(["unit", "rand", "rand"]), rng.choice([3, 6, 900]))
            h.surf(k, Surface(x.du, x.dv, x.ku, x.kv, [fine(rng, r, bits) for r in x.cp]))
        for _ in range(rng.randint(1, 5)):
            r = rng.random(); k = rng.randint(1, 3)
            if r < .45:
                if k not in h.c or rng.random() < .6: curve(k)
                h.add(f"cex {k}", op="cex", k=k)
            else:
                k = min(k, 2)
                if k not in h.s or rng.random() < .6: surf(k)
                if r < .85: h.add(f"sex {k}", op="sex", k=k)
                else: how = rng.choice(["ok", "ok", "old", "missing", "dir"]); h.add(f"file {k} {how}", op="file", k=k, how=how)
            if rng.random() < .1: start = rng.choice([1, 50]); h.add(f"open {start} 0", op="open", id=start)
    return many(ctx, "step", 200, 3000, b, H)


CHECKS = {
    "E01": {"mc": [{"tier": t, "module": "StepModel", "what": "exports of curves and sheets into one stream: identifiers, references, closed face boundaries, edges along their curves",
                    "cfg": {"spec": "Spec", "constants": k, "invariants": ["InvIds", "InvParts", "InvSheets"]}} for t, k in (("quick", {"MaxN": 3, "Exports": 2, "Starts": "{1, 10}"}), ("thorough", {"MaxN": 4, "Exports": 3, "Starts": "{1, 10, 999}"}))],
            "driver": "drv_step", "gen": gen_e01, "trace": "TraceStep", "assumptions": ["links between the product, context and presentation entities are only required to exist, not to have the type the schema demands"]},
}
