#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]  -- runs one property's check; see DESIGN.md."""
import importlib, json, os, random, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
from lib import fw
from lib.fw import CheckError, log


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    from families import REGISTRY
    fam = importlib.import_module("families." + REGISTRY[pid])
    chk = fam.CHECKS[pid]
    rng = random.Random(f"{seed}/{pid}")
    ctx = {"tier": tier, "seed": seed, "rng": rng, "quick": tier == "quick"}
    states = trans = 0
    mcs = []
    for mc in chk.get("mc", []):
        if mc.get("tier", tier) != tier:
            continue
        r = fw.model_check(mc["module"], mc.get("cfg"), timeout=mc.get("timeout", 800))
        states += r["distinct"]; trans += r["generated"]
        mcs.append({"module": mc["module"], "cfg": mc.get("cfg") or mc["module"] + ".cfg", "what": mc.get("what", ""), "distinct": r["distinct"], "generated": r["generated"]})
        log(f"[{pid}] model {mc['module']}: {r['distinct']} distinct states, {time.time()-t0:.1f}s")
    exe = fw.build_driver(chk["driver"], chk.get("flags"))
    log(f"[{pid}] driver built {time.time()-t0:.1f}s")
    scen = chk["gen"](ctx)
    ids = set()
    for s in scen:
        assert s["id"] not in ids, "duplicate scenario id " + s["id"]
        ids.add(s["id"])
    log(f"[{pid}] {len(scen)} scenarios {time.time()-t0:.1f}s")
    fw.run_driver(exe, scen, timeout=chk.get("timeout", 10))
    if chk.get("post"):
        scen = chk["post"](ctx, scen)
    nev = sum(len(s["ev"]) for s in scen)
    log(f"[{pid}] driver ran {nev} events {time.time()-t0:.1f}s")
    viol, undec = [], []
    viol, g, d = fw.validate(chk["trace"], scen, env=chk.get("env"), chunk=chk.get("chunk", 150), undecided=undec)
    undec = [scen[a]["id"] for a in undec]
    states += d; trans += g
    bad = [(a, w) for a, b, w in viol if w.startswith("BAD SCENARIO")]
    if bad:
        raise CheckError(f"generator produced an invalid scenario {scen[bad[0][0]]['id']}: {bad[0][1]}")
    log(f"[{pid}] trace validation done {time.time()-t0:.1f}s, {len(viol)} rejected")
    known = [k for k in fw.load_known() if k[0] == pid]
    knownids = {k[1]: k for k in known}
    new, seen = [], set()
    for a, b, w in viol:
        sid = scen[a]["id"]
        if sid in knownids:
            seen.add(sid)
        else:
            new.append((a, b, w))
    for k in known:
        if k[1] in seen:
            print(f"KNOWN-FINDING: property={pid} scenario={k[1]} {k[2]}")
    rdir = os.path.join(fw.VERIF, "replay", pid)
    if new:
        os.makedirs(rdir, exist_ok=True)
        for f in os.listdir(rdir): os.unlink(os.path.join(rdir, f))
    for n, (a, b, w) in enumerate(new[:5]):
        p = os.path.join(rdir, f"v{n}.json")
        s = scen[a]
        json.dump({"property": pid, "scenario": s["id"], "event": b, "why": w, "driver": chk["driver"],
                   "commands": [e["cmd"] for e in s["ev"][:b + 1]], "events": s["ev"][:b + 1]}, open(p, "w"), indent=1)
        print(f"VIOLATION property={pid} replay={p}")
        log(f"   scenario {s['id']} event {b}: {w}")
    accepted = len(scen) - len({a for a, _, _ in viol}) - len(undec)
    samples = []
    for s in random.Random(seed).sample(scen, min(3, len(scen))):
        e = [{k: v for k, v in x.items() if k != "cmd"} for x in s["ev"][:3]]
        samples.append(json.dumps({"id": s["id"], "first_events": e})[:1500])
    ev = {"property": pid, "tier": tier, "seed": seed, "level": chk.get("level", "model_checking"),
          "coverage": {"states": states, "transitions": trans, "traces_validated_against_impl": accepted,
                       "trace_events": nev, "undecided": undec, "design_models": mcs, "trace_spec": chk["trace"], "samples": samples},
          "assumptions": chk.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(fw.VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(fw.VERIF, "evidence", pid + ".json"), "w"), indent=1)
    return 1 if new else 0


if __name__ == "__main__":
    try:
        rc = main()
    except CheckError as e:
        log("CHECK ERROR:", e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.exit(rc)
