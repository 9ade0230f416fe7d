#!/usr/bin/env python3
"""Systematic mutation of /repo/cmmcore, to find what the checks do not look at (development aid, not a check).
  mutate.py prep                 scenarios, recorded observations and line coverage of every property (quick tier)
  mutate.py run N SEED [FILE..]  N random mutants of covered lines; survivors go to $WORK/surv.txt
                                 (TOL=1: tolerances instead of operators)
A mutant is killed when TLC rejects one of the recorded scenarios whose observations change."""
import copy, glob, importlib, json, os, pickle, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from lib import fw
from families import REGISTRY
WORK = os.environ.get("WORK", "/tmp/mut"); os.makedirs(WORK, exist_ok=True)
SRC = "/repo/cmmcore"


def cc(driver, flags, out, inc):
    return subprocess.run([fw.CXX] + fw.BASE + flags + ["-I" + os.path.join(V, "harness"), "-I" + inc, os.path.join(V, "harness", driver + ".cpp"), "-o", out], capture_output=True, text=True)


def checks(): return {p: importlib.import_module("families." + REGISTRY[p]).CHECKS[p] for p in sorted(REGISTRY)}


def prep():
    C = checks(); drv = sorted({c["driver"] for c in C.values()})
    cov = lambda d: os.path.join(WORK, d + ".cov")
    def b(d):
        r = cc(d, ["-O0", "-mllvm", "-runtime-counter-relocation", "-fprofile-instr-generate", "-fcoverage-mapping"], cov(d), "/repo"); assert r.returncode == 0, r.stderr[-500:]
        r = cc(d, fw.SAN, os.path.join(WORK, d + ".san"), "/repo"); assert r.returncode == 0
    with ThreadPoolExecutor(6) as ex: list(ex.map(b, drv))
    cover = {}
    for p, c in C.items():
        sc = c["gen"]({"tier": "quick", "seed": 1, "rng": random.Random(f"1/{p}"), "quick": True})
        s2 = copy.deepcopy(sc)
        for f in glob.glob(WORK + "/*.profraw"): os.unlink(f)
        os.environ["LLVM_PROFILE_FILE"] = WORK + "/%p%c.profraw"
        fw.run_driver(cov(c["driver"]), s2, timeout=60)
        subprocess.run(f"llvm-profdata-18 merge -sparse {WORK}/*.profraw -o {WORK}/p.prof", shell=True, check=True)
        o = subprocess.run(["llvm-cov-18", "show", cov(c["driver"]), f"-instr-profile={WORK}/p.prof", "-show-instantiations=false", "-ignore-filename-regex=(usr|harness)"], capture_output=True, text=True).stdout
        f = ""
        for l in o.split("\n"):
            m = re.match(r"^(/\S+):$", l)
            if m: f = m.group(1).replace(SRC + "/", ""); continue
            m = re.match(r"^\s*(\d+)\|\s*([\d.]*[kMG]?)\|", l)
            if m and m.group(2) and m.group(2) != "0": cover.setdefault((f, int(m.group(1))), set()).add(p)
        fw.run_driver(os.path.join(WORK, c["driver"] + ".san"), sc, timeout=c.get("timeout", 10))
        if c.get("post"): pass
        pickle.dump(sc, open(f"{WORK}/{p}.pkl", "wb")); print(p, len(sc), flush=True)
    pickle.dump(cover, open(f"{WORK}/cover.pkl", "wb"))


SWAP = [(r"(?<![<>=!+\-*/&|:])<(?![<=>])", "<="), (r"<=", "<"), (r"(?<![<>=!\-+>])>(?![>=])", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
        (r"(?<![+\w(,=] )(?<![+e(,=<>*/])\+(?![+=])", "-"), (r"(?<=[\w)\]]) ?- ?(?=[\w(])", " + "), (r"(?<=[\w)\]]) ?\* ?(?=[\w(])", " + "), (r"(?<=[\w)\]]) ?/ ?(?=[\w(])", " * "), (r"\+=", "-="), (r"-=", "+="),
        (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\+ ?1\b(?!\.)", ""), (r"- ?1\b(?!\.)", ""), (r"\b0\b(?!\.)", "1"), (r"\b1\b(?!\.)", "0"), (r"\b2\b(?!\.)", "3"), (r"\b1\.0?\b", "2.0"), (r"\b0\.5\b", "0.25"),
        (r"std::min\b", "std::max"), (r"std::max\b", "std::min"), (r"std::abs\(", "("), (r"std::fabs\(", "("), (r"\bcontinue;", "break;"), (r"\bbreak;", ";"), (r"\.x\b", ".y"), (r"\.y\b", ".z"), (r"\.z\b", ".x"),
        (r"\[i\]", "[0]"), (r"\[j\]", "[i]"), (r"\[0\]", "[1]"), (r"\[1\]", "[0]"), (r"\bi\b(?=[,\])])", "i+1"), (r"\bu\b", "v"), (r"\bstd::lower_bound", "std::upper_bound"), (r"\+\+(?=\w+\))", "--"), (r"!(?=[\w(])", "")]


TOL = [(r"\b\d+(?:\.\d*)?e-\d+\b", lambda m: repr(float(m.group()) * 1e5)), (r"\b\d+(?:\.\d*)?e-\d+\b", lambda m: "0.0"),
       (r"(CMMCORE_NUMERIC_EPSILON_DOUBLE|std::numeric_limits<double>::epsilon\(\))", lambda m: "1e-6"), (r"\beps\b", lambda m: "1e-5"), (r"\btol\w*\b", lambda m: "(1000*" + m.group() + ")"), (r"\bthreshold\b", lambda m: "(1000*threshold)")]


def mutants(cover, files):
    for f in sorted({k[0] for k in cover}):
        if files and f not in files: continue
        if not os.path.isfile(f"{SRC}/{f}") or f == "cm_hash.h" or "binom.h" in f: continue
        L = open(f"{SRC}/{f}").read().split("\n")
        for n in sorted(k[1] for k in cover if k[0] == f):
            t = L[n - 1]; code = t.split("//")[0]
            if not code.strip() or code.strip().startswith(("#", "*", "template", "inline", "void ", "friend")): continue
            done = set()
            for pat, new in TOL if os.environ.get("TOL") else SWAP:
                for m in re.finditer(pat, code):
                    x = code[:m.start()] + (new(m) if callable(new) else new) + code[m.end():]
                    if x != code and x not in done: done.add(x); yield f, n, t, x
            s = code.strip()
            if os.environ.get("TOL"): continue
            if s.endswith(";") and not re.match(r"(return|double|int|size_t|auto|const|std::|vec[234]|bool|using|else|for|break|continue|[A-Z]\w+[ <&*]|\})", s): yield f, n, t, code.replace(s, ";")


def one(a):
    k, (f, n, old, new), pids = a
    C = checks(); d = tempfile.mkdtemp(prefix="m", dir=WORK); res = ("same", "")
    try:
        shutil.copytree(SRC, d + "/cmmcore"); p = f"{d}/cmmcore/{f}"; L = open(p).read().split("\n"); L[n - 1] = new; open(p, "w").write("\n".join(L))
        by = {}
        for q in pids: by.setdefault(C[q]["driver"], []).append(q)
        size = lambda q: os.path.getsize(f"{WORK}/{q}.pkl")
        for dr in sorted(by, key=lambda x: -len(by[x])):
            r = cc(dr, fw.SAN, f"{d}/x", d)
            if r.returncode: return k, ("nocompile", "")
            for q in sorted(by[dr], key=size):
                sc = pickle.load(open(f"{WORK}/{q}.pkl", "rb")); D = fw.DriverRun(f"{d}/x", max(8, C[q].get("timeout", 10))); diff = []; t0 = time.time()
                try:
                    for s in sc:
                        o = D.run_scenario([e["cmd"] for e in s["ev"]])
                        if [e["obs"] for e in s["ev"]][:len(o)] != o or len(o) != len(s["ev"]):
                            s = copy.deepcopy(s); s["ev"] = s["ev"][:len(o)]
                            for e, x in zip(s["ev"], o): e["obs"] = x
                            diff.append(s)
                            if o and o[-1].get("ex") in ("HANG", "CRASH"): return k, ("killed", q + " " + o[-1]["ex"])
                        if len(diff) >= 40 or time.time() - t0 > 120: break
                except fw.CheckError as e:
                    if not diff: return k, ("killed", q + " protocol")
                finally: D.close()
                if diff:
                    try: v, *_ = fw.validate(C[q]["trace"], diff, env=C[q].get("env"), workers=2, chunk=40)
                    except fw.CheckError as e: res = ("error", q + str(e)[:300]); continue
                    if v: return k, ("killed", f"{q} {v[0][2][:60]}")
                    res = ("tolerated", res[1] + " " + q)
        return k, res
    finally: shutil.rmtree(d, ignore_errors=True)


def run(n, seed, files):
    cover = pickle.load(open(f"{WORK}/cover.pkl", "rb")); M = list(mutants(cover, files)); rng = random.Random(seed); rng.shuffle(M)
    if n < len(M):          # at most a few mutants of each line
        seen = {}; M2 = []
        for m in M:
            c = seen.get(m[:2], 0)
            if c < 2: seen[m[:2]] = c + 1; M2.append(m)
        M = M2
    M = M[:n]; print(len(M), "mutants", flush=True)
    J = int(os.environ.get("J", "4")); cnt = {}
    with ThreadPoolExecutor(J) as ex:
        for k, (st, w) in ex.map(one, [(k, m, sorted(cover[m[:2]])) for k, m in enumerate(M)]):
            cnt[st] = cnt.get(st, 0) + 1
            f, l, old, new = M[k]
            if st not in ("killed", "nocompile"):
                open(f"{WORK}/surv.txt", "a").write(f"{f}:{l} [{st}{w}] ({','.join(sorted(cover[f, l]))})\n  - {old.strip()}\n  + {new.strip()}\n")
            if k % 10 == 9: print(k + 1, cnt, flush=True)
    print(cnt)


if __name__ == "__main__":
    if sys.argv[1] == "prep": prep()
    else: run(int(sys.argv[2]), sys.argv[3], sys.argv[4:])
