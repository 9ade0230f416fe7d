"""Framework: build a driver from /repo's working tree, run scenarios on it, and let TLC judge the
recorded traces against the TLA+ specification.  Python never judges a result: it generates inputs,
transports observations and reports what TLC rejected."""
import hashlib, json, os, random, re, select, shutil, subprocess, sys, tempfile, time
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CMMCORE_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CXX = shutil.which("clang++-18") or "clang++-18"
INCS = ["-I" + os.path.join(VERIF, "harness"), "-I" + REPO]
BASE = ["-std=c++17", "-stdlib=libc++", "-include", os.path.join(VERIF, "harness", "prefix.h"),
        "-msse", "-msse2", "-msse3", "-mssse3", "-msse4.1", "-msse4.2", "-mavx", "-mavx2", "-w"]
SAN = ["-O1", "-gline-tables-only", "-fsanitize=address", "-fno-omit-frame-pointer",
       "-D_LIBCPP_HARDENING_MODE=_LIBCPP_HARDENING_MODE_EXTENSIVE"]
FAST = ["-O2"]


class CheckError(Exception):
    pass


class NotDyadic(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def repo_digest(extra=()):
    h = hashlib.sha256()
    for root, dirs, files in os.walk(os.path.join(REPO, "cmmcore")):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(p.encode())
            h.update(open(p, "rb").read())
    for root, dirs, files in os.walk(os.path.join(VERIF, "harness")):
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(p.encode())
            h.update(open(p, "rb").read())
    for e in extra:
        h.update(e.encode())
    return h.hexdigest()[:24]


def build_driver(name, flags=None):
    flags = SAN if flags is None else flags
    os.makedirs(BUILD, exist_ok=True)
    tag = repo_digest([name] + flags)
    exe = os.path.join(BUILD, f"{name}-{tag}")
    if os.path.exists(exe):
        return exe
    for f in os.listdir(BUILD):
        if f.startswith(name + "-"):
            try: os.unlink(os.path.join(BUILD, f))
            except OSError: pass
    tmp = exe + f".tmp{os.getpid()}"
    cmd = [CXX] + BASE + flags + INCS + [os.path.join(VERIF, "harness", name + ".cpp"), "-o", tmp]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise CheckError(f"driver {name} does not compile against {REPO}:\n" + r.stderr[-4000:])
    os.rename(tmp, exe)
    return exe


class DriverRun:
    """Feeds command lines to the driver one by one; a crash or a hang is an observation."""

    def __init__(self, exe, timeout):
        self.exe, self.timeout, self.p = exe, timeout, None
        self.cwd = tempfile.mkdtemp(prefix="cmmv-")

    def start(self):
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:alloc_dealloc_mismatch=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0:allocator_may_return_null=1:max_allocation_size_mb=2000"
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, cwd=self.cwd, env=env, bufsize=0)
        self.buf = b""

    def stop(self):
        if self.p:
            try: self.p.kill()
            except OSError: pass
            self.p.wait()
            self.p.stdin.close(); self.p.stdout.close(); self.err.close()
            self.p = None

    def close(self):
        self.stop()
        shutil.rmtree(self.cwd, ignore_errors=True)

    def run_scenario(self, cmds, timeout=None):
        """Returns the list of observations; stops at the first crash/hang (an observation too)."""
        timeout = timeout or self.timeout
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write(("reset\n" + "".join(c + "\n" for c in cmds)).encode())
        except (BrokenPipeError, OSError):
            pass
        obs = []
        deadline = time.time() + timeout
        first = True
        while len(obs) < len(cmds):
            line = None
            while b"\n" not in self.buf:
                left = deadline - time.time()
                if left <= 0:
                    self.stop()
                    obs.append({"ok": 0, "ex": "HANG"})
                    return obs
                r, _, _ = select.select([self.p.stdout], [], [], left)
                if r:
                    chunk = os.read(self.p.stdout.fileno(), 1 << 16)
                    if not chunk:
                        rc = self.p.wait()
                        self.err.seek(0)
                        e = self.err.read().decode(errors="replace")
                        m = re.search(r"(AddressSanitizer: [\w-]+|libc\+\+ Hardening assertion [^\n]{0,120}|[^\n]*assert[^\n]{0,120}|ERROR[^\n]{0,120}|terminat[^\n]{0,120})", e)
                        self.stop()
                        obs.append({"ok": 0, "ex": "CRASH", "rc": rc, "detail": (m.group(1) if m else e[-200:])[:200]})
                        return obs
                    self.buf += chunk
            line, self.buf = self.buf.split(b"\n", 1)
            if first:
                first = False
                if line.strip() != b"reset":
                    raise CheckError("driver protocol: expected reset echo, got %r" % line[:200])
                continue
            try:
                obs.append(json.loads(line))
            except ValueError:
                raise CheckError("driver protocol: bad json %r" % line[:300])
            deadline = max(deadline, time.time() + timeout)
            if "PROTO" in obs[-1]:
                raise CheckError("driver protocol: %r for %r" % (obs[-1], cmds[len(obs) - 1]))
        return obs


def run_driver(exe, scenarios, timeout=10, jobs=6):
    """Adds 'obs' to every event of every scenario (events after a crash are dropped)."""
    from concurrent.futures import ThreadPoolExecutor
    chunks = [scenarios[i::jobs] for i in range(jobs)]
    hangs, ran, t0 = [], set(), time.time()

    def work(chunk):
        d = DriverRun(exe, timeout)
        try:
            for s in chunk:
                # a change that makes many scenarios hang must still be reported in time
                if len(hangs) >= 3 and time.time() - t0 > 120: return
                ran.add(id(s))
                o = d.run_scenario([e["cmd"] for e in s["ev"]])
                if o and o[-1].get("ex") in ("HANG", "CRASH"):
                    o2 = d.run_scenario([e["cmd"] for e in s["ev"]], timeout=max(30, 3 * timeout))
                    if o2 and o2[-1].get("ex") in ("HANG", "CRASH"):
                        o = o2
                    else:
                        o = o2
                s["ev"] = s["ev"][:len(o)]
                for e, x in zip(s["ev"], o):
                    e["obs"] = x
                if o and o[-1].get("ex") == "HANG": hangs.append(s["id"])
        finally:
            d.close()

    with ThreadPoolExecutor(jobs) as ex:
        for f in [ex.submit(work, c) for c in chunks if c]:
            f.result()
    if len(ran) < len(scenarios):
        log(f"   {len(scenarios) - len(ran)} scenarios not run after {len(hangs)} hangs")
        scenarios[:] = [s for s in scenarios if id(s) in ran]
    return scenarios


def tlc(module, cfg=None, env=None, workers=8, timeout=800, args=(), heap="6g"):
    md = tempfile.mkdtemp(prefix="cmmv-tlc-")
    if isinstance(cfg, dict):
        write_cfg(cfg, os.path.join(md, "M.cfg"))
        cfg = os.path.join(md, "M.cfg")
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-cp", JAR, "tlc2.TLC", "-workers", str(workers),
           "-metadir", md, "-config", cfg or module + ".cfg", "-noGenerateSpecTE"] + list(args) + [module + ".tla"]
    try:
        # once an error has been reported TLC evaluates again, tracing every call, which can take minutes: not awaited
        path, t0, end = os.path.join(md, "out"), time.time(), None
        with open(path, "w") as f:
            p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT)
        try:
            while p.poll() is None:
                if time.time() - t0 > timeout: raise CheckError(f"TLC on {module} exceeded {timeout}s")
                time.sleep(.05)
                n = os.path.getsize(path)
                if end is None or end[0] != n: end = (n, time.time())
                elif time.time() - end[1] > 1.5:
                    if "Error: The behavior up to this point is" in open(path, errors="replace").read(): break
                    end = (n, time.time() + 3)
        finally:
            p.kill(); p.wait()
        out, rc = open(path, errors="replace").read(), p.returncode
    finally:
        shutil.rmtree(md, ignore_errors=True)
    m = None
    for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", out):
        pass
    gen = int(m.group(1).replace(",", "")) if m else 0
    dist = int(m.group(2).replace(",", "")) if m else 0
    if not m:
        m = re.search(r"The number of states generated: ([\d,]+)", out)
        if m: gen = dist = int(m.group(1).replace(",", ""))
    return {"rc": rc, "out": out, "generated": gen, "distinct": dist}


def write_cfg(d, path):
    """a TLC configuration from {constants:{}, invariants:[], properties:[], view, symmetry, init, next, spec}"""
    out = []
    if d.get("spec"): out.append("SPECIFICATION " + d["spec"])
    else: out += ["INIT " + d.get("init", "Init"), "NEXT " + d.get("next", "Next")]
    for k, v in d.get("constants", {}).items(): out.append(f"CONSTANT {k} = {v}" if not str(v).startswith("<-") else f"CONSTANT {k} {v}")
    if d.get("view"): out.append("VIEW " + d["view"])
    if d.get("constraint"): out.append("CONSTRAINT " + d["constraint"])
    if not d.get("deadlock"): out.append("CHECK_DEADLOCK FALSE")
    for x in d.get("invariants", []): out.append("INVARIANT " + x)
    for x in d.get("properties", []): out.append("PROPERTY " + x)
    with open(path, "w") as f: f.write("\n".join(out) + "\n")


def model_check(module, cfg=None, **kw):
    r = tlc(module, cfg, **kw)
    if r["rc"] != 0:
        raise CheckError(f"model checking {module} ({cfg}) failed rc={r['rc']}:\n" + r["out"][-3000:])
    return r


def tlc_simulate(module, cfg, num, depth, seed, timeout=300, env=None):
    """Behaviours generated by TLC from the specification: returns the JSON documents it printed."""
    r = tlc(module, cfg, workers=1, timeout=timeout, env=env,
            args=["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed)])
    docs = []
    for line in r["out"].splitlines():
        if line.startswith('<<"SCN", "'):
            body = line[len('<<"SCN", '):-2]
            docs.append(json.loads(json.loads(body)))
    if r["rc"] != 0 or not docs:
        raise CheckError(f"simulation of {module} failed rc={r['rc']}:\n" + r["out"][-3000:])
    return docs, r


def validate_part(trace_module, scenarios, idx, env, workers, timeout):
    """one run of TLC over the scenarios idx, repeated without those on which an evaluation failed"""
    viol, done, skip = {}, set(), set()
    gen = dist = 0
    for _ in range(25):
        todo = [k for k in idx if k not in done and k not in viol and k not in skip]
        if not todo:
            break
        tmp = tempfile.mkdtemp(prefix="cmmv-tr-")
        path = os.path.join(tmp, "trace.ndjson")
        try:
            with open(path, "w") as f:
                for k in todo:
                    s = scenarios[k]
                    f.write(json.dumps({"id": s["id"], "ev": [{a: v for a, v in e.items() if a != "cmd"} for e in s["ev"]]}) + "\n")
            if os.environ.get("KEEPTR"): shutil.copy(path, os.environ["KEEPTR"])
            r = tlc(trace_module, env={"TRACE": path, **(env or {})}, workers=workers, timeout=timeout, heap="4g")
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        gen += r["generated"]; dist += r["distinct"]
        for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),\s*"((?:[^"\\]|\\.)*)"\s*>>', r["out"]):
            viol[todo[int(m.group(1)) - 1]] = (int(m.group(2)) - 1, m.group(3))
        for m in re.finditer(r'<<\s*"DONE",\s*(\d+)\s*>>', r["out"]):
            done.add(todo[int(m.group(1)) - 1])
        if r["rc"] == 0 and "Model checking completed. No error" in r["out"]:
            break
        m = re.findall(r"^/\\ sc = (\d+)", r["out"], re.M)
        n = re.findall(r"^/\\ i = (-?\d+)", r["out"], re.M)
        if not m or not n:
            raise CheckError(f"trace validation {trace_module} failed rc={r['rc']}:\n" + r["out"][-4000:])
        k = todo[int(m[-1]) - 1]
        if re.search(r"[Oo]verflow when computing", r["out"]):
            skip.add(k)
            log(f"   {trace_module}: scenario {scenarios[k]['id']} undecided (integer overflow)")
        else:                       # the observation has not even the form of one the specification allows
            log(f"   {trace_module}: scenario {scenarios[k]['id']} event {n[-1]} cannot be evaluated:\n" + r["out"][r["out"].find("Error:"):][:1500])
            viol[k] = (int(n[-1]), "observation outside the domain of the specification")
    else:
        skip |= {k for k in idx if k not in done and k not in viol}
    return [(k, *viol[k]) for k in viol], done, gen, dist, skip


def validate(trace_module, scenarios, env=None, workers=8, timeout=800, undecided=None, chunk=150):
    """TLC decides, for every recorded scenario, whether it is a behaviour of the specification.
    Returns (violations, generated, distinct): a violation is (scenario index, event index, why).
    A scenario whose exact evaluation leaves TLC's 32-bit integers is set aside (reported in the
    evidence as undecided): it is neither accepted nor rejected."""
    from concurrent.futures import ThreadPoolExecutor
    size = max(30, min(chunk, -(-len(scenarios) // 4)))
    parts = [range(k, min(k + size, len(scenarios))) for k in range(0, len(scenarios), size)]
    jobs = min(4, len(parts))
    viol, done, gen, dist, skip = [], set(), 0, 0, set()

    def work(idx):
        return validate_part(trace_module, scenarios, list(idx), env, max(1, workers // jobs), timeout)

    with ThreadPoolExecutor(jobs) as ex:
        for v, d, g, n, sk in ex.map(work, parts):
            viol += v; done |= d; gen += g; dist += n; skip |= sk
    viol = sorted(set(viol))
    rejected = {v[0] for v in viol}
    missing = set(range(len(scenarios))) - done - rejected - skip
    if missing:
        raise CheckError(f"{trace_module}: {len(missing)} scenarios neither accepted nor rejected, e.g. {scenarios[min(missing)]['id']}")
    if undecided is not None:
        undecided += sorted(skip)
    return viol, gen, dist


# ---------- helpers for generators ----------
def q(x):
    """rational as [n,d] for the specification"""
    f = Fraction(x)
    assert abs(f.numerator) < 2**31 and f.denominator < 2**31
    return [f.numerator, f.denominator]


def fl(x):
    """the same rational as an exactly representable double for the driver"""
    f = Fraction(x)
    v = f.numerator / f.denominator
    if Fraction(v) != f: raise NotDyadic(f)
    return repr(v)


def fls(xs):
    return " ".join(fl(x) for x in xs)


def load_known():
    kf = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"KNOWN-FINDING: property=(\w+) scenario=(\S+)\s+(.*)$", line)
            if m:
                kf.append((m.group(1), m.group(2), m.group(3)))
    return kf
