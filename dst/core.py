"""
The simulation kernel: seeds -> scenarios -> runs, violations, minimisation, replay, evidence.

One run is a pure function of (scenario, code under test).  A scenario is plain JSON and holds
everything: the workload, the fault plan, the schedule and the seed of the simulated device.  The
scenario itself is a pure function of (VERIF_SEED, property, run number).
"""
import hashlib
import json
import os
import random
import select
import signal
import subprocess
import sys
import time
import traceback
from collections import Counter

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(HERE, "evidence")
REPLAYS = os.path.join(EVIDENCE, "replays")
RUN_TIMEOUT = 240  # seconds of wall time: the harness gives up
CPU_LIMIT = 60  # seconds of processor time in one run (a normal one takes well under one): no progress
UNUSABLE = (TypeError, ValueError, KeyError, IndexError, AttributeError, AssertionError, ArithmeticError, UnicodeError)


class Violation(Exception):
    """The property is broken in this run. `kind` is the class used while minimising."""

    def __init__(self, kind, message=""):
        super().__init__(f"{kind}: {message}")
        self.kind = kind
        self.message = message


class RunTimeout(BaseException):
    pass


class NoProgress(BaseException):
    pass


class SimulatedStop(BaseException):
    """Base of the simulator's own control flow (crash, cancellation): never a verdict."""


class _Sut:
    """with ctx.sut("label"): ...   anything raised inside was raised by the code under test."""

    def __init__(self, ctx, label, allow):
        self.ctx, self.label, self.allow = ctx, label, allow

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None or issubclass(et, (Violation, RunTimeout, NoProgress, SimulatedStop)):
            return False
        if self.allow and issubclass(et, self.allow):
            return False
        if issubclass(et, (KeyboardInterrupt, SystemExit)):
            return False
        where = ""
        for f in traceback.extract_tb(tb):
            if "qtcodes" in f.filename:
                where = f"{os.path.basename(f.filename)}:{f.name}"
        raise Violation(
            f"raised:{self.label}", f"{et.__name__}: {str(ev)[:300]} in {where}"
        ) from ev


class Ctx:
    """Collects what one run (or, merged, many runs) did."""

    def __init__(self):
        self.faults = Counter()  # fault kind -> times it actually fired
        self.probes = Counter()  # rare condition -> times reached
        self.stats = Counter()  # amounts of simulated work
        self._h = hashlib.blake2b(digest_size=8)  # event history
        self._s = hashlib.blake2b(digest_size=8)  # coverage signature
        self.nontrivial = False

    def sut(self, label, allow=None):
        return _Sut(self, label, allow)

    def fire(self, kind, n=1):
        if n:
            self.faults[kind] += n

    def probe(self, name, n=1):
        if n:
            self.probes[name] += n

    def add(self, name, n=1):
        self.stats[name] += n

    def log(self, *a):
        self._h.update(repr(a).encode())

    def sig(self, *a):
        self._s.update(repr(a).encode())

    def digest(self):
        return self._h.hexdigest()

    def signature(self):
        return self._s.hexdigest()


def _alarm(*_):
    raise RunTimeout()


def _no_progress(*_):
    raise NoProgress()


def run_one(mod, scen):
    """Execute one scenario here. Returns (ctx, violation or None)."""
    from dst import matching

    ctx = Ctx()
    matching.ORDER = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _no_progress)
    signal.alarm(RUN_TIMEOUT)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        mod.run(scen, ctx)
        return ctx, None
    except Violation as v:
        return ctx, v
    except NoProgress:
        return ctx, Violation("no progress", f"the run did not end within {CPU_LIMIT} s of processor time")
    except UNUSABLE as e:
        # the judge choked on what the code under test returned (it never does on the results documented)
        at = traceback.extract_tb(e.__traceback__)[-1]
        return ctx, Violation("unusable result", f"{type(e).__name__}: {str(e)[:300]} (judging, {os.path.basename(at.filename)}:{at.name})")
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)


def scenario(mod, seed, i, tier):
    directed = mod.directed() if hasattr(mod, "directed") else []
    if i < len(directed):
        return directed[i]
    rng = random.Random(f"{seed}:{mod.ID}:{i}")
    return json.loads(json.dumps(mod.gen(rng, i, tier)))


# ------------------------------------------------------------------ forked execution


def forked(fn, *args):
    """Start fn(*args) in a forked child; returns (pid, fd). The child's JSON result is on fd."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid:
        os.close(w)
        return pid, r
    code = 3
    try:
        os.close(r)
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        if not os.environ.get("DST_DEBUG"):
            os.dup2(devnull, 2)
        try:
            res = {"ok": fn(*args)}
        except RunTimeout:
            res = {"timeout": True}
        except BaseException:
            res = {"error": traceback.format_exc()}
        data = json.dumps(res).encode()
        while data:
            n = os.write(w, data)
            data = data[n:]
        code = 0
    finally:
        os._exit(code)


class Pool:
    """Runs forked jobs, at most `width` at a time; results in completion order."""

    def __init__(self, width):
        self.width = width
        self.live = {}

    def start(self, key, fn, *args):
        pid, fd = forked(fn, *args)
        self.live[fd] = (key, pid, [])

    def wait(self, timeout):
        """Yields finished (key, result) pairs, blocking until at least one or the timeout."""
        done = []
        end = time.monotonic() + timeout
        while self.live and not done:
            left = end - time.monotonic()
            if left <= 0:
                break
            ready, _, _ = select.select(list(self.live), [], [], left)
            for fd in ready:
                key, pid, buf = self.live[fd]
                chunk = os.read(fd, 1 << 16)
                if chunk:
                    buf.append(chunk)
                    continue
                os.close(fd)
                del self.live[fd]
                _, status = os.waitpid(pid, 0)
                data = b"".join(buf)
                try:
                    res = json.loads(data)
                except ValueError:
                    res = {"error": f"worker died, status {status}"}
                done.append((key, res))
        return done

    def kill(self):
        for fd, (_, pid, _) in list(self.live.items()):
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
            os.close(fd)
            try:
                os.waitpid(pid, 0)
            except OSError:
                pass
        self.live.clear()


def one_job(fn, *args, timeout=RUN_TIMEOUT + 60):
    p = Pool(1)
    p.start(0, fn, *args)
    out = p.wait(timeout)
    if not out:
        p.kill()
        return {"timeout": True}
    return out[0][1]


def _chunk(mod, seed, lo, hi, tier):
    """Run scenarios lo..hi-1 one after another in this process."""
    faults, probes, stats = Counter(), Counter(), Counter()
    sigs, digests, samples = [], [], []
    vio = None
    n = 0
    slow = 0.0
    t0 = time.perf_counter()
    for i in range(lo, hi):
        scen = scenario(mod, seed, i, tier)
        t1 = time.process_time()
        ctx, v = run_one(mod, scen)
        slow = max(slow, time.process_time() - t1)
        n += 1
        faults.update(ctx.faults)
        probes.update(ctx.probes)
        stats.update(ctx.stats)
        digests.append(ctx.digest() + ("!" if v else ""))
        if ctx.nontrivial:
            sigs.append(ctx.signature())
        if i - lo < 1 and len(json.dumps(scen)) < 6000:
            samples.append({"run": i, "scenario": scen, "events": dict(ctx.faults)})
        if v:
            vio = {"i": i, "kind": v.kind, "message": v.message}
            break
    return {
        "n": n, "faults": faults, "probes": probes, "stats": stats, "sigs": sigs,
        "digests": digests, "violation": vio, "samples": samples,
        "cpu": time.perf_counter() - t0, "slow": slow,
    }


def _sequence(mod, prelude, scen):
    """Run prelude scenarios, then scen; the verdict of scen."""
    for p in prelude:
        try:
            run_one(mod, p)
        except Exception:
            pass
    ctx, v = run_one(mod, scen)
    return {"kind": v.kind if v else None, "message": v.message if v else "",
            "digest": ctx.digest(), "faults": ctx.faults}


def verdict(mod, prelude, scen, timeout=RUN_TIMEOUT + 60):
    return one_job(_sequence, mod, prelude, scen, timeout=timeout)


# ------------------------------------------------------------------ minimisation


def list_cuts(xs):
    """Smaller versions of a list: halves, quarters, ..., single removals."""
    n = len(xs)
    size = n
    while size >= 1:
        for lo in range(0, n, size):
            if n - size >= 0:
                yield xs[:lo] + xs[lo + size:]
        size //= 2


def generic_shrink(scen, keys):
    for k in keys:
        xs = scen.get(k)
        if isinstance(xs, list) and xs:
            for ys in list_cuts(xs):
                yield {**scen, k: ys}


def minimise(mod, prelude, scen, kind, budget=60.0):
    """Greedy: keep any smaller scenario that fails in the same way."""
    end = time.monotonic() + budget

    def fails(pre, s):
        r = verdict(mod, pre, s, timeout=max(5, min(120, end - time.monotonic() + 20)))
        return "ok" in r and r["ok"]["kind"] == kind

    # first the prelude
    progress = True
    while prelude and progress and time.monotonic() < end:
        progress = False
        for cand in list_cuts(prelude):
            if time.monotonic() > end:
                break
            if fails(cand, scen):
                prelude, progress = cand, True
                break
    progress = True
    steps = 0
    while progress and time.monotonic() < end:
        progress = False
        for cand in mod.shrink(scen):
            if time.monotonic() > end:
                break
            if cand == scen:
                continue
            if fails(prelude, cand):
                scen, progress = cand, True
                steps += 1
                break
    return prelude, scen, steps


# ------------------------------------------------------------------ known findings


def known_findings(pid):
    path = os.path.join(HERE, "known-findings.json")
    with open(path) as f:
        data = json.load(f)
    return [k for k in data["findings"] if k["property"] == pid]


# ------------------------------------------------------------------ check


def code_identity():
    """What exactly was executed (for the evidence only)."""
    import qtcodes

    root = os.path.dirname(os.path.abspath(qtcodes.__file__))
    h = hashlib.sha256()
    for d, dirs, files in sorted(os.walk(root)):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".py"):
                with open(os.path.join(d, f), "rb") as fh:
                    h.update(f.encode() + fh.read())
    return root, h.hexdigest()[:16]


def check(mod, seed, tier):
    t0 = time.monotonic()
    pid = mod.ID
    total = mod.RUNS[tier]
    chunk = getattr(mod, "CHUNK", 25)
    wall_cap = 420 if tier == "quick" else 3 * 3600
    soft_cap = 240 if tier == "quick" else 2 * 3600
    width = min(8, os.cpu_count() or 1)
    root, ident = code_identity()
    print(f"{pid}: VERIF_SEED={seed} tier={tier} runs={total} workers={width} code={root} sha={ident}",
          flush=True)
    os.makedirs(REPLAYS, exist_ok=True)

    # known findings first: each is re-demonstrated, none is assumed
    findings = []
    for k in known_findings(pid):
        r = verdict(mod, [], k["scenario"])
        if "ok" not in r:
            print(f"{pid}: harness failure while replaying a known finding: {r}")
            return 2
        if r["ok"]["kind"] == k["kind"]:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
            findings.append({"what": k["what"], "still_present": True})
        elif r["ok"]["kind"] is None:
            findings.append({"what": k["what"], "still_present": False})
        else:
            return report(mod, seed, tier, [], k["scenario"], r["ok"]["kind"], r["ok"]["message"], None, {}, t0)

    faults, probes, stats = Counter(), Counter(), Counter()
    sigs, samples, digests = set(), [], {}
    done_runs = 0
    violations = []
    errors = []
    cpu = slowest = 0.0
    pool = Pool(width)
    todo = [(lo, min(lo + chunk, total)) for lo in range(0, total, chunk)]
    nxt = 0
    stopped = False
    try:
        while nxt < len(todo) or pool.live:
            now = time.monotonic() - t0
            if now > soft_cap or violations or errors:
                stopped = nxt < len(todo)
                nxt_allowed = False
            else:
                nxt_allowed = True
            while nxt_allowed and nxt < len(todo) and len(pool.live) < width:
                lo, hi = todo[nxt]
                nxt += 1
                pool.start(lo, _chunk, mod, seed, lo, hi, tier)
            if not pool.live:
                break
            if now > wall_cap:
                errors.append("wall clock cap reached with runs in flight")
                break
            for lo, res in pool.wait(5.0):
                if "ok" not in res:
                    errors.append(f"chunk {lo}: " + (res.get("error") or "a run exceeded the time limit"))
                    continue
                r = res["ok"]
                done_runs += r["n"]
                cpu += r["cpu"]
                slowest = max(slowest, r["slow"])
                faults.update(r["faults"])
                probes.update(r["probes"])
                stats.update(r["stats"])
                sigs.update(r["sigs"])
                digests[lo] = r["digests"]
                samples += r["samples"]
                if r["violation"]:
                    violations.append((r["violation"]["i"], lo, r["violation"]))
    finally:
        pool.kill()
    explore_s = time.monotonic() - t0

    cov = {
        "evaluations": done_runs,
        "distinct_nontrivial": len(sigs),
        "rule": mod.RULE,
        "samples": sorted(samples, key=lambda s: s["run"])[:3],
        "seed_base": seed,
        "runs_planned": total,
        "stopped_early": stopped,
        "runs_per_hour": int(done_runs / max(explore_s, 1e-3) * 3600),
        "cpu_seconds_simulating": round(cpu, 1),
        "slowest_run_cpu_seconds": round(slowest, 2),
        "simulated": dict(sorted(stats.items())),
        "faults_fired": dict(sorted(faults.items())),
        "probes_reached": dict(sorted(probes.items())),
        "real_components": mod.REAL,
        "stub_components": mod.STUB,
        "code_sha": ident,
        "known_findings": findings,
    }

    if violations:
        violations.sort(key=lambda v: v[0])
        for i, lo, v in violations[:4]:
            scen = scenario(mod, seed, i, tier)
            prelude = []
            r = verdict(mod, [], scen)
            if not ("ok" in r and r["ok"]["kind"] == v["kind"]):
                prelude = [scenario(mod, seed, j, tier) for j in range(lo, i)]
                r = verdict(mod, prelude, scen)
            if "ok" in r and r["ok"]["kind"] == v["kind"]:
                if report(mod, seed, tier, prelude, scen, v["kind"], v["message"], i, cov, t0) == 1:
                    return 1
        print(f"{pid}: a violation was seen but does not replay: {violations[0]}")
        return 2
    if errors:
        print(f"{pid}: HARNESS ERROR (no verdict)\n" + "\n".join(errors[:3]))
        return 2
    if done_runs < min(total, max(10, total // 20)):
        print(f"{pid}: only {done_runs} of {total} runs finished in the time allowed (no verdict)")
        return 2

    # determinism: some chunks again, in a fresh interpreter, other worker count and hash seed
    cov["determinism"] = determinism(mod, seed, tier, digests, chunk, total, cov)
    if cov["determinism"].get("same_hashseed_mismatches"):
        print(f"{pid}: HARNESS ERROR: executions are not repeatable: {cov['determinism']}")
        return 2

    # "no:x": the code under test offers no such thing to reach
    missing = [p for p in getattr(mod, "MUST_REACH", []) if not (probes.get(p) or faults.get(p) or probes.get("no:" + p))]
    if missing and not stopped:
        print(f"{pid}: HARNESS ERROR: workload never reached {missing} (no verdict)")
        return 2
    write_evidence(mod, seed, tier, cov, t0, 0)
    print(f"{pid}: held on {done_runs} runs ({len(sigs)} distinct), {sum(faults.values())} faults fired, "
          f"{time.monotonic() - t0:.1f}s")
    return 0


def determinism(mod, seed, tier, digests, chunk, total, cov):
    los = sorted(digests)
    if not los:
        return {}
    rng = random.Random(seed)
    want = sorted(set([los[0]] + rng.sample(los, min(len(los), 2 if tier == "quick" else 12))))
    out = {"runs_repeated": 0, "same_hashseed_mismatches": 0, "other_hashseed_mismatches": 0}
    procs = []
    for hs in ("same", "other"):
        env = dict(os.environ)
        if hs == "other":
            env["PYTHONHASHSEED"] = "4242"
        procs.append((hs, subprocess.Popen(
            [sys.executable, "-m", "dst.main", "digest", mod.ID, str(seed), tier, str(chunk)]
            + [f"{lo}:{lo + len(digests[lo])}" for lo in want],
            env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=HERE)))
    for hs, p in procs:
        try:
            so, se = p.communicate(timeout=400)
        except subprocess.TimeoutExpired:
            p.kill()
            out[hs] = "timed out"
            continue
        try:
            got = json.loads(so.decode().strip().splitlines()[-1])
        except Exception:
            out[hs] = "failed: " + se.decode()[-300:]
            continue
        for lo in want:
            a, b = digests[lo], got[str(lo)]
            out["runs_repeated"] += len(a)
            bad = sum(x != y for x, y in zip(a, b)) + abs(len(a) - len(b))
            out[f"{hs}_hashseed_mismatches"] += bad
    return out


def report(mod, seed, tier, prelude, scen, kind, message, i, cov, t0):
    pid = mod.ID
    full = (prelude, scen)
    budget = 60 if tier == "quick" else 300
    prelude, scen, steps = minimise(mod, prelude, scen, kind, budget)
    path = os.path.join(REPLAYS, f"{pid}-seed{seed}-run{i}.json")
    for attempt, (pre, sc) in enumerate([(prelude, scen), full]):
        r = verdict(mod, pre, sc)
        doc = {
            "property": pid, "seed": seed, "run": i, "tier": tier, "kind": kind,
            "message": (r.get("ok") or {}).get("message", message),
            "digest": (r.get("ok") or {}).get("digest"),
            "hashseed": os.environ.get("PYTHONHASHSEED", ""),
            "minimised_steps": steps if attempt == 0 else 0,
            "prelude": pre, "scenario": sc,
        }
        with open(path, "w") as f:
            json.dump(doc, f, indent=1)
        p = subprocess.run([sys.executable, "-m", "dst.main", "replay", path],
                           cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        if p.returncode == 1:
            break
    else:
        print(f"{pid}: violation {kind} ({message}) does not replay in a fresh process\n" + p.stdout.decode()[-2000:])
        return 2
    cov = dict(cov or {})
    cov.setdefault("evaluations", 1)
    cov.setdefault("distinct_nontrivial", 1)
    cov.setdefault("rule", mod.RULE)
    cov.setdefault("samples", [sc])
    cov["violation"] = {"kind": kind, "message": doc["message"], "replay": path}
    write_evidence(mod, seed, tier, cov, t0, 1)
    print(f"{pid}: {kind}: {str(doc['message'])[:1500]}")
    print(f"{pid}: minimised in {steps} steps; scenario: {json.dumps(sc)[:1500]}")
    print(f"VIOLATION property={pid} replay={path}", flush=True)
    return 1


def write_evidence(mod, seed, tier, cov, t0, nviol):
    doc = {
        "property": mod.ID, "tier": tier, "seed": seed, "level": mod.LEVEL,
        "coverage": cov, "assumptions": mod.ASSUMPTIONS,
        "wall_s": round(time.monotonic() - t0, 2), "violations": nviol,
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    tmp = os.path.join(EVIDENCE, f".{mod.ID}.tmp")
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1, sort_keys=True, default=str)
    os.replace(tmp, os.path.join(EVIDENCE, f"{mod.ID}.json"))
