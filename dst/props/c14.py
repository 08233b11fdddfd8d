"""C14: a benchmark reports exactly what the machine returned and the decoder made of it."""
import numpy as np

from dst import bench, simfs
from dst.core import Violation, generic_shrink

ID = "C14"
LEVEL = "exploration"
RUNS = {"quick": 3200, "thorough": 20000}
CHUNK = 15
REAL = ["TopologicalBenchmark (sweep, single, logical_error_rate, append_data)", "matching decoder", "encoders", "numpy file format", "file system (scratch directory)"]
STUB = ["qiskit.execute and the Aer backend: simulated machine with Pauli noise, lost shots and failing jobs", "file system requests pass a fault injecting layer", "progress output"]
ASSUMPTIONS = ["the decoder's answers are judged by other properties; here a fresh decoder's answers are the reference"]
RULE = (
    "A run builds a memory circuit and performs 1-4 benchmark calls (sweep with and without degeneracy weighting and saving, single, logical_error_rate) against a simulated "
    "machine that loses shots and fails jobs; every reported and saved rate is recomputed from the counts the machine returned; "
    "non-trivial = at least one wrongly decoded shot in a call with two or more rates; distinct by circuit, calls, rates and counts."
)
MUST_REACH = ["sweep", "single", "direct", "weighted", "unweighted", "saved", "unsaved", "job_failed", "shots_lost", "value_one", "errors_seen",
              "resumed_after_failure", "mixed_outcome", "empty_sweep", "noiseless_rate", "default_grid", "defaults_left_out", "billions_of_shots", "large_sweep", "rare_readouts", "disk_failed"]


DISK = ["ENOSPC", "EIO", "EACCES", "EMFILE"]


def gen(rng, i, tier):
    many = rng.random() < 0.02
    scen = bench.gen_campaign(rng, tier, [round(rng.uniform(0.001, 0.45), rng.choice([2, 6, 17])) for _ in range(rng.randint(12, 40))] if many else None)
    scen["rates"] = sorted(set(scen["rates"]))
    rng.shuffle(scen["rates"])
    if rng.random() < 0.15:
        scen["rates"][rng.randrange(len(scen["rates"]))] = 0.0
    n = len(scen["rates"])
    calls = []
    for _ in range(rng.randint(1, 4)):
        k = rng.random()
        sub = rng.sample(range(n), rng.randint(1, n))
        if rng.random() < 0.05 and k < 0.6:
            sub = []  # an empty grid
        elif rng.random() < 0.06 and k < 0.6:
            sub = None  # the default grid
        if sub and rng.random() < 0.15:
            sub.append(rng.choice(sub))
        shots = rng.choice([scen["shots"], scen["shots"], None]) if rng.random() < 0.05 else scen["shots"]
        if k < 0.6:
            calls.append(["sweep", sub, rng.random() < 0.6, rng.random() < 0.5, shots, rng.choice(["kw", "kw", "min", "min", "pos"])])
        elif k < 0.8:
            calls.append(["single", (sub or [0])[:1], rng.random() < 0.6, True, shots])
        else:
            calls.append(["direct", (sub or [0])[:1], False, rng.random() < 0.5, shots, rng.getrandbits(30) if rng.random() < 0.5 else 0])
    scen["calls"] = calls
    if rng.random() < 0.35:
        scen["fail"] = [[rng.randrange(n), rng.randint(0, 1)] for _ in range(rng.randint(1, 2))]
    if rng.random() < 0.35:
        scen["lose"] = {str(rng.randrange(n)): rng.randint(1, scen["shots"])}
    scen["array"] = rng.random() < 0.3
    if rng.random() < 0.12:  # the disk fails while a result is saved
        scen["disk"] = sorted([rng.randrange(18 * min(n, 6)), rng.choice(DISK)] for _ in range(rng.choice([1, 1, 2])))
    return scen


def close(a, b):
    return abs(float(a) - float(b)) <= 1e-12


def run(scen, ctx):
    rates = scen["rates"]
    ctx.probe("large_sweep", int(any(c[0] == "sweep" and len(c[1] or ()) > 16 for c in scen["calls"])))
    with bench.Scratch() as root, bench.quiet():
        c = bench.Campaign(scen, ctx)
        m = c.machine
        saved = []  # what the results file must hold, in completion order
        failed = False
        fs = simfs.FS(root, scen.get("disk", ()), ctx)
        with bench.active(m):
            for call in scen["calls"]:
                what, sub, save, weighted, shots = call[:5]
                want_p = None if sub is None else [rates[k] for k in sub]
                m.open = sub is None
                job0 = len(m.jobs)
                kw = {} if shots is None else {"shots": shots}
                b = c.bench
                err = None
                ret = None
                if what == "direct":
                    counts = dict(m.counts(c.circ, want_p[0], shots or 64, (scen["seed"], "direct", sub[0])))
                    if len(call) > 5 and call[5]:  # results gathered over very many shots
                        import random

                        rng = random.Random(call[5])
                        k = rng.choice([10**5, 10**7, 10**10])
                        counts = {s: n * k + rng.randrange(k) for s, n in counts.items()}
                        if rng.random() < 0.5:  # some of them seen only a few times
                            for x in rng.sample(sorted(counts), rng.randint(1, len(counts))):
                                counts[x] = rng.randint(1, 9)
                            ctx.probe("rare_readouts")
                        ctx.probe("billions_of_shots", int(k > 10**7))
                    before = dict(counts)
                    with ctx.sut("logical_error_rate"):
                        ret = b.logical_error_rate(counts, err_prob=want_p[0]) if weighted else b.logical_error_rate(counts)
                    if counts != before:
                        raise Violation("counts modified", "logical_error_rate changed the counts it was given")
                    ctx.probe("direct")
                    compare(ctx, c, want_p[0], counts, weighted, ret, "logical_error_rate")
                    continue
                struck = disk_faults(ctx)
                try:
                    with ctx.sut(what, allow=(bench.MachineDown, Exception) if scen.get("disk") else bench.MachineDown), fs:
                        if what == "sweep":
                            arg = None if sub is None else np.array(want_p) if scen["array"] else list(want_p)
                            if sub is None or call[5] == "min":  # leave out whatever has its default value
                                if not save:
                                    kw["save_data"] = False
                                if not weighted:
                                    kw["deg_weight"] = False
                                b.sweep(**kw) if sub is None else b.sweep(arg, **kw)
                                ctx.probe("defaults_left_out")
                            elif call[5] == "kw":
                                b.sweep(physical_error_rates=arg, save_data=save, deg_weight=weighted, **kw)
                            else:
                                b.sweep(arg, save, *([shots] if shots is not None else []), deg_weight=weighted)
                            if arg is not None and list(arg) != want_p:
                                raise Violation("request modified", f"rates {want_p} became {list(arg)}")
                        else:
                            if save and weighted and len(sub) % 2:
                                ret = b.single(want_p[0], **kw)
                            else:
                                ret = b.single(want_p[0], save_data=save, **kw)
                except bench.MachineDown as e:
                    err = e
                except Exception as e:
                    if isinstance(e, Violation) or disk_faults(ctx) == struck:
                        raise  # nothing had gone wrong
                    err = e
                    ctx.probe("disk_failed")
                ctx.probe(what)
                if sub is None:
                    want_p = [p for p, _, _ in m.jobs[job0:]]
                    ctx.probe("default_grid")
                ctx.probe("empty_sweep", int(not sub))
                ctx.probe("noiseless_rate", int(0.0 in want_p))
                ctx.probe("weighted" if weighted else "unweighted")
                ctx.probe("saved" if save else "unsaved")
                jobs = m.jobs[job0:]
                if any(s != (2048 if shots is None else shots) for _, s, _ in jobs):
                    raise Violation("wrong number of shots", f"asked for {shots}, machine got {[s for _, s, _ in jobs]}")
                good = [(p, counts) for p, _, counts in jobs if counts is not None]
                bad = [p for p, _, counts in jobs if counts is None]
                if bad and err is None:
                    raise Violation("lost job went unnoticed", f"{what}: jobs for {bad} failed and no error was reported")
                if err is None and sorted(p for p, _ in good) != sorted(want_p):
                    raise Violation("wrong jobs", f"asked for {sorted(want_p)}, ran {sorted(p for p, _ in good)}")
                reported = {}
                for p, counts in good:
                    reported.setdefault(p, []).append(c.expected(p, counts, weighted))
                if what == "single" and err is None:
                    compare(ctx, c, want_p[0], good[0][1], True, ret, "single")
                if what == "sweep" and err is None:
                    P = [float(x) for x in b.data["physical_error_rates"]]
                    L = [float(x) for x in b.data["logical_error_rates"]]
                    if P != sorted(want_p) or len(L) != len(P):
                        raise Violation("reported rates", f"asked for {sorted(want_p)}, data holds {P} and {len(L)} results")
                    pool = {p: sorted(float(x) for x in v) for p, v in reported.items()}
                    for p in pool:
                        got = sorted(x for q, x in zip(P, L) if q == p)
                        if len(got) != len(pool[p]) or not all(close(x, y) for x, y in zip(got, pool[p])):
                            raise Violation("misreported rate", f"noise {p}: reported {got}, the machine's counts give {pool[p]}")
                if save and err is not None and disk_faults(ctx) > struck and good:
                    # all points but the last one are saved; that one may be, or not
                    points = [(p, float(c.expected(p, counts, weighted))) for p, counts in good]
                    now = len(stored(c))
                    saved += points if now == len(saved) + len(points) else points[:-1]
                    failed = True
                elif save:
                    saved += [(p, float(c.expected(p, counts, weighted))) for p, counts in good]
                    if failed:
                        ctx.probe("resumed_after_failure")
                failed = failed or err is not None
                check_file(c, saved, ctx)
                ctx.log(what, jobs)
                errs = sum(x > 0 for v in reported.values() for x in v)
                ctx.probe("errors_seen", errs)
                ctx.probe("mixed_outcome", sum(0 < x < 1 for v in reported.values() for x in v))
                ctx.probe("value_one", scen["correct"])
                if errs and len(good) > 1:
                    ctx.nontrivial = True
        ctx.sig(scen["spec"], scen["ops"], scen["calls"], [j[2] and sorted(j[2].items()) for j in m.jobs])


def compare(ctx, c, p, counts, weighted, got, label):
    want = c.expected(p, counts, weighted)
    if not close(got, want):
        raise Violation("misreported rate", f"{label} at noise {p}: {got}, the machine's counts give {float(want)}")


def disk_faults(ctx):
    return sum(ctx.faults[k] for k in DISK)


def stored(c):
    import os

    if not os.path.exists(c.bench.filename):
        return []
    with np.load(c.bench.filename) as f:
        return list(f["physical_error_rates"])


def check_file(c, saved, ctx):
    import os

    name = c.bench.filename
    if not saved:
        if os.path.exists(name):
            with np.load(name) as f:
                if len(f["physical_error_rates"]):
                    raise Violation("saved results", "results were saved that nobody asked to save")
        return
    with ctx.sut("read results file"):
        with np.load(name) as f:
            P = [float(x) for x in f["physical_error_rates"]]
            L = [float(x) for x in f["logical_error_rates"]]
    if P != sorted(P):
        raise Violation("saved results", f"not in ascending order: {P}")
    got = sorted(zip(P, L))
    want = sorted(saved)
    if len(got) != len(want) or not all(a[0] == b[0] and close(a[1], b[1]) for a, b in zip(got, want)):
        raise Violation("saved results", f"the file holds {got}, completed were {want}")


def shrink(scen):
    yield from generic_shrink(scen, ["calls", "fail"])
    if scen.get("disk"):
        yield {k: v for k, v in scen.items() if k != "disk"}
        yield from generic_shrink(scen, ["disk"])
    if scen["lose"]:
        yield {**scen, "lose": {}}
    for k, call in enumerate(scen["calls"]):
        if call[1] and len(call[1]) > 1:
            for j in range(len(call[1])):
                cs = [list(x) for x in scen["calls"]]
                cs[k][1] = call[1][:j] + call[1][j + 1:]
                yield {**scen, "calls": cs}
