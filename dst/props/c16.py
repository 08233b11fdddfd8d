"""C16: a parallel sweep gives what a serial one gives, whatever the workers do when."""
import os

import numpy as np

from dst import bench, procs, simfs
from dst.core import Violation, generic_shrink

ID = "C16"
LEVEL = "exploration"
RUNS = {"quick": 4800, "thorough": 24000}
CHUNK = 15
REAL = ["TopologicalBenchmark.sweep_mp and single", "matching decoder", "encoders", "pickling of tasks and results", "numpy file format", "file contents (real scratch directory)"]
STUB = ["multiprocessing and concurrent.futures pools: cooperative workers under one scheduler", "qiskit.execute and the Aer backend: simulated noisy machine with failing jobs",
        "file system requests are preemption points"]
ASSUMPTIONS = ["workers are preempted at machine jobs, file system requests and task boundaries", "the decoder's answers are judged by other properties"]
RULE = (
    "A run performs 1-3 parallel sweeps under an explicit worker schedule, with failing jobs, earlier saved results and a reader of the results file; results must equal those "
    "recomputed from the machine's counts, aligned and sorted, and the file must hold every earlier and every completed result exactly once; "
    "non-trivial = at least three worker switches while two or more workers were busy; distinct by schedule trace, rates and counts."
)
MUST_REACH = ["sweep_done", "saved", "unsaved", "job_failed", "retry_after_failure", "earlier_results", "out_of_order", "reader", "more_rates_than_workers", "rate_twice", "disk_failed", "large_sweep"]


DISK = ["ENOSPC", "EIO", "EACCES", "EMFILE"]


def disk_faults(ctx):
    return sum(ctx.faults[k] for k in DISK)


def gen(rng, i, tier):
    pool = [0.001, 0.01, 0.02, 0.04, 0.05, 0.07, 0.1, 0.13, 0.16, 0.2, 0.3, 0.45]
    many = rng.random() < 0.03
    scen = bench.gen_campaign(rng, tier, [round(rng.uniform(0.001, 0.45), 6) for _ in range(rng.randint(12, 40))] if many else rng.sample(pool, rng.randint(1, 8)))
    if rng.random() < 0.5:
        scen["rates"] = [p * (1 + rng.uniform(-1, 1) * 10 ** -rng.randint(1, 9)) for p in scen["rates"]]
    n = len(scen["rates"])
    calls = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        sub = rng.sample(range(n), n - rng.randrange(3) if many else rng.randint(1, n))
        if rng.random() < 0.15:
            sub += rng.choices(sub, k=rng.randint(1, 2))  # a rate asked for more than once
        elif rng.random() < 0.05:
            sub = []
        elif rng.random() < 0.08:
            sub = None  # the default grid
        calls.append([sub, rng.random() < 0.75, rng.choice(["pos", "kw", "min"])])
    scen["calls"] = calls
    scen["earlier"] = [bench.point(rng) for _ in range(rng.choice([0, 0, 1, 3]))]
    if rng.random() < 0.3:
        scen["fail"] = [[rng.randrange(n), 0] for _ in range(rng.randint(1, 2))]
    style = rng.choice(["often", "rare", "burst"])
    plan = []
    for _ in range(rng.randint(10, 1000 if many else 200)):
        if style == "often":
            plan.append(rng.randrange(5))
        elif style == "rare":
            plan.append(rng.randrange(5) if rng.random() < 0.15 else 0)
        else:
            plan.append(rng.choice([0] * 6 + [1, 2, 3, 4]))
    scen["plan"] = plan
    scen["readers"] = sorted(rng.sample(range(120), 8))
    scen["shots"] = rng.choice([1, 7, 20])
    if rng.random() < 0.12:  # the disk fails while results are saved
        scen["disk"] = sorted([rng.randrange(18 * min(n, 6)), rng.choice(DISK)] for _ in range(rng.choice([1, 1, 2])))
    return scen


def close(a, b):
    return abs(float(a) - float(b)) <= 1e-12


def run(scen, ctx):
    rates = scen["rates"]
    with bench.Scratch() as root, bench.quiet():
        c = bench.Campaign(scen, ctx)
        m = c.machine
        have = [tuple(x) for x in scen["earlier"]]
        for p, l in have:
            with ctx.sut("append_data"):
                c.bench.append_data(p, l)
            ctx.probe("earlier_results")
        name = c.bench.filename
        failed_before = set()
        nontrivial = False
        for sub, save, positional in scen["calls"]:
            want_p = None if sub is None else [rates[k] for k in sub]
            m.open = sub is None
            sim = procs.Procs(scen["plan"], ctx)
            fs = simfs.FS(root, scen.get("disk", ()) if save else (), ctx)
            struck = disk_faults(ctx)

            def machine_event(e):
                if e[0] == "job" and sim.current is not None:
                    sim.current.job = m.rates[e[1]]
                sim.point(*e)

            m.on_event = machine_event
            busy = []
            readers = set(scen["readers"])

            def file_event(kind, path):
                if fs.n in readers:
                    seen = content(name)
                    ctx.probe("reader")
                    if seen is not None:
                        for x in have:
                            if x not in seen:
                                raise Violation("lost result", f"a reader during the sweep finds {seen}, saved before were {have}")
                fs.muted -= 1
                try:
                    sim.point("file", kind)
                finally:
                    fs.muted += 1

            fs.on_event = file_event
            job0 = len(m.jobs)
            err = None
            kw = {"shots": scen["shots"]}
            if not (save and positional == "min"):
                kw["save_data"] = save
            b = c.bench

            def parent():
                if sub is None:
                    b.sweep_mp(**kw)
                elif positional == "pos":
                    b.sweep_mp(list(want_p), save, scen["shots"])
                else:
                    b.sweep_mp(physical_error_rates=list(want_p), **kw)

            with bench.active(m), fs:
                try:
                    with ctx.sut("sweep_mp", allow=(bench.MachineDown, Exception) if scen.get("disk") else bench.MachineDown):
                        sim.run(parent)
                except bench.MachineDown as e:
                    err = e
                except Exception as e:
                    if isinstance(e, Violation) or disk_faults(ctx) == struck:
                        raise  # nothing had gone wrong
                    err = e
                    ctx.probe("disk_failed")
            hurt = disk_faults(ctx) > struck
            m.on_event = None
            jobs = m.jobs[job0:]
            if sub is None:
                want_p = [p for p, _, _ in jobs]
                ctx.probe("default_grid")
            good = [(p, x) for p, _, x in jobs if x is not None]
            bad = [p for p, _, x in jobs if x is None]
            if bad and err is None:
                raise Violation("lost job went unnoticed", f"jobs for {bad} failed and no error was reported")
            exp = sorted((p, float(c.expected(p, x, True))) for p, x in good)
            ctx.probe("rate_twice", int(len(set(want_p)) < len(want_p)))
            ctx.probe("large_sweep", int(len(want_p) > 16))
            if len(want_p) > 4:
                ctx.probe("more_rates_than_workers")
            if err is None:
                ctx.probe("sweep_done")
                if [s for _, s, _ in jobs] != [scen["shots"]] * len(jobs):
                    raise Violation("wrong number of shots", f"{[s for _, s, _ in jobs]}")
                if sorted(p for p, _ in good) != sorted(want_p):
                    raise Violation("wrong jobs", f"asked for {sorted(want_p)}, ran {sorted(p for p, _ in good)}")
                P = [float(x) for x in b.data["physical_error_rates"]]
                L = [float(x) for x in b.data["logical_error_rates"]]
                if P != sorted(want_p) or len(P) != len(L):
                    raise Violation("reported rates", f"asked for {sorted(want_p)}, data holds {P} and {len(L)} results")
                for (p, l), (_, x) in zip(sorted(zip(P, L)), exp):
                    if not close(l, x):
                        raise Violation("misreported rate", f"noise {p}: reported {l}, the machine's counts give {x}")
                if failed_before & set(want_p):
                    ctx.probe("retry_after_failure")
                ctx.probe("out_of_order", int([p for p, _ in good] != sorted(want_p)))
            failed_before |= set(bad)
            ctx.probe("saved" if save else "unsaved")
            known = list(have)
            now = content(name) or []
            new = list(exp) if save else []
            if err is None:
                must = have + new
                if len(now) != len(must) or not all(a[0] == x[0] and close(a[1], x[1]) for a, x in zip(sorted(now), sorted(must))):
                    raise Violation("saved results", f"the file holds {now}, expected {sorted(must)}")
                have = must if save else have
            else:
                left = list(now)
                for x in have:
                    if x not in left:
                        raise Violation("lost result", f"{x} was saved before the failed sweep; the file holds {now}")
                    left.remove(x)
                for x in left:
                    hit = [y for y in new if y[0] == x[0] and close(y[1], x[1])]
                    if not hit:
                        raise Violation("saved results", f"{x} is in the file after a failed sweep; completed were {new}")
                    new.remove(hit[0])
                if save and bad and not hurt:  # what was done before the failure came up is not thrown away
                    done = []
                    for p, ok in sim.finished:
                        if not ok:
                            break
                        done.append(p)
                    done = [p for p in done if p is not None and p < min(bad)]
                    kept = [x[0] for x in now]
                    for x in known:
                        kept.remove(x[0])
                    for p in done:
                        if p not in kept:
                            raise Violation("completed point not saved", f"noise {p} was completed before the job for {min(bad)} failed; the file holds {now}")
                        kept.remove(p)
                        ctx.probe("completed_before_failure")
                have = now
            have = [tuple(x) for x in (content(name) or [])]
            ctx.fire("worker_switch", sim.switches)
            ctx.add("scheduling_points", sim.points)
            ctx.log(sim.trace, jobs, have)
            ctx.sig(sim.trace)
            if sim.switches >= 3 and len(want_p) >= 2 and len(set(sim.trace)) > 2:
                nontrivial = True
        ctx.nontrivial = nontrivial
        ctx.sig(scen["spec"], rates, [j[2] and sorted(j[2].items()) for j in m.jobs])


def content(name):
    if not os.path.exists(name):
        return None
    try:
        with np.load(name) as f:
            P = [float(x) for x in f["physical_error_rates"]]
            L = [float(x) for x in f["logical_error_rates"]]
    except Exception as e:
        raise Violation("unreadable results", f"{type(e).__name__}: {str(e)[:200]}")
    if P != sorted(P) or len(P) != len(L):
        raise Violation("damaged results", f"{P} {L}")
    return list(zip(P, L))


def shrink(scen):
    yield from generic_shrink(scen, ["calls", "plan", "fail", "earlier", "readers"])
    if scen.get("disk"):
        yield {k: v for k, v in scen.items() if k != "disk"}
        yield from generic_shrink(scen, ["disk"])
    for k, call in enumerate(scen["calls"]):
        if call[0] and len(call[0]) > 1:
            for j in range(len(call[0])):
                cs = [list(x) for x in scen["calls"]]
                cs[k][0] = call[0][:j] + call[0][j + 1:]
                yield {**scen, "calls": cs}
