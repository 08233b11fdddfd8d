"""C15: a benchmark result that was saved stays saved."""
import os
import random
from collections import Counter

import numpy as np

from dst import bench, simfs, sut
from dst.core import Violation, generic_shrink

ID = "C15"
LEVEL = "fault_enumeration"
RUNS = {"quick": 12000, "thorough": 60000}
CHUNK = 40
REAL = ["TopologicalBenchmark (append_data, single, sweep)", "TopologicalBatchAnalysis on what is left behind", "numpy file format and zip writer", "file contents and atomic rename (real directory)"]
STUB = ["every file system request below the scratch directory passes a fault injecting layer", "process death (all requests of the dead process are void)",
        "qiskit.execute: canned counts"]
ASSUMPTIONS = ["a process crash keeps what was handed to the kernel (no power loss)", "one process writes at a time", "rename within a directory is atomic"]
RULE = (
    "The first runs enumerate every file system request of fixed save histories against every kind of fault at that request; the others draw histories over one or two results files "
    "(direct saves, single rates, sweeps, restarts) with several faults at random requests and concurrent readers; after every action and at every reader the file must hold all "
    "acknowledged results and nothing but those and the interrupted ones; non-trivial = at least one fault fired while earlier results existed; distinct by history and fault places."
)
KINDS = ["crash_before", "crash_after", "torn", "ENOSPC", "EIO", "EACCES", "EMFILE", "int", "mem", "short"]
MUST_REACH = ["crash_before", "crash_after", "torn", "ENOSPC", "EIO", "EACCES", "EMFILE", "int", "mem", "short",
              "reader_during_save", "rate_saved_again", "progress_after_faults", "several_objects", "results_removed", "clock_stands", "linked", "shared", "many_earlier_results"]
DECS = [["REP", 3, 1], ["XXZZ", 3, 1], ["XZZX", [3, 5], 2], ["REP", 5, 2]]


def directed():
    out = []
    script = [["append", 0, 0.1, 0.25], ["append", 0, 0.05, 0.125], ["append", 0, 0.2, 0.5]]
    # a save needs 1 request when there is no file yet and about 18 when there is
    for ev in range(48):
        for kind in KINDS:
            out.append({"decs": [["REP", 3, 1]], "actions": script, "plan": [[ev, kind]], "readers": [ev, ev + 1]})
    return out


def gen(rng, i, tier):
    nd = rng.choice([1, 1, 2])
    decs = rng.sample(DECS, nd)
    actions = []
    ps = [round(0.001 * k, 3) for k in range(1, 499)]
    rng.shuffle(ps)
    if rng.random() < 0.5:  # rates as sweeps and logarithmic grids produce them
        ps = [p + rng.choice([1, -1]) * rng.random() * 10 ** -rng.randint(3, 9) * 0.5 for p in ps]
    again = rng.random() < 0.4
    for _ in range(rng.randint(2, 8)):
        if again and rng.random() < 0.5:  # the same rate is measured once more
            ps.append(rng.choice([0.1, 0.25]))
        k = rng.randrange(nd)
        r = rng.random()
        if r < 0.6:
            actions.append(["append", k, ps.pop(), rng.choice([round(rng.random(), 3), rng.random(), bench.point(rng)[1]])])
        elif r < 0.75:
            actions.append(["single", k, ps.pop()])
        elif r < 0.9:
            actions.append(["sweep", k, [ps.pop() for _ in range(rng.randint(1, 3))]])
        else:
            actions.append(["restart"] if rng.random() < 0.5 else rng.choice([["remove", k], ["share", k, rng.choice([0o600, 0o640, 0o664, 0o666])]]))
    hi = 22 * len(actions)
    plan = []
    for _ in range(rng.choice([1, 1, 2, 3, 6])):
        plan.append([rng.randrange(hi), rng.choice(KINDS)])
    if rng.random() < 0.3:
        plan += [[rng.randrange(hi), "short"] for _ in range(10)]
    return {"decs": decs, "actions": actions, "plan": sorted(plan), "readers": sorted(rng.sample(range(hi), min(hi, 6))), "twins": rng.choice([1, 1, 2, 3]), "clock": rng.random() < 0.7,
            "link": rng.choice(["there", "dangling", "chain"]) if rng.random() < 0.08 else None,
            "earlier": [rng.getrandbits(32), rng.choice([40, 110, 300])] if rng.random() < 0.02 else None}


class Counts:
    """Canned machine: rate p gives round(100p) wrong shots of 100."""

    def __init__(self, scen):
        self.width = 1

    def __call__(self, circ, noise, shots):
        bad = int(round(noise.p * 100))
        zero = " ".join(["0" * self.width] * (self.T + 1))
        return {"0 " + zero: 100 - bad, "1 " + zero: bad}


def key(p, l):
    return float(p), float(l)  # to the last bit


def state(name):
    """What a reader finds: sorted list of (p, l); None if there is no file."""
    if not os.path.exists(name):
        return None
    with np.load(name) as f:
        P = [float(x) for x in f["physical_error_rates"]]
        L = [float(x) for x in f["logical_error_rates"]]
    if len(P) != len(L) or P != sorted(P):
        raise Violation("damaged results", f"{name}: rates {P}, results {L}")
    return list(zip(P, L))


def run(scen, ctx):
    from dst.gen import lat_of

    with bench.Scratch() as root, bench.quiet():
        decs = [sut.decoder(c, d, T) for c, d, T in scen["decs"]]
        widths = [lat_of({"code": c, "d": d}).width for c, d, T in scen["decs"]]
        names = []
        acked = [Counter() for _ in decs]  # how often each point was saved for certain
        maybe = [Counter() for _ in decs]  # and how often by the action under way
        fs = simfs.FS(root, scen["plan"], ctx)
        readers = set(scen["readers"])
        busy = [False]

        def verify(k, where):
            look(k, where, names[k])
            if k in kept and os.path.islink(names[k]):
                look(k, where + ", where the file is kept", kept[k])
                ctx.probe("linked")
            elif k in kept:
                raise Violation("lost result", f"{where}: {names[k]} is no longer the link to {kept[k]} it was")

        def look(k, where, name):
            try:
                st = state(name)
            except Violation:
                raise
            except Exception as e:
                raise Violation("unreadable results", f"{where}: {name}: {type(e).__name__}: {str(e)[:200]}")
            have = Counter(key(*x) for x in st or [])
            if st is not None and k in modes and os.stat(name).st_mode & 0o777 != modes[k]:
                raise Violation("lost access", f"{where}: {name} has permissions {os.stat(name).st_mode & 0o777:o}, the user gave it {modes[k]:o}")
            for x, n in acked[k].items():
                if have[x] < n:
                    raise Violation("lost result", f"{where}: {name} holds {st}, saved before was {x[0]} -> {x[1]}, {n} times")
            for x, n in have.items():
                if n > acked[k][x] + maybe[k][x]:
                    kind = "duplicated result" if acked[k][x] + maybe[k][x] else "invented result"
                    raise Violation(kind, f"{where}: {x[0]} -> {x[1]} is there {n} times, was saved {acked[k][x]} times")

        pending = []
        modes = {}  # permissions the user gave
        kept = {}  # results files that are links: where they lead

        def reader(kind, name):
            if fs.n in readers and not pending:
                for k in range(len(decs)):
                    try:
                        verify(k, f"concurrent reader before request {fs.n} ({kind})")
                    except Violation as v:
                        pending.append(v)
                if busy[0]:
                    ctx.probe("reader_during_save")

        fs.on_event = reader
        machine = Counts(scen)

        def lives():
            # several objects may serve one file
            return [[sut.TopologicalBenchmark(decoder=d, circ=sut.QuantumCircuit(), noise_model_func=bench.NoiseFn()) for _ in range(scen.get("twins", 1))] for d in decs]

        count = 0
        nontriv = False
        with fs, bench.active(machine):
            with ctx.sut("benchmark construct"):
                bs = lives()
            names[:] = [b[0].filename for b in bs]

            if scen.get("link"):  # the results are kept elsewhere, the file here is a link
                with fs.quiet():
                    os.mkdir("store")
                    for k, name in enumerate(names):
                        kept[k] = os.path.join("store", f"kept{k}.npz")
                        if scen["link"] == "chain":
                            os.symlink(f"kept{k}.npz", os.path.join("store", f"via{k}"))
                            os.symlink(os.path.join("store", f"via{k}"), name)
                        else:
                            os.symlink(kept[k], name)
                        if scen["link"] == "there":
                            with ctx.sut("first result"):
                                bs[k][0].append_data(0.4995, 0.25)
                            acked[k][key(0.4995, 0.25)] += 1

            def do(act):
                """One action in the simulated process. Returns True if it was acknowledged."""
                nonlocal bs, nontriv
                nonlocal count
                k = act[1]
                count += 1
                b = bs[k][count * 7 // 3 % len(bs[k])]
                if len(bs[k]) > 1:
                    ctx.probe("several_objects")
                machine.width, machine.T = widths[k], scen["decs"][k][2]
                pts = [(act[2], act[3])] if act[0] == "append" else [(p, int(round(p * 100)) / 100) for p in ([act[2]] if act[0] == "single" else act[2])]
                pts = [key(*x) for x in pts]
                if any(p == q for p, _ in pts for q, _ in acked[k]):
                    ctx.probe("rate_saved_again")
                maybe[k].update(pts)
                before = sum(v for f, v in ctx.faults.items() if "@" in f and not f.startswith("short"))
                err = None
                busy[0] = True
                try:
                    if act[0] == "append":
                        b.append_data(act[2], act[3])
                    elif act[0] == "single":
                        b.single(act[2], save_data=True, shots=100)
                    else:
                        b.sweep(physical_error_rates=list(act[2]), save_data=True, shots=100, deg_weight=False)
                except simfs.Crash as e:
                    err = e
                except (KeyboardInterrupt, MemoryError, Exception) as e:
                    err = e
                finally:
                    busy[0] = False
                now = sum(v for f, v in ctx.faults.items() if "@" in f and not f.startswith("short"))
                if now > before and any(acked):
                    nontriv = True
                if pending:
                    raise pending[0]
                if err is not None and now == before:
                    raise Violation("save failed without a fault", f"{act}: {type(err).__name__}: {str(err)[:200]}")
                dead = fs.dead
                if err is None:
                    acked[k].update(pts)
                    maybe[k].clear()
                fs.dead = False
                with fs.quiet():
                    for j in range(len(decs)):
                        verify(j, f"after {act}" + (" (crashed)" if dead else f" ({type(err).__name__})" if err else ""))
                    acked[k] = Counter(key(*x) for x in state(names[k]) or [])  # whatever is there now stays
                    maybe[k].clear()
                if dead:
                    with ctx.sut("restart"):
                        bs = lives()
                return err is None

            if scen.get("earlier"):  # a large file of earlier results
                rnd = random.Random(scen["earlier"][0])
                with fs.quiet(), ctx.sut("earlier results"):
                    for _ in range(scen["earlier"][1]):
                        p, l = round(0.5 + 0.49 * rnd.random(), 6), round(rnd.random(), 3)
                        bs[0][0].append_data(p, l)
                        acked[0][key(p, l)] += 1
                    verify(0, "after the earlier results")
                ctx.probe("many_earlier_results")
            for act in scen["actions"]:
                if act[0] == "restart":
                    with ctx.sut("restart"):
                        bs = lives()
                    continue
                if act[0] == "share":  # the user says who may read the results
                    with fs.quiet():
                        if os.path.exists(names[act[1]]):
                            os.chmod(names[act[1]], act[2])
                            modes[act[1]] = act[2]
                            ctx.probe("shared")
                    continue
                if act[0] == "remove":  # the user clears the old results away
                    with fs.quiet():
                        kept.pop(act[1], None)
                        modes.pop(act[1], None)
                        if os.path.lexists(names[act[1]]):
                            os.remove(names[act[1]])
                            ctx.probe("results_removed")
                    acked[act[1]].clear()
                    continue
                do(act)
                if not scen.get("clock", True):
                    with fs.quiet():
                        bench.stop_clock(".")
                    ctx.probe("clock_stands")
                ctx.add("saves")
                ctx.log(act, [sorted(a.items()) for a in acked], fs.n)
            def leftovers():
                with fs.quiet():
                    there = [n for n in names if os.path.exists(n)]
                    if any(os.path.islink(n) for n in names if n not in there):
                        return  # a link that leads nowhere yet cannot be loaded
                    if len([x for x in os.listdir(".") if x != "store"]) > len(there):
                        ctx.probe("leftovers")
                    with ctx.sut("batch analysis of what is left"):
                        an = sut.TopologicalBatchAnalysis(root + os.sep).analyses
                    got = sorted(sorted(zip(map(float, a.data["physical_error_rates"]), map(float, a.data["logical_error_rates"]))) for a in an)
                    want = sorted(sorted(state(n)) for n in there)
                    if got != want:
                        raise Violation("leftovers confuse the analysis", f"{sorted(os.listdir('.'))}: {got}, the results files hold {want}")

            # faults stop: saving must work again at once
            fs.plan = {}
            fs.on_event = None
            leftovers()
            for k in range(len(decs)):
                if not do(["append", k, 0.4990 + k * 0.0001, 0.75]):
                    raise Violation("no progress", "a save failed after the faults had stopped")
            ctx.probe("progress_after_faults")
            ctx.add("file_requests", fs.n)
            leftovers()
        ctx.nontrivial = nontriv
        ctx.sig(scen)


def shrink(scen):
    yield from generic_shrink(scen, ["plan", "actions", "readers"])
    if scen.get("link"):
        yield {**scen, "link": None}
