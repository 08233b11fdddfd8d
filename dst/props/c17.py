"""C17: batch analysis shows every saved benchmark, unchanged, in order of distance."""
import os
import random

from dst import bench, simfs, sut
from dst.core import Violation, generic_shrink

ID = "C17"
LEVEL = "exploration"
RUNS = {"quick": 12000, "thorough": 60000}
CHUNK = 25
REAL = ["TopologicalBenchmark.append_data", "TopologicalAnalysis, TopologicalBatchAnalysis", "numpy file format", "file contents (real scratch directory)"]
STUB = ["directory listing order", "every file system request below the scratch directory passes a fault injecting layer",
        "a second process saving results while the analysis loads"]
ASSUMPTIONS = ["the directory itself can be listed", "results files are written by this library", "analyses of equal distance may come in any order"]
RULE = (
    "A run saves results for 1-6 lattices in random order, adds unrelated files, and loads the directory under shuffled listings, read faults, short reads and a second process "
    "that saves while the load is under way; a successful load must hold every file, each in a state it was in during the load, sorted by distance; a failed one must raise; "
    "non-trivial = at least two files loaded from a listing that was not already in order of distance; distinct by files, listing and faults."
)
MUST_REACH = ["loaded", "load_failed", "shuffled_listing", "concurrent_save", "retry_after_failure", "short", "rectangular", "reloaded", "odd_directory_name", "never_failed", "many_points", "nested_directory", "refresh_failed", "refresh_meets_save", "renamed", "results_replaced", "clock_stands", "batch_loaded_again"]
SPECS = [["REP", 3], ["REP", 5], ["REP", 7], ["REP", 9], ["REP", 11], ["XXZZ", 3], ["XXZZ", 5], ["XXZZ", 7], ["XXZZ", [3, 5]], ["XZZX", [5, 3]], ["XZZX", [7, 3]], ["XXZZ", 9], ["XXZZ", 11],
         ["REP", 25], ["REP", 101], ["XXZZ", [3, 13]]]


WHERE = ["run[1]", "a b", "what?", "all*", "[x", "r\u00fcn", ".hidden", "de/ep/er", "50%", "results.npz", ".h[1-3]"]

OTHER = ["monday #.npz", "#.npz", "D_#_T_3.npz", "results (copy #).npz", "#.npz.npz", "backup_d_#.npz", "comparison#.npz", "_#.npz", "T_3_d_#.npz"]


def gen(rng, i, tier):
    files = []
    seen = set()
    for s in rng.sample(SPECS, rng.randint(1, 6)):
        T = rng.randint(1, 3)
        if s[1] in (9, 11, 25, 101, [3, 13]):
            T = 1
        name = (repr(s[1]) if s[0] != "REP" else f"r{s[1]}", T)
        if name in seen:
            continue
        seen.add(name)
        pts = [bench.point(rng) for _ in range(rng.randint(1, 5) if rng.random() < 0.995 else rng.choice([60, 150, 700]))]
        files.append([s[0], s[1], T, pts])
    junk = rng.sample(["notes.txt", "comparison.png", "old.npz.tmp", "d_3.npy", ".hidden", "older"], rng.randint(0, 3))
    hi = 12 * len(files)
    plan = []
    if rng.random() < 0.5:
        for _ in range(rng.choice([1, 1, 2])):
            plan.append([rng.randrange(hi), rng.choice(["EIO", "EIO", "EACCES", "EMFILE", "int", "mem"])])
    if rng.random() < 0.4:
        plan += [[rng.randrange(hi), "short"] for _ in range(6)]
    saves = []
    if rng.random() < 0.4:
        for _ in range(rng.randint(1, 3)):
            saves.append([rng.randrange(hi), rng.randrange(len(files)), *bench.point(rng)])
    again = [bench.point(rng), [[rng.randrange(9), rng.choice(["EIO", "EIO", "EACCES", "EMFILE", "int", "mem"])]] if rng.random() < 0.5 else [],
             [rng.randrange(9), *bench.point(rng)] if rng.random() < 0.3 else None]
    return {"files": files, "junk": junk, "again": again, "plan": sorted(plan), "saves": saves, "replace": rng.random() < 0.3, "clock": rng.random() < 0.6, "order": rng.getrandbits(32), "style": rng.choice(["slash", "slash", "prefix"]),
            "where": rng.choice(["results"] * 6 + WHERE), "renamed": {"*": rng.choice(OTHER)} if rng.random() < 0.2 else {}}


def run(scen, ctx):
    import numpy as np

    with bench.Scratch() as root, bench.quiet():
        where = scen.get("where", "results")
        os.makedirs(where)
        os.chdir(where)
        ctx.probe("odd_directory_name", int(where != "results"))
        bs, versions, names = [], [], []
        for code, d, T, pts in scen["files"]:
            with ctx.sut("save"):
                b = sut.TopologicalBenchmark(decoder=sut.decoder(code, d, T), circ=sut.QuantumCircuit())
                for p, l in pts:
                    b.append_data(p, l)
                    ctx.probe("never_failed", int(l == 0))
            ctx.probe("many_points", int(len(pts) > 50))
            bs.append(b)
            names.append(os.path.basename(b.filename))
            versions.append([sorted(map(tuple, pts))])
        for n in sorted(set(names)):  # the user gives some results other names
            r = scen.get("renamed", {}).get(n) or scen.get("renamed", {}).get("*")
            new = r and ("" if scen["style"] == "slash" else "d_") + r.replace("#", str(sorted(set(names)).index(n)))
            if r and not os.path.exists(new):
                os.rename(n, new)
                for k, b in enumerate(bs):
                    if names[k] == n:
                        b.filename, names[k] = new, new
                ctx.probe("renamed")
        if len(set(names)) != len(names):
            # several codes share a name by design (it only holds d and T): keep the combined file
            merged = {}
            for n, v, f in zip(names, versions, scen["files"]):
                merged.setdefault(n, [[], f])[0].extend(v[0])
            files = [(n, [sorted(v[0])], v[1]) for n, v in merged.items()]
            idx = [list(merged).index(n) for n in names]
        else:
            files = [(n, v, f) for n, v, f in zip(names, versions, scen["files"])]
            idx = list(range(len(names)))
        for j in scen["junk"]:
            if j == "older":  # results of another campaign, one level down
                os.mkdir(j)
                np.savez("older/d_(3, 3)_T_1.npz", d=(3, 3), T=1, physical_error_rates=[0.25], logical_error_rates=[0.5])
                ctx.probe("nested_directory")
                continue
            with open(j, "w") as f:
                f.write("not a result")
        rng = random.Random(scen["order"])
        fs = simfs.FS(root, scen["plan"], ctx)

        def order(xs):
            xs = list(xs)
            rng.shuffle(xs)
            ctx.fire("shuffled_listing")
            listing.append([getattr(x, "name", x) for x in xs])
            return xs

        listing = []
        fs.order = order
        fs.spare = {"list"}
        first = [0]

        def other_process(kind, name):
            for s in scen["saves"]:
                if s[0] == fs.n - first[0]:
                    k = idx[s[1] % len(idx)]
                    bs[s[1] % len(bs)].append_data(s[2], s[3])
                    files[k][1].append(sorted(files[k][1][-1] + [(s[2], s[3])]))
                    ctx.fire("concurrent_save")

        fs.on_event = other_process
        if not scen.get("clock", True):
            bench.stop_clock(".")
        dirname = f"{root}/{where}/" if scen["style"] == "slash" else f"{root}/{where}/d_"
        load = None
        with fs:
            for attempt in range(2):
                base = [len(v) - 1 for _, v, _ in files]
                first[0] = fs.n
                before = sum(v for f, v in ctx.faults.items() if "@" in f and not f.startswith("short"))
                try:
                    load = sut.TopologicalBatchAnalysis(dirname)
                except (Exception, KeyboardInterrupt, MemoryError) as e:
                    load = None
                    if sum(v for f, v in ctx.faults.items() if "@" in f and not f.startswith("short")) == before:
                        raise Violation("load failed without a fault", f"{type(e).__name__}: {str(e)[:200]}")
                    ctx.probe("load_failed")
                if load is not None:
                    ctx.probe("loaded")
                    if attempt:
                        ctx.probe("retry_after_failure")
                    break
                fs.plan = {}
                fs.on_event = None
            ctx.add("file_requests", fs.n)
            check(load, files, base, ctx)
            refresh(scen, max(load.analyses, key=lambda x: (len(x.data["physical_error_rates"]) > 500, files_at(x, files) == scen["order"] % len(files))), files, bs, idx, fs, ctx)
            ctx.probe("reloaded")
            if scen["order"] % 2:
                with ctx.sut("batch loaded again"):
                    second = sut.TopologicalBatchAnalysis(dirname)
                check(second, files, [len(v) - 1 for _, v, _ in files], ctx)
                ctx.probe("batch_loaded_again")
        ds = [shape(f[2])[0] for f in files]
        ctx.probe("rectangular", int(any(shape(f[2])[0] != shape(f[2])[1] and f[2][0] != "REP" for f in files)))
        got = [n for lst in listing for n in lst if n in [f[0] for f in files]]
        order_d = [ds[[f[0] for f in files].index(n)] for n in got]
        ctx.nontrivial = len(files) >= 2 and order_d != sorted(order_d)
        ctx.log([sorted(zip(map(float, a.data["physical_error_rates"]), map(float, a.data["logical_error_rates"]))) for a in load.analyses])
        ctx.sig(scen)


def files_at(a, files):
    return [n for n, _, _ in files].index(os.path.basename(a.filename))


def refresh(scen, a, files, bs, idx, fs, ctx):
    """A single analysis can be refreshed: it then shows what is saved now; if it cannot be, what it showed before."""
    k = files_at(a, files)
    versions = files[k][1]
    point, plan, save = scen["again"]

    def more(p, l):
        bs[idx.index(k)].append_data(p, l)
        versions.append(sorted(versions[-1] + [(p, l)]))

    fs.plan = {}
    fs.on_event = None
    now = sorted(zip(*(map(float, a.data[x]) for x in ("physical_error_rates", "logical_error_rates"))))
    shown = {n for n, v in enumerate(versions) if v == now}
    fs.muted += 1
    if scen.get("replace"):  # the results are measured anew, as many as before
        os.remove(os.path.basename(a.filename))
        new = [(p, (l + point[1]) % 1.0) for p, l in versions[-1]]
        for p, l in new:
            bs[idx.index(k)].append_data(p, l)
        versions.append(sorted(new))
        ctx.probe("results_replaced")
    else:
        more(*point)
    if not scen.get("clock", True):
        bench.stop_clock(".")
        ctx.probe("clock_stands")
    fs.muted -= 1
    first, last = fs.n, len(versions) - 1

    def other_process(kind, name):
        if save is not None and fs.n - first == save[0] and len(versions) == last + 1:
            more(*save[1:])
            ctx.fire("concurrent_save")
            ctx.probe("refresh_meets_save")

    for n, what in plan:
        fs.plan.setdefault(first + n, []).append(what)
    fs.on_event = other_process
    before = sum(ctx.faults.get(f, 0) for f in ("EIO", "EACCES", "EMFILE", "int", "mem"))
    try:
        a.load_data()
    except (Exception, KeyboardInterrupt, MemoryError) as e:
        if sum(ctx.faults.get(f, 0) for f in ("EIO", "EACCES", "EMFILE", "int", "mem")) == before:
            raise Violation("load failed without a fault", f"{type(e).__name__}: {str(e)[:200]}")
        ctx.probe("refresh_failed")
        same(a, files[k], shown, "analysis whose refresh failed")
    else:
        same(a, files[k], range(last, len(versions)), "refreshed analysis")
    fs.plan = {}
    fs.on_event = None
    with ctx.sut("load_data again"):
        a.load_data()
    same(a, files[k], {len(versions) - 1}, "refreshed analysis")


def shape(f):
    if isinstance(f[1], list):
        return tuple(f[1])
    return (f[1], 1) if f[0] == "REP" else (f[1], f[1])


def same(a, f, allowed, what):
    name, versions, spec = f
    d = tuple(int(x) for x in a.params["d"])
    if d != shape(spec) or int(a.params["T"]) != spec[2]:
        raise Violation("wrong parameters", f"{what}: {name}: d={a.params['d']} T={a.params['T']}")
    P = [float(x) for x in a.data["physical_error_rates"]]
    L = [float(x) for x in a.data["logical_error_rates"]]
    if P != sorted(P):
        raise Violation("rates not in order", f"{what}: {name}: {P}")
    if sorted(zip(P, L)) not in [versions[k] for k in allowed]:
        raise Violation("wrong results", f"{what}: {name}: {sorted(zip(P, L))}, saved were {[versions[k] for k in allowed]}")


def check(load, files, base, ctx):
    got = [os.path.basename(a.filename) for a in load.analyses]
    if sorted(got) != sorted(f[0] for f in files):
        raise Violation("wrong set of analyses", f"loaded {sorted(got)}, saved were {sorted(f[0] for f in files)}")
    for a, n in zip(load.analyses, got):
        k = [f[0] for f in files].index(n)
        same(a, files[k], range(base[k], len(files[k][1])), "batch analysis")
    ds = [int(a.params["d"][0]) for a in load.analyses]
    if ds != sorted(ds):
        raise Violation("not in order of distance", f"{ds}")


def shrink(scen):
    yield from generic_shrink(scen, ["plan", "saves", "junk"])
    if scen.get("renamed"):
        yield {**scen, "renamed": {}}
    yield {**scen, "again": [scen["again"][0], [], None]}
    if len(scen["files"]) > 1:
        yield from generic_shrink(scen, ["files"])
