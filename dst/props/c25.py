"""C25: programs built side by side are independent of each other."""
import copy
import gc

from dst import sut
from dst.core import Violation, generic_shrink
from dst.gen import lat_of, pick_qubit, simpler
from dst.props import c01
from dst.sched import Cancelled, Sched
from dst.world import World

ID = "C25"
LEVEL = "exploration"
RUNS = {"quick": 3000, "thorough": 25000}
CHUNK = 10
REAL = ["encoders", "TopologicalRegister/TopologicalCircuit", "readout parsing", "module and class state of the library"]
STUB = ["thread scheduler: one caller thread runs at a time, preempted at source lines chosen by the run's plan"]
ASSUMPTIONS = ["preemption at source line granularity", "qiskit calls are atomic"]
RULE = (
    "A run has 2-4 callers, each building its own program (own circuit; similar names, codes and shapes; possibly the same parameter dictionaries) and parsing records, "
    "preempted at line granularity by an explicit plan, some abandoned in the middle and some beginning anew; the qubit-by-qubit instruction sequence of each finished program, its "
    "registers and its parse results are compared with those of the same program built alone in a freshly imported copy of the library; non-trivial = at least two "
    "context switches; distinct by switch positions and programs."
)
MUST_REACH = ["switch", "abandoned_program", "same_name", "shared_params", "logical_cx", "parsed", "after_abandoned", "one_after_the_other", "generations"]


def program(rng, i, like=None):
    s = c01.gen(rng, i, "quick")
    spec = {k: v for k, v in s["spec"].items() if k not in ("front", "pad")}
    if like is not None and rng.random() < 0.6:  # nearly the same program
        spec = copy.deepcopy(like["spec"])
        ops = [list(o) for o in like["ops"]]
        r = rng.random()
        if r < 0.5:
            q = rng.randrange(len(spec["qubits"]))
            d = spec["qubits"][q]["d"]
            other = pick_qubit(rng, small=True)
            if spec["qubits"][q]["code"] in ("XXZZ", "XZZX") and isinstance(d, list) and rng.random() < 0.5:
                other = {**spec["qubits"][q], "d": d[::-1]}
            spec["qubits"][q] = other
        elif r < 0.8:
            ops = ops[: rng.randint(1, len(ops))]
    else:
        ops = s["ops"][: rng.randint(3, 14)]
    parses = []
    for _ in range(rng.randint(0, 3)):
        q = rng.randrange(len(spec["qubits"]))
        lat = lat_of(spec["qubits"][q])
        words = ["".join(rng.choice("0001") for _ in range(lat.width)) for _ in range(rng.randint(1, 3))]
        first = rng.choice("01") if rng.random() < 0.5 else "".join(rng.choice("01") for _ in range(lat.n))
        parses.append([q, " ".join([first] + words), "Z" if lat.dw == 1 else "X" if lat.dh == 1 else rng.choice("XZ")])
    return {"spec": spec, "ops": ops, "parses": parses, "share": rng.random() < 0.4}


def gen(rng, i, tier):
    clients = []
    for _ in range(rng.choice([2, 2, 3, 4])):
        jobs = []
        for _ in range(rng.choice([1, 1, 2])):
            old = [j for c in clients + [jobs] for j in c]
            jobs.append(program(rng, i, rng.choice(old) if old else None))
        clients.append(jobs)
    style = rng.choice(["fine", "coarse", "mixed"])
    plan = []
    for _ in range(rng.choice([0, 5, 20, 60])):
        hi = {"fine": 12, "coarse": 900, "mixed": rng.choice([3, 60, 900])}[style]
        plan.append([rng.randint(1, hi), rng.randrange(4)])
    cancels = {}
    for c in range(len(clients)):
        if rng.random() < 0.3:
            cancels[str(c)] = [int(10 ** rng.uniform(0, 3.3))]
    return {"clients": clients, "plan": plan, "cancels": cancels, "seed": rng.getrandbits(32), "generations": rng.choice([40, 60, 90]) if rng.random() < 0.03 else 0}


def norm(ans):
    v, syn = ans
    return v, {k: sorted(map(tuple, h)) for k, h in syn.items() if k in "XZ"}


def build(job, lib, ctx, pool):
    """Everything a caller can observe of one program."""
    w = World(job["spec"], ctx, lib=lib, pool=pool if job["share"] else None)
    for op in job["ops"]:
        w.apply(op)
    parsed = []
    for q, text, typ in job["parses"]:
        if w.tq[q] is None:
            continue
        with ctx.sut("parse"):
            tc = w.tcs.get(w.group[q])
            parsed.append(norm(tc.parse_readout(w.ix[q], text, typ) if tc is not None else w.tq[q].parse_readout(text, typ)))
    return w, parsed


def shown(w, parsed):
    prog = w.program()
    per = {}

    def flat(out, cond):
        for op in out:
            if op[0] == "if":
                where = cond + (op[1:3],)
                flat(op[3], where)
                flat(op[4], where + ("else",))
                continue
            touched = [("q", x) for x in op[1:3]] if op[0] != "m" else [("q", op[1]), ("c", op[2])]
            touched += [("c", b) for k in cond if isinstance(k, tuple) for b in k[0]]
            for t in dict.fromkeys(touched):
                per.setdefault(t, []).append((op, cond))

    for out in prog.steps:
        flat(out, ())
    return {
        "instructions": per,
        "quantum registers": [len(r) for r in w.circ.qregs],
        "classical registers": [len(r) for r in w.circ.cregs],
        "parsed": parsed,
    }


def run(scen, ctx):
    jobs = [(c, k, j) for c, js in enumerate(scen["clients"]) for k, j in enumerate(js)]
    if any(not c01.valid(j) for _, _, j in jobs):
        return
    ref = {(c, k): shown(*build(j, sut.Library(), ctx, {})) for c, k, j in jobs}
    lib, pool = sut.Library(), {}
    got = {}
    sched = Sched(scen["plan"], cancels={int(k): list(v) for k, v in scen["cancels"].items()})

    def client(c):
        def body():
            for k, j in enumerate(scen["clients"][c]):
                try:
                    got[c, k] = build(j, lib, ctx, pool)
                    if any(got.get((c, x)) == "abandoned" for x in range(k)):
                        ctx.probe("after_abandoned")
                    if k:
                        ctx.probe("one_after_the_other")
                except Cancelled:
                    got[c, k] = "abandoned"
        return body

    for c in range(len(scen["clients"])):
        sched.spawn(f"client{c}", client(c))
    sched.run()
    ctx.fire("preemption", sched.switches)
    ctx.probe("switch", sched.switches)
    ctx.fire("abandoned_program", sched.fired_cancels)
    ctx.add("scheduling_points", sched.points)
    seen = []
    for c, k, j in jobs:
        g = got[c, k]
        if g == "abandoned":
            continue
        compare(shown(*g), ref[c, k], f"caller {c}, program {k} ({j['spec']['qubits']})")
        ctx.probe("parsed", len(j["parses"]))
        ctx.probe("logical_cx", int(any(o[0] == "cx" for o in j["ops"])))
        ctx.probe("shared_params", int(j["share"] and any(x["share"] for x in seen)))
        ctx.probe("same_name", int(any(x["spec"]["via"] == j["spec"]["via"] for x in seen)))
        ctx.add("programs")
        seen.append(j)
    if scen.get("generations") and seen:
        generations(scen, seen, ref, jobs, lib, ctx)
    ctx.nontrivial = sched.switches >= 2
    ctx.sig(sched.trace, scen["clients"])
    ctx.log(sched.trace, sorted(got))


def compare(now, ref, who, say=True):
    for what in now:
        if now[what] != ref[what]:
            a, b = now[what], ref[what]
            if isinstance(a, dict):
                t = next(t for t in sorted(set(a) | set(b)) if a.get(t) != b.get(t))
                a, b = f"{t}: {a.get(t)}", f"{b.get(t)}"
            detail = f" {str(a)[:300]}, alone {str(b)[:300]}" if say else " not as alone"
            raise Violation("program depends on other programs", f"{who}: {what}{detail}")


def generations(scen, seen, ref, jobs, lib, ctx):
    """Programs that come and go: nothing of one that is gone may show in those that take its place in memory."""
    j = min(seen, key=lambda j: len(j["ops"]))
    c, k = next((c, k) for c, k, x in jobs if x is j)
    gc.collect()
    gc.freeze()  # what lives longer than these programs need not be looked at for each of them
    try:
        for g in range(scen["generations"]):
            out = build(j, lib, ctx, {})
            now = shown(*out)
            del out
            gc.collect()
            # which generation lands on whose address is the allocator's affair: the report does not name it
            compare(now, ref[c, k], f"program rebuilt after the one before it was dropped ({j['spec']['qubits']})", say=False)
            ctx.probe("generations", int(g > 0))
    finally:
        gc.unfreeze()


def shrink(scen):
    yield from generic_shrink(scen, ["plan"])
    if scen["cancels"]:
        yield {**scen, "cancels": {}}
    cl = scen["clients"]
    for c in range(len(cl)):
        if len(cl) > 1:
            yield {**scen, "clients": cl[:c] + cl[c + 1:], "cancels": {}}
        for k in range(len(cl[c])):
            yield {**scen, "clients": cl[:c] + [cl[c][:k] + cl[c][k + 1:]] + cl[c + 1:]}
            for s in generic_shrink(cl[c][k], ["ops", "parses"]):
                if c01.valid(s):
                    yield {**scen, "clients": cl[:c] + [cl[c][:k] + [s] + cl[c][k + 1:]] + cl[c + 1:]}
            for spec in simpler(cl[c][k]["spec"]):
                yield {**scen, "clients": cl[:c] + [cl[c][:k] + [{**cl[c][k], "spec": spec}] + cl[c][k + 1:]] + cl[c + 1:]}
