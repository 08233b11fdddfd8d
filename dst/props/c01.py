"""C01: without faults, no round ever reports a syndrome change."""
from dst.core import Violation, generic_shrink
from dst.gen import arrange, pick_qubit, simpler, tiny_qubit
from dst.world import World, norm_hits

ID = "C01"
LEVEL = "exploration"
RUNS = {"quick": 16800, "thorough": 84000}
CHUNK = 20
REAL = ["encoders (reset, stabilize, logical gates, readouts, logical CX)", "readout parsing", "TopologicalRegister/TopologicalCircuit"]
STUB = ["quantum device: exact stabilizer simulator, every random outcome drawn from the run's seed"]
ASSUMPTIONS = ["gates used by the encoders are Clifford", "recorded round layout: Z checks in the low bits, row-major"]
RULE = (
    "A run draws 1-3 logical qubits (code, shape), an interleaved history of resets, rounds, logical gates, readouts, "
    "conditional gates, logical CX and idle layers, corrupts data qubits only immediately before a reset, and executes it on "
    "8 or 16 simulated devices with random outcomes; non-trivial = at least two rounds in one reset epoch and at least one random outcome; "
    "distinct by (codes, shapes, operation sequence)."
)
MUST_REACH = ["pair_checked", "first_round_checked", "lattice_checked", "logical_cx", "corruption_wiped", "late_qubit", "late_after_cx", "very_long_history"]


def gen(rng, i, tier):
    big = tier == "thorough"
    n = rng.choice([1, 1, 1, 2, 2, 3])
    qs = [pick_qubit(rng, small=n > 1 and not big, wide=0.02 / n) for _ in range(n)]
    longest = rng.random() < 0.01  # a very long history of small qubits
    if longest:
        n = min(n, 2)
        qs = [tiny_qubit(rng) for _ in range(n)]
    via = rng.choice(["qubit", "treg"]) if n == 1 else "treg"
    slots = rng.choice([0, 1, 2])
    ops = []
    alive = [False] * n
    used = [False] * slots
    faults = []
    for _ in range(rng.randint(120, 260) if longest else rng.randint(4, 60 if big else 26)):
        q = rng.randrange(n)
        if not alive[q] or rng.random() < (0.01 if longest else 0.06):
            if rng.random() < 0.5:
                faults.append([len(ops), q, rng.choice("XYZD"), rng.randrange(1 << 16), rng.randrange(1 << 16)])
            ops.append([rng.choice(["rz", "rx"]), q])
            alive[q] = True
            continue
        k = rng.choice(["stab"] * (16 if longest else 6) + ["x", "z", "id", "idd", "mz", "mx", "cx", "xc", "zc", "lz", "lx"])
        if k == "cx":
            others = [o for o in range(n) if o != q and alive[o]]
            if via != "treg" or not others or sum(o[0] == "cx" for o in ops) >= (30 if longest else 3):
                continue
            ops.append(["cx", q, rng.choice(others)])
        elif k in ("mz", "mx"):
            s = rng.choice([None] + list(range(slots)))
            ops.append([k, q, s])
        elif k in ("xc", "zc"):
            if not slots:
                continue
            ops.append([k, q, rng.randrange(slots), rng.randint(0, 1)])
        elif k in ("lz", "lx"):
            if rng.random() < (0.9 if longest else 0.5):
                continue
            ops.append([k, q])
            alive[q] = False
        else:
            ops.append([k, q])
    return {
        "spec": arrange(rng, {"qubits": qs, "via": via, "slots": [1] * slots, "share_params": rng.random() < 0.3}),
        "ops": ops, "faults": faults, "seed": rng.getrandbits(32), "shots": rng.choice([8, 16]),
    }


def valid(scen):
    """Drop operations the model gives no meaning to (used after shrinking)."""
    n = len(scen["spec"]["qubits"])
    alive = [False] * n
    for op in scen["ops"]:
        if op[0] in ("rz", "rx"):
            alive[op[1]] = True
            continue
        for q in op[1:3] if op[0] == "cx" else op[1:2]:
            if not alive[q]:
                return False
        if op[0] == "cx" and op[1] == op[2]:
            return False
        if op[0] in ("lz", "lx"):
            alive[op[1]] = False
    return True


def run(scen, ctx):
    if not valid(scen):
        return
    w = World(scen["spec"], ctx)
    for op in scen["ops"]:
        w.apply(op)
    w.program()
    faults = []
    for at, q, p, which, m in scen["faults"]:
        if at < len(w.steps) and w.steps[at][0][0] in ("rz", "rx") and w.steps[at][0][1] == q:
            for dqi in range(w.lats[q].n):
                if which >> (dqi % 16) & 1:
                    faults.append((w.steps[at][1], p, w.dq(q, dqi), m))
    r = w.run(scen["shots"], scen["seed"], faults)
    ctx.probe("very_long_history", int(len(scen["ops"]) > 100))
    ctx.probe("random_outcome", r.device.nrandom)
    ctx.sig([(c, l.dh, l.dw) for c, l in zip(w.codes, w.lats)], [o[0] for o in scen["ops"]])
    for q, lat in enumerate(w.lats):
        epoch = None  # (basis of reset, rounds so far in this epoch)
        rounds = dict((i, c) for i, c in w.rounds[q])
        reads = dict((i, (k, c)) for i, k, qq, c, _ in w.reads if qq == q)
        prev = None
        basis = None
        first = False
        fault_before = False
        for idx, (op, a, b) in enumerate(w.steps):
            if op[0] == "cx" and q in op[1:3]:
                ctx.probe("logical_cx")
            if len(op) < 2 or op[1] != q:
                continue
            if op[0] in ("rz", "rx"):
                prev, basis, first = None, op[0][1].upper(), True
                fault_before = any(f[0] == idx for f in scen["faults"])
            elif op[0] == "stab":
                cur = w.chunks(r, rounds[idx])
                if prev is not None:
                    ctx.nontrivial = True
                    for s in range(w.shots):
                        _, syn = w.parse(q, f"0 {cur[s]} {prev[s]}", "Z")
                        hits = norm_hits(syn)
                        ctx.probe("pair_checked")
                        if hits["X"] or hits["Z"]:
                            raise Violation(
                                "false syndrome", f"{w.codes[q]} {lat.dh}x{lat.dw} qubit {q} op {idx} shot {s}: {hits} from '{cur[s]} {prev[s]}'"
                            )
                elif first and lat.width:
                    ctx.probe("first_round_checked")
                    if fault_before:
                        ctx.probe("corruption_wiped")
                    lo, n = (0, lat.nz) if basis == "Z" else (lat.nz, lat.nx)
                    for s in range(w.shots):
                        bits = cur[s][::-1][lo:lo + n]
                        if "1" in bits:
                            raise Violation(
                                "first round after reset", f"{w.codes[q]} {lat.dh}x{lat.dw} reset_{basis.lower()} then {basis} checks {bits[::-1]}"
                            )
                prev, first = cur, False
            elif op[0] in ("lz", "lx"):
                typ = op[0][1].upper()
                if prev is not None:
                    ctx.probe("lattice_checked")
                    last = w.chunks(r, reads[idx][1])
                    for s in range(w.shots):
                        _, syn = w.parse(q, f"{last[s]} {prev[s]}", typ)
                        hits = norm_hits(syn)
                        if hits["X"] or hits["Z"]:
                            raise Violation(
                                "false syndrome in lattice readout", f"{w.codes[q]} {lat.dh}x{lat.dw} op {idx}: {hits}"
                            )
                prev = None
                first = False


def shrink(scen):
    for op_drop in generic_shrink(scen, ["ops"]):
        if valid(op_drop) and not scen["faults"]:
            yield op_drop
    yield from generic_shrink(scen, ["faults"])
    # dropping single operations shifts fault anchors; keep them consistent
    for k in range(len(scen["ops"])):
        ops = scen["ops"][:k] + scen["ops"][k + 1:]
        fl = [[f[0] - (f[0] > k)] + f[1:] for f in scen["faults"] if f[0] != k]
        c = {**scen, "ops": ops, "faults": fl}
        if valid(c):
            yield c
    for s in simpler(scen["spec"]):
        yield {**scen, "spec": s}
    if scen["shots"] > 1:
        yield {**scen, "shots": 1}
        yield {**scen, "shots": scen["shots"] // 2}
