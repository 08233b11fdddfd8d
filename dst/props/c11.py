"""C11: logical qubits sharing a circuit do not influence each other."""
from dst.gen import arrange, pick_qubit, tiny_qubit
from dst import memory
from dst.props.c03 import compare

ID = "C11"
LEVEL = "exploration"
RUNS = {"quick": 12000, "thorough": 60000}
CHUNK = 15
REAL = ["TopologicalRegister/TopologicalCircuit", "encoders", "readout parsing"]
STUB = ["quantum device: exact stabilizer simulator with an explicit fault plan"]
ASSUMPTIONS = ["a logical CNOT is the only operation meant to couple two logical qubits"]
RULE = (
    "A run interleaves 2-4 independent memory programs of mixed codes on one circuit (params dictionaries possibly shared by the caller), "
    "optionally with logical CNOTs among some of them, injects faults into each, and requires every qubit's record to equal what its own "
    "program and faults alone imply; non-trivial = faults fired on at least one qubit; distinct by (codes, interleaving, faults)."
)
MUST_REACH = ["hit_reported", "shared_params", "bystander_of_cx", "cx_party", "lattice_record", "single_bit_record", "late_qubit", "late_after_cx", "cx_across_registers", "conditional_gate", "many_physical_qubits", "crowd", "many_rounds"]


def gen(rng, i, tier):
    n = rng.choice([2, 2, 3, 4])
    qs = [pick_qubit(rng, small=True, wide=0.006) for _ in range(n)]
    r = rng.random()
    if r < 0.02:  # a crowd
        n = rng.randint(8, 12)
        qs = [tiny_qubit(rng) for _ in range(n)]
    share = rng.random() < 0.5
    if share:
        for k in range(1, n):
            if rng.random() < 0.7:
                qs[k] = dict(qs[0])
    progs = []
    for q in range(n):
        basis = rng.choice("xz")
        reset = "r" + (basis if rng.random() < 0.85 else rng.choice("xz"))
        progs.append(memory.one_program(rng, q, rng.randint(30, 60) if 0.02 < r < 0.03 else rng.randint(1, 4), rng.choice("lm") + basis, reset))
    ops = memory.interleave(rng, progs)
    via = rng.choice(["treg", "treg", "qubit"])
    if via == "treg" and n > 1 and rng.random() < 0.6:
        for _ in range(rng.choice([1, 1, 2])):
            a, b = rng.sample(range(n - 1) if n > 2 else range(n), 2)
            pl = memory.plan(ops, n)
            lo = max(pl[a]["reset"][0], pl[b]["reset"][0]) + 1
            hi = min(pl[a]["final"][0], pl[b]["final"][0])
            if lo <= hi:
                ops.insert(rng.randint(lo, hi), ["cx", a, b])
    spec = {"qubits": qs, "via": via, "share_params": share, "name": rng.choice(["treg", "q", "a_b"])}
    if rng.random() < 0.4:
        spec["slots"] = [rng.choice([1, 2])]
        for _ in range(rng.randint(1, 3)):
            q = rng.randrange(n)
            o = memory.plan(ops, n)[q]
            ops.insert(rng.randint(o["reset"][0] + 1, o["final"][0]), [rng.choice(["xc", "zc"]), q, 0, rng.choice([0, 0, 1])])
    scen = {"spec": arrange(rng, spec),
            "ops": ops, "seed": rng.getrandbits(32), "shots": 8, "faults": []}
    f = rng.choice([0.1, 0.3])
    memory.random_faults(rng, scen, {"data": f, "rflip": f, "lflip": f, "oflip": f})
    return scen


def run(scen, ctx):
    m = memory.Memory(scen, ctx)
    if not m.ok:
        return
    if scen["spec"]["share_params"]:
        ctx.probe("shared_params")
    ctx.probe("crowd", int(m.w.n >= 8))
    ctx.probe("many_rounds", int(any(len(o["rounds"]) >= 30 for o in m.plan)))
    ctx.probe("conditional_gate", int(any(op[0] in ("xc", "zc") for op in scen["ops"])))
    ctx.probe("many_physical_qubits", int(len(m.w.circ.qubits) > 100))
    anycx = any(op[0] == "cx" for op in scen["ops"])
    for q in range(m.w.n):
        if anycx:
            ctx.probe("cx_party" if m.per[q][0]["cx"] else "bystander_of_cx")
        compare(m, q, ctx)
    ctx.nontrivial = bool(ctx.faults)
    ctx.sig(scen["spec"]["qubits"], scen["ops"], [f[:-1] for f in scen["faults"]])


shrink = memory.shrink
