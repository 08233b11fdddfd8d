"""C02: a logical qubit behaves as one perfect qubit over any history of operations."""
from dst import logic
from dst.gen import arrange, pick_qubit, tiny_qubit

ID = "C02"
LEVEL = "exploration"
RUNS = {"quick": 30000, "thorough": 150000}
CHUNK = 30
REAL = ["encoders: resets, logical X/Z, conditional gates, CX with a bare qubit, rounds, idle layers, readouts", "TopologicalCircuit dispatch"]
STUB = ["quantum device: exact stabilizer simulator with seeded outcomes and an explicit fault plan"]
ASSUMPTIONS = ["gates used by the encoders are Clifford", "logical Z/X readout lines are the top row / left column, as documented"]
RULE = (
    "A run draws 1-2 logical qubits and 0-2 bare qubits, a random history of operations with feed-forward, Pauli noise on data qubits "
    "between operations (its logical effect is tracked exactly) and corrupted helper qubits before readouts; executed on 128 simulated devices "
    "and replayed on a register of perfect qubits; non-trivial = at least one logical readout; distinct by (codes, shapes, operations, number of faults)."
)
MUST_REACH = ["readout", "lattice_readout", "conditional_gate", "condition_on_several_bits", "physical_controls_logical", "logical_controls_physical",
              "open_outcome", "logical_flip_by_noise", "helper_corrupted", "very_long_history"]


def gen(rng, i, tier):
    big = tier == "thorough"
    n = rng.choice([1, 1, 1, 2])
    phys = rng.choice([0, 1, 2])
    slots = rng.choice([1, 2, 3])
    width = [1] * slots
    if phys and rng.random() < 0.4:
        width += [rng.choice([2, 2, 3]) for _ in range(rng.randint(1, 2))]
    qs = [pick_qubit(rng, small=not big and n > 1, wide=0.03 / n) for _ in range(n)]
    longest = rng.random() < 0.01
    if longest:
        qs = [tiny_qubit(rng) for _ in range(n)]
    via = rng.choice(["qubit", "treg"])
    ops = []
    alive = [False] * n
    kinds = ["stab"] * 2 + ["x", "z", "mz", "mx", "mz", "mx", "xc", "zc", "xr", "zr", "id", "idd", "lz", "lx"]
    if phys:
        kinds += ["pc", "pt", "ph", "pm", "pc", "pt", "px", "pz", "pr"]
        ops += [["ph", p] for p in range(phys) if rng.random() < 0.5]
        if phys == 2:
            kinds.append("pcx")
    for s in range(slots, len(width)):  # registers of several bits are filled first
        for j in range(width[s]):
            if rng.random() < 0.8:
                p = rng.randrange(phys)
                ops += [[rng.choice(["ph", "ph", "px"]), p], ["pm", p, s, j]]
        kinds += ["xc", "zc", "pm"]
    kinds = [k for k in kinds if rng.random() < 0.8] or ["mz", "mx"]
    for _ in range(rng.randint(100, 220) if longest else rng.randint(3, 60 if big else 28)):
        q = rng.randrange(n)
        if not alive[q] or rng.random() < 0.04:
            ops.append([rng.choice(["rz", "rx"]), q])
            alive[q] = True
            continue
        k = rng.choice(kinds)
        if k in ("mz", "mx"):
            ops.append([k, q, rng.choice([None, rng.randrange(slots)])])
        elif k in ("xc", "zc"):
            s = rng.choice([rng.randrange(len(width)), len(width) - 1])
            ops.append([k, q, s, rng.randrange(1 << width[s])])
        elif k in ("xr", "zr"):
            ops.append([k, q, rng.randrange(8), rng.randint(0, 1)])
        elif k in ("pc", "pt"):
            ops.append([k, q, rng.randrange(phys)])
        elif k in ("ph", "px", "pz", "pr"):
            ops.append([k, rng.randrange(phys)])
        elif k == "pcx":
            a = rng.randrange(2)
            ops.append([k, a, 1 - a])
        elif k == "pm":
            s = rng.randrange(len(width))
            ops.append([k, rng.randrange(phys), s, rng.randrange(width[s])])
        elif k in ("lz", "lx"):
            if rng.random() < 0.4:
                ops.append([k, q])
                alive[q] = False
        else:
            ops.append([k, q])
    for q in range(n):
        if alive[q]:
            ops.append([rng.choice(["mz", "mx", "mz", "mx", "lz", "lx"]), q, None])
            if ops[-1][0][0] == "l":
                ops[-1].pop()
    scen = {"spec": arrange(rng, {"qubits": qs, "via": via, "slots": width, "phys": phys, "share_params": rng.random() < 0.3}),
            "ops": ops, "faults": [], "seed": rng.getrandbits(32), "shots": 128}
    logic.add_faults(rng, scen, rng.choice([0, 0, 0.1, 0.4]))
    return scen


run = logic.run
shrink = logic.shrink
