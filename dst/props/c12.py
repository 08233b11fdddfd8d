"""C12: the logical CNOT acts as an ideal CNOT on any joint state, any number of times."""
from dst import logic
from dst.gen import arrange, pick_qubit, tiny_qubit

ID = "C12"
LEVEL = "exploration"
RUNS = {"quick": 24000, "thorough": 120000}
CHUNK = 20
REAL = ["TopologicalCircuit.cx and its helper qubits", "encoders", "TopologicalRegister"]
STUB = ["quantum device: exact stabilizer simulator with seeded outcomes and an explicit fault plan"]
ASSUMPTIONS = ["gates used by the encoders are Clifford"]
RULE = (
    "A run draws 2-4 logical qubits of mixed codes in one register and a bare qubit, and a history in which logical CNOTs (default or chosen "
    "ancilla code) are interleaved with rounds, gates, feed-forward and readouts on entangled states, with Pauli noise whose logical effect is "
    "tracked; executed on 128-192 simulated devices against perfect qubits; non-trivial = at least one readout; distinct by (codes, shapes, operations, faults)."
)
MUST_REACH = ["own_helper", "logical_cx", "readout", "open_outcome", "physical_controls_logical", "cx_across_registers", "late_after_cx", "many_logical_cx"]


def gen(rng, i, tier):
    big = tier == "thorough"
    n = rng.choice([2, 2, 3, 3, 4] if big else [2, 2, 3])
    phys = rng.choice([0, 1])
    qs = [pick_qubit(rng, small=True, wide=0.006) for _ in range(n)]
    if rng.random() < 0.3:
        qs = [dict(qs[0]) for _ in qs]
    longest = rng.random() < 0.015
    if longest:
        qs = [tiny_qubit(rng) for _ in range(n)]
    ops = [["ph", p] for p in range(phys)]
    slow = rng.sample(range(n), n - 2) if rng.random() < 0.5 else []  # enter the scene when first used
    alive = [q not in slow for q in range(n)]
    ops += [[rng.choice(["rz", "rx"]), q] for q in range(n) if alive[q]]

    def wake(q):
        if not alive[q]:
            alive[q] = True
            ops.append([rng.choice(["rz", "rx"]), q])

    anc = None
    if rng.random() < 0.4:
        a = pick_qubit(rng, small=True)
        anc = [a["code"], a["d"]]
    ncx = 0
    for _ in range(rng.randint(40, 80) if longest else rng.randint(2, 30 if big else 14)):
        q = rng.randrange(n)
        k = rng.choice(["cx"] * 4 + ["stab", "stab", "x", "z", "mz", "mx", "xr", "zr", "rz", "rx"] + ["pc", "pt"] * phys)
        if alive[q] or rng.random() < 0.3:
            wake(q)
        else:
            continue
        if k == "cx":
            if ncx >= (24 if longest else 8 if big else 4):
                continue
            ncx += 1
            b = rng.choice([o for o in range(n) if o != q])
            wake(b)
            ops.append(["cx", q, b] + (anc if anc and rng.random() < 0.6 else []))
        elif k in ("mz", "mx"):
            ops.append([k, q, None])
        elif k in ("xr", "zr"):
            ops.append([k, q, rng.randrange(4), rng.randint(0, 1)])
        elif k in ("pc", "pt"):
            ops.append([k, q, 0])
        elif k in ("rz", "rx"):
            if rng.random() < 0.3:
                ops.append([k, q])
        else:
            ops.append([k, q])
    if ncx == 0:
        a, b = rng.sample(range(n), 2)
        ops.append(["cx", a, b])
    order = list(range(n))
    rng.shuffle(order)
    for q in order:
        wake(q)
        ops.append([rng.choice(["mz", "mx"]), q, None])
        if rng.random() < 0.3:
            ops.append([rng.choice(["lz", "lx"]), q])
    if phys:
        ops.append(["pm", 0, 0])
    scen = {"spec": arrange(rng, {"qubits": qs, "via": "treg", "slots": [1], "phys": phys, "share_params": rng.random() < 0.5}),
            "ops": ops, "faults": [], "seed": rng.getrandbits(32), "shots": rng.choice([128, 192])}
    logic.add_faults(rng, scen, rng.choice([0, 0, 0.15]))
    return scen


run = logic.run
shrink = logic.shrink
