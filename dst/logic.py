"""
Histories of logical operations, checked against a register of perfect qubits (dst.ideal).
Used by C02 (one logical qubit and bare qubits) and C12 (logical CNOT).
"""
from dst.core import Violation, generic_shrink
from dst.gen import simpler
from dst.ideal import Ideal, dependent
from dst.world import World


def valid(scen):
    spec = scen["spec"]
    n, ns, npy = len(spec["qubits"]), len(spec["slots"]), spec["phys"]
    alive = [False] * n
    for op in scen["ops"]:
        k = op[0]
        if k in ("rz", "rx"):
            alive[op[1]] = True
        elif k[0] == "p" and k not in ("pc", "pt"):
            continue
        elif k != "nop":
            for q in op[1:3] if k == "cx" else op[1:2]:
                if not alive[q]:
                    return False
            if k == "cx" and op[1] == op[2]:
                return False
            if k in ("lz", "lx"):
                alive[op[1]] = False
    return True


def run(scen, ctx):
    if not valid(scen):
        return
    spec = scen["spec"]
    w = World(spec, ctx)
    for op in scen["ops"]:
        w.apply(op)
    w.program()
    shots = scen["shots"]
    ctx.probe("very_long_history", int(len(scen["ops"]) >= 90))
    ctx.probe("many_logical_cx", int(sum(op[0] == "cx" for op in scen["ops"]) >= 10))
    # device fault plan
    faults = []
    frame = {}  # op index -> logical Paulis the data faults amount to, applied before that op
    for f in scen["faults"]:
        at = min(f[1], len(w.steps))
        pos = w.steps[at][1] if at < len(w.steps) else len(w.circ.data)
        if f[0] == "data":
            _, _, q, dqi, p, m = f
            dqi %= w.lats[q].n
            faults.append((pos, p, w.dq(q, dqi), m))
            ex, ez = w.lats[q].effective(p, dqi)
            if ex and dqi in w.lats[q].row:
                frame.setdefault(at, []).append(("X", q, m))
                ctx.probe("logical_flip_by_noise")
            if ez and dqi in w.lats[q].col:
                frame.setdefault(at, []).append(("Z", q, m))
                ctx.probe("logical_flip_by_noise")
        elif f[0] == "helper" and at < len(w.steps):
            # the qubit a readout measures is corrupted just before the readout starts
            op, a, b = w.steps[at]
            if op[0] in ("mz", "mx"):
                for st in range(a, b):
                    for prim in w.prog.steps[st]:
                        if prim[0] == "m":
                            faults.append((a, f[2], prim[1], f[3]))
                            ctx.probe("helper_corrupted")
    r = w.run(shots, scen["seed"], faults)
    shots = w.shots
    resets = sum(o[0] in ("rz", "rx", "pr") for o in scen["ops"])
    ideal = Ideal(list(range(w.n)) + [("p", i) for i in range(w.nphys)], resets, shots)
    slot = [[0] * len(c) for c in w.slots]
    own = []
    reads = {x[0]: x for x in w.reads}
    dead = [True] * w.n

    def frames(idx):
        for p, q, m in frame.get(idx, ()):
            ideal.pauli(p, q, m)

    def observe(q, basis, value, idx, what):
        bad = ideal.measure(q, basis, value)
        if bad:
            s = (bad & -bad).bit_length() - 1
            raise Violation(
                "impossible outcome",
                f"op {idx} {what}: shot {s} recorded {value >> s & 1}; a perfect qubit cannot give that "
                f"({bad.bit_count()} of {shots} shots wrong)",
            )

    for idx, (op, a, b) in enumerate(w.steps):
        frames(idx)
        k = op[0]
        if k in ("rz", "rx"):
            ideal.reset(op[1], k[1].upper())
        elif k == "x":
            ideal.pauli("X", op[1], ideal.all)
        elif k == "z":
            ideal.pauli("Z", op[1], ideal.all)
        elif k in ("mz", "mx"):
            _, _, q, creg, _ = reads[idx]
            wr = w.written(r, idx)
            bit = w.prog.cidx[creg[0]]
            if bit not in wr:
                raise Violation("readout not recorded", f"op {idx} {op} wrote bits {sorted(wr)} instead of {bit}")
            value = wr[bit]
            observe(q, k[1].upper(), value, idx, f"{k} of {w.codes[q]} {w.lats[q].dh}x{w.lats[q].dw}")
            ctx.probe("readout")
            if op[2] is None:
                own.append(value)
            else:
                slot[op[2]][0] = value
        elif k in ("lz", "lx"):
            _, _, q, creg, _ = reads[idx]
            wr = w.written(r, idx)
            value = 0
            for i in (w.lats[q].row if k == "lz" else w.lats[q].col):
                value ^= wr.get(w.prog.cidx[creg[i]], 0)
            observe(q, k[1].upper(), value, idx, f"{k} of {w.codes[q]} {w.lats[q].dh}x{w.lats[q].dw}")
            ctx.probe("lattice_readout")
        elif k in ("xc", "zc"):
            m = ideal.all  # shots in which the register holds the value
            for j, bits in enumerate(slot[op[2]]):
                m &= bits if op[3] >> j & 1 else ~bits & ideal.all
            ctx.probe("condition_on_several_bits", int(len(slot[op[2]]) > 1))
            ideal.pauli(k[0].upper(), op[1], m)
            ctx.probe("conditional_gate")
        elif k in ("xr", "zr"):
            if own:
                v = own[op[2] % len(own)]
                ideal.pauli(k[0].upper(), op[1], v if op[3] else ~v & ideal.all)
                ctx.probe("conditional_gate")
        elif k == "cx":
            ideal.cx(op[1], op[2])
            ctx.probe("logical_cx")
        elif k == "pc":
            ideal.cx(("p", op[2]), op[1])
            ctx.probe("physical_controls_logical")
        elif k == "pt":
            ideal.cx(op[1], ("p", op[2]))
            ctx.probe("logical_controls_physical")
        elif k == "ph":
            ideal.h(("p", op[1]))
        elif k in ("px", "pz"):
            ideal.pauli(k[1].upper(), ("p", op[1]), ideal.all)
        elif k == "pr":
            ideal.reset(("p", op[1]), "Z")
        elif k == "pcx":
            ideal.cx(("p", op[1]), ("p", op[2]))
        elif k == "pm":
            wr = w.written(r, idx)
            j = op[3] if len(op) > 3 else 0
            value = wr[w.prog.cidx[w.slots[op[2]][j]]]
            observe(("p", op[1]), "Z", value, idx, "measurement of a bare qubit")
            slot[op[2]][j] = value
    ctx.probe("open_outcome", len(ideal.open))
    if len(ideal.open) <= shots - 64 and dependent(ideal.open, ideal.all):
        raise Violation("outcomes not free", f"{len(ideal.open)} outcomes that should be independent coin tosses are not")
    ctx.nontrivial = bool(w.reads)
    ctx.sig([(c, l.dh, l.dw) for c, l in zip(w.codes, w.lats)], [o[0] for o in scen["ops"]], len(faults))
    ctx.log(ideal.open)


def drop_op(scen, k):
    ops = scen["ops"][:k] + scen["ops"][k + 1:]
    fl = [f[:1] + [f[1] - (f[1] > k)] + f[2:] for f in scen["faults"]]
    return {**scen, "ops": ops, "faults": fl}


def shrink(scen):
    yield from generic_shrink(scen, ["faults"])
    n = len(scen["ops"])
    for size in (n // 2, n // 4, n // 8):
        if size > 1:
            for lo in range(0, n, size):
                c = scen
                for k in reversed(range(lo, min(n, lo + size))):
                    c = drop_op(c, k)
                if valid(c):
                    yield c
    for k in reversed(range(n)):
        c = drop_op(scen, k)
        if valid(c):
            yield c
    for s in simpler(scen["spec"]):
        yield {**scen, "spec": s}
    if scen["shots"] > 96:
        yield {**scen, "shots": 96}


def add_faults(rng, scen, rate):
    n = len(scen["spec"]["qubits"])
    sh = scen["shots"]
    for k in range(len(scen["ops"]) + 1):
        if rng.random() < rate:
            scen["faults"].append(["data", k, rng.randrange(n), rng.randrange(49), rng.choice("XYZ"), rng.getrandbits(sh)])
    for k, op in enumerate(scen["ops"]):
        if op[0] in ("mz", "mx") and rng.random() < rate:
            scen["faults"].append(["helper", k, rng.choice("XYZD"), rng.getrandbits(sh)])
