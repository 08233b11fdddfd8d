"""C24: a round built in parts (X half, Z half, chosen checks) puts exactly those checks onto their syndrome qubits."""
from dst.core import Violation, generic_shrink
from dst.gen import arrange, lat_of, mask, pick_qubit, simpler, tiny_qubit
from dst.memory import interleave
from dst.world import World

ID = "C24"
LEVEL = "exploration"
RUNS = {"quick": 36000, "thorough": 180000}
CHUNK = 20
REAL = ["encoders (entangling of halves and of chosen checks, full rounds, resets, logical gates, idle layers, readouts)", "TopologicalRegister/TopologicalCircuit"]
STUB = ["quantum device: exact stabilizer simulator with an explicit fault plan"]
ASSUMPTIONS = ["syndrome qubits are measured and reset by the caller after a round built in parts, as a full round does"]
RULE = (
    "A run interleaves the programs of 1-2 logical qubits in which full rounds, X halves, Z halves, both halves in either order and rounds of chosen checks follow each other, with gates, readouts "
    "and Pauli faults on data qubits in between, on 16 simulated devices; every measured check is compared with its last value and the faults since, every syndrome qubit "
    "not asked for must still read 0; non-trivial = a part follows another round with a fault between; distinct by (codes, shapes, operations, faults)."
)
MUST_REACH = ["x_half", "z_half", "both_halves", "chosen_checks", "empty_half", "after_full_round", "value_read", "multi_qubit", "lattice_readout", "others_before_measurement"]


def program(rng, q, n):
    ops = [[rng.choice(["rz", "rx"]), q]]
    for _ in range(n):
        r = rng.random()
        if r < 0.2:
            ops.append(["stab", q])
        elif r < 0.6:
            ops.append(["part", q, rng.choice(["x", "z", "x", "z", "xz", "zx"]), 0, int(rng.random() < 0.5)])
        elif r < 0.72:
            ops.append(["part", q, "list", rng.getrandbits(30), int(rng.random() < 0.5)])
        elif r < 0.82:
            ops.append([rng.choice("xz"), q])
        elif r < 0.86:
            ops.append([rng.choice(["id", "idd"]), q])
        elif r < 0.94:
            ops.append([rng.choice(["mz", "mx"]), q, None])
        else:
            ops.append([rng.choice(["rz", "rx"]), q])
    if rng.random() < 0.4:
        ops.append([rng.choice(["lz", "lx"]), q])
    return ops


def gen(rng, i, tier):
    n = rng.choice([1, 1, 2])
    qs = [pick_qubit(rng, small=n > 1 or rng.random() < 0.6, wide=0.02 / n) for _ in range(n)]
    longest = rng.random() < 0.01
    if longest:
        qs = [tiny_qubit(rng) for _ in range(n)]
    ops = interleave(rng, [program(rng, q, rng.randint(50, 120) if longest else rng.randint(2, 8 if tier == "quick" else 14)) for q in range(n)])
    faults = []
    for _ in range(rng.choice([0, 1, 3, 8])):
        q = rng.randrange(n)
        faults.append([rng.randint(0, len(ops)), q, rng.randrange(lat_of(qs[q]).n), rng.choice("XYZ"), mask(rng, 16, rng.choice([0.2, 0.6]))])
    return {"spec": arrange(rng, {"qubits": qs, "via": rng.choice(["treg", "qubit"])}), "ops": ops, "faults": faults, "seed": rng.getrandbits(32), "shots": 16}


def part(w, q, kind, sel, ctx, nbits):
    """Builds the parts; what it returns measures all syndrome qubits into a register of the caller and resets them."""
    lat, tq = w.lats[q], w.tq[q]
    L = tq.lattice
    asked = set()
    with ctx.sut("entangle part"):
        place = {}
        for typ, reg in (("Z", "mz"), ("X", "mx")):
            for k, x in enumerate(L.qregisters.get(reg, ())):
                place[x] = (typ, k)
        if kind == "list":
            picked = [j for j in range(len(L.qubit_indices)) if sel >> (j % 30) & 1]
            if sel & 1:
                picked.reverse()
            if not picked:
                picked = [0]
            asked = {place[L.qubit_indices[j][0]] for j in picked}
            mine = ([L.qubit_indices[j] for j in picked], [L.stabilizers[j] for j in picked])
            keep = tuple(map(list, mine))
            L.entangle(*mine)
            if mine != keep:
                raise Violation("request modified", f"{w.codes[q]}: the caller's list of {len(picked)} chosen checks now holds {len(mine[0])}")
            ctx.probe("chosen_checks")
        else:
            for c in kind:
                typ = c.upper()
                (L.entangle_x if c == "x" else L.entangle_z)()
                asked |= {(typ, k) for k in range(len(lat.checks[typ]))}
                ctx.probe("empty_half", int(not lat.checks[typ]))
            ctx.probe({"x": "x_half", "z": "z_half"}.get(kind, "both_halves"))
    if len(place) != nbits:
        raise Violation("syndrome qubits", f"{w.codes[q]}: {len(place)} syndrome qubits for {nbits} checks")

    def read():
        from dst import sut

        creg = sut.ClassicalRegister(nbits, f"own{len(w.circ.cregs)}_{q}")
        w.circ.add_register(creg)
        for x, (typ, k) in place.items():
            w.circ.measure(x, creg[lat.bit(typ, k)])
            w.circ.reset(x)
        return creg

    return asked, read


def run(scen, ctx):
    spec, ops = scen["spec"], scen["ops"]
    n = len(spec["qubits"])
    if not all([o[0] for o in ops if o[1] == q][:1] in (["rz"], ["rx"]) for q in range(n)):
        return
    if any(o[0] in ("lz", "lx") and any(p[1] == o[1] for p in ops[k + 1:]) for k, o in enumerate(ops)):
        return
    w = World(spec, ctx)
    info = []  # per op: (asked checks, creg) for rounds
    start = []
    late = {}  # logical qubit -> (round, how to read it): entangled, not yet measured

    def settle(q):
        k, read = late.pop(q)
        creg = read()
        w.new[k][0] = creg
        info[k] = (info[k][0], creg)

    for k, op in enumerate(ops):
        start.append(len(w.circ.data))
        if op[1] in late:
            settle(op[1])
        if op[0] == "part":
            q = op[1]
            if w.tq[q] is None:
                w.add(q)
            asked, read = part(w, q, op[2], op[3], ctx, w.lats[q].width)
            w.steps.append((op, start[-1], len(w.circ.data)))
            w.new.append([None])
            info.append((asked, None))
            late[q] = (k, read)
            if not op[4:] or not op[4]:
                settle(q)
        else:
            ctx.probe("others_before_measurement", int(op[0] == "stab" and bool(late)))
            w.apply(op)
            lat = w.lats[op[1]]
            info.append(({(t, k) for t in "XZ" for k in range(len(lat.checks[t]))}, w.new[-1][0]) if op[0] == "stab" else None)
    start.append(len(w.circ.data))
    for q in list(late):
        settle(q)
    w.program()
    dev = []
    for k, q, i, p, m in scen["faults"]:
        if k <= len(ops) and i < w.lats[q].n:
            dev.append((start[k], p, w.dq(q, i), m))
    r = w.run(scen["shots"], scen["seed"], dev)
    full = (1 << w.shots) - 1
    val = [{} for _ in range(n)]  # check -> mask of its value
    log = [{} for _ in range(n)]  # logical type -> mask
    hit = [False] * n
    parts = [0] * n
    for idx, op in enumerate(ops + [["end", 0]]):
        for k, q, i, p, m in scen["faults"]:
            if k != idx or i >= w.lats[q].n:
                continue
            lat = w.lats[q]
            hit[q] = True
            for typ, e in zip("ZX", lat.effective(p, i)):
                if not e:
                    continue
                for c in lat.adj[typ][i]:
                    if (typ, c) in val[q]:
                        val[q][typ, c] ^= m & full
                if typ in log[q] and i in (lat.row if typ == "Z" else lat.col):
                    log[q][typ] ^= m & full
        k, q = op[0], op[1]
        if k == "end":
            break
        lat = w.lats[q]
        name = f"{w.codes[q]} {spec['qubits'][q]['d']} step {idx} {op}"
        if k in ("rz", "rx"):
            t = k[1].upper()
            val[q] = {(t, c): 0 for c in range(len(lat.checks[t]))}
            log[q] = {t: 0}
            hit[q], parts[q] = False, 0
        elif k in ("x", "z"):
            t = "Z" if k == "x" else "X"
            if t in log[q]:
                log[q][t] ^= full
        elif k in ("stab", "part"):
            asked, creg = info[idx]
            bits = w.bits(r, creg)
            for typ in "ZX":
                for c in range(len(lat.checks[typ])):
                    b = bits[lat.bit(typ, c)] & full
                    if (typ, c) not in asked:
                        if b:
                            raise Violation("check measured without being asked for", f"{name}: {typ} check {c} reads {b:b}, its syndrome qubit was not entangled")
                    elif (typ, c) in val[q] and val[q][typ, c] != b:
                        raise Violation("wrong check value", f"{name}: {typ} check {c} reads {b:b}, expected {val[q][typ, c]:b}")
                    else:
                        val[q][typ, c] = b
            ctx.add("rounds_judged")
            if k == "part":
                ctx.probe("after_full_round", int(any(o[0] == "stab" and o[1] == q for o in ops[:idx])))
                ctx.nontrivial |= parts[q] > 0 and hit[q]
            parts[q] += 1
        elif k in ("mz", "mx"):
            t = k[1].upper()
            b = w.bits(r, w.new[idx][0])[0] & full
            if t in log[q]:
                ctx.probe("value_read")
                if log[q][t] != b:
                    raise Violation("stored value changed", f"{name}: reads {b:b}, expected {log[q][t]:b}")
            else:
                log[q] = {t: b}
        elif k in ("lz", "lx"):
            t = k[1].upper()
            bits = w.bits(r, w.new[idx][0])
            ctx.probe("lattice_readout")
            for c, sup in enumerate(lat.support[t]):
                b = 0
                for i in sup:
                    b ^= bits[i]
                if (t, c) in val[q] and (b & full) != val[q][t, c]:
                    raise Violation("lattice readout disagrees", f"{name}: {t} check {c} gives {b & full:b}, expected {val[q][t, c]:b}")
            b = 0
            for i in lat.row if t == "Z" else lat.col:
                b ^= bits[i]
            if t in log[q] and (b & full) != log[q][t]:
                raise Violation("stored value changed", f"{name}: lattice gives {b & full:b}, expected {log[q][t]:b}")
    ctx.probe("multi_qubit", int(n > 1))
    ctx.sig(spec, ops, scen["faults"])


def shrink(scen):
    yield from generic_shrink(scen, ["faults"])
    for k in reversed(range(len(scen["ops"]))):
        yield {**scen, "ops": scen["ops"][:k] + scen["ops"][k + 1:], "faults": [[f[0] - (f[0] > k)] + f[1:] for f in scen["faults"]]}
    for spec in simpler(scen["spec"]):
        yield {**scen, "spec": spec}
