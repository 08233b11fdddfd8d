"""C18: idle layers touch exactly the qubits they name, so that noise on them is the noise asked for."""
from collections import Counter

from dst import memory
from dst.core import Violation, generic_shrink
from dst.gen import arrange, mask, pick_qubit, tiny_qubit
from dst.props import c01
from dst.memory import interleave, one_program
from dst.world import World, norm_hits

ID = "C18"
LEVEL = "exploration"
RUNS = {"quick": 10000, "thorough": 50000}
CHUNK = 20
REAL = ["encoders (idle layers, reset, stabilize, logical gates, readouts)", "TopologicalRegister/TopologicalCircuit", "readout parsing"]
STUB = ["quantum device: exact stabilizer simulator", "noise: a Pauli after identity instructions, drawn per instruction and shot from the run's seed"]
ASSUMPTIONS = ["noise is attached to identity instructions, as in the tutorials"]
RULE = (
    "A run executes interleaved memory experiments with idle layers at random places; a Pauli fault strikes after identity instructions at a random rate, and every parsed record "
    "must show exactly the changes those faults cause on that logical qubit; the identities of each layer are also counted per physical qubit; every fourth run is a history of all kinds of operations, where only the places of identities are judged; "
    "non-trivial = at least one identity struck on a data qubit between two rounds; distinct by (codes, shapes, operations, struck sites)."
)
MUST_REACH = ["struck_data_identity", "idle_full", "idle_data", "multi_qubit", "after_lattice_window", "treg", "conditional_gate", "logical_cx"]


def gen(rng, i, tier):
    if rng.random() < 0.25:  # any operations at all: only the sites are judged
        s = c01.gen(rng, i, tier)
        ops = []
        for op in s["ops"]:
            ops.append(op)
            if len(op) > 1 and rng.random() < 0.15:
                ops.append([rng.choice(["id", "idd"]), op[1]])
        return {"history": True, "spec": s["spec"], "ops": ops}
    n = rng.choice([1, 1, 2, 3])
    qs = [pick_qubit(rng, small=n > 1 or rng.random() < 0.6, wide=0.02 / n) for _ in range(n)]
    longest = rng.random() < 0.01
    if longest:
        qs = [tiny_qubit(rng) for _ in range(n)]
    progs = []
    for q in range(n):
        basis = {"REP": "z", "PREP": "x"}.get(qs[q]["code"]) or rng.choice("xz")
        p = one_program(rng, q, rng.randint(20, 50) if longest else rng.randint(1, 5 if tier == "quick" else 9), rng.choice("lm") + basis, "r" + basis, gates=0.05)
        out = []
        for k, op in enumerate(p):
            out.append(op)
            if k < len(p) - 1 and rng.random() < 0.6:
                out.append([rng.choice(["id", "idd", "idd"]), q])
        progs.append(out)
    scen = {"spec": arrange(rng, {"qubits": qs, "via": rng.choice(["treg", "qubit"])}), "ops": interleave(rng, progs),
            "seed": rng.getrandbits(32), "shots": 16, "faults": []}
    # [operation, which identity of it, Pauli, shots]
    strikes = []
    rate = rng.choice([0.05, 0.3, 1.0])
    for k, op in enumerate(scen["ops"]):
        if op[0] in ("id", "idd"):
            for j in range(64):
                if rng.random() < rate * 0.2:
                    strikes.append([k, j, rng.choice("XYZ"), mask(rng, 16, rng.choice([0.1, 0.5]))])
    scen["strikes"] = strikes
    return scen


def identities(inst):
    """Qubits an instruction puts an identity on, also inside a branch."""
    if inst.operation.name == "id":
        return list(inst.qubits)
    out = []
    for block in getattr(inst.operation, "blocks", None) or ():
        at = dict(zip(block.qubits, inst.qubits))
        out += [at[x] for i in block.data for x in identities(i)]
    return out


def sites_of(w, ctx):
    """Where every operation put identities; raises if that is not where it was asked to."""
    ids = {}
    for idx, (op, a, b) in enumerate(w.steps):
        ids[idx] = sites = [(st, x) for st in range(a, b) for x in identities(w.circ.data[st])]
        want = []
        if op[0] in ("id", "idd"):
            q = op[1]
            want = [x for reg in w.tq[q].lattice.qregisters.values() for x in reg] if op[0] == "id" else w.data[q]
        got = Counter(x for _, x in sites)
        if got != Counter(want):
            at = {x: k for k, x in enumerate(w.circ.qubits)}
            miss = [at[x] for x in want if not got[x]]
            more = [at[x] for x in got if got[x] > (x in want)]
            raise Violation("identity sites", f"{op}: qubits without identity {miss}, with too many {more}")
        ctx.probe("idle_full", int(op[0] == "id"))
        ctx.probe("idle_data", int(op[0] == "idd"))
        ctx.probe("conditional_gate", int(op[0] in ("xc", "zc")))
        ctx.probe("logical_cx", int(op[0] == "cx"))
    return ids


def run(scen, ctx):
    if scen.get("history"):
        if not c01.valid(scen):
            return
        w = World(scen["spec"], ctx)
        for op in scen["ops"]:
            w.apply(op)
        ids = sites_of(w, ctx)
        ctx.log({k: len(v) for k, v in ids.items()})
        ctx.nontrivial = any(ids.values())
        ctx.sig(scen["spec"], scen["ops"])
        return
    # a dry build finds where the identities are; the faults then follow the identities, wherever they sit
    n = len(scen["spec"]["qubits"])
    if memory.plan(scen["ops"], n) is None:
        return
    base = {k: v for k, v in scen.items() if k != "strikes"}
    dry = memory.Memory({**base, "shots": 1}, ctx)
    w = dry.w
    ids = sites_of(w, ctx)
    where = {x: (q, i) for q in range(n) for i, x in enumerate(w.data[q])}
    faults = []
    hit = 0
    for k, j, p, m in scen["strikes"]:
        if k >= len(scen["ops"]) or not ids.get(k):
            continue
        st, x = ids[k][j % len(ids[k])]
        if x not in where:
            continue  # noise on syndrome qubits is C06's subject
        q, i = where[x]
        faults.append(["data", k + 1, q, i, p, m])
        hit += 1
        ctx.fire("struck_data_identity")
    m = memory.Memory({**base, "faults": faults}, ctx)
    for q, (o, ex, strings, fixed) in enumerate(m.per):
        typ = o["final"][2]
        for s, string in enumerate(strings):
            lv, syn = m.w.parse(q, string, typ)
            got = norm_hits(syn)
            want = ex.hits[s]
            if got != want:
                raise Violation("noise on idle layers", f"qubit {q} shot {s} '{string}': hits {got}, the struck identities mean {want}")
            if fixed is not None and int(lv) != (fixed >> s & 1):
                raise Violation("noise on idle layers (value)", f"qubit {q} shot {s} '{string}': value {lv}")
    ctx.probe("multi_qubit", int(n > 1))
    ctx.probe("treg", int(scen["spec"]["via"] == "treg"))
    ctx.probe("after_lattice_window", int(any(o["final"][1] for o in m.plan)))
    ctx.nontrivial = hit > 0
    ctx.sig(scen["spec"], scen["ops"], faults)


def shrink(scen):
    if scen.get("history"):
        for s in generic_shrink(scen, ["ops"]):
            if c01.valid(s):
                yield s
        return
    yield from generic_shrink(scen, ["strikes"])
    n = len(scen["spec"]["qubits"])
    for k in reversed(range(len(scen["ops"]))):
        ops = scen["ops"][:k] + scen["ops"][k + 1:]
        if memory.plan(ops, n) is not None:
            yield {**scen, "ops": ops, "strikes": [[s[0] - (s[0] > k)] + s[1:] for s in scen["strikes"] if s[0] != k]}
