"""C19: every operation records into its own place, once, and the record survives."""
from dst.core import Violation, generic_shrink
from dst.gen import mask
from dst.props import c01
from dst.world import World

ID = "C19"
LEVEL = "exploration"
RUNS = {"quick": 10000, "thorough": 50000}
CHUNK = 20
REAL = ["encoders (reset, stabilize, logical gates, readouts, logical CX)", "TopologicalRegister/TopologicalCircuit"]
STUB = ["quantum device: exact stabilizer simulator with random outcomes and Pauli faults from the run's seed"]
ASSUMPTIONS = ["a logical CX may reuse its own scratch bits", "a user-supplied readout register may be written again by a later readout into it"]
RULE = (
    "A run executes an interleaved history over 1-3 logical qubits with random Pauli noise at arbitrary instructions and follows every single classical "
    "write on the device; non-trivial = at least two recorded rounds and one more kind of record; distinct by (codes, shapes, operations)."
)
MUST_REACH = ["long_history", "multi_qubit", "logical_cx", "cx_twice", "user_slot", "round_after_readout", "pauli_X", "register_by_name", "hundred_rounds", "qubits_by_name", "name_the_library_uses", "register_asked_late"]


def gen(rng, i, tier):
    while True:
        s = c01.gen(rng, i, "thorough" if rng.random() < 0.5 else tier)
        if len(s["ops"]) >= 4:
            break
    s["ops"] = [list(o) for o in s["ops"]]
    if rng.random() < 0.3:
        s["spec"]["phys"] = rng.randint(1, 3)
    s["faults"] = [[rng.randrange(len(s["ops"])), rng.random(), rng.choice("XYZ"), rng.randrange(1 << 12), mask(rng, s["shots"])]
                   for _ in range(rng.randint(0, 12))]
    return s


def run(scen, ctx):
    if not c01.valid(scen):
        return
    w = World(scen["spec"], ctx)
    for kind, name, size, fresh, held, before, after, got in w.asked:
        ctx.probe("qubits_by_name", int(kind == "q"))
        what = f"register '{name}' of size {size}"
        bits = {b for x in before for b in x}
        if fresh and not (got not in before and after == before + [got] and len(got) == size and not bits & set(got)):
            raise Violation("caller's register", f"{what}: got {got}, registers {before} became {after}")
        if not fresh and not (got is held and after == before):
            raise Violation("caller's register", f"{what} asked for again: {held} became {got}, registers {before} became {after}")
    for op in scen["ops"]:
        w.apply(op)
    prog = w.program()
    nq = len(w.circ.qubits)
    faults = [(w.at(at % len(w.steps), frac), p, q % nq, m) for at, frac, p, q, m in scen["faults"] if w.steps]
    r = w.run(scen["shots"], scen["seed"], faults)
    writes = {}
    for e in r.log:
        writes.setdefault(e[0], []).append((e[2], e[4]))
    rounds = {idx: creg for x in w.rounds for idx, creg in x}
    reads = {x[0]: x for x in w.reads}
    owner = {}
    user = {prog.cidx[b] for c in w.slots for b in c}
    for idx, (op, a, b) in enumerate(w.steps):
        new = [prog.cidx[x] for c in w.new[idx] for x in c]
        if op[0] != "cx":
            for c in new:
                if c in owner:
                    raise Violation("shared record", f"operation {idx} {op} got a bit of operation {owner[c]}")
                owner[c] = idx
    held = {}
    for idx, (op, a, b) in enumerate(w.steps):
        ws = [x for st in range(a, b) for x in writes.get(st, ())]
        bits = [x[0] for x in ws]
        k = op[0]
        if k == "stab":
            want = [prog.cidx[x] for x in rounds[idx]]
        elif k in ("mz", "mx", "lz", "lx"):
            want = [prog.cidx[x] for x in reads[idx][3]]
        elif k == "cx":
            for c in bits:
                if c in owner or c in user:
                    raise Violation("record overwritten", f"logical CX (operation {idx}) wrote a bit that belongs to operation {owner.get(c, 'user register')}")
            ctx.probe("logical_cx")
            continue
        else:
            want = []
        if sorted(bits) != sorted(want):
            raise Violation(
                "wrong bits written", f"operation {idx} {op} wrote classical bits {sorted(bits)}, its own are {sorted(want)}"
            )
        for c, v in ws:
            held[c] = (idx, v)
        ctx.add("records_followed", len(ws))
        if k in ("mz", "mx") and op[2] is not None:
            ctx.probe("user_slot")
    for c, (idx, v) in held.items():
        if r.clbits[c] != v:
            raise Violation("record lost", f"bit of operation {idx} {scen['ops'][idx]} was recorded as {v:#x} and reads {r.clbits[c]:#x} at the end")
    # what the device prints holds the same records, newest first
    strings = prog.strings(r.clbits, w.shots)
    for s in range(min(w.shots, 4) if w.circ.cregs else 0):
        words = strings[s].split(" ")
        if len(words) != len(w.circ.cregs):
            raise Violation("record layout", f"{len(w.circ.cregs)} registers, printed '{strings[s]}'")
        at = {creg.name: words[len(words) - 1 - k] for k, creg in enumerate(w.circ.cregs)}
        for q in range(w.n):
            for idx, creg in w.rounds[q]:
                if at[creg.name] != w.word([held[prog.cidx[x]][1] for x in creg], s):
                    raise Violation("record misplaced", f"round of operation {idx} reads '{at[creg.name]}'")
    nrounds = len(rounds)
    kinds = {op[0] for op in scen["ops"]}
    ctx.probe("long_history", int(nrounds >= 10))
    ctx.probe("hundred_rounds", int(nrounds > 100))
    ctx.probe("multi_qubit", int(w.n > 1 and sum(bool(x) for x in w.rounds) > 1))
    ctx.probe("cx_twice", int(sum(op[0] == "cx" for op in scen["ops"]) > 1))
    for q in range(w.n):
        first = min([i for i, x in reads.items() if x[2] == q], default=None)
        if first is not None and any(i > first for i, _ in w.rounds[q]):
            ctx.probe("round_after_readout")
    ctx.nontrivial = nrounds >= 2 and bool(kinds & {"mz", "mx", "lz", "lx", "cx"})
    ctx.sig(scen["spec"], scen["ops"])


def shrink(scen):
    for s in generic_shrink(scen, ["ops", "faults"]):
        if c01.valid(s):
            yield s
