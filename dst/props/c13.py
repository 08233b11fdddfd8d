"""C13: a rejected request leaves no trace."""
from dst import sut
from dst.core import Violation, generic_shrink
from dst.gen import pick_qubit
from dst.world import World

ID = "C13"
LEVEL = "exploration"
RUNS = {"quick": 11000, "thorough": 55000}
CHUNK = 25
REAL = ["register, circuit and qubit construction", "logical operations", "request validation", "generated circuits"]
STUB = ["quantum device (stabilizer simulator under the run's seed)"]
ASSUMPTIONS = ["a request counts as invalid only if the documentation or an explicit check in the code rules it out"]
RULE = (
    "A run sends a stream of valid requests with invalid ones injected at random points, and the same stream without them, then executes both circuits "
    "on the simulated device with the same seed; after every rejection the circuit must be unchanged, at the end both runs must give the same record; "
    "non-trivial = at least one invalid request between valid ones; distinct by the full stream."
)
BAD = ["type", "type_later", "even_later", "name_later", "key", "count", "even", "even_rect", "rep_shape", "rep_flag", "rep_later", "rep_type", "rep_even", "get", "op_index", "cx_none", "cx_both", "cx_half_t",
       "cx_half_p", "cx_anc_type", "cx_anc_even", "cx_anc_rep", "cx_index", "dup", "sub", "negative",
       "name_part", "step_taken", "cond_foreign", "cond_negative", "read_foreign", "cx_foreign", "cx_own", "cx_same", "cx_helper"]
MUST_REACH = ["bad_" + b for b in BAD] + ["cx_after_bad_ancilla", "add_after_bad"]


def gen(rng, i, tier):
    n = rng.choice([1, 2, 2, 3])
    qubits = [pick_qubit(rng, small=True, one_d=False) for _ in range(n)]
    spec = {"qubits": qubits, "via": "treg", "slots": [1, 1]}
    ops = [["r" + rng.choice("xz"), q] for q in range(n)]
    hot = i % 4 == 0
    if hot:
        ops.append(["bad", rng.choice(["cx_anc_type", "cx_anc_even", "cx_anc_rep"]), rng.randrange(n), rng.getrandbits(20)])
    extra = 0
    for _ in range(rng.randint(2, 12)):
        k = rng.random()
        q = rng.randrange(n)
        if k < 0.4:
            ops.append(["bad", rng.choice(BAD), q, rng.getrandbits(20)])
        elif k < 0.5 and extra < 2:
            extra += 1
            ops.append(["add", pick_qubit(rng, small=True, one_d=False), rng.choice(["data", "data", "extra"])])
        elif k < 0.65 and n > 1:
            ops.append(["cx"] + rng.sample(range(n), 2))
        else:
            ops.append([rng.choice(["stab", "stab", "x", "z", "id", "idd", "rz", "rx"]), q])
    if hot and n > 1:
        ops.append(["cx"] + rng.sample(range(n), 2))
    for q in range(n):
        if rng.random() < 0.7:
            ops.append([rng.choice(["mz", "mx"]), q, None])
    return {"spec": spec, "ops": ops, "seed": rng.getrandbits(32)}


def bad_request(w, kind, q, salt, had_cx):
    """Send one invalid request; returns the exception, or None when it was accepted."""
    tc = w.tcirc
    treg = tc.treg
    tq = w.tq[q]
    even = 2 * (1 + salt % 4)
    surf = ["XXZZ", "XZZX"][salt // 8 % 2]
    many = 1000 + salt % 7
    reqs = {
        "type": lambda: treg.add_tqubits("data", ["Steane"], [{"d": 3}]),
        "type_later": lambda: treg.add_tqubits(["data", "spare"][salt // 16 % 2], [surf] * (1 + salt % 2) + ["Steane"] + [surf] * (salt // 2 % 2),
                                               [{"d": 3}] * (2 + salt % 2 + salt // 2 % 2)),
        "even_later": lambda: treg.add_tqubits(["data", "spare"][salt // 16 % 2], [surf] * (2 + salt % 2), [{"d": 3}] * (1 + salt % 2) + [{"d": even}]),
        "name_later": lambda: name_later(w, surf),
        "key": lambda: treg[["nowhere", "", None, 1.5, (0, 1)][salt % 5]],
        "sub": lambda: treg[["ancilla", "later", "spares"][salt % 3]],
        "negative": lambda: treg[-1 - salt % 3],
        "count": lambda: treg.add_tqubits("data", [surf] * (salt // 2 % 3), [{"d": 3}] * ((salt // 2 + 1 + salt % 2) % 3)),
        "even": lambda: treg.add_tqubits(["data", "spare"][salt // 16 % 2], [surf], [{"d": even}]),
        "even_rect": lambda: treg.add_tqubit("spare", surf, {"d": [(3, even), (even, 3)][salt // 16 % 2]}),
        "rep_shape": lambda: treg.add_tqubit("data", sut.CTYPE["REP"], {"d": (3, 3)}),
        "rep_flag": lambda: treg.add_tqubit(["data", "spare"][salt // 16 % 2], sut.CTYPE["REP"],
                                            [{"d": (1, 3)}, {"d": (3, 1), "phase-flip-protected": True}, {"d": (5, 3), "phase-flip-protected": True},
                                             {"d": even, "phase-flip-protected": True}, {"d": (1, 3), "phase-flip-protected": False}][salt % 5]),
        "rep_later": lambda: treg.add_tqubits(["data", "spare"][salt // 16 % 2], [surf, sut.CTYPE["REP"]],
                                              [{"d": 3}, [{"d": (1, 3)}, {"d": (3, 1), "phase-flip-protected": True}, {"d": "x"}][salt % 3]]),
        "rep_type": lambda: treg.add_tqubit("data", sut.CTYPE["REP"], {"d": "three"}),
        "rep_even": lambda: treg.add_tqubit("data", sut.CTYPE["REP"], {"d": even}),
        "get": lambda: treg[many],
        "op_index": lambda: getattr(tc, ["stabilize", "x", "z", "reset_z", "reset_x", "id", "id_data", "measure_z", "measure_x",
                                        "measure_lattice_z", "measure_lattice_x"][salt % 11])(many),
        "cx_none": lambda: tq.cx(),
        "cx_both": lambda: tq.cx(control=w.data[(q + 1) % w.n][0], target=w.data[q][0]),
        "cx_half_t": lambda: tc.cx(q, (q + 1) % w.n, ancilla_ctype=surf),
        "cx_half_p": lambda: tc.cx(q, (q + 1) % w.n, ancilla_params={"d": 3}),
        "cx_anc_type": lambda: tc.cx(q, (q + 1) % w.n, "Steane", {"d": 3}),
        "cx_anc_even": lambda: tc.cx(q, (q + 1) % w.n, surf, {"d": even}),
        "cx_anc_rep": lambda: tc.cx(q, (q + 1) % w.n, sut.CTYPE["REP"], {"d": (3, 3)}),
        "cx_index": lambda: tc.cx(*[(q, many), (many, q)][salt % 2]),
        "name_part": lambda: name_part(surf, salt),
        "step_taken": lambda: step_taken(surf, salt),
        "cond_foreign": lambda: [tq.x_c_if, tq.z_c_if][salt % 2](sut.ClassicalRegister(1 + salt // 2 % 2, "elsewhere"), 1),
        "cond_negative": lambda: [tq.x_c_if, tq.z_c_if][salt % 2](w.slots[0], -1 - salt // 2 % 3),
        "read_foreign": lambda: [tq.readout_x, tq.readout_z, lambda c: tc.measure_x(tq, c), lambda c: tc.measure_z(q, c)][salt % 4](sut.ClassicalRegister(1, "elsewhere")),
        "cx_foreign": lambda: cx_foreign(tc, tq, q, surf, salt),
        "cx_own": lambda: tq.cx(**{["control", "target"][salt % 2]: w.data[q][salt // 2 % len(w.data[q])]}),
        "cx_same": lambda: tc.cx(*[(q, q), (tq, q), (q, tq), (tq, tq)][salt % 4], *[(), ("XXZZ", {"d": 3})][salt // 4 % 2]),
        "cx_helper": lambda: cx_helper(tc, treg, q, salt) if had_cx else "skip",
        "dup": lambda: sut.QUBIT[w.codes[q]](w.params[q], name=w.tq[q].name, circ=w.circ),
    }
    if (kind.startswith("cx_anc") or kind == "sub") and had_cx:
        return "skip"
    try:
        if reqs[kind]() == "skip":
            return "skip"
    except Violation:
        raise
    except Exception as e:
        return e
    return None


def name_later(w, surf):
    """The second of two new qubits would get the name of an old one."""
    circ = sut.QuantumCircuit()
    old = sut.QUBIT["REP"]({"d": 3}, name="late_1", circ=circ)
    treg = sut.TopologicalRegister(circ=circ, name="late")
    before = (len(circ.qregs), len(circ.qubits), len(circ.clbits))
    try:
        treg.add_tqubits("data", [surf, surf], [{"d": 3}, {"d": 3}])
    except Exception:
        if (len(circ.qregs), len(circ.qubits), len(circ.clbits)) != before:
            raise Violation("rejected request changed the circuit", "two qubits, the second with a name already taken: the first was added")
        for key in (0, "data"):
            try:
                left = treg[key]
            except Exception:
                continue
            if left:
                raise Violation("rejected request left a qubit behind", "two qubits, the second with a name already taken")
        old.reset_z()
        raise


def content(circ):
    """What a circuit holds, in plain terms."""
    at = {b: k for k, b in enumerate(circ.qubits)}
    at.update({b: k for k, b in enumerate(circ.clbits)})
    return (
        [(r.name, len(r)) for r in circ.qregs], [(r.name, len(r)) for r in circ.cregs],
        [(i.operation.name, str(getattr(i.operation, "condition", None)), [at[b] for b in i.qubits], [at[b] for b in i.clbits]) for i in circ.data],
    )


def differ(a, b):
    return "; ".join(f"{n} {[x for x in p if x not in q][:4]} against {[x for x in q if x not in p][:4]} ({len(p)}, {len(q)})"
                     for n, p, q in zip(("quantum registers", "classical registers", "instructions"), a, b) if p != q)


def name_part(surf, salt):
    """One of the registers of a new qubit has a name that is already taken, the others do not."""
    make = lambda: sut.QUBIT["XZZX" if surf == "XZZX" else "XXZZ"]({"d": 3}, name="n", circ=circ)
    circ = sut.QuantumCircuit()
    make()
    names = [r.name for r in circ.qregs]
    circ = sut.QuantumCircuit()
    circ.add_register([sut.QuantumRegister, sut.ClassicalRegister][salt % 2](1, names[salt // 2 % len(names)]))
    before = content(circ)
    treg = sut.TopologicalRegister(circ=circ, name="n")
    try:
        if salt // 8 % 2:
            make()
        else:  # the register adds its own number to the name
            circ.add_register(sut.ClassicalRegister(1, names[salt // 2 % len(names)].replace("n", "n_0", 1)))
            before = content(circ)
            treg.add_tqubit("data", surf, {"d": 3})
    except Exception:
        if content(circ) != before:
            raise Violation("rejected request changed the circuit", f"a qubit one of whose register names is taken: {differ(before, content(circ))}")
        raise


def step_taken(surf, salt):
    """The register of a round or a readout has a name that is already taken."""
    steps = ["stabilize", "readout_x", "readout_z", "lattice_readout_x", "lattice_readout_z"]
    bad = steps[salt % 5]
    rest = [steps[salt // 5 ** k % 5] for k in range(1, 3)]
    cls = sut.QUBIT["XZZX" if surf == "XZZX" else "XXZZ"]
    lead = salt // 7 % 8 // 6  # how many had a free name before
    probe = cls({"d": 3}, name="n")
    for _ in range(lead + 1):
        getattr(probe, bad)()
    taken = probe.circ.cregs[-1].name
    err = None
    out = []
    for ask in (True, False):
        circ = sut.QuantumCircuit()
        circ.add_register(sut.ClassicalRegister(1, taken))
        q = cls({"d": 3}, name="n", circ=circ)
        for _ in range(lead):
            getattr(q, bad)()
        if ask:
            before = content(circ)
            try:
                getattr(q, bad)()
            except Exception as e:
                err = e
            if err is None:
                return "skip"  # the library found itself another name
            if content(circ) != before:
                raise Violation("rejected request changed the circuit", f"{bad} number {lead} whose register name is taken: {differ(before, content(circ))}")
        told = []
        for name in rest:
            try:
                getattr(q, name)()
                told.append("done")
            except Exception as e:
                told.append(type(e).__name__)
        out.append((told, content(circ)))
    if out[0] != out[1]:
        raise Violation("rejected requests changed what later requests did", f"{bad} number {lead} whose register name is taken, then {rest}: {out[0][0]} with it, {out[1][0]} without; {differ(out[0][1], out[1][1])}")
    raise err


def cx_foreign(tc, tq, q, surf, salt):
    """A logical CNOT with a qubit that lives in another circuit."""
    treg = sut.TopologicalRegister(ctypes=[surf], params=[{"d": 3}])
    other = treg[0]
    before = content(treg.circ)
    try:
        tc.cx(*[(other, q), (q, other), (tq, other), (other, tq)][salt % 4])
    except Exception:
        if content(treg.circ) != before:
            raise Violation("rejected request changed the circuit", f"a logical CNOT across circuits: {differ(before, content(treg.circ))}")
        raise


def cx_helper(tc, treg, q, salt):
    """The helper of the logical CNOT as its control or target."""
    k, helper = list(treg["ancilla"].items())[-1]
    h = [k, helper][salt // 2 % 2]
    tc.cx(*[(h, q), (q, h)][salt % 2])


def snapshot(w):
    return (
        len(w.circ.data), len(w.circ.qubits), len(w.circ.clbits),
        [(r.name, len(r)) for r in w.circ.qregs], [(r.name, len(r)) for r in w.circ.cregs],
        len(w.tq), [str(p) for p in getattr(w.tcirc.treg, "params", None) or ()],
    )


def stream(scen, ctx, with_bad):
    w = World(scen["spec"], ctx)
    treg = w.tcirc.treg
    pending = None
    had_cx = False
    for op in scen["ops"]:
        if op[0] == "bad":
            if not with_bad:
                continue
            before = snapshot(w)
            e = bad_request(w, op[1], op[2], op[3], had_cx)
            if isinstance(e, str):
                continue
            if e is None:
                raise Violation("invalid request accepted", f"{op[1]}")
            ctx.fire("bad_" + op[1])
            ctx.fire("rejected_request")
            after = snapshot(w)
            if after != before:
                raise Violation("rejected request changed the circuit", f"{op[1]} ({type(e).__name__}): {before} became {after}")
            try:
                treg[len(w.tq) + had_cx]
            except Exception:
                pass
            else:
                raise Violation("rejected request left a qubit behind", f"{op[1]}")
            pending = op[1]
        elif op[0] == "add":
            with ctx.sut("add qubit"):
                treg.add_tqubits(op[2], [sut.CTYPE[op[1]["code"]]], [sut.params(op[1]["code"], op[1]["d"], op[1].get("spell")) or {}])
                k = len(w.tq) + had_cx
                tq = treg[k]
                w.tcirc.reset_z(k)
                w.tcirc.stabilize(k)
            w.tq.append(tq)
            if with_bad and pending:
                ctx.probe("add_after_bad")
        else:
            w.apply(op)
            if op[0] == "cx":
                had_cx = True
                if with_bad and pending and (pending.startswith("cx_anc") or pending == "sub"):
                    ctx.probe("cx_after_bad_ancilla")
    return w


def run(scen, ctx):
    a = stream(scen, ctx, True)
    b = stream(scen, ctx, False)
    sa, sb = snapshot(a), snapshot(b)
    if sa != sb:
        raise Violation("rejected requests changed what later requests did", f"{sa} with them, {sb} without")
    out = []
    for w in (a, b):
        w.program()
        out.append(w.run(8, scen["seed"]).clbits)
    if out[0] != out[1]:
        raise Violation("rejected requests changed the results", f"{out[0]} with them, {out[1]} without")
    kinds = [op[0] == "bad" for op in scen["ops"]]
    ctx.nontrivial = any(kinds) and not all(kinds)
    ctx.sig(scen["spec"], scen["ops"])


def shrink(scen):
    yield from generic_shrink(scen, ["ops"])
