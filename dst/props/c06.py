"""C06: one fault anywhere in the circuit, whatever it propagates to, is corrected."""
from dst import memory, sut
from dst.core import Violation
from dst.gen import arrange, lat_of, pick_qubit, simpler
from dst.oracle import space
from dst.device import execute

ID = "C06"
LEVEL = "fault_enumeration"
RUNS = {"quick": 4800, "thorough": 24000}
CHUNK = 4
REAL = ["encoders: every instruction of a syndrome round", "readout parsing", "matching decoder"]
STUB = ["quantum device: exact stabilizer simulator; one device per fault"]
ASSUMPTIONS = ["single faults between the reference round and the final lattice readout", "records that one answer does not explain better than the other are not judged"]
RULE = (
    "A run draws a code and shape (3 to 5 and one-dimensional, one in eight 7 or 9 wide; thorough 7), where in the circuit the qubit lives, a stored value, 2-4 rounds with gates between them, and a block of up to 1500 consecutive places of the list of all "
    "single faults (every Pauli, or pair of Paulis after a two-qubit gate, after and before every instruction of the rounds after the first, and every flipped "
    "recorded bit); each is executed on its own simulated device and decoded; distinct by (configuration, block), non-trivial = every block."
)
MUST_REACH = ["single_qubit_fault", "correlated_fault", "recorded_bit_flip", "diagonal_hit_pair", "record_changed"]
BLOCK = 1500
PAIRS = [a + b for a in "IXYZ" for b in "IXYZ"][1:]


WIDE = [[7, 3], [3, 7], [5, 7], [7, 5], 7, [9, 3], [3, 9]]


def gen(rng, i, tier):
    big = rng.random() < 0.12
    while True:
        q = pick_qubit(rng)
        if big:
            q = {"code": rng.choice(["XXZZ", "XZZX"]), "d": rng.choice(WIDE)}
        lat = lat_of(q)
        if big or max(lat.dh, lat.dw) <= (5 if tier == "quick" else 7) or (lat.n <= 9):
            break
    # on a line only one type is protected
    basis = "z" if lat.dw == 1 else "x" if lat.dh == 1 else rng.choice("xz")
    ops = memory.one_program(rng, 0, rng.randint(2, 4 if lat.n < 12 else 2 if big else 3), "l" + basis, "r" + basis, gates=0.1)
    spec = {"qubits": [q], "via": "qubit"}
    if rng.random() < 0.3:
        spec["via"] = rng.choice(["qubit", "treg"])
        arrange(rng, spec)
    return {"spec": spec, "ops": ops, "seed": rng.getrandbits(32), "faults": [],
            "block": rng.randrange(1 << 20), "only": None}


def run(scen, ctx):
    base = dict(scen, shots=1)
    m = memory.Memory(base, ctx)
    if not m.ok or len(m.plan[0]["rounds"]) < 2:
        return
    w = m.w
    o = m.plan[0]
    typ = o["final"][2]
    lat = w.lats[0]
    first = w.steps[o["rounds"][0]][2]  # just after the reference round
    last = w.steps[o["final"][0]][2]
    places = []
    for st in range(first, last):
        for op in w.prog.steps[st]:
            k = op[0]
            if k in ("cx", "cz", "cy", "swap"):
                for pq in PAIRS:
                    places.append(("f", st + 1, [(p, qq) for p, qq in zip(pq, op[1:3]) if p != "I"]))
            elif k == "if":
                continue
            else:
                for p in "XYZ":
                    places.append(("f", st, [(p, op[1])]))
                    places.append(("f", st + 1, [(p, op[1])]))
                if k == "m":
                    places.append(("m", op[2], None))
    if scen["only"] is not None:
        mine = [scen["only"] % len(places)]
        lo = 0
    else:
        nblocks = (len(places) + BLOCK - 1) // BLOCK
        lo = scen["block"] % nblocks * BLOCK
        mine = list(range(lo, min(lo + BLOCK, len(places))))
    shots = len(mine)
    faults, readout = [], []
    for s, j in enumerate(mine):
        kind, where, what = places[j]
        if kind == "m":
            readout.append((where, 1 << s))
            ctx.probe("recorded_bit_flip")
        else:
            for p, qq in what:
                faults.append((where, p, qq, 1 << s))
            ctx.probe("correlated_fault" if len(what) > 1 else "single_qubit_fault")
    r = execute(w.prog, shots, scen["seed"], faults, readout, trace=False)
    ctx.add("shots", shots)
    ctx.add("device_runs")
    for k, n in r.fired.items():
        ctx.fire("pauli_" + k if k != "readout_flip" else k, n)
    strings = w.prog.strings(r.clbits, shots)
    T = len(o["rounds"])
    spec = scen["spec"]["qubits"][0]
    with ctx.sut("decoder construct"):
        dec = sut.decoder(spec["code"], spec["d"], T, spec.get("spell"))
    true = 0
    anti = "X" if typ == "Z" else "Z"
    if sum(g == anti for _, g in o["gates"]) % 2:
        true = 1
    sp = space(lat, typ, T)
    index = {c: k for k, c in enumerate(lat.checks[typ])}
    answers = {}
    for s, string in enumerate(strings):
        with ctx.sut("parse_readout"):
            lv, syn = dec.parse_readout(string, typ)
        key = (lv, tuple(sorted(syn[typ])))
        if key not in answers:
            with ctx.sut("correct_readout"):
                answers[key] = dec.correct_readout(string, typ)
            ctx.add("decodes")
        hits = key[1]
        ctx.probe("record_changed", int(bool(hits)))
        if len(hits) == 2:
            (t0, *a), (t1, *b) = hits
            ctx.probe("diagonal_hit_pair", int(t0 != t1 and a != b))
        if answers[key] != true:
            try:
                ids = [(int(t), index[(i, j)]) for t, i, j in hits]
            except KeyError:
                ids = None
            if ids is not None and len(ids) <= 12:
                w0, w1 = sp.class_minima(ids)
                if w0 == w1:
                    ctx.probe("ambiguous")
                    continue
            kind, where, what = places[mine[s]]
            if kind == "m":
                desc = f"recorded bit {where} flipped"
            else:
                names = {v: f"{k.register.name}[{k.index}]" if hasattr(k, "index") else str(v) for k, v in w.prog.qidx.items()}
                desc = f"{[(p, names[qq]) for p, qq in what]} at instruction {where}"
            raise Violation(
                "single fault not corrected",
                f"{lat.code} {lat.dh}x{lat.dw} {typ} T={T} place {mine[s]}: {desc}: stored {true}, decoded {answers[key]} from '{string}', hits {list(hits)}",
            )
    ctx.log(strings)
    ctx.nontrivial = True
    ctx.sig(spec, [x[0] for x in scen["ops"]], lo)


def shrink(scen):
    if scen["only"] is None:
        # the message names the place; try it alone
        from dst.core import run_one, verdict
        import sys

        mod = sys.modules[__name__]
        r = verdict(mod, [], scen)
        msg = (r.get("ok") or {}).get("message", "")
        if " place " in msg:
            yield {**scen, "only": int(msg.split(" place ")[1].split(":")[0])}
        return
    n = len(scen["ops"])
    for s in simpler(scen["spec"]):
        yield {**scen, "spec": s}
    for k in reversed(range(n)):
        ops = scen["ops"][:k] + scen["ops"][k + 1:]
        if memory.plan(ops, 1) is not None and scen["ops"][k][0] != "stab":
            # positions move with the instruction stream: try a few
            for only in range(max(0, scen["only"] - 60), scen["only"] + 1, 6):
                yield {**scen, "ops": ops, "only": only}
