"""C03: the parsed record names exactly the checks that changed, and the logical value read."""
from dst.core import Violation
from dst.gen import large_qubit, pick_qubit, tiny_qubit
from dst import memory
from dst.world import norm_hits

ID = "C03"
LEVEL = "exploration"
RUNS = {"quick": 20000, "thorough": 100000}
CHUNK = 30
REAL = ["encoders", "readout parsing (encoder and decoder side)"]
STUB = ["quantum device: exact stabilizer simulator with an explicit fault plan (data Paulis, flipped readouts)"]
ASSUMPTIONS = ["faults strike between rounds; faults inside a round are the subject of C06"]
RULE = (
    "A run draws a code and shape, 1-6 rounds, logical gates, a readout of either kind and type, and Pauli faults on data qubits at "
    "operation boundaries plus flipped syndrome, lattice and logical readouts in random subsets of 16 devices; every parsed record is compared "
    "with an independent lattice model; non-trivial = at least one fault inside the recorded epoch; distinct by (code, shape, operations, fault places)."
)
MUST_REACH = ["hit_reported", "lattice_record", "single_bit_record", "logical_flipped", "readout_flip", "pauli_Y", "decoder_parse", "type_left_out", "same_string_other_type", "hundred_rounds"]


def gen(rng, i, tier):
    q = pick_qubit(rng)
    basis = rng.choice("xz")
    reset = "r" + (basis if rng.random() < 0.8 else rng.choice("xz"))
    final = rng.choice("lm") + basis
    rounds = rng.randint(1, 6 if tier == "quick" else 12)
    if rng.random() < 0.06:
        q, rounds = (large_qubit(rng), rng.randint(1, 2)) if rng.random() < 0.5 else (pick_qubit(rng, small=True), rng.randint(10, 16))
    elif rng.random() < 0.01:
        q, rounds = tiny_qubit(rng), rng.randint(60, 130)
    ops = memory.one_program(rng, 0, rounds, final, reset)
    scen = {"spec": {"qubits": [q], "via": rng.choice(["qubit", "treg"]), "own": rng.random() < 0.2}, "ops": ops, "seed": rng.getrandbits(32),
            "shots": 16, "faults": []}
    f = rng.choice([0.1, 0.3, 0.6])
    memory.random_faults(rng, scen, {"data": f, "rflip": f, "lflip": f, "oflip": f})
    return scen


def compare(m, q, ctx, check_logical=True, parsers=()):
    o, ex, strings, fixed = m.per[q]
    lat = ex.lat
    name = f"{lat.code} {lat.dh}x{lat.dw}"
    basis = o["final"][2]
    ctx.probe("lattice_record" if o["final"][1] else "single_bit_record")
    cache = {}
    for s, string in enumerate(strings):
        if string not in cache:
            if o["final"][1] and 1 not in (lat.dh, lat.dw) and string.count("1") % 3 == 0:
                m.w.parse(q, string, "Z" if basis == "X" else "X")  # some other experiment's record, by chance the same
                ctx.probe("same_string_other_type")
            got = m.w.parse(q, string, basis)
            cache[string] = (got[0], norm_hits(got[1]))
            for label, p in parsers:
                with ctx.sut("decoder parse_readout"):
                    alt = p(string, basis)
                ctx.probe("decoder_parse")
                if (alt[0], norm_hits(alt[1])) != cache[string]:
                    raise Violation("parsers disagree", f"{name} '{string}' encoder {cache[string]} {label} {alt}")
        logical, hits = cache[string]
        want = ex.hits[s]
        for typ in "XZ":
            if hits[typ] != want[typ]:
                raise Violation(
                    "wrong syndrome", f"{name} qubit {q} shot {s} type {typ}: parsed {sorted(hits[typ])} expected {sorted(want[typ])} from '{string}'"
                )
            ctx.probe("hit_reported", len(want[typ]))
        if fixed is not None and check_logical:
            if logical != (fixed >> s & 1):
                raise Violation("wrong logical value", f"{name} qubit {q} shot {s}: parsed {logical}, expected {fixed >> s & 1} from '{string}'")
            ctx.probe("logical_flipped", fixed >> s & 1)
    ctx.log(sorted(cache))


def run(scen, ctx):
    from dst import sut

    m = memory.Memory(scen, ctx)
    if not m.ok:
        return
    spec = scen["spec"]["qubits"][0]
    o = m.per[0][0]
    ctx.probe("hundred_rounds", int(len(o["rounds"]) > 100))
    T = len(o["rounds"]) - 1 + o["final"][1]
    parsers = []
    if T >= 1 and scen["seed"] % 4 == 0 and m.w.lats[0].n <= 25:
        with ctx.sut("decoder construct"):
            d = sut.decoder(spec["code"], spec["d"], T, spec.get("spell"))
        parsers = [("decoder", d.parse_readout)]
    compare(m, 0, ctx, parsers=parsers)
    ctx.nontrivial = bool(ctx.faults)
    ctx.sig(spec, [x[0] for x in scen["ops"]], [f[:-1] for f in scen["faults"]])


shrink = memory.shrink
