"""C04: any fault set of at most (d-1)/2 relevant faults is corrected."""
from dst import decoding, memory
from dst.core import Violation
from dst.gen import lat_of, mask

ID = "C04"
LEVEL = "exploration"
RUNS = {"quick": 6400, "thorough": 40000}
CHUNK = 20
REAL = ["encoders", "readout parsing", "matching decoder"]
STUB = ["quantum device: exact stabilizer simulator with an explicit fault plan"]
ASSUMPTIONS = ["faults strike between rounds, after the reference round and early enough to be recorded", "matching library trusted only through its answers"]
RULE = (
    "A run draws a code (XXZZ/XZZX/repetition, up to 7x7), a stored value, 1-5 rounds, and gives each of 16 devices its own set of at most "
    "(d-1)/2 data/measurement/readout faults of the decoded type plus any number of faults of the other type; every record is decoded from the string "
    "and from parsed syndromes, with and without (vanishing) error rate; non-trivial = some record has the full (d-1)/2 faults; distinct by (code, operations, faults)."
)
MUST_REACH = ["full_half_distance", "logical_would_be_wrong", "with_err_prob", "from_dict", "measurement_fault", "other_type_noise"]


def directed():
    """A lattice far larger than the sampled ones."""
    ops = [["rz", 0], ["stab", 0], ["lz", 0]]
    faults = [["data", 2, 0, 5, "X", 1], ["data", 2, 0, 400, "X", 2], ["lflip", 0, 77, 3]]
    return [{"spec": {"qubits": [{"code": "REP", "d": 1003}], "via": "qubit"}, "ops": ops, "seed": 1, "shots": 2, "faults": faults,
             "err_prob": None, "as_dict": False}]


def gen(rng, i, tier):
    scen = decoding.setup(rng, tier)
    pos, rr, typ, full = decoding.window(scen)
    lat = lat_of(scen["spec"]["qubits"][0])
    half = (lat.distance(typ) - 1) // 2
    for s in range(scen["shots"]):
        w = rng.choice([half, half, rng.randint(1, half)])
        line = lat.col if typ == "Z" else lat.row  # a line crossing the lattice
        cluster = rng.random() < 0.5
        off = rng.randrange(lat.dw if typ == "Z" else lat.dh)
        for _ in range(w):
            near = None
            if cluster:
                near = rng.choice(line) + (off if typ == "Z" else off * lat.dw)
            scen["faults"].append(decoding.relevant(rng, scen, 1 << s, pos, rr, typ, full, near))
    for _ in range(rng.choice([0, 0, 3, 8])):
        scen["faults"].append(decoding.irrelevant(rng, scen, mask(rng, scen["shots"]), typ))
    scen["err_prob"] = rng.choice([None, None, 1e-12])
    scen["as_dict"] = rng.random() < 0.4
    return scen


def run(scen, ctx):
    if not decoding.in_window(scen):
        return
    d = decoding.Decode(scen, ctx)
    lat = d.ex.lat
    half = (lat.distance(d.typ) - 1) // 2
    for s, string, true, hits in d.cases():
        # faults of the decoded type in this shot, counted independently of any cancellation
        w = 0
        for f in scen["faults"]:
            if not f[-1] >> s & 1:
                continue
            if f[0] == "data":
                ex, ez = lat.effective(f[4], f[3] % lat.n)
                w += ex if d.typ == "Z" else ez
                ctx.probe("other_type_noise", int(ez if d.typ == "Z" else ex))
            elif f[0] == "rflip":
                w += f[3] == d.typ and bool(lat.checks[d.typ])
                ctx.probe("measurement_fault", int(f[3] == d.typ))
            elif f[0] == "lflip":
                w += 1
        if w > half:
            ctx.probe("skipped_too_many")
            continue
        got = d.decode(string, scen["as_dict"], scen["err_prob"])
        ctx.probe("full_half_distance", int(w == half))
        ctx.probe("logical_would_be_wrong", d.ex.flip >> s & 1)
        ctx.probe("with_err_prob", int(scen["err_prob"] is not None))
        ctx.probe("from_dict", int(scen["as_dict"]))
        ctx.log(string, got)
        if got != true:
            raise Violation(
                "not corrected", f"{d.name}: {w} faults (<= {half}), stored {true}, decoded {got} from '{string}', hits {hits}"
            )
        ctx.nontrivial |= w == half
    ctx.sig(scen["spec"]["qubits"], [o[0] for o in scen["ops"]], scen["faults"])


shrink = memory.shrink
