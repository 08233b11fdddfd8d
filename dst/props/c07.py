"""C07: the decoder's answer is the one that needs the fewest faults, however many there were."""
from dst import decoding, memory
from dst.core import Violation
from dst.gen import lat_of, mask
from dst.oracle import space

ID = "C07"
LEVEL = "exploration"
RUNS = {"quick": 4000, "thorough": 40000}
CHUNK = 20
REAL = ["encoders", "readout parsing", "matching decoder"]
STUB = ["quantum device: exact stabilizer simulator with an explicit fault plan"]
ASSUMPTIONS = ["records in which both answers need equally many faults are not judged", "the reference for records with more than 11 hits trusts an answer only if two solvers (matching, 0-1 program) agree on it"]
RULE = (
    "A run draws a code and shape, 1-5 rounds and noise at a rate well beyond the correctable number of faults on 16 devices; each record is decoded "
    "and compared with an exact dynamic program (beyond 11 hits, one minimum weight matching per answer, confirmed by a 0-1 program) over all explanations of its hits; non-trivial = a judged record with more hits than (d-1)/2 faults explain "
    "or whose best answer is not the stored value; distinct by (code, operations, faults)."
)
MUST_REACH = ["judged", "tie", "best_answer_is_not_stored_value", "six_or_more_hits", "odd_number_of_hits", "fifteen_or_more_hits"]
LIMIT = 11
WEIGHTED = False


def gen(rng, i, tier):
    heavy = rng.random() < 0.25
    scen = decoding.setup(rng, tier, maxn=121 if heavy else 49, shots=8 if heavy else 16, roomy=heavy)
    pos, rr, typ, full = decoding.window(scen)
    lat = lat_of(scen["spec"]["qubits"][0])
    dist = lat.distance(typ)
    for s in range(scen["shots"]):
        w = rng.randint(1, min(8, dist + 2))
        if heavy:
            w = rng.randint(6, 36)
        for _ in range(w):
            scen["faults"].append(decoding.relevant(rng, scen, 1 << s, pos, rr, typ, full))
    for _ in range(rng.choice([0, 2])):
        scen["faults"].append(decoding.irrelevant(rng, scen, mask(rng, scen["shots"]), typ))
    scen["as_dict"] = rng.random() < 0.3
    return scen


def run(scen, ctx):
    if not decoding.in_window(scen):
        return
    d = decoding.Decode(scen, ctx)
    sp = space(d.ex.lat, d.typ, d.T)
    for s, string, true, hits in d.cases():
        raw = d.fixed >> s & 1
        got = d.decode(string, scen["as_dict"])
        ids = d.hit_ids(hits)
        w0, w1 = sp.class_minima(ids) if len(hits) <= LIMIT else sp.many(ids)
        if w0 == w1:
            ctx.probe("tie")
            continue
        want = raw ^ (w1 < w0)
        ctx.probe("judged")
        ctx.probe("six_or_more_hits", int(len(hits) >= 6))
        ctx.probe("fifteen_or_more_hits", int(len(hits) >= 15))
        ctx.probe("odd_number_of_hits", len(hits) & 1)
        ctx.probe("best_answer_is_not_stored_value", int(want != true))
        ctx.log(string, got)
        if got != want and len(hits) > LIMIT and not sp.confirmed(ids):
            ctx.probe("solvers_disagree")
            continue
        if got != want:
            raise Violation(
                "not the fewest faults",
                f"{d.name}: hits {hits}, read {raw}; keeping it needs {w0} faults, flipping it {w1}, decoder answered {got} ('{string}')",
            )
        ctx.nontrivial |= want != true or len(hits) >= 4
    ctx.sig(scen["spec"]["qubits"], [o[0] for o in scen["ops"]], scen["faults"])


shrink = memory.shrink
