"""C08: with an error rate given, the answer maximises degeneracy-weighted likelihood."""
from dst import decoding, memory
from dst.core import Violation
from dst.gen import lat_of, mask
from dst.oracle import space

ID = "C08"
LEVEL = "exploration"
RUNS = {"quick": 4800, "thorough": 40000}
CHUNK = 20
REAL = ["encoders", "readout parsing", "matching decoder with degeneracy weighting"]
STUB = ["quantum device: exact stabilizer simulator with an explicit fault plan"]
ASSUMPTIONS = [
    "0 < error rate < 1/2",
    "answers whose weights differ by no more than the decoder's documented fixed-point resolution (1e-4 per matched pair) are not judged",
    "the reference for records with more than 6 hits trusts an answer only if two solvers (matching, 0-1 program) agree on it",
]
RULE = (
    "A run draws a code and shape, 1-4 rounds, noise on 16 devices and an error rate between 1e-6 and 0.45; each record is decoded with that rate and compared "
    "with an exact search (beyond 6 hits, one minimum weight matching per answer, confirmed by a 0-1 program) over all pairings weighted by independently counted shortest chains; non-trivial = a judged record where weighting matters "
    "(answers tie or differ without weighting) or at least three hits; distinct by (code, operations, faults, rate)."
)
MUST_REACH = ["judged", "weighting_decides", "odd_number_of_hits", "large_rate", "ten_or_more_hits"]
LIMIT = 6


def gen(rng, i, tier):
    heavy = rng.random() < 0.25
    scen = decoding.setup(rng, tier, maxn=121 if heavy else 49, rounds=(1, 4), shots=8 if heavy else 16, roomy=heavy)
    pos, rr, typ, full = decoding.window(scen)
    lat = lat_of(scen["spec"]["qubits"][0])
    for s in range(scen["shots"]):
        for _ in range(rng.randint(4, 24) if heavy else rng.randint(1, 4)):
            scen["faults"].append(decoding.relevant(rng, scen, 1 << s, pos, rr, typ, full))
    scen["p"] = rng.choice([1e-6, 1e-3, 0.01, 0.04, 0.05, 0.07, 0.1, 0.16, 0.2, 0.3, 0.4, 0.45, round(rng.uniform(0.001, 0.45), 4)])
    scen["as_dict"] = rng.random() < 0.3
    return scen


def run(scen, ctx):
    if not decoding.in_window(scen):
        return
    d = decoding.Decode(scen, ctx)
    sp = space(d.ex.lat, d.typ, d.T)
    p = scen["p"]
    for s, string, true, hits in d.cases():
        raw = d.fixed >> s & 1
        got = d.decode(string, scen["as_dict"], err_prob=p)
        if not hits:
            if got != raw:
                raise Violation("changed a clean record", f"{d.name}: '{string}' read {raw}, decoded {got}")
            continue
        ids = d.hit_ids(hits)
        wm = sp.weighted_minima(ids, p) if len(hits) <= LIMIT else None
        large = wm is None
        if large:
            wm = sp.many(ids, p)
        w0, w1 = wm
        if abs(w0 - w1) <= 2e-4 * len(hits) + 1e-6:
            ctx.probe("too_close")
            continue
        want = raw ^ (w1 < w0)
        ctx.probe("judged")
        ctx.probe("odd_number_of_hits", len(hits) & 1)
        ctx.probe("large_rate", int(p >= 0.2))
        ctx.probe("ten_or_more_hits", int(len(hits) >= 10))
        u0, u1 = sp.class_minima(ids) if len(hits) <= 11 else sp.many(ids)
        decides = u0 == u1 or (u1 < u0) != (w1 < w0)
        ctx.probe("weighting_decides", int(decides))
        ctx.log(string, got)
        if got != want and large and not sp.confirmed(ids, p):
            ctx.probe("solvers_disagree")
            continue
        if got != want:
            raise Violation(
                "not the likeliest answer",
                f"{d.name} p={p}: hits {hits}, read {raw}; weights keep {w0:.5f} flip {w1:.5f}, decoder answered {got} ('{string}')",
            )
        ctx.nontrivial |= decides or len(hits) >= 3
    ctx.sig(scen["spec"]["qubits"], [o[0] for o in scen["ops"]], scen["faults"], p)


shrink = memory.shrink
