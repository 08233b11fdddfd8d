"""C05: fewer than d faults never change the logical value without leaving a syndrome."""
from dst import decoding, memory
from dst.core import Violation
from dst.gen import lat_of, mask
from dst.world import norm_hits

ID = "C05"
LEVEL = "exploration"
RUNS = {"quick": 18000, "thorough": 90000}
CHUNK = 25
REAL = ["encoders", "readout parsing"]
STUB = ["quantum device: exact stabilizer simulator with an explicit fault plan"]
ASSUMPTIONS = ["faults strike between rounds, after the reference round and early enough to be recorded"]
RULE = (
    "A run draws a code and shape and gives each of 32 devices fewer than d relevant faults, biased to almost complete lattice-crossing chains, "
    "their detours and repetitions in time; a record whose logical value is wrong must contain a syndrome hit; "
    "non-trivial = some record had a wrong raw logical value; distinct by (code, operations, faults)."
)
MUST_REACH = ["raw_logical_wrong", "weight_d_minus_1", "no_hits"]


def chain(rng, lat, typ):
    """A random lattice-crossing chain of data qubits for errors that flip typ readouts."""
    n, m = (lat.dh, lat.dw) if typ == "Z" else (lat.dw, lat.dh)
    c = rng.randrange(m)
    out = []
    for r in range(n):
        out.append(r * lat.dw + c if typ == "Z" else c * lat.dw + r)
        if rng.random() < 0.5:
            c = min(m - 1, max(0, c + rng.choice([-1, 1])))
    return out


def gen(rng, i, tier):
    scen = decoding.setup(rng, tier, shots=32)
    pos, rr, typ, full = decoding.window(scen)
    lat = lat_of(scen["spec"]["qubits"][0])
    dist = lat.distance(typ)
    t = None
    for s in range(scen["shots"]):
        w = dist - 1 if rng.random() < 0.6 else rng.randint(1, dist - 1)
        ch = chain(rng, lat, typ)
        rng.shuffle(ch)
        same_time = rng.random() < 0.5
        t = rng.choice(pos) if pos else None
        for k in range(w):
            q = ch[k] if rng.random() < 0.85 else rng.randrange(lat.n)
            if same_time and t is not None:
                scen["faults"].append(["data", t, 0, q, lat.physical(typ, q), 1 << s])
            else:
                scen["faults"].append(decoding.relevant(rng, scen, 1 << s, pos, rr, typ, full, q))
    for _ in range(rng.choice([0, 0, 4])):
        scen["faults"].append(decoding.irrelevant(rng, scen, mask(rng, scen["shots"]), typ))
    return scen


def run(scen, ctx):
    if not decoding.in_window(scen):
        return
    m = memory.Memory(scen, ctx)
    o, ex, strings, fixed = m.per[0]
    lat, typ = ex.lat, o["final"][2]
    dist = lat.distance(typ)
    true = fixed ^ (ex.flip & ((1 << scen["shots"]) - 1))
    for s, string in enumerate(strings):
        w = 0
        for f in scen["faults"]:
            if f[-1] >> s & 1:
                if f[0] == "data":
                    e = lat.effective(f[4], f[3] % lat.n)
                    w += e[0] if typ == "Z" else e[1]
                elif f[0] == "rflip":
                    w += f[3] == typ and bool(lat.checks[typ])
                elif f[0] == "lflip":
                    w += 1
        if w >= dist:
            continue
        logical, syn = m.w.parse(0, string, typ)
        hits = norm_hits(syn)[typ]
        wrong = logical != (true >> s & 1)
        ctx.probe("raw_logical_wrong", int(wrong))
        ctx.probe("weight_d_minus_1", int(w == dist - 1))
        ctx.probe("no_hits", int(not hits))
        ctx.nontrivial |= wrong
        if wrong and not hits:
            raise Violation(
                "silent logical error", f"{lat.code} {lat.dh}x{lat.dw} {typ}: {w} < {dist} faults, no syndrome, stored {true >> s & 1} read {logical} ('{string}')"
            )
    ctx.log(strings)
    ctx.sig(scen["spec"]["qubits"], [x[0] for x in scen["ops"]], scen["faults"])


shrink = memory.shrink
