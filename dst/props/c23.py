"""C23: the documented steps of fitting (error graph, matches, matched graph) show a cheapest full explanation of the hits."""
import math
import random

from dst import decoding, matching, memory
from dst.core import Violation
from dst.gen import lat_of, mask
from dst.oracle import space

ID = "C23"
LEVEL = "exploration"
RUNS = {"quick": 3600, "thorough": 25000}
CHUNK = 20
REAL = ["encoders", "readout parsing", "error graph construction, matching and matched graph of the decoder"]
STUB = ["quantum device: exact stabilizer simulator with an explicit fault plan", "order and orientation in which the matching library reports its pairs"]
ASSUMPTIONS = [
    "the reference for records with more than 9 hits (6 with an error rate) is believed only if two solvers (matching, 0-1 program) agree on it",
    "with an error rate, costs within the decoder's fixed-point resolution (1e-4 per pair) of the best are accepted",
]
RULE = (
    "A run draws a code, shape, rounds and noise on 16 devices; the hits of both types of every record go through error graph, matches and matched graph, in an "
    "order drawn by the scenario, with the matching library's result order shuffled anew each time and some steps repeated on the same graph; every matching is "
    "priced with independently computed distances and chain counts and compared with the exact optimum (search; for many hits, matching confirmed by a 0-1 program); non-trivial = at least three hits; distinct by "
    "(code, operations, faults, steps)."
)
MUST_REACH = ["syndrome_graph", "matches", "matched_graph", "weighted", "unweighted", "odd_number_of_hits", "boundary_match", "repeated_step", "other_type", "no_hits", "twelve_or_more_hits"]
LIMIT = {False: 9, True: 6}


def gen(rng, i, tier):
    heavy = rng.random() < 0.25
    scen = decoding.setup(rng, tier, maxn=121 if heavy else 35, rounds=(1, 4), shots=4 if heavy else 16, roomy=heavy)
    pos, rr, typ, full = decoding.window(scen)
    for s in range(scen["shots"]):
        for _ in range(rng.randint(5, 20) if heavy else rng.randint(0, 5)):
            scen["faults"].append(decoding.relevant(rng, scen, 1 << s, pos, rr, typ, full))
    for _ in range(rng.choice([0, 2, 4])):
        scen["faults"].append(decoding.irrelevant(rng, scen, mask(rng, scen["shots"]), typ))
    scen["p"] = rng.choice([None, None, 1e-4, 0.01, 0.05, 0.1, 0.2, 0.4, round(rng.uniform(0.001, 0.45), 4)])
    scen["steps"] = [rng.choice(["m", "g"]) for _ in range(rng.randint(1, 4))]
    return scen


def content(g):
    """Nodes and weighted edges, in a comparable form."""
    ns = [tuple(float(x) for x in n) for n in g.nodes()]
    return sorted(ns), sorted((tuple(sorted((ns[a], ns[b]))), float(w)) for a, b, w in named(g))


def named(g):
    """Weighted edges by position in nodes()."""
    at = {k: n for n, k in enumerate(g.node_indexes())}
    return [(at[a], at[b], w) for a, b, w in g.weighted_edge_list()]


class Price:
    """Independent cost of one match."""

    def __init__(self, sp, lat, typ, p):
        self.sp, self.p = sp, p
        self.index = {c: k for k, c in enumerate(lat.checks[typ])}
        self.face = {f: k for k, f in enumerate(sp.vfaces)}
        self.base = sp.nchk * sp.T

    def __call__(self, a, b):
        if a[0] == -1:
            a, b = b, a
        if a[0] == -1:
            raise Violation("boundary matched with boundary", f"{a} {b}")
        dist, cnt = self.sp.bfs(self.sp.node((int(a[0]), self.index[a[1:]])))
        if b[0] == -1:
            if b[1:] not in self.face:
                raise Violation("matched with nothing", f"{a} with {b}, which is no place at the boundary")
            d = dist[self.base + self.face[b[1:]]]
            n = sum(cnt[self.base + v] for v in range(self.sp.nvf) if dist[self.base + v] == d)
        else:
            u = self.sp.node((int(b[0]), self.index[b[1:]]))
            d, n = dist[u], cnt[u]
        if self.p is None:
            return float(d)
        return d - math.log(n) / (math.log1p(-self.p) - math.log(self.p))


def ground(dec, lat, typ, T, sp, name, ctx):
    """The syndrome graph joins what a single fault can change together, and nothing else."""
    base = sp.nchk * T
    pos = [(float(t),) + tuple(map(float, c)) for t in range(T) for c in lat.checks[typ]] + [(-1.0,) + tuple(map(float, f)) for f in sp.vfaces]
    assert len(pos) == base + sp.nvf
    want = sorted(tuple(sorted((pos[u], pos[v]))) for u in range(len(pos)) for v in sp.adj[u] if u < v)
    ns, es = content(dec.S[typ])
    if ns != sorted(pos):
        raise Violation("syndrome graph", f"{name}: places {sorted(set(ns) ^ set(pos))[:6]} or repeated ones")
    if [e for e, _ in es] != want:
        got = [e for e, _ in es]
        raise Violation("syndrome graph", f"{name}: missing links {[e for e in want if e not in got][:3]}, extra links {[e for e in got if e not in want or got.count(e) > 1][:3]}")
    if len({w for _, w in es}) > 1:
        raise Violation("syndrome graph", f"{name}: links weigh {sorted({w for _, w in es})}")
    ctx.probe("syndrome_graph")


def judge(what, pairs, hits, price, best, tol, name, ctx, sure):
    """pairs explain the hits, each once, and as cheaply as possible."""
    used = [tuple(float(x) for x in e) for pr in pairs for e in pr]
    real = sorted(e for e in used if e[0] != -1)
    if real != sorted(hits):
        raise Violation("hits not matched once each", f"{name} {what}: hits {sorted(hits)}, matched {real}")
    virt = [e for e in used if e[0] == -1]
    if len(set(virt)) != len(virt):
        raise Violation("boundary place used twice", f"{name} {what}: {sorted(virt)}")
    cost = sum(price(*[tuple(float(x) for x in e) for e in pr]) for pr in pairs)
    ctx.probe("boundary_match", int(bool(virt)))
    if cost > best + tol and not sure():
        ctx.probe("solvers_disagree")
        return
    if cost > best + tol:
        raise Violation("not the cheapest matching", f"{name} {what}: hits {sorted(hits)}, pairs {sorted(pairs)} cost {cost:.5f}, possible is {best:.5f}")


def run(scen, ctx):
    if not decoding.in_window(scen):
        return
    d = decoding.Decode(scen, ctx)
    lat = d.ex.lat
    p = scen["p"]
    types = [d.typ]
    if d.spec["code"] in ("XXZZ", "XZZX") and lat.dh > 1 and lat.dw > 1:
        types.append("X" if d.typ == "Z" else "Z")
    rng = random.Random(scen["seed"] ^ 0xE8)
    seen = set()
    if not all(hasattr(d.dec, "_" + x) for x in ("make_error_graph", "run_mwpm", "run_mwpm_graph")):  # the steps are not offered one by one
        for x in MUST_REACH:
            ctx.probe("no:" + x)
        types = []
    for typ in types:
        ground(d.dec, lat, typ, d.T, space(lat, typ, d.T), f"{d.name} {typ}", ctx)
    for s, string in enumerate(d.strings):
        with ctx.sut("parse_readout"):
            _, syn = d.dec.parse_readout(string, d.typ)
        for typ in types:
            hits = sorted(tuple(float(x) for x in h) for h in syn[typ])
            key = (typ, tuple(hits))
            if key in seen:
                continue
            seen.add(key)
            if any(h[0] >= d.T for h in hits):
                continue
            large = len(hits) > LIMIT[p is not None]
            sp = space(lat, typ, d.T)
            index = {c: k for k, c in enumerate(lat.checks[typ])}
            ids = [(int(h[0]), index[h[1:]]) for h in hits]
            if large:
                wm = sp.many(ids, p)
            else:
                wm = sp.class_minima(ids) if p is None else sp.weighted_minima(ids, p)
            if wm is None:
                continue
            best, tol = min(wm), 1e-9 if p is None else 1e-4 * (len(hits) + 1)
            ctx.probe("twelve_or_more_hits", int(len(hits) >= 12))
            ctx.probe("weighted" if p is not None else "unweighted")
            ctx.probe("odd_number_of_hits", len(hits) & 1)
            ctx.probe("other_type", int(typ != d.typ))
            ctx.probe("no_hits", int(not hits))
            name = f"{d.name} {typ}" + (f" p={p}" if p is not None else "")
            sure = (lambda: sp.confirmed(ids, p)) if large else (lambda: True)
            price = Price(sp, lat, typ, p)
            arg = list(syn[typ])
            rng.shuffle(arg)
            kept = list(arg)
            with ctx.sut("make error graph"):
                g = d.dec._make_error_graph(arg, typ) if p is None else d.dec._make_error_graph(arg, typ, err_prob=p)
            if arg != kept:
                raise Violation("request modified", f"{name}: hits {kept} became {arg}")
            before = content(g)
            for (a, b), w in before[1]:
                if a[0] == -1 and b[0] == -1:
                    continue
                c = price(a, b)
                if abs(abs(w) - abs(c)) > 1e-9:
                    raise Violation("wrong weight in error graph", f"{name}: {a}-{b} has {w}, costs {c:.6f}")
            for k, step in enumerate(scen["steps"]):
                ctx.probe("repeated_step", int(step in scen["steps"][:k]))
                if step == "m":
                    with ctx.sut("run mwpm"):
                        pairs = d.dec._run_mwpm(g) if p is None else d.dec._run_mwpm(g, floats=True)
                    judge("matches", [tuple(x) for x in pairs], hits, price, best, tol, name, ctx, sure)
                    ctx.probe("matches")
                else:
                    with ctx.sut("run mwpm graph"):
                        mg = d.dec._run_mwpm_graph(g) if p is None else d.dec._run_mwpm_graph(g, floats=True)
                    ns = [tuple(n) for n in mg.nodes()]
                    edges = named(mg)
                    judge("matched graph", [(ns[a], ns[b]) for a, b, _ in edges], hits, price, best, tol, name, ctx, sure)
                    if len(ns) != 2 * len(edges):
                        raise Violation("loose nodes", f"{name}: matched graph shows {ns} with {len(edges)} matches")
                    for a, b, w in edges:
                        c = price(tuple(map(float, ns[a])), tuple(map(float, ns[b])))
                        if abs(abs(float(w)) - abs(c)) > 1e-9:
                            raise Violation("wrong weight shown", f"{name}: {ns[a]}-{ns[b]} shown with {w}, costs {c:.6f}")
                    ctx.probe("matched_graph")
                if content(g) != before:
                    raise Violation("error graph modified", f"{name} by step {step}")
                ctx.add("matchings")
                ctx.nontrivial |= len(hits) >= 3
            ctx.log(typ, hits)
    for typ in types:  # and fitting leaves it alone
        ground(d.dec, lat, typ, d.T, space(lat, typ, d.T), f"{d.name} {typ} after fitting", ctx)
    ctx.sig(scen["spec"]["qubits"], [o[0] for o in scen["ops"]], scen["faults"], p, scen["steps"])


shrink = memory.shrink
