"""C09: a decode request's answer depends on the request alone."""
import copy
import gc
import random

from dst import matching, sut
from dst.core import Violation, generic_shrink
from dst.gen import lat_of, pick_qubit
from dst.oracle import space
from dst.sched import Cancelled, Sched

ID = "C09"
LEVEL = "exploration"
RUNS = {"quick": 4800, "thorough": 24000}
CHUNK = 15
REAL = ["matching decoder", "readout parsing", "decoder construction"]
STUB = ["thread scheduler: one caller thread runs at a time, preempted at source lines chosen by the run's plan",
        "order and orientation of the pairs in the matching library's result set (random per process in reality)"]
ASSUMPTIONS = ["preemption at source line granularity", "matching library calls are atomic"]
RULE = (
    "A run creates 1-3 decoders (params possibly in shared dictionaries) and 2-4 caller threads that send decode and parse requests to them, preempted at "
    "line granularity by an explicit plan, some requests being cancelled in the middle; every answer is compared with a fresh decoder used once "
    "and with the exact reference decoder; non-trivial = at least two context switches inside requests; distinct by switch positions and requests."
)
MUST_REACH = ["switch", "cancelled_request", "weighted_request", "same_decoder_shared", "string_request",
              "caller_reused_params", "refused_request", "very_long_history", "generations"]


def directed():
    return [coming_and_going(random.Random(k)) for k in range(2)]


def coming_and_going(rng):
    """Decoders that are made, asked and dropped one after the other."""
    shapes = [["REP", 3, 4], ["REP", 5, 2], ["PREP", 7, 1], ["XXZZ", 3, 2], ["XZZX", 3, 3], ["XXZZ", [3, 5], 1], ["XZZX", [5, 3], 1], ["REP", 3, 1]]
    decs = [{"code": c, "d": d, "T": T} for c, d, T in rng.sample(shapes, 4)]
    reqs = []
    for k in range(len(decs)):
        for _ in range(3):
            reqs.append(small_request(rng, decs, k))
    return {"decs": decs, "clients": [reqs], "plan": [], "cancels": {}, "generations": [rng.getrandbits(32), rng.choice([60, 100])]}


def small_request(rng, decs, k):
    lat, T = lat_of(decs[k]), decs[k]["T"]
    typ = {"REP": "Z", "PREP": "X"}.get(decs[k]["code"]) or rng.choice("XZ")
    allh = [[t, c] for t in range(T) for c in range(len(lat.checks[typ]))]
    return {"dec": k, "typ": typ, "form": "dict", "value": rng.randint(0, 1), "p": rng.choice([None, None, 0.01, 0.1]),
            "hits": rng.sample(allh, min(len(allh), rng.randint(0, 4)))}


def generations(scen, ctx):
    """Nothing of a decoder that is gone may show in the one that takes its place in memory."""
    decs, reqs = scen["decs"], scen["clients"][0]
    want = []
    for r in reqs:
        with ctx.sut("fresh decoder"):
            want.append(ask(build(sut.Library(), decs[r["dec"]]), r, request_args(decs, r)))
    rng = random.Random(scen["generations"][0])
    lib = sut.Library()
    gc.collect()
    gc.freeze()
    try:
        for g in range(scen["generations"][1]):
            k = rng.randrange(len(reqs))
            r = reqs[k]
            dec = None
            try:
                dec = build(lib, decs[r["dec"]])
                got = ask(dec, r, request_args(decs, r))
            except Exception:
                got = "raised"
            del dec
            gc.collect()
            # whose place a decoder takes is the allocator's affair: the report does not name it
            if got != want[k]:
                raise Violation("answer depends on decoders that are gone", "a decoder made after others were dropped does not answer as one made alone")
            ctx.probe("generations", int(g > 0))
    finally:
        gc.unfreeze()
    ctx.nontrivial = True
    ctx.sig(scen)
    ctx.log(want)


def gen(rng, i, tier):
    if rng.random() < 0.004:
        return coming_and_going(rng)
    ndec = rng.choice([1, 1, 2, 3])
    decs = []
    for _ in range(ndec):
        while True:
            q = pick_qubit(rng, small=True, one_d=False)
            if lat_of(q).n <= 25:
                break
        decs.append({**q, "T": rng.randint(1, 4)})
    if ndec > 1 and rng.random() < 0.5:
        decs[1] = dict(decs[0], T=decs[0]["T"] + 1)
    clients = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        reqs = []
        for _ in range(rng.randint(1, 6)):
            k = rng.randrange(ndec)
            lat = lat_of(decs[k])
            typ = {"REP": "Z", "PREP": "X"}.get(decs[k]["code"]) or rng.choice("XZ")
            T = decs[k]["T"]
            form = rng.choice(["dict", "dict", "string", "parse", "build"])
            r = {"dec": k, "typ": typ, "form": form, "value": rng.randint(0, 1),
                 "p": rng.choice([None, None, 0.01, 0.1, 0.3])}
            nchk = len(lat.checks[typ])
            if form in ("dict", "build"):
                allh = [[t, c] for t in range(T) for c in range(nchk)]
                r["hits"] = rng.sample(allh, min(len(allh), rng.randint(0, 6)))
            else:
                words = ["".join(rng.choice("0001") for _ in range(lat.width)) for _ in range(T + 1)]
                if sum(w.count("1") for w in words) > 6:
                    keep = [(a, b) for a, w in enumerate(words) for b, ch in enumerate(w) if ch == "1"]
                    keep = set(rng.sample(keep, 5))
                    words = ["".join("1" if (a, b) in keep else "0" for b in range(lat.width)) for a in range(T + 1)]
                first = str(r["value"])
                if rng.random() < 0.4 and T > 0:
                    first = "".join(rng.choice("00001") for _ in range(lat.n))
                    words = words[1:]
                r["string"] = " ".join([first] + words)
            reqs.append(r)
        for r in rng.sample(reqs, len(reqs) // 2):  # the same record, asked differently
            r = dict(r)
            other = rng.choice(["typ", "typ", "p", "form", "value", "dec"])
            if other == "typ" and "string" in r and decs[r["dec"]]["code"] in ("XXZZ", "XZZX"):
                r["typ"] = "X" if r["typ"] == "Z" else "Z"
            elif other == "p":
                r["p"] = rng.choice([None, 0.02, 0.2])
            elif other == "form" and "string" in r:
                r["form"] = "parse" if r["form"] == "string" else "string"
            elif other == "value" and "hits" in r:
                r["value"] = 1 - r["value"]
            elif other == "dec":
                same = [k for k in range(ndec) if decs[k]["T"] >= decs[r["dec"]]["T"] and decs[k]["code"] == decs[r["dec"]]["code"] and decs[k]["d"] == decs[r["dec"]]["d"]]
                if "hits" in r:
                    r["dec"] = rng.choice(same)
            reqs.insert(rng.randrange(len(reqs) + 1), r)
        if rng.random() < 0.3:
            for _ in range(rng.choice([1, 1, 2])):
                reqs.insert(rng.randrange(len(reqs) + 1), {**rng.choice([r for r in reqs]), "form": "refused", "bad": rng.randrange(8)})
        clients.append(reqs)
    style = rng.choice(["fine", "coarse", "mixed"])
    plan = []
    for _ in range(rng.randint(0, 60)):
        hi = {"fine": 8, "coarse": 400, "mixed": rng.choice([3, 40, 600])}[style]
        plan.append([rng.randint(1, hi), rng.randrange(4)])
    cancels = {}
    for c in range(len(clients)):
        if rng.random() < 0.25:
            cancels[str(c)] = sorted(rng.sample(range(1, 900), rng.choice([1, 2])))
    return {"decs": decs, "clients": clients, "plan": plan, "cancels": cancels, "share": rng.choice(["no", "no", "equal", "reused"]),
            "order": rng.choice([None, rng.getrandbits(32)]), "fresh": rng.random() < 0.3,
            "flood": [rng.getrandbits(32), rng.choice([80, 150, 300, 600]), rng.choice([1, 1, 2, 4])] if rng.random() < 0.012 else None}


def request_args(decs, r):
    lat = lat_of(decs[r["dec"]])
    if "hits" in r:
        other = "X" if r["typ"] == "Z" else "Z"
        return {r["typ"]: [(float(t),) + lat.checks[r["typ"]][c] for t, c in r["hits"]], other: []}
    return r["string"]


def build(lib, spec, params=None):
    if params is None:
        params = dict(sut.params(spec["code"], spec["d"], spec.get("spell"), decoder=True), T=spec["T"])
    return (lib.RepetitionDecoder if spec["code"] in ("REP", "PREP") else lib.RotatedDecoder)(params)


def ask(dec, r, arg):
    kw = {} if r["p"] is None else {"err_prob": r["p"]}
    if r["form"] == "parse":
        return dec.parse_readout(arg, r["typ"])
    if isinstance(arg, str):
        return dec.correct_readout(arg, r["typ"], **kw)
    return dec.correct_readout(arg, r["typ"], r["value"], **kw)


def refused(dec, r, arg):
    """A request nobody can answer: whatever it does, it must not disturb the others."""
    kw = {} if r["p"] is None else {"err_prob": r["p"]}
    other = "X" if r["typ"] == "Z" else "Z"
    if isinstance(arg, str):
        calls = [lambda: dec.correct_readout(arg, "Y", **kw), lambda: dec.correct_readout("0", r["typ"], **kw), lambda: dec.parse_readout("q " + arg, r["typ"]),
                 lambda: dec.parse_readout(arg.replace(" ", "0 "), r["typ"]), lambda: dec.correct_readout(arg, None, **kw), lambda: dec.parse_readout(None),
                 lambda: dec.correct_readout(arg[:-1], r["typ"], **kw), lambda: dec.parse_readout(arg, "Y")]
    else:
        far = {r["typ"]: arg[r["typ"]] + [(0.0, 97.5, 98.5)], other: []}
        calls = [lambda: dec.correct_readout(arg, "Y", 0, **kw), lambda: dec.correct_readout({**arg, "Y": arg[r["typ"]]}, "Y", 0, **kw),
                 lambda: dec.correct_readout(far, r["typ"], 0, **kw), lambda: dec.correct_readout({other: []}, r["typ"], 0, **kw),
                 lambda: dec.correct_readout(arg, r["typ"], None, err_prob=0.1), lambda: dec.correct_readout(arg, r["typ"], 1, err_prob=-1),
                 lambda: dec.correct_readout(arg, r["typ"], 1, err_prob="high"), lambda: dec._make_error_graph(far[r["typ"]], r["typ"], err_prob=0.1)]
    try:
        calls[r["bad"]]()
    except Exception as e:
        return type(e).__name__
    return "?"


def run(scen, ctx):
    if scen.get("generations"):
        return generations(scen, ctx)
    decs = scen["decs"]
    shared = {}
    reused = {}
    objs = []
    lib = sut.Library()  # nothing is left over from earlier runs
    with ctx.sut("decoder construct"):
        for spec in decs:
            p = None
            if scen["share"] == "reused":  # the caller keeps one dictionary and fills in each decoder's numbers in turn
                p = reused
                for key in list(p):
                    del p[key]
                p.update(dict(sut.params(spec["code"], spec["d"], spec.get("spell"), decoder=True), T=spec["T"]))
            if scen["share"] == "equal":
                p = shared.setdefault(repr(sorted(spec.items(), key=str)), dict(sut.params(spec["code"], spec["d"], spec.get("spell"), decoder=True), T=spec["T"]))
            objs.append(build(lib, spec, p))
            ctx.fire("caller_reused_params", int(scen["share"] == "reused" and len(objs) > 1))
    if scen["share"] == "reused":
        reused.update(d=(9, 1), T=1)
    # reference answers: decoder of another copy of the library (with fresh: one copy per request), used once, nothing else going on
    ref, alone = [], sut.Library()
    for reqs in scen["clients"]:
        out = []
        for r in reqs:
            if r["form"] == "refused":
                out.append(None)
                continue
            with ctx.sut("fresh decoder"):
                out.append(ask(build(sut.Library() if scen.get("fresh") else alone, decs[r["dec"]]), r, request_args(decs, r)))
        ref.append(out)
    got = [[None] * len(reqs) for reqs in scen["clients"]]
    args = [[request_args(decs, r) for r in reqs] for reqs in scen["clients"]]
    keep = copy.deepcopy(args)
    sched = Sched(scen["plan"], cancels={int(k): list(v) for k, v in scen["cancels"].items()})

    def client(c):
        def body():
            for k, r in enumerate(scen["clients"][c]):
                try:
                    if r["form"] == "refused":
                        got[c][k] = refused(objs[r["dec"]], r, args[c][k])
                        ctx.fire("refused_request", int(got[c][k] != "?"))
                        continue
                    with ctx.sut("request"):
                        dec = build(lib, decs[r["dec"]]) if r["form"] == "build" else objs[r["dec"]]
                        got[c][k] = ask(dec, r, args[c][k])
                except Cancelled:
                    got[c][k] = "cancelled"
        return body

    for c in range(len(scen["clients"])):
        sched.spawn(f"client{c}", client(c))
    with matching.shuffled(scen.get("order")):
        sched.run()
    ctx.fire("matching_order_shuffled", int(scen.get("order") is not None))
    ctx.probe("switch", sched.switches)
    ctx.fire("preemption", sched.switches)
    ctx.fire("cancelled_request", sched.fired_cancels)
    ctx.add("scheduling_points", sched.points)
    used = [{r["dec"] for r in reqs} for reqs in scen["clients"]]
    if any(used[a] & used[b] for a in range(len(used)) for b in range(a)):
        ctx.probe("same_decoder_shared")
    for c, reqs in enumerate(scen["clients"]):
        for k, r in enumerate(reqs):
            g, want = got[c][k], ref[c][k]
            if g == "cancelled" or r["form"] == "refused":
                continue
            check_answer(scen, ctx, r, want, "fresh decoder")
            if g != want:
                raise Violation(
                    "answer depends on other requests", f"client {c} request {k} {r}: got {g}, a fresh decoder says {want}"
                )
            if args[c][k] != keep[c][k]:
                raise Violation("request modified", f"client {c} request {k}: {keep[c][k]} became {args[c][k]}")
            ctx.probe("weighted_request", int(r["p"] is not None))
            ctx.probe("string_request", int(r["form"] == "string"))
    if scen.get("flood"):
        flood(scen, objs, ctx)
    # after the storm, one more request each on the long-lived decoders
    for c, reqs in enumerate(scen["clients"]):
        for k, r in enumerate(reqs):
            if r["form"] == "refused":
                continue
            with ctx.sut("request after the storm"):
                g = ask(objs[r["dec"]], r, request_args(decs, r))
            if g != ref[c][k]:
                raise Violation("answer depends on history", f"{r}: got {g}, a fresh decoder said {ref[c][k]}")
    ctx.nontrivial = sched.switches >= 2
    ctx.sig(sched.trace, decs, scen["clients"])
    ctx.log(sched.trace, got)


def flood(scen, objs, ctx):
    """A very long history of small requests, old ones coming back now and then."""
    decs = scen["decs"]
    seed, n, back = scen["flood"]
    rng = random.Random(seed)
    alone, seen = sut.Library(), []
    for _ in range(n):
        if seen and rng.randrange(4) < back:
            r, want = rng.choice(seen)
        else:
            r = small_request(rng, decs, rng.randrange(len(decs)))
            with ctx.sut("fresh decoder"):
                want = ask(build(alone, decs[r["dec"]]), r, request_args(decs, r))
            check_answer(scen, ctx, r, want, "fresh decoder")
            seen.append((r, want))
        with ctx.sut("request"):
            g = ask(objs[r["dec"]], r, request_args(decs, r))
        if g != want:
            raise Violation("answer depends on history", f"{r} after many others: got {g}, a fresh decoder said {want}")
    ctx.probe("very_long_history")


def check_answer(scen, ctx, r, ans, who):
    """The unweighted answer is also checked against the exact reference decoder."""
    if r["form"] not in ("dict", "build") or r["p"] is not None:
        return
    spec = scen["decs"][r["dec"]]
    sp = space(lat_of(spec), r["typ"], spec["T"])
    w0, w1 = sp.class_minima([tuple(h) for h in r["hits"]])
    if w0 == w1:
        return
    want = r["value"] ^ (w1 < w0)
    if ans != want:
        raise Violation("wrong answer", f"{who}: {spec} {r}: {ans}, fewest faults say {want}")


def shrink(scen):
    yield from generic_shrink(scen, ["plan"])
    if scen.get("flood"):
        yield {**scen, "flood": None}
        for n in (20, 40, 80, 150, 300):
            if n < scen["flood"][1]:
                yield {**scen, "flood": [scen["flood"][0], n, scen["flood"][2]]}
    if scen["cancels"]:
        yield {**scen, "cancels": {}}
    for c in range(len(scen["clients"])):
        if len(scen["clients"]) > 1:
            yield {**scen, "clients": scen["clients"][:c] + scen["clients"][c + 1:], "cancels": {}}
        for k in range(len(scen["clients"][c])):
            cl = [list(x) for x in scen["clients"]]
            del cl[c][k]
            yield {**scen, "clients": cl}
            r = scen["clients"][c][k]
            for h in range(len(r.get("hits", []))):
                cl = [[dict(y) for y in x] for x in scen["clients"]]
                cl[c][k]["hits"] = r["hits"][:h] + r["hits"][h + 1:]
                yield {**scen, "clients": cl}
