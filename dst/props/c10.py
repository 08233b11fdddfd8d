"""C10: look-up decoding answers with the likelier value under the current calibration."""
import gc
import random
from fractions import Fraction

from dst import memory, sut
from dst.core import Violation, generic_shrink

ID = "C10"
LEVEL = "exploration"
RUNS = {"quick": 50000, "thorough": 250000}
CHUNK = 25
REAL = ["look up table decoder", "decoder construction", "logical circuits for device calibrations"]
STUB = ["quantum device (stabilizer simulator under the run's seed) producing calibration counts", "delivery of calibration data (lost, truncated, repeated, replaced)"]
ASSUMPTIONS = ["every calibration that is delivered holds at least one shot", "equal likelihoods may be answered either way"]
RULE = (
    "A run is a history of calibrations (from a simulated noisy device or synthetic), resets, look-ups and caller-side changes to the dictionaries handed in, over one or "
    "two decoders; every answer is compared with Bayes' rule in exact arithmetic on the counts as they were delivered; non-trivial = a look-up whose two likelihoods "
    "differ after at least two calibrations; distinct by history and answers."
)
MUST_REACH = ["calibration_lost", "calibration_partial", "calibration_repeated", "calibration_replaced", "caller_mutated", "caller_reused",
              "unseen", "one_sided", "decided", "reset", "device_calibration", "minority_string", "unequal_totals", "posterior", "posterior_with_prior", "certain_prior", "billions_of_shots", "close_call", "calibration_refused", "looked_up_after_refusal", "very_long_history", "replaced"]
# results that are no counts, as a failed job or a wrong call hands them over
UNUSABLE = {
    "none": lambda r: None,
    "number": lambda r: 7,
    "list": lambda r: list(r),
    "pairs": lambda r: list(r.items()),
    "hole": lambda r: {**r, "0 11": None},
    "words": lambda r: {k: "many" for k in r},
    "memory": lambda r: list(r) * 2,
    "type": lambda r: dict(r),
}


def gen(rng, i, tier):
    ndec = rng.choice([1, 1, 2])
    decs = []
    for _ in range(ndec):
        code = rng.choice(["XXZZ", "XZZX", "REP", "PREP"])
        decs.append({"code": code, "d": 3, "T": rng.randint(1, 2)})
    dev = []
    tables = []
    if rng.random() < 0.35:
        code = decs[0]["code"]
        typ = {"REP": "z", "PREP": "x"}.get(code) or rng.choice("xz")
        R = rng.randint(1, 2)
        for v in (0, 1):
            ops = [["r" + typ, 0]] + ([["x" if typ == "z" else "z", 0]] if v else []) + [["stab", 0]] * R
            ops.append(rng.choice([["m" + typ, 0, None], ["l" + typ, 0]]) if v == 0 else dev[0]["ops"][-1])
            s = {"spec": {"qubits": [{"code": code, "d": 3}]}, "ops": ops, "seed": rng.getrandbits(32), "shots": rng.choice([64, 128]), "faults": []}
            memory.random_faults(rng, s, {"data": 0.5, "rflip": 0.2, "lflip": 0.4, "oflip": 0.5})
            dev.append(s)
    longest = rng.random() < 0.002  # many records, very many requests
    alphabet = ["%s %s" % (rng.choice("01"), format(rng.randrange(4), "02b")) for _ in range(rng.randint(1, 6))]
    if longest:
        alphabet = sorted({"%s %s" % (rng.choice("01"), format(rng.randrange(1024), "010b")) for _ in range(rng.choice([40, 150, 300]))})
    for _ in range(rng.randint(1, 4)):
        tables.append({s: rng.choice([0, 1, 1, 2, 3, 7, rng.randint(1, 3000)]) for s in rng.sample(alphabet, rng.randint(1, len(alphabet)))})
        k = rng.choice(sorted(tables[-1]))
        tables[-1][k] = tables[-1][k] or 1
    if rng.random() < 0.1:  # very many shots
        k = rng.choice([10**6, 10**9, 10**12])
        tables = [{s: c * k + rng.randrange(k) for s, c in t.items()} for t in tables]
        if rng.random() < 0.6:  # hardly different from one another
            tables += [{s: max(0, c + rng.choice([-1, 0, 1, 1 + k // 10**6])) for s, c in tables[0].items()} for _ in range(2)]
            for t in tables[-2:]:
                t[rng.choice(sorted(t))] += 1
            tables = tables[-3:]
    ops = []
    if rng.random() < 0.004:  # decoders that are made, calibrated, asked and dropped one after the other
        dev = []
        for _ in range(rng.randint(30, 60)):
            ops.append(["cal", 0, "Z", rng.randint(0, 1), rng.getrandbits(8), "none", 0])
            ops += [["q", 0, "Z", rng.getrandbits(16)] for _ in range(2)]
            ops.append(["new", 0])
            ops.append(["q", 0, "Z", rng.getrandbits(16)])
    for _ in range(0 if ops else rng.randint(200, 500) if longest else rng.randint(4, 24)):
        k = rng.random()
        d = rng.randrange(ndec)
        typ = "Z" if rng.random() < 0.7 else "X"
        if k < 0.4:
            fault = rng.choice(["none", "none", "none", "lost", "partial", "repeated", "mutate", "mutate", "reuse"])
            ops.append(["cal", d, typ, rng.randint(0, 1), rng.getrandbits(8), fault, rng.getrandbits(16)])
        elif k < 0.46:
            ops.append(["reset", d])
        elif k < 0.47:
            ops.append(["new", d])
        elif k < 0.5:
            ops.append(["bad", d, typ, rng.randint(0, 1), rng.choice(sorted(UNUSABLE)), rng.getrandbits(8)])
        elif k < 0.62:
            a = rng.choice([0.5, 0.25, 0.9, 0.001, rng.random()])
            b = 1 - a
            while rng.random() < 0.5:  # numbers that only nearly add up to one
                b = b * (1 + rng.choice([-1, 1]) * 2.0 ** -rng.randint(42, 52))
            ops.append(["post", d, typ, rng.getrandbits(16), rng.choice([None, [a, b], [b, a], [a, b], [0, 1], [1.0, 0.0]])])
        else:
            ops.append(["q", d, typ, rng.getrandbits(16)])
    return {"decs": decs, "device": dev, "tables": tables, "ops": ops}


def run(scen, ctx):
    with ctx.sut("decoder construct"):
        decs = [sut.decoder(s["code"], s["d"], s["T"], s.get("spell")) for s in scen["decs"]]
    tables = [dict(t) for t in scen["tables"]]
    for s in scen["device"]:
        m = memory.Memory(s, ctx)
        counts = {}
        for string in m.per[0][2]:
            counts[string] = counts.get(string, 0) + 1
        tables.append(counts)
    nsyn = len(scen["tables"])
    model = [{t: {0: {}, 1: {}} for t in "XZ"} for _ in decs]
    words = sorted({s for t in tables for s in t})
    unseen = ["0 " + "1" * 9, "", "1 22"]
    many = sum(op[0] == "new" for op in scen["ops"]) > 8
    if many:
        gc.collect()
        gc.freeze()
    try:
        history(scen, ctx, decs, tables, nsyn, model, words, unseen, gc.collect if many else lambda: None)
    finally:
        gc.unfreeze()


def history(scen, ctx, decs, tables, nsyn, model, words, unseen, collect):
    ncal = decided = 0
    refused = False
    vague = set()
    last = None
    for op in scen["ops"]:
        d = decs[op[1]]
        if op[0] == "reset":
            with ctx.sut("reset_look_up_table"):
                d.reset_look_up_table()
            model[op[1]] = {t: {0: {}, 1: {}} for t in "XZ"}
            vague -= {(op[1], t) for t in "XZ"}
            ctx.fire("reset")
        elif op[0] == "new":  # another decoder takes its place
            d = decs[op[1]] = None
            collect()
            with ctx.sut("decoder construct"):
                s = scen["decs"][op[1]]
                decs[op[1]] = sut.decoder(s["code"], s["d"], s["T"], s.get("spell"))
            model[op[1]] = {t: {0: {}, 1: {}} for t in "XZ"}
            vague -= {(op[1], t) for t in "XZ"}
            ctx.probe("replaced")
        elif op[0] == "bad":
            _, k, typ, v, kind, which = op
            res = UNUSABLE[kind](dict(tables[which % len(tables)]))
            try:
                if kind == "type":
                    d.set_look_up_table("Y", v, res)
                else:
                    d.set_look_up_table(typ, v, res)
            except Exception:
                ctx.fire("calibration_refused")
                refused = True
            else:
                if kind != "type":  # accepted: what such results are worth is not for this check to say
                    vague.add((k, typ))
        elif op[0] == "cal":
            _, k, typ, v, which, fault, salt = op
            # device tables are paired with their value
            idx = nsyn + v if scen["device"] and which % 2 else (which // 2) % nsyn
            res = dict(tables[idx])
            rng = random.Random(salt)
            if fault == "partial":
                keep = rng.sample(sorted(res), rng.randint(1, len(res)))
                res = {s: rng.randint(1, res[s]) if res[s] else 1 for s in keep}
                ctx.fire("calibration_partial")
            if fault == "lost":
                ctx.fire("calibration_lost")
                continue
            if fault == "reuse" and last is not None:  # the caller recycles the dictionary object it used before
                last.clear()
                last.update(res)
                res = last
                ctx.fire("caller_reused")
            if idx >= nsyn:
                ctx.probe("device_calibration")
            ncal += 1
            if model[k][typ][v]:
                ctx.fire("calibration_replaced")
            for _ in range(2 if fault == "repeated" else 1):
                with ctx.sut("set_look_up_table"):
                    d.set_look_up_table(typ, v, res)
            if fault == "repeated":
                ctx.fire("calibration_repeated")
            model[k][typ][v] = dict(res)
            last = res
            if fault == "mutate":
                s = rng.choice(words)
                res[s] = res.get(s, 0) + rng.choice([1, 50, 100000])
                if rng.random() < 0.3:
                    res.clear()
                ctx.fire("caller_mutated")
        else:
            _, k, typ, salt = op[:4]
            if (k, typ) in vague:
                continue
            pool = words + unseen if salt % 5 == 0 else words
            s = pool[salt // 5 % len(pool)]
            n = [model[k][typ][v] for v in (0, 1)]
            p = [Fraction(t.get(s, 0), sum(t.values())) if t else Fraction(0) for t in n]
            if op[0] == "post":
                posterior(d, s, typ, p, op[4], ctx, lambda: like(scen["decs"][k], typ, n, ctx))
                continue
            with ctx.sut("look up"):
                ans = d.correct_readout_look_up_table(s, typ)
            ctx.add("look_ups")
            if ans not in (0, 1):
                raise Violation("not a logical value", f"{ans!r}")
            ctx.log(s, typ, int(ans) if p[0] != p[1] else None)
            if p == [0, 0]:
                ctx.probe("unseen")
                # whatever the answer to that is, it is not for calibrations that are gone to say
                with ctx.sut("look up"):
                    want = like(scen["decs"][k], typ, n, ctx).correct_readout_look_up_table(s, typ)
                if ans != want:
                    raise Violation("earlier calibration shows", f"a record never seen is answered otherwise than by a decoder calibrated alike")
                continue
            if 0 in p:
                ctx.probe("one_sided")
            if abs(p[0] - p[1]) <= max(p) * Fraction(1, 10**12):
                continue
            ctx.probe("decided")
            ctx.probe("looked_up_after_refusal", int(refused))
            ctx.probe("close_call", int(abs(p[0] - p[1]) <= max(p) * Fraction(1, 10**6)))
            ctx.probe("billions_of_shots", int(max(sum(t.values()) for t in n) > 1 << 32))
            decided += ncal >= 2
            if all(n) and sum(n[0].values()) != sum(n[1].values()):
                ctx.probe("unequal_totals")
                if (n[1].get(s, 0) > n[0].get(s, 0)) != (p[1] > p[0]):
                    ctx.probe("minority_string")
            want = int(p[1] > p[0])
            if ans != want:
                raise Violation("wrong look up", f"'{s}' {typ}: answered {ans}; likelihoods {p[0]} and {p[1]}")
    ctx.probe("very_long_history", int(len(scen["ops"]) > 150))
    ctx.nontrivial = decided > 0
    ctx.sig(scen)


def like(spec, typ, tables, ctx):
    """Another decoder, calibrated alike, that has no history."""
    with ctx.sut("decoder construct"):
        d = sut.decoder(spec["code"], spec["d"], spec["T"], spec.get("spell"))
        for v in (0, 1):
            if tables[v]:
                d.set_look_up_table(typ, v, dict(tables[v]))
    return d


def posterior(d, s, typ, p, prior, ctx, other):
    """The probability shown next to the answer is Bayes' rule with the caller's prior."""
    f = getattr(d, "_run_look_up", None)
    if f is None:  # the probabilities are not shown
        for x in ("posterior", "posterior_with_prior", "certain_prior"):
            ctx.probe("no:" + x)
        return
    given = None if prior is None else list(prior)
    with ctx.sut("look up probabilities"):
        got = f(s, typ) if given is None else f(s, typ, given)
    if given is not None and given != prior:
        raise Violation("prior modified", f"{prior} became {given}")
    w = [Fraction(1, 2)] * 2 if prior is None else [Fraction(x) for x in prior]
    total = p[0] * w[0] + p[1] * w[1]
    if len(got) != 2:
        raise Violation("wrong probability", f"{got!r}")
    if not total:
        with ctx.sut("look up probabilities"):
            f = other()._run_look_up
            want = f(s, typ) if prior is None else f(s, typ, list(prior))
        if list(map(float, got)) != list(map(float, want)):
            raise Violation("earlier calibration shows", "the probabilities of a record never seen are others than those of a decoder calibrated alike")
        return
    want = [p[v] * w[v] / total for v in (0, 1)]
    ctx.add("posteriors")
    ctx.probe("posterior_with_prior" if prior else "posterior")
    ctx.probe("certain_prior", int(bool(prior) and 0 in prior))
    ctx.log(s, typ, [round(float(x), 9) for x in got])
    if any(abs(float(got[v]) - float(want[v])) > 1e-9 for v in (0, 1)):
        raise Violation("wrong probability", f"'{s}' {typ} prior {prior}: {list(map(float, got))}, Bayes' rule gives {list(map(float, want))}")


def shrink(scen):
    yield from generic_shrink(scen, ["ops"])
    if scen["device"]:
        yield {**scen, "device": []}
