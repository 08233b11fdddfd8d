"""python -m dst.main <property> | replay <file> | digest <property> <seed> <tier> <chunk> lo:hi ..."""
import importlib
import json
import os
import sys


def load(pid):
    return importlib.import_module(f"dst.props.{pid.lower()}")


def solvers(n=120):
    """The exact search and the two solvers for many hits agree on random records."""
    import random

    from dst.geom import lattice
    from dst.oracle import space

    rng = random.Random(7)
    judged = 0
    for _ in range(n):
        d = rng.choice([(3, 3), (5, 5), (5, 7), (9, 5), (7, 9), (1, 9), (9, 1)])
        typ = "Z" if d[1] == 1 else "X" if d[0] == 1 else rng.choice("XZ")
        sp = space(lattice(rng.choice(["XXZZ", "XZZX"]), *d), typ, rng.randint(1, 4))
        if not sp.nchk:
            continue
        every = [(t, c) for t in range(sp.T) for c in range(sp.nchk)]
        p = rng.choice([None, 0.01, 0.1, 0.4])
        hits = rng.sample(every, min(len(every), rng.randint(1, 10 if p is None else 6)))
        a = sp.class_minima(hits) if p is None else sp.weighted_minima(hits, p)
        if a is None:
            continue
        b = sp.many(hits, p)
        assert all(x == y or abs(x - y) < 1e-5 for x, y in zip(a, b)), (d, typ, sp.T, p, hits, a, b)
        assert sp.confirmed(hits, p), (d, typ, sp.T, p, hits)
        judged += 1
    return judged


def main(argv):
    from dst import core

    if argv[0] == "replay":
        with open(argv[1]) as f:
            doc = json.load(f)
        mod = load(doc["property"])
        r = core.verdict(mod, doc.get("prelude", []), doc["scenario"])
        if "ok" not in r:
            print("replay: harness error", r)
            return 2
        same = r["ok"]["kind"] == doc["kind"]
        print(f"replay: kind={r['ok']['kind']} message={r['ok']['message']}")
        print(f"replay: events {r['ok']['digest']} (recorded {doc.get('digest')})")
        if same and doc.get("digest") not in (None, r["ok"]["digest"]):
            print("replay: same violation but the event history differs")
            return 2
        if same:
            print(f"VIOLATION property={doc['property']} replay={argv[1]}")
        return 1 if same else 0
    if argv[0] == "digest":
        pid, seed, tier, _ = argv[1], int(argv[2]), argv[3], argv[4]
        mod = load(pid)
        out = {}
        pool = core.Pool(3)
        for part in argv[5:]:
            lo, hi = map(int, part.split(":"))
            pool.start(lo, core._chunk, mod, seed, lo, hi, tier)
        while pool.live:
            for lo, r in pool.wait(60):
                out[str(lo)] = r["ok"]["digests"] if "ok" in r else [str(r)]
        print(json.dumps(out))
        return 0
    if argv[0] == "selftest":  # everything imports, every property can execute one scenario
        with open(os.path.join(core.HERE, "MANIFEST.json")) as f:
            man = json.load(f)
        bad = 0
        for c in man["checks"]:
            mod = load(c["property"])
            assert mod.ID == c["property"] and mod.LEVEL == c["level"], c["property"]
            r = core.one_job(core._chunk, mod, 1, 0, 1, "quick")
            print(c["property"], "ok" if "ok" in r else r)
            bad += "ok" not in r
        print("reference solvers agree:", solvers())
        return 2 if bad else 0
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    return core.check(load(argv[0]), seed, tier)


if __name__ == "__main__":
    sys.dont_write_bytecode = True
    try:
        code = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        print("HARNESS ERROR (no verdict)")
        code = 2
    sys.stdout.flush()
    os._exit(code)
