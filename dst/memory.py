"""
Memory experiments: logical qubits are reset, recorded for some rounds under a fault plan, and
read out.  Shared by the syndrome reporting, isolation and decoding properties.

Faults (plain data in the scenario):
  ["data", at, q, i, pauli, mask]   Pauli on data qubit i of qubit q just before operation `at`
  ["rflip", q, k, type, c, mask]    recorded bit of check c in round k of qubit q is wrong
  ["lflip", q, i, mask]             data bit i of the final lattice readout is wrong
  ["oflip", q, mask]                the final single-bit readout is wrong
"""
from dst.core import generic_shrink
from dst.gen import Expect, lat_of, simpler
from dst.world import World


def plan(ops, n):
    """Per qubit: reset position/basis, round positions, final readout; None if malformed."""
    out = [{"reset": None, "rounds": [], "final": None, "gates": [], "cx": []} for _ in range(n)]
    for idx, op in enumerate(ops):
        k = op[0]
        if k == "nop":
            continue
        for q in op[1:3] if k == "cx" else op[1:2]:
            o = out[q]
            if k in ("rz", "rx"):
                if o["reset"] is not None:
                    return None
                o["reset"] = (idx, k[1].upper())
                continue
            if o["reset"] is None or o["final"] is not None:
                return None
            if k == "stab":
                o["rounds"].append(idx)
            elif k in ("mz", "mx", "lz", "lx"):
                o["final"] = (idx, k[0] == "l", k[1].upper())
            elif k in ("x", "z"):
                o["gates"].append((idx, k.upper()))
            elif k in ("xc", "zc"):  # conditional on a register nobody writes
                if op[3] == 0:
                    o["gates"].append((idx, k[0].upper()))
            elif k == "cx":
                o["cx"].append(idx)
    if any(o["reset"] is None or o["final"] is None or not o["rounds"] for o in out):
        return None
    return out


class Memory:
    """Executes the scenario; .per[q] = (plan, Expect, strings, expected logical or None)."""

    def __init__(self, scen, ctx):
        spec = scen["spec"]
        n = len(spec["qubits"])
        self.plan = plan(scen["ops"], n)
        self.ok = self.plan is not None
        if not self.ok:
            return
        self.w = w = World(spec, ctx)
        for op in scen["ops"]:
            w.apply(op)
        w.program()
        shots = scen["shots"]
        ex = []
        for q, o in enumerate(self.plan):
            ex.append(Expect(w.lats[q], shots, len(o["rounds"]), o["final"][2], o["final"][1]))
        faults, readout = [], []
        self.nfaults = [0] * n
        for f in scen["faults"]:
            if f[0] == "data":
                _, at, q, i, p, m = f
                i %= w.lats[q].n
                pos = w.steps[at][1] if at < len(w.steps) else len(w.circ.data)
                faults.append((pos, p, w.dq(q, i), m))
                o = self.plan[q]
                if o["reset"][0] < at <= o["final"][0]:
                    before = sum(1 for r in o["rounds"] if r < at)
                    ex[q].data(before, p, i, m)
                    for s in range(shots):
                        if m >> s & 1:
                            for typ, e in zip("ZX", w.lats[q].effective(p, i)):
                                ex[q].weight[s][typ] += e
            elif f[0] == "rflip":
                _, q, k, typ, c, m = f
                nchk = len(w.lats[q].checks[typ])
                if not nchk:
                    continue
                k %= ex[q].R
                c %= nchk
                creg = w.rounds[q][k][1]
                readout.append((w.prog.cidx[creg[w.lats[q].bit(typ, c)]], m))
                ex[q].round_flip(k, typ, c, m)
                for s in range(shots):
                    if m >> s & 1:
                        ex[q].weight[s][typ] += 1
            elif f[0] in ("lflip", "oflip"):
                q, m = f[1], f[-1]
                o = self.plan[q]
                creg = next(x[3] for x in w.reads if x[0] == o["final"][0])
                if f[0] == "lflip" and o["final"][1]:
                    i = f[2] % w.lats[q].n
                    readout.append((w.prog.cidx[creg[i]], m))
                    ex[q].lattice_flip(i, m)
                    for s in range(shots):
                        if m >> s & 1:
                            ex[q].weight[s][o["final"][2]] += 1
                elif f[0] == "oflip" and not o["final"][1]:
                    readout.append((w.prog.cidx[creg[0]], m))
                    ex[q].flip ^= m
        self.run = r = w.run(shots, scen["seed"], faults, readout)
        if w.shots != shots:
            raise RuntimeError("memory experiments contain no shot dependent Clifford gates")
        self.per = []
        for q, o in enumerate(self.plan):
            parts = [w.chunks(r, next(x[3] for x in w.reads if x[0] == o["final"][0]))]
            parts += [w.chunks(r, c) for _, c in reversed(w.rounds[q])]
            strings = [" ".join(p[s] for p in parts) for s in range(shots)]
            if n == 1 and not spec.get("slots"):
                strings = w.prog.strings(r.clbits, shots)  # exactly what the device reports
            fixed = None
            if o["reset"][1] == o["final"][2] and not o["cx"]:
                fixed = ex[q].flip & ((1 << shots) - 1)
                anti = "X" if o["final"][2] == "Z" else "Z"
                if sum(g == anti for _, g in o["gates"]) % 2:
                    fixed ^= (1 << shots) - 1
            self.per.append((o, ex[q], strings, fixed))


def drop_op(scen, k):
    ops = scen["ops"][:k] + scen["ops"][k + 1:]
    fl = []
    for f in scen["faults"]:
        if f[0] == "data":
            f = [f[0], f[1] - (f[1] > k)] + f[2:]
        fl.append(f)
    return {**scen, "ops": ops, "faults": fl}


def shrink(scen):
    n = len(scen["spec"]["qubits"])
    yield from generic_shrink(scen, ["faults"])
    # one shot only
    if scen["shots"] > 1:
        for s in range(scen["shots"]):
            c = {**scen, "shots": 1, "faults": []}
            for f in scen["faults"]:
                if f[-1] >> s & 1:
                    c["faults"].append(f[:-1] + [1])
            yield c
    for k in reversed(range(len(scen["ops"]))):
        c = drop_op(scen, k)
        if plan(c["ops"], n) is not None:
            yield c
    for s in simpler(scen["spec"]):
        yield {**scen, "spec": s}
    for q, spec in enumerate(scen["spec"]["qubits"]):
        d = spec["d"]
        smaller = []
        if isinstance(d, int) and d > 3:
            smaller = [d - 2]
        elif isinstance(d, list):
            smaller = [[d[0] - 2, d[1]], [d[0], d[1] - 2]]
        for s in smaller:
            if isinstance(s, list) and (min(s) < 1 or s == [1, 1]):
                continue
            qs = [dict(x) for x in scen["spec"]["qubits"]]
            qs[q]["d"] = s
            yield {**scen, "spec": {**scen["spec"], "qubits": qs}}


def one_program(rng, q, rounds, final, reset, gates=0.15):
    ops = [[reset, q]]
    for _ in range(rounds):
        while rng.random() < gates:
            ops.append([rng.choice(["x", "z", "id", "idd"]), q])
        ops.append(["stab", q])
    while rng.random() < gates:
        ops.append([rng.choice(["x", "z", "id", "idd"]), q])
    ops.append([final, q] + ([None] if final[0] == "m" else []))
    return ops


def interleave(rng, progs):
    progs = [list(p) for p in progs]
    out = []
    while any(progs):
        live = [p for p in progs if p]
        p = rng.choice(live)
        for _ in range(rng.choice([1, 1, 1, 2, 4])):
            if p:
                out.append(p.pop(0))
    return out


def random_faults(rng, scen, rates):
    """rates: {"data": per boundary, "rflip": per round, "lflip":, "oflip":}"""
    from dst.gen import mask

    n = len(scen["spec"]["qubits"])
    sh = scen["shots"]
    pl = plan(scen["ops"], n)
    fl = []
    for q in range(n):
        lat = lat_of(scen["spec"]["qubits"][q])
        o = pl[q]
        here = [i for i, op in enumerate(scen["ops"]) if len(op) > 1 and op[1] == q]
        for i in here:
            k = rng.random()
            while k < rates["data"]:
                fl.append(["data", i, q, rng.randrange(lat.n), rng.choice("XYZ"), mask(rng, sh, rng.choice([0.1, 0.5]))])
                k = rng.random()
        for k in range(len(o["rounds"])):
            while rng.random() < rates["rflip"]:
                fl.append(["rflip", q, k, rng.choice("XZ"), rng.randrange(64), mask(rng, sh, rng.choice([0.1, 0.5]))])
        if o["final"][1]:
            while rng.random() < rates["lflip"]:
                fl.append(["lflip", q, rng.randrange(lat.n), mask(rng, sh, 0.3)])
        elif rng.random() < rates["oflip"]:
            fl.append(["oflip", q, mask(rng, sh, 0.3)])
    scen["faults"] = fl
