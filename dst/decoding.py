"""Shared by the decoding properties: build a noisy memory experiment, decode every record."""
import random

from dst import matching, memory, sut
from dst.core import Violation
from dst.gen import arrange, large_qubit, lat_of, mask, pick_qubit, tiny_qubit


def setup(rng, tier, maxn=49, rounds=(1, 5), shots=16, via=("qubit",), roomy=False):
    """A one-qubit memory scenario whose readout has something to decode (roomy: for very many hits)."""
    size = rng.random()
    if size < 0.05:  # large lattice, few rounds
        rounds, shots = (1, 2), min(shots, 6)
    elif size < 0.09:  # many rounds
        rounds, shots, maxn = (9, 13), min(shots, 8), 15
    elif size < 0.1:  # very many rounds
        rounds, shots, maxn = (20, 40), min(shots, 3), 9
    if roomy:
        size = 1
    while True:
        q = pick_qubit(rng) if size >= 0.05 else large_qubit(rng)
        if roomy:
            q = {"code": rng.choice(["XXZZ", "XZZX"]), "d": rng.choice([5, 7, 7, 9, [5, 7], [7, 5], [9, 5], [5, 9], [7, 9], [9, 7], [11, 7]])}
        if q["code"] in ("REP", "PREP") and rng.random() < 0.3 and tier == "thorough":
            q["d"] = 11
        lat = lat_of(q)
        if lat.n <= maxn or size < 0.05 or roomy:
            break
    # on a line only one type is protected
    basis = "z" if lat.dw == 1 else "x" if lat.dh == 1 else rng.choice("xz")
    full = rng.random() < 0.7
    R = rng.randint(*rounds)
    if not full:
        R = max(R, 2)
    ops = memory.one_program(rng, 0, R, ("l" if full else "m") + basis, "r" + basis, gates=0.08)
    spec = {"qubits": [q], "via": rng.choice(via), "own": rng.random() < 0.2}
    if rng.random() < 0.2:
        spec["via"] = rng.choice(["qubit", "treg"])
        arrange(rng, spec)
    return {"spec": spec, "ops": ops, "seed": rng.getrandbits(32),
            "shots": shots, "faults": []}


def window(scen):
    """(positions where a data fault is decodable, rounds whose flips are decodable, type, full)."""
    o = memory.plan(scen["ops"], 1)
    if o is None:
        return None
    o = o[0]
    full = o["final"][1]
    r = o["rounds"]
    hi = o["final"][0] if full else r[-1]
    return list(range(r[0] + 1, hi + 1)), list(range(1, len(r) if full else len(r) - 1)), o["final"][2], full


def in_window(scen):
    """Faults of the decoded type only strike where the record can show them."""
    w = window(scen)
    if w is None:
        return False
    pos, rr, typ, full = w
    lat = lat_of(scen["spec"]["qubits"][0])
    R = len(memory.plan(scen["ops"], 1)[0]["rounds"])
    if R - 1 + full < 1:
        return False
    for f in scen["faults"]:
        if f[0] == "data":
            ex, ez = lat.effective(f[4], f[3] % lat.n)
            if (ex if typ == "Z" else ez) and f[1] not in pos:
                return False
        elif f[0] == "rflip":
            if f[3] == typ and lat.checks[typ] and f[2] % R not in rr:
                return False
        elif f[0] == "oflip" and not full:
            return False
    return True


def relevant(rng, scen, m, pos, rr, typ, full, near=None):
    """One elementary fault of the decoded type in the shots of m."""
    lat = lat_of(scen["spec"]["qubits"][0])
    k = rng.random()
    if rr and k < 0.3:
        return ["rflip", 0, rng.choice(rr), typ, rng.randrange(max(1, len(lat.checks[typ]))), m]
    i = rng.randrange(lat.n) if near is None else near
    if full and k < 0.45:
        return ["lflip", 0, i, m]
    if not pos:
        return ["lflip", 0, i, m]
    p = lat.physical(typ, i)
    if rng.random() < 0.3:
        p = "Y"
    return ["data", rng.choice(pos), 0, i, p, m]


def irrelevant(rng, scen, m, typ):
    lat = lat_of(scen["spec"]["qubits"][0])
    other = "X" if typ == "Z" else "Z"
    o = memory.plan(scen["ops"], 1)[0]
    if rng.random() < 0.3 and lat.checks[other]:
        return ["rflip", 0, rng.randrange(len(o["rounds"])), other, rng.randrange(64), m]
    i = rng.randrange(lat.n)
    return ["data", rng.randint(1, o["final"][0]), 0, i, lat.physical(other, i), m]


class Decode:
    """Runs the experiment; iterates unique records with what they should mean."""

    def __init__(self, scen, ctx):
        self.m = m = memory.Memory(scen, ctx)
        matching.ORDER = random.Random(scen["seed"] ^ 0x5A5A)
        ctx.fire("matching_order_shuffled")
        self.ctx = ctx
        self.spec = scen["spec"]["qubits"][0]
        self.o, self.ex, self.strings, self.fixed = m.per[0]
        self.typ = self.o["final"][2]
        self.T = len(self.o["rounds"]) - 1 + self.o["final"][1]
        with ctx.sut("decoder construct"):
            self.dec = sut.decoder(self.spec["code"], self.spec["d"], self.T, self.spec.get("spell"))
        lat = self.ex.lat
        self.name = f"{lat.code} {lat.dh}x{lat.dw} T={self.T} {self.typ}"
        allm = (1 << scen["shots"]) - 1
        flip = self.ex.flip & allm
        self.true = (self.fixed ^ flip) & allm  # the logical value that was stored

    def cases(self):
        """(shot, string, stored value, expected hits of the decoded type), one per distinct record."""
        seen = set()
        for s, string in enumerate(self.strings):
            key = (string, self.true >> s & 1)
            if key in seen:
                continue
            seen.add(key)
            hits = sorted(self.ex.hits[s][self.typ])
            yield s, string, self.true >> s & 1, hits

    def hit_ids(self, hits):
        index = {c: k for k, c in enumerate(self.ex.lat.checks[self.typ])}
        return [(int(t), index[(i, j)]) for t, i, j in hits]

    def decode(self, string, as_dict=False, err_prob=None):
        kw = {} if err_prob is None else {"err_prob": err_prob}
        ctx = self.ctx
        if as_dict:
            with ctx.sut("parse_readout"):
                lv, syn = self.dec.parse_readout(string, self.typ)
            if len(string) % 2:  # the hits in no particular order
                syn = {k: random.Random(string).sample(v, len(v)) for k, v in syn.items()}
            with ctx.sut("correct_readout"):
                out = self.dec.correct_readout(syn, self.typ, lv, **kw)
        else:
            with ctx.sut("correct_readout"):
                out = self.dec.correct_readout(string, self.typ, **kw)
        ctx.add("decodes")
        if out not in (0, 1):
            raise Violation("not a logical value", f"{self.name}: {out!r} for '{string}'")
        return int(out)
