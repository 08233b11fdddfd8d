"""Shared pieces of scenario generation and of the reference models for circuit histories."""
from dst.geom import lattice, shape

SHAPES2D = [[3, 3], [3, 5], [5, 3], [5, 5], [1, 3], [3, 1], [1, 5], [5, 1], [7, 3], [3, 7], [7, 5], [5, 7], [7, 7]]
SMALL2D = [[3, 3], [3, 3], [3, 5], [5, 3], [1, 3], [3, 1], [5, 5]]


def pick_qubit(rng, small=False, one_d=True, wide=0.0):
    """wide: how often a lattice of two-digit size."""
    if rng.random() < wide:
        return large_qubit(rng)
    code = rng.choice(["XXZZ", "XZZX", "XXZZ", "XZZX", "REP", "PREP"])
    if code in ("REP", "PREP"):
        d = rng.choice([3, 5] if small else [3, 5, 7, 9])
    else:
        while True:
            d = rng.choice(SMALL2D if small else SHAPES2D)
            if one_d or 1 not in d:
                break
        if d[0] == d[1] and rng.random() < 0.5:
            d = d[0]
    q = {"code": code, "d": d}
    if rng.random() < 0.4:
        q["spell"] = rng.choice(["int", "tuple", "list", "float", "floats", "np", "absent", "none", "extra", "flag"])
    return q


LARGE2D = [[3, 9], [9, 3], [9, 9], [11, 11], [3, 13], [13, 3], [5, 11], [11, 5], [9, 13], [13, 13], [1, 17], [17, 1]]


def large_qubit(rng):
    """Lattices of two-digit size."""
    code = rng.choice(["XXZZ", "XZZX", "XXZZ", "XZZX", "REP", "PREP"])
    return {"code": code, "d": rng.choice([11, 13, 17, 25]) if code in ("REP", "PREP") else rng.choice(LARGE2D)}


def tiny_qubit(rng):
    """The smallest lattices, for very long histories."""
    code, d = rng.choice([("REP", 3), ("PREP", 3), ("XXZZ", 3), ("XZZX", 3), ("XXZZ", [1, 3]), ("XZZX", [3, 1]), ("XXZZ", [3, 3])])
    return {"code": code, "d": d}


def lat_of(q):
    return lattice(q["code"], *shape(q["code"], q["d"]))


def mask(rng, shots, p=0.5):
    m = 0
    for s in range(shots):
        if rng.random() < p:
            m |= 1 << s
    return m or 1 << rng.randrange(shots)


def pauli(rng):
    return rng.choice("XYZ")


class Expect:
    """
    What one logical qubit must report, per shot, given the faults it suffered.

    rounds: number of recorded rounds; basis: type of the final readout ("X"/"Z");
    full: the final readout reads the whole lattice.
    """

    def __init__(self, lat, shots, rounds, basis, full):
        self.lat, self.shots, self.R, self.basis, self.full = lat, shots, rounds, basis, full
        self.hits = [{"X": set(), "Z": set()} for _ in range(shots)]
        self.flip = 0  # shots whose logical readout is flipped
        self.weight = [{"X": 0, "Z": 0} for _ in range(shots)]

    def _toggle(self, m, typ, t, ks):
        if t < 0:
            return
        if t >= self.R - 1 and not (t == self.R - 1 and self.full and typ == self.basis and self.R > 0):
            return
        pts = {(float(t),) + self.lat.checks[typ][k] for k in ks}
        for s in range(self.shots):
            if m >> s & 1:
                self.hits[s][typ] ^= pts

    def data(self, before_round, p, q, m):
        """Pauli p on data qubit q after `before_round` rounds have been recorded."""
        for typ, e in zip("ZX", self.lat.effective(p, q)):
            if not e:
                continue
            self._toggle(m, typ, before_round - 1, self.lat.adj[typ][q])
            if typ == self.basis and q in (self.lat.row if typ == "Z" else self.lat.col):
                self.flip ^= m

    def round_flip(self, k, typ, c, m):
        """The recorded bit of check c in round k is wrong."""
        self._toggle(m, typ, k - 1, [c])
        self._toggle(m, typ, k, [c])

    def lattice_flip(self, q, m):
        self._toggle(m, self.basis, self.R - 1, self.lat.adj[self.basis][q])
        if q in (self.lat.row if self.basis == "Z" else self.lat.col):
            self.flip ^= m


def arrange(rng, spec):
    """Some of the qubits join later, under other subregister names, or live in a second register."""
    n = len(spec["qubits"])
    if rng.random() < 0.35:
        spec["late"] = sorted(rng.sample(range(n), rng.randint(1, n)))
        if spec["via"] == "treg" and rng.random() < 0.5:
            spec["subs"] = {str(q): rng.choice(["data", "memory", "b"]) for q in spec["late"]}
    if spec["via"] == "treg" and n > 1 and rng.random() < 0.25:
        spec["groups"] = [0] + [rng.randrange(2) for _ in range(n - 1)]
    if spec["via"] == "treg" and rng.random() < 0.25:
        spec["byname"] = True  # the caller's registers are added through the topological circuit
        if rng.random() < 0.5:  # by names the library itself uses
            spec["regnames"] = [rng.choice(["cnot_readout", "ancilla", "data"]), rng.choice(["m1", "m2", "m3", "m1_1"])]
        if rng.random() < 0.3:
            spec["lateslots"] = True
    if rng.random() < 0.25:
        spec["own"] = True  # the library makes the circuit
    if spec["via"] == "qubit" and rng.random() < 0.3:  # names that begin one another
        spec["names"] = rng.sample(["q", "q1", "q10", "q_1", "q1_", "tq", "t", "q_m", "q100", "q_10", "q_m1", "tq1"], n)
    if spec["via"] == "treg" and rng.random() < 0.06:
        spec["pad"] = rng.randint(8, 12)  # neighbours that are never used: indices of two digits
        spec["own"] = False
    if spec["via"] == "treg" and rng.random() < 0.15:
        spec["helper"] = rng.choice([["REP", 3], ["PREP", 3], ["XXZZ", 3], ["XZZX", [3, 1]], ["XXZZ", [1, 3]], ["XZZX", [3, 5]]])
    if rng.random() < 0.06:
        spec["front"] = rng.choice([9, 40, 101, 128, 257])  # physical qubits the circuit already has
        spec["own"] = False
    return spec


def simpler(spec):
    for k in ("late", "subs", "groups", "own", "pad", "names", "byname", "regnames", "lateslots", "front", "helper"):
        if spec.get(k):
            yield {x: v for x, v in spec.items() if x != k}
    for i, q in enumerate(spec["qubits"]):
        if q.get("spell"):
            qs = list(spec["qubits"])
            qs[i] = {x: v for x, v in q.items() if x != "spell"}
            yield {**spec, "qubits": qs}
