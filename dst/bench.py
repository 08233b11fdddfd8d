"""A simulated benchmarking campaign: real circuits, real decoder, simulated machine, noise and clock."""
import os
import random
import shutil
import tempfile
from collections import Counter
from fractions import Fraction

from dst import backend, sut
from dst.core import Violation
from dst.device import Program, execute
from dst.world import World

try:  # the progress bar must not start its own (uncontrolled) monitor thread
    import tqdm as _tqdm

    _tqdm.tqdm.monitor_interval = 0
except ImportError:
    pass


class Noise:
    """What the user's noise_model_func returns: the simulated machine understands it."""

    def __init__(self, p):
        self.p = p


class NoiseFn:
    """The user's noise_model_func (a module level callable, so that it can be shipped to workers)."""

    def __init__(self, tag=0):
        self.tag = tag

    def __call__(self, p):
        return Noise(p)


class MachineDown(Exception):
    """The simulated machine lost the job."""


class Machine:
    """Executes jobs on simulated devices. A job's outcome depends only on (seed, rate, attempt)."""

    def __init__(self, scen, ctx):
        self.seed, self.ctx = scen["seed"], ctx
        self.fail = {tuple(f) for f in scen.get("fail", [])}  # (rate index, attempt)
        self.lose = {int(k): v for k, v in scen.get("lose", {}).items()}  # rate index -> shots lost
        self.rates = list(scen["rates"])
        self.seen = Counter()
        self.jobs = []  # (rate, shots asked, counts or None)
        self.on_event = None
        self.cache = {}
        self.open = False  # rates nobody named may be run, too
        self.sites = None  # where noise can strike in the circuit that was asked for

    def index(self, p):
        for k, r in enumerate(self.rates):
            if r == p:
                return k
        if self.open:
            self.rates.append(p)
            return len(self.rates) - 1
        raise Violation("unrequested job", f"the machine was asked to run noise {p}, requested were {self.rates}")

    def __call__(self, circ, noise, shots):
        if not isinstance(noise, Noise):
            raise Violation("noise model lost", f"the machine was given noise model {noise!r}")
        ops = {g: n for g, n in circ.count_ops().items() if g != "barrier"}
        if self.sites is not None and ops != self.sites:
            raise Violation("noise not as requested", f"asked to run gates {self.sites}, the machine was sent {ops}")
        k = self.index(noise.p)
        n = self.seen[k]
        self.seen[k] += 1
        if self.on_event:
            self.on_event(("job", k))
        self.ctx.add("machine_jobs")
        if (k, n) in self.fail:
            self.ctx.fire("job_failed")
            self.jobs.append((noise.p, shots, None))
            raise MachineDown(f"job for noise {noise.p}")
        counts = self.counts(circ, noise.p, shots, (self.seed, k, n))
        lost = self.lose.get(k, 0)
        if lost:
            rng = random.Random(f"lost{self.seed}:{k}:{n}")
            bag = sorted(counts.elements())
            keep = rng.sample(bag, max(1, len(bag) - lost))
            if len(keep) < len(bag):
                self.ctx.fire("shots_lost", len(bag) - len(keep))
            counts = Counter(keep)
        self.jobs.append((noise.p, shots, dict(counts)))
        if self.on_event:
            self.on_event(("job done", k))
        return dict(counts)

    def counts(self, circ, p, shots, key):
        rng = random.Random(repr(key))
        prog = Program(circ)
        live = sorted({q for st in prog.steps for op in st if op[0] in ("cx", "cz", "h", "m") for q in op[1:2]})
        faults, readout = [], []
        if live and p:
            sites = 1 + len(prog.steps) // 12
            for _ in range(sites):
                pos = rng.randrange(len(prog.steps))
                for q in live:
                    m = bernoulli(rng, p / 2, shots)
                    if m:
                        faults.append((pos, rng.choice("XYZ"), q, m))
        r = execute(prog, shots, rng.getrandbits(32), faults, readout, trace=False)
        for k, n in r.fired.items():
            self.ctx.fire("pauli_" + k, n)
        self.ctx.add("shots", shots)
        return Counter(prog.strings(r.clbits, shots))


def bernoulli(rng, p, n):
    m = 0
    k = 0
    while True:  # geometric gaps
        u = rng.random()
        if p >= 1:
            gap = 0
        else:
            import math

            gap = int(math.log(1 - u) / math.log(1 - p))
        k += gap
        if k >= n:
            return m
        m |= 1 << k
        k += 1


class Campaign:
    """One scratch directory, one circuit, one decoder, one benchmark object."""

    def __init__(self, scen, ctx):
        self.scen, self.ctx = scen, ctx
        self.machine = Machine(scen, ctx)
        w = World(scen["spec"], ctx)
        for op in scen["ops"]:
            w.apply(op)
        self.circ = w.circ
        self.machine.sites = {g: n for g, n in w.circ.count_ops().items() if g != "barrier"}
        q = scen["spec"]["qubits"][0]
        full = scen["ops"][-1][0] == "lz"
        self.T = sum(o[0] == "stab" for o in scen["ops"]) - 1 + full
        self.q = q
        with ctx.sut("decoder construct"):
            self.dec = sut.decoder(q["code"], q["d"], self.T, q.get("spell"))
        self.bench = self.benchmark()

    def benchmark(self):
        with self.ctx.sut("benchmark construct"):
            return sut.TopologicalBenchmark(
                decoder=self.dec, circ=self.circ, noise_model_func=NoiseFn(), correct_logical_value=self.scen["correct"])

    def fresh_decoder(self):
        return sut.decoder(self.q["code"], self.q["d"], self.T, self.q.get("spell"))

    def expected(self, p, counts, weighted):
        """The fraction of the returned shots that decode to the wrong value."""
        dec = self.fresh_decoder()
        bad = 0
        for s, n in counts.items():
            with self.ctx.sut("correct_readout"):
                v = dec.correct_readout(s, "Z", err_prob=p) if weighted else dec.correct_readout(s, "Z")
            if v != self.scen["correct"]:
                bad += n
        return Fraction(bad, sum(counts.values()))


def point(rng):
    """One measured point: a physical rate and a logical rate, from the ordinary to the extreme."""
    p = rng.choice([rng.uniform(0.001, 0.5), rng.uniform(0.001, 0.5), 10 ** -rng.uniform(2, 12), round(rng.uniform(0.01, 0.5), 2)])
    n = 10 ** rng.randint(1, 12)
    return [p, rng.choice([rng.random(), rng.random(), 0.0, 1.0, 1 / n, 1 - 1 / n, rng.randrange(2048) / 2048])]


def gen_campaign(rng, tier, rates=None):
    while True:
        code = rng.choice(["XXZZ", "XZZX", "REP"])
        d = rng.choice([3, 5]) if code == "REP" else rng.choice([3, 3, [3, 3], [3, 5], [5, 3]])
        break
    full = rng.random() < 0.4
    R = rng.randint(1, 2) if full else rng.randint(2, 3)
    ops = [["rz", 0]]
    v = rng.randint(0, 1)
    if v:
        ops.append(["x", 0])
    for _ in range(R):
        if rng.random() < 0.3:
            ops.append([rng.choice(["id", "idd", "echo"]), 0])
        ops.append(["stab", 0])
    ops.append(["lz", 0] if full else ["mz", 0, None])
    pool = [0.001, 0.01, 0.02, 0.04, 0.05, 0.07, 0.1, 0.13, 0.16, 0.2, 0.3, 0.45]
    rs = rates or rng.sample(pool, rng.randint(1, 5))
    if not rates and rng.random() < 0.5:  # rates as grids produce them, not rounded
        rs = [p * (1 + rng.uniform(-1, 1) * 10 ** -rng.randint(1, 9)) for p in rs]
    q = {"code": code, "d": d}
    if rng.random() < 0.3:
        q["spell"] = rng.choice(["int", "tuple", "float", "np", "absent", "flag"])
    return {"spec": {"qubits": [q], "via": rng.choice(["qubit", "treg"])}, "ops": ops,
            "seed": rng.getrandbits(32), "rates": rs, "shots": rng.choice([1, 7, 20, 48]),
            "correct": v if rng.random() < 0.85 else 1 - v, "fail": [], "lose": {}}


class Scratch:
    """A directory of its own, entered for the duration of the run."""

    def __enter__(self):
        self.old = os.getcwd()
        self.path = tempfile.mkdtemp(prefix="dst-", dir="/tmp")
        os.chdir(self.path)
        return self.path

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.path, ignore_errors=True)
        return False


def quiet():
    """Progress output of the code under test goes nowhere."""
    import contextlib
    import io

    class Null(io.StringIO):
        def write(self, s):
            return len(s)

    n = Null()
    st = contextlib.ExitStack()
    st.enter_context(contextlib.redirect_stdout(n))
    st.enter_context(contextlib.redirect_stderr(n))
    return st


def active(machine):
    return backend.active(machine)


def stop_clock(where):
    """The clock of the file system stands still: every file below carries the same times."""
    for name in os.listdir(where):
        path = os.path.join(where, name)
        if os.path.isfile(path):
            os.utime(path, (10**9, 10**9))
