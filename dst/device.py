"""
Simulated quantum device.

The shipped program talks to exactly one "machine": whatever executes the QuantumCircuit that the
encoders build.  This module is that machine, under the control of one integer seed.  It is an
exact stabilizer (Clifford) simulator that executes the circuit instruction by instruction, on
`shots` independent copies of the device at once.

*  The Pauli part of the tableau is the same for every shot (Clifford gates, Pauli faults,
   measurements and classically controlled Paulis only change *signs*), so the tableau is kept
   once and the sign of each row is an integer used as a bit vector over shots.
*  Every source of nondeterminism a real device has is decided here: each random measurement
   outcome is `shots` bits drawn from one PRNG; each fault (Pauli error, failed reset, flipped
   readout, depolarised qubit) is an entry of an explicit fault plan and hits an explicit set of
   shots at an explicit point of the instruction stream.

Nothing here imports qtcodes.
"""
import random


class Unsupported(Exception):
    """The circuit needs something a stabilizer device cannot do (not a verdict)."""


class NeedSingleShot(Exception):
    """A non-Pauli operation is conditioned on a bit that differs between shots."""


# ---------------------------------------------------------------- compilation

_ONE = {"h", "x", "y", "z", "s", "sdg", "sx", "sxdg"}
_TWO = {"cx", "cy", "cz", "swap", "ecr_", "iswap_"}
_NOP = {"id", "barrier", "delay", "global_phase"}


def _flatten(op, qubits, clbits, cidx, out, depth=0):
    """Append primitive ops for one qiskit Operation acting on integer qubits."""
    if depth > 12:
        raise Unsupported("definition nesting")
    name = op.name
    cond = getattr(op, "condition", None)
    if cond is not None and name not in ("if_else", "while_loop"):
        reg, val = cond
        bits = [cidx[b] for b in reg] if hasattr(reg, "__len__") else [cidx[reg]]
        body = []
        base = op.to_mutable() if hasattr(op, "to_mutable") else op
        base = base.copy()
        base.condition = None
        _flatten(base, qubits, clbits, cidx, body, depth + 1)
        out.append(("if", tuple(bits), int(val), tuple(body), ()))
        return
    if name in _NOP:
        if name == "id":
            out.append(("id", qubits[0]))
        return
    if name in _ONE:
        out.append((name, qubits[0]))
    elif name in ("cx", "cy", "cz", "swap"):
        out.append((name, qubits[0], qubits[1]))
    elif name == "measure":
        out.append(("m", qubits[0], clbits[0]))
    elif name == "reset":
        out.append(("r", qubits[0]))
    elif name == "if_else":
        target, val = op.condition
        bits = [cidx[b] for b in target] if hasattr(target, "__len__") else [cidx[target]]
        bodies = []
        for block in list(op.blocks) + [None] * (2 - len(op.blocks)):
            body = []
            if block is not None:
                qm = {b: q for b, q in zip(block.qubits, qubits)}
                cm = {b: c for b, c in zip(block.clbits, clbits)}
                for inst in block.data:
                    sub = dict(cidx)
                    sub.update(cm)
                    _flatten(
                        inst.operation,
                        [qm[b] for b in inst.qubits],
                        [cm[b] for b in inst.clbits],
                        sub,
                        body,
                        depth + 1,
                    )
            bodies.append(tuple(body))
        out.append(("if", tuple(bits), int(val), bodies[0], bodies[1]))
    elif getattr(op, "definition", None) is not None:
        d = op.definition
        qm = {b: q for b, q in zip(d.qubits, qubits)}
        cm = {b: c for b, c in zip(d.clbits, clbits)}
        for inst in d.data:
            sub = dict(cidx)
            sub.update(cm)
            _flatten(
                inst.operation,
                [qm[b] for b in inst.qubits],
                [cm[b] for b in inst.clbits],
                sub,
                out,
                depth + 1,
            )
    else:
        raise Unsupported("operation %r" % name)


class Program:
    """A QuantumCircuit lowered to primitive device instructions."""

    def __init__(self, circ):
        self.qidx = {q: i for i, q in enumerate(circ.qubits)}
        self.cidx = {c: i for i, c in enumerate(circ.clbits)}
        self.nq = len(circ.qubits)
        self.nc = len(circ.clbits)
        self.cregs = [(r.name, [self.cidx[b] for b in r]) for r in circ.cregs]
        self.steps = []
        for inst in circ.data:
            out = []
            _flatten(
                inst.operation,
                [self.qidx[q] for q in inst.qubits],
                [self.cidx[c] for c in inst.clbits],
                self.cidx,
                out,
            )
            self.steps.append(out)

    def strings(self, clbits, shots):
        """Result strings in the device's reporting format, one per shot."""
        res = []
        for s in range(shots):
            parts = []
            for _, bits in reversed(self.cregs):
                parts.append("".join("1" if clbits[b] >> s & 1 else "0" for b in reversed(bits)))
            res.append(" ".join(parts))
        return res


# ---------------------------------------------------------------- execution


class Device:
    """Tableau over `nq` qubits, bit-parallel over `shots` simulated devices."""

    def __init__(self, nq, shots, seed):
        n = self.n = nq
        self.shots = shots
        self.all = (1 << shots) - 1
        self.rng = random.Random(seed)
        # rows 0..n-1 destabilizers, n..2n-1 stabilizers; columns are bit vectors over rows
        self.x = [1 << i for i in range(n)]
        self.z = [1 << (n + i) for i in range(n)]
        self.c = 0  # sign common to all shots, one bit per row
        self.d = [0] * (2 * n)  # per row: shots whose sign differs from the common one
        self.stab = ((1 << n) - 1) << n
        self.rows = (1 << (2 * n)) - 1
        self.nrandom = 0
        self.nmeasure = 0

    # -- Cliffords
    def h(self, q):
        x, z = self.x[q], self.z[q]
        self.c ^= x & z
        self.x[q], self.z[q] = z, x

    def s(self, q):
        x = self.x[q]
        self.c ^= x & self.z[q]
        self.z[q] ^= x

    def cx(self, a, b):
        xa, za, xb, zb = self.x[a], self.z[a], self.x[b], self.z[b]
        self.c ^= xa & zb & (xb ^ za ^ self.rows)
        self.x[b] = xb ^ xa
        self.z[a] = za ^ zb

    def cz(self, a, b):
        self.h(b)
        self.cx(a, b)
        self.h(b)

    def pauli(self, p, q, mask):
        """Apply Pauli p on qubit q in the shots of mask."""
        if p == "X":
            rows = self.z[q]
        elif p == "Z":
            rows = self.x[q]
        elif p == "Y":
            rows = self.x[q] ^ self.z[q]
        else:
            return
        if mask == self.all:
            self.c ^= rows
            return
        d = self.d
        while rows:
            low = rows & -rows
            d[low.bit_length() - 1] ^= mask
            rows ^= low

    # -- measurement
    def measure(self, q, force=None):
        """Returns (outcome bits over shots, was_random). A random outcome can be forced."""
        self.nmeasure += 1
        n = self.n
        xq = self.x[q]
        anti = xq & self.stab
        if anti:
            p = anti.bit_length() - 1
            pb = 1 << p
            mask = xq & ~pb
            if mask:
                self._rowmul(mask, p)
            # destabilizer p-n := old stabilizer p
            dst = p - n
            db = 1 << dst
            for j in range(n):
                xj = self.x[j]
                if xj & pb:
                    self.x[j] = (xj | db) ^ pb
                elif xj & db:
                    self.x[j] = xj ^ db
                zj = self.z[j]
                if zj & pb:
                    self.z[j] = (zj | db) ^ pb
                elif zj & db:
                    self.z[j] = zj ^ db
            self.d[dst] = self.d[p]
            self.c = (self.c & ~db) | (db if self.c & pb else 0)
            self.c &= ~pb
            self.z[q] |= pb
            out = self.rng.getrandbits(self.shots) if force is None else force & self.all
            self.nrandom += 1
            self.d[p] = out
            return out, True
        m = (xq & ~self.stab) << n
        return self._product_sign(m), False

    def _rowmul(self, mask, p):
        """Multiply row p into every row of mask (left multiplication), tracking signs."""
        pos1 = pos2 = 0  # two-bit counter per row, mod 4
        x, z = self.x, self.z
        for j in range(self.n):
            xj, zj = x[j], z[j]
            px, pz = xj >> p & 1, zj >> p & 1
            if not (px or pz):
                continue
            if px and pz:  # Y
                plus, minus = zj & ~xj, xj & ~zj
            elif px:  # X
                plus, minus = xj & zj, zj & ~xj
            else:  # Z
                plus, minus = xj & ~zj, xj & zj
            plus &= mask
            minus &= mask
            # add 1 on plus, add 3 on minus
            add1 = plus | minus
            carry = pos1 & add1
            pos1 ^= add1
            pos2 ^= carry ^ minus
            if px:
                x[j] = xj ^ mask
            if pz:
                z[j] = zj ^ mask
        flip = pos2
        if self.c >> p & 1:
            flip ^= mask
        self.c ^= flip & mask
        dp = self.d[p]
        if dp:
            d = self.d
            while mask:
                low = mask & -mask
                d[low.bit_length() - 1] ^= dp
                mask ^= low

    def _product_sign(self, m):
        """Sign (bits over shots) of the product of the stabilizer rows in m."""
        if not m:
            return 0
        phase = 0
        width = 2 * self.n
        if m & (m - 1):
            for j in range(self.n):
                xj = self.x[j] & m
                zj = self.z[j] & m
                if not (xj or zj):
                    continue
                phase += (xj & zj).bit_count()
                if xj and zj:
                    y = zj
                    sh = 1
                    while sh < width:
                        y ^= y << sh
                        sh <<= 1
                    phase += 2 * ((y << 1) & xj).bit_count()
                    if xj.bit_count() & 1 and zj.bit_count() & 1:
                        phase -= 1
        phase &= 3
        if phase & 1:
            raise AssertionError("non-hermitian stabilizer product")
        out = self.all if phase == 2 else 0
        if (self.c & m).bit_count() & 1:
            out ^= self.all
        d = self.d
        while m:
            low = m & -m
            out ^= d[low.bit_length() - 1]
            m ^= low
        return out

    def reset(self, q):
        out, _ = self.measure(q)
        if out:
            self.pauli("X", q, out)


class Run:
    """The recorded history of one execution."""

    __slots__ = ("clbits", "log", "device", "ids", "writes", "fired", "by_step")

    def __init__(self, nc, device):
        self.clbits = [0] * nc
        self.log = []  # (step, qubit, clbit, random?, recorded value) for every measurement
        self.ids = []  # (step, qubit) for every explicit identity executed
        self.writes = [0] * nc
        self.device = device
        self.fired = {}


def execute(prog, shots, seed, faults=(), readout=(), trace=True):
    """
    Execute a Program.

    faults:  iterable of (step, pauli, qubit, mask): before instruction `step` (an index into the
             circuit's instruction list; len(steps) means at the end) apply the Pauli in `mask`.
             pauli "D" depolarises (independent random X and Z per shot in mask).
    readout: iterable of (clbit, mask): the recorded value of clbit is flipped in mask.
    """
    dev = Device(prog.nq, shots, seed)
    run = Run(prog.nc, dev)
    plan = {}
    for step, p, q, mask in faults:
        plan.setdefault(step, []).append((p, q, mask & dev.all))
    flips = {}
    for c, mask in readout:
        flips[c] = flips.get(c, 0) ^ (mask & dev.all)

    def apply(op, mask, step):
        k = op[0]
        if k == "cx" and mask == dev.all:
            dev.cx(op[1], op[2])
        elif k == "h" and mask == dev.all:
            dev.h(op[1])
        elif k == "id":
            run.ids.append((step, op[1]))
        elif k in ("x", "y", "z"):
            dev.pauli(k.upper(), op[1], mask)
        elif k == "if":
            bits, val, then, other = op[1:]
            hit = dev.all
            for i, b in enumerate(bits):
                v = run.clbits[b]
                hit &= v if val >> i & 1 else ~v
            if val >> len(bits):
                hit = 0
            hit &= dev.all
            for branch, m in ((then, hit & mask), (other, (hit ^ dev.all) & mask)):
                if m:
                    for sub in branch:
                        apply(sub, m, step)
        elif mask == 0:
            return
        elif mask != dev.all:
            raise NeedSingleShot(k)
        elif k == "m":
            out, rnd = dev.measure(op[1])
            run.writes[op[2]] += 1
            if trace:
                run.log.append((step, op[1], op[2], rnd))
            if op[2] in flips:
                out ^= flips[op[2]]
            run.clbits[op[2]] = out
            if trace:
                run.log[-1] += (out,)
        elif k == "r":
            dev.reset(op[1])
        elif k == "cz":
            dev.cz(op[1], op[2])
        elif k == "cy":
            dev.s(op[2]); dev.pauli("Z", op[2], dev.all)
            dev.cx(op[1], op[2])
            dev.s(op[2])
        elif k == "s":
            dev.s(op[1])
        elif k == "sdg":
            dev.s(op[1]); dev.pauli("Z", op[1], dev.all)
        elif k == "sx":
            dev.h(op[1]); dev.s(op[1]); dev.h(op[1])
        elif k == "sxdg":
            dev.h(op[1]); dev.s(op[1]); dev.pauli("Z", op[1], dev.all); dev.h(op[1])
        elif k == "swap":
            dev.cx(op[1], op[2]); dev.cx(op[2], op[1]); dev.cx(op[1], op[2])
        else:
            raise Unsupported(k)

    def inject(step):
        for p, q, mask in plan.get(step, ()):
            if not mask:
                continue
            run.fired[p] = run.fired.get(p, 0) + 1
            if p == "D":
                rx, rz = dev.rng.getrandbits(shots), dev.rng.getrandbits(shots)
                dev.pauli("X", q, rx & mask)
                dev.pauli("Z", q, rz & mask)
            else:
                dev.pauli(p, q, mask)

    for step, ops in enumerate(prog.steps):
        if step in plan:
            inject(step)
        for op in ops:
            apply(op, dev.all, step)
    inject(len(prog.steps))
    if flips:
        run.fired["readout_flip"] = sum(1 for c in flips if flips[c])
    return run
