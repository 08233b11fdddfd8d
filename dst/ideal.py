"""
Reference model of a register of perfect qubits (one qubit per logical qubit, plus the bare
physical ones).  Same operations, no lattice, no helper qubits.  Measurement outcomes that quantum
mechanics leaves open are taken from the history under test; all others are predicted.
"""
from dst.device import Device


class Ideal:
    """Qubits are names; a reset forgets the old qubit and brings in a fresh one."""

    def __init__(self, names, resets, shots):
        self.free = list(range(len(names) + resets))
        self.where = {n: self.free.pop() for n in names}
        self.dev = Device(len(names) + resets, shots, 0)
        self.all = self.dev.all
        self.open = []  # outcome bit vectors quantum mechanics leaves open

    def pauli(self, p, q, mask):
        self.dev.pauli(p, self.where[q], mask & self.all)

    def h(self, q):
        self.dev.h(self.where[q])

    def cx(self, a, b):
        self.dev.cx(self.where[a], self.where[b])

    def measure(self, q, basis, observed):
        """Returns the mask of shots in which the observed outcome is impossible."""
        d, q = self.dev, self.where[q]
        if basis == "X":
            d.h(q)
        out, rnd = d.measure(q, force=observed)
        if basis == "X":
            d.h(q)
        if rnd:
            self.open.append(out)
            return 0
        return (out ^ observed) & d.all

    def reset(self, q, basis):
        self.where[q] = self.free.pop()
        if basis == "X":
            self.dev.h(self.where[q])


def dependent(vectors, allmask):
    """True if some non-empty XOR of the vectors is constant over the shots."""
    basis = [allmask]
    rows = []
    piv = {}
    for v in basis + list(vectors):
        x = v
        while x:
            h = x.bit_length() - 1
            if h in piv:
                x ^= piv[h]
            else:
                piv[h] = x
                rows.append(x)
                break
        else:
            return True
    return False
