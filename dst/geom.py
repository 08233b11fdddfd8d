"""
Independent model of the rotated lattice, written from the documented coordinate convention only
(README figure 1 and the tutorials): data qubits sit at integer (row, col), checks at half-integer
(i, j); Z checks are the (floor i + floor j) even faces strictly between the top and bottom row,
X checks the odd faces strictly between the left and right column; within one recorded round the
Z checks occupy the low bits and the X checks the high bits, each in row-major order.

Nothing here imports qtcodes.
"""
from functools import lru_cache
from math import floor

CODES = ("XXZZ", "XZZX", "REP", "PREP")


class Lattice:
    def __init__(self, code, dh, dw):
        self.code, self.dh, self.dw = code, dh, dw
        self.n = dh * dw
        half = lambda lo, hi: [lo + k for k in range(int(hi - lo) + 1)]
        self.checks = {"Z": [], "X": []}
        for i in half(-0.5, dh - 0.5):
            for j in half(-0.5, dw - 0.5):
                even = (floor(i) + floor(j)) % 2 == 0
                if even and 0 < i < dh - 1:
                    self.checks["Z"].append((i, j))
                elif not even and 0 < j < dw - 1:
                    self.checks["X"].append((i, j))
        self.nz, self.nx = len(self.checks["Z"]), len(self.checks["X"])
        self.width = self.nz + self.nx
        self.support = {
            t: [self._around(i, j) for (i, j) in self.checks[t]] for t in ("Z", "X")
        }
        # data qubit -> indices of adjacent checks, per type
        self.adj = {t: [[] for _ in range(self.n)] for t in ("Z", "X")}
        for t in ("Z", "X"):
            for k, sup in enumerate(self.support[t]):
                for q in sup:
                    self.adj[t][q].append(k)
        self.row = list(range(dw))  # logical Z line
        self.col = list(range(0, self.n, dw))  # logical X line

    def _around(self, i, j):
        out = []
        for a in (floor(i), floor(i) + 1):
            for b in (floor(j), floor(j) + 1):
                if 0 <= a < self.dh and 0 <= b < self.dw:
                    out.append(a * self.dw + b)
        return out

    def effective(self, pauli, q):
        """(flips the Z-type checks?, flips the X-type checks?) of a Pauli error on data qubit q."""
        ex, ez = pauli in "XY", pauli in "ZY"
        if self.code == "XZZX" and q % 2 == 0:
            ex, ez = ez, ex
        return ex, ez

    def physical(self, t, q):
        """The Pauli on q that flips only the checks of type t."""
        p = "X" if t == "Z" else "Z"
        if self.code == "XZZX" and q % 2 == 0:
            p = "Z" if p == "X" else "X"
        return p

    def bit(self, t, k):
        """Position of check k of type t in a recorded round (0 = least significant)."""
        return k if t == "Z" else self.nz + k

    def distance(self, t):
        """Number of faults of the kind that flips t-checks needed to flip the t readout."""
        return self.dh if t == "Z" else self.dw


@lru_cache(maxsize=None)
def lattice(code, dh, dw):
    return Lattice(code, dh, dw)


def shape(code, d):
    """Lattice height and width implied by the size parameter of a code."""
    if isinstance(d, (list, tuple)):
        return tuple(d)
    if code == "REP":
        return (d, 1)
    if code == "PREP":
        return (1, d)
    return (d, d)
