"""
The one place where the code under test is imported, and where its seams are.

Byte code caches of the code under test are never read: only the current source text counts.
"""
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))

_orig_stats = importlib.machinery.SourceFileLoader.path_stats


def _path_stats(self, path):
    if os.path.realpath(path).startswith(REPO + os.sep):
        raise OSError("no cached byte code for the code under test")
    return _orig_stats(self, path)


importlib.machinery.SourceFileLoader.path_stats = _path_stats

if REPO in sys.path:
    sys.path.remove(REPO)
sys.path.insert(0, REPO)

from dst import backend, matching, procs, sched  # noqa: E402  (seams go in before qtcodes is imported)

backend.install()
matching.install()
procs.install()
sched.install()

import numpy as np  # noqa: E402
import qtcodes  # noqa: E402
from dst.geom import shape  # noqa: E402

if os.path.realpath(os.path.dirname(os.path.dirname(qtcodes.__file__))) != REPO:
    raise ImportError("qtcodes was imported from %s, not from %s" % (qtcodes.__file__, REPO))

from qtcodes import (  # noqa: E402,F401
    REPETITION,
    XXZZ,
    XZZX,
    RepetitionDecoder,
    RepetitionQubit,
    RotatedDecoder,
    TopologicalAnalysis,
    TopologicalBatchAnalysis,
    TopologicalBenchmark,
    TopologicalCircuit,
    TopologicalRegister,
    XXZZQubit,
    XZZXQubit,
)
from qiskit import ClassicalRegister, QuantumCircuit, QuantumRegister  # noqa: E402,F401

QUBIT = {"XXZZ": XXZZQubit, "XZZX": XZZXQubit, "REP": RepetitionQubit, "PREP": RepetitionQubit}
CTYPE = {"XXZZ": XXZZ, "XZZX": XZZX, "REP": REPETITION, "PREP": REPETITION}


DEFAULT = {"XXZZ": (3, 3), "XZZX": (3, 3), "REP": (3, 1), "PREP": (1, 3)}
SPELLINGS = ["int", "tuple", "list", "float", "floats", "np", "absent", "none", "extra", "flag"]


def params(code, d, spell=None, decoder=False):
    """
    The params a user writes for a code of shape d (int or [h, w]); None if the default is meant.

    spell picks one of the accepted spellings of the same shape; where it cannot express this
    shape, the plain one is used.
    """
    rep = code in ("REP", "PREP")
    full = shape(code, d)
    one = (full[0] if code == "REP" else full[1]) if rep else (full[0] if full[0] == full[1] else None)
    v = tuple(d) if isinstance(d, list) else d
    p = {"d": v}
    if spell == "int" and one:
        p["d"] = one
    elif spell == "tuple":
        p["d"] = tuple(full)
    elif spell == "list" and not rep:
        p["d"] = list(full)
    elif spell == "float" and one:
        p["d"] = float(one)
    elif spell == "floats" and not rep and not decoder:
        p["d"] = tuple(float(x) for x in full)
    elif spell == "np" and one:
        p["d"] = np.int64(one)
    elif spell in ("absent", "none") and not decoder and tuple(full) == DEFAULT[code]:
        del p["d"]
        if spell == "none" and code != "PREP":
            return None
    elif spell == "extra":
        p["T"] = 7
    if code == "PREP":
        p["phase-flip-protected"] = True
    elif code == "REP" and spell == "flag":
        p["phase-flip-protected"] = False
    return p


def decoder(code, d, T, spell=None):
    p = params(code, d, spell, decoder=True)
    p["T"] = T
    return (RepetitionDecoder if code in ("REP", "PREP") else RotatedDecoder)(p)


class Library:
    """Another copy of the code under test, in the state it has right after being imported."""

    _code = {}

    def __init__(self):
        mine = {k: v for k, v in sys.modules.items() if k == "qtcodes" or k.startswith("qtcodes.")}
        loader = importlib.machinery.SourceFileLoader
        plain = loader.get_code

        def get_code(ldr, name):
            path = ldr.get_filename(name)
            if not os.path.realpath(path).startswith(REPO + os.sep):
                return plain(ldr, name)
            if path not in self._code:
                self._code[path] = plain(ldr, name)
            return self._code[path]

        for k in mine:
            del sys.modules[k]
        loader.get_code = get_code
        try:
            top = importlib.import_module("qtcodes")
        finally:
            loader.get_code = plain
            for k in [k for k in sys.modules if k == "qtcodes" or k.startswith("qtcodes.")]:
                del sys.modules[k]
            sys.modules.update(mine)
        self.QUBIT = {k: getattr(top, v.__name__) for k, v in QUBIT.items()}
        self.TopologicalCircuit = top.TopologicalCircuit
        self.TopologicalRegister = top.TopologicalRegister
        self.RotatedDecoder = top.RotatedDecoder
        self.RepetitionDecoder = top.RepetitionDecoder

    def __getattr__(self, name):  # spellings and qiskit: the same everywhere
        return globals()[name]


def data_qubits(tq):
    """The data qubits of a logical qubit, in the documented order."""
    regs = getattr(tq.lattice, "qregisters", None)
    if isinstance(regs, dict) and "data" in regs:
        return list(regs["data"])
    named = [r for r in tq.circ.qregs if r.name == tq.name + "_data"]
    if len(named) != 1:
        raise ValueError("no data register found for " + tq.name)
    return list(named[0])
