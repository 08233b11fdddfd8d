"""
The execution seam: what the code under test gets from qiskit when it runs a circuit.

`qiskit.execute` and `Aer.get_backend` are replaced by dispatchers.  While no simulated backend is
active they pass straight through, so nothing else in the process changes.
"""
import qiskit

from dst import simfs

CURRENT = None  # the active SimBackend, if any


REAL_TRANSPILE = None


def optimised(circ, level):
    """What the real transpiler makes of the circuit on a machine that knows all its gates."""
    known = {"id", "x", "y", "z", "h", "s", "sdg", "sx", "sxdg", "t", "tdg", "p", "r", "rx", "ry", "rz", "u",
             "u1", "u2", "u3", "cx", "cy", "cz", "swap"}
    gates = sorted((set(circ.count_ops()) | known) - {"barrier", "measure", "reset"})
    f = REAL_TRANSPILE or qiskit.transpile
    with simfs.unseen():  # plugin discovery reads directories, once per process
        out = f(circ, basis_gates=gates, optimization_level=level, seed_transpiler=1)
    # the same gates in an order the transpiler chose: no noise site changed, keep the order asked for
    return circ if out.count_ops() == circ.count_ops() else out


class SimJob:
    def __init__(self, outcome):
        self._o = outcome

    def result(self, *a, **k):
        if isinstance(self._o, BaseException):
            raise self._o
        return self

    def get_counts(self, *a, **k):
        return dict(self._o)

    def status(self):
        return "DONE"

    def wait_for_final_state(self, *a, **k):
        return None


class SimBackend:
    """handler(circuit, noise_model, shots) -> counts, or raises (the backend failed)."""

    def __init__(self, handler):
        self.handler = handler
        self.jobs = 0
        self.options = {}

    def set_options(self, **kw):
        self.options.update(kw)

    def run(self, circ, optimization_level=0, **kw):
        """qiskit.execute optimises by default; sending a circuit straight to the machine does not."""
        self.jobs += 1
        if isinstance(circ, (list, tuple)):
            circ = circ[0]
        if optimization_level != 0:
            circ = optimised(circ, optimization_level)
        noise = kw.get("noise_model", self.options.get("noise_model"))
        shots = kw.get("shots", self.options.get("shots", 1024))
        try:
            return SimJob(self.handler(circ, noise, 1024 if shots is None else shots))
        except Exception as e:  # surfaces when the result is asked for
            return SimJob(e)


def install():
    if getattr(qiskit.execute, "_dst", False):
        return
    real_execute = qiskit.execute
    import qiskit.execute_function as ef

    def execute(experiments, backend=None, *a, **kw):
        if isinstance(backend, SimBackend):
            kw.setdefault("optimization_level", None)
            return backend.run(experiments, **kw)
        return real_execute(experiments, backend, *a, **kw)

    execute._dst = True
    qiskit.execute = execute
    ef.execute = execute

    global REAL_TRANSPILE
    REAL_TRANSPILE = qiskit.transpile

    def transpile(circuits, backend=None, *a, **kw):
        if isinstance(backend, SimBackend):
            level = kw.get("optimization_level")
            if level == 0:
                return circuits
            if isinstance(circuits, (list, tuple)):
                return [optimised(c, level) for c in circuits]
            return optimised(circuits, level)
        return REAL_TRANSPILE(circuits, backend, *a, **kw)

    qiskit.transpile = transpile

    from qiskit import Aer  # the wrapper object exported by qiskit

    real_get = Aer.get_backend

    def get_backend(name=None, **kw):
        if CURRENT is not None:
            return CURRENT
        return real_get(name, **kw)

    Aer.get_backend = get_backend
    try:
        import qiskit_aer

        real_sim = qiskit_aer.AerSimulator

        if qiskit_aer.Aer is not Aer:
            qiskit_aer.Aer.get_backend = get_backend

        class AerSimulator(real_sim):
            def __new__(cls, *a, **k):
                if CURRENT is not None:
                    CURRENT.set_options(**k)
                    return CURRENT
                return super().__new__(cls)

        # only importers that look the name up later (a refactored benchmark) see this
        qiskit_aer.AerSimulator = AerSimulator
    except ImportError:
        pass


class active:
    def __init__(self, handler):
        self.b = SimBackend(handler)

    def __enter__(self):
        global CURRENT
        CURRENT = self.b
        return self.b

    def __exit__(self, *a):
        global CURRENT
        CURRENT = None
        return False
