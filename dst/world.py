"""
A simulated deployment: several logical qubits (and a few bare physical qubits) on one device.

World.apply() drives the code under test through its public API, one operation at a time, and
records which instructions and which classical registers every operation produced.  Nothing about
the generated instructions is assumed; what they mean is decided by executing them on the device.

Operations (q, a, b: logical qubit; p: physical qubit; s: user register):
  rz q | rx q | stab q | x q | z q | id q | idd q | mz q s|None | mx q s|None | lz q | lx q
  xc q s v | zc q s v | xr q k v | zr q k v | cx a b [ancilla code, d] | pc q p (CX p->q) | pt q p (CX q->p)
  ph p | px p | pz p | pr p | pm p s [bit] | pcx p p2 | nop
"""
from dst import sut
from dst.device import NeedSingleShot, Program, execute
from dst.geom import lattice, shape


class World:
    def __init__(self, spec, ctx, lib=sut, pool=None):
        self.spec, self.ctx, self.lib = spec, ctx, lib
        self.codes = [q["code"] for q in spec["qubits"]]
        self.lats = [lattice(q["code"], *shape(q["code"], q["d"])) for q in spec["qubits"]]
        self.n = len(self.codes)
        self.nphys = spec.get("phys", 0)
        self.via = spec.get("via", "qubit")
        self.circ = sut.QuantumCircuit()
        if spec.get("front") and not spec.get("own"):
            self.circ.add_register(sut.QuantumRegister(spec["front"], "before"))
        shared = {} if pool is None else pool  # parameter dictionaries the caller uses more than once
        plist = []
        for q in spec["qubits"]:
            p = sut.params(q["code"], q["d"], q.get("spell"))
            if p is None and self.via == "treg":
                p = {}
            if (spec.get("share_params") or pool is not None) and p is not None:
                p = shared.setdefault(repr(sorted(p.items())), p)
            plist.append(p)
        self.params = plist
        self.tq = [None] * self.n
        self.tcs = {}  # group -> TopologicalCircuit over that group's register
        self.ix = [None] * self.n  # index of the qubit in its register
        self.group = spec.get("groups") or [0] * self.n
        self.data = [None] * self.n
        late = set(spec.get("late", ()))
        own = spec.get("own") and not any(self.group)
        if own:
            self.circ = None
        if self.via == "treg":
            for g in sorted(set(self.group)):
                first = [i for i in range(self.n) if self.group[i] == g and i not in late]
                kw = {"name": spec.get("name", "treg") + (f"_g{g}" if g else "")}
                if first:
                    kw["ctypes"] = [sut.CTYPE[self.codes[i]] for i in first]
                    kw["params"] = [plist[i] for i in first]
                with ctx.sut("construct"):
                    treg = lib.TopologicalRegister(**kw) if own else lib.TopologicalRegister(self.circ, **kw)
                    self.tcs[g] = lib.TopologicalCircuit(treg)
                    if own:
                        self.circ = treg.circ
                        ctx.probe("own_circuit")
                    for k, i in enumerate(first):
                        self.tq[i], self.ix[i] = treg[k], k
                    for k in range(spec.get("pad", 0) if g == 0 else 0):
                        treg.add_tqubit("data" if k % 2 else "spare", "Repetition", {"d": 3})
                        ctx.probe("unused_neighbours")
            for i in range(self.n):
                if self.tq[i] is not None:
                    self._learn(i)
        else:
            if own and self.n > 1:
                self.circ = sut.QuantumCircuit()
            for i in range(self.n):
                if i not in late or self.circ is None:
                    self.add(i)
        self.tcirc = self.tcs.get(0)
        self.slots = []
        self.asked = []  # what the caller asked the topological circuit for: (kind, name, size, fresh, registers before and after, what it got)
        self.names_asked = set()
        self.pending = False  # whether the caller has yet to ask for its classical registers
        if spec.get("byname") and self.tcirc is not None:
            qname, cname = spec.get("regnames") or ["bare", "user"]
            self.phys = self._ask("q", self.nphys, qname) if self.nphys else []
            self.cname = cname
            self.pending = True
            if not spec.get("lateslots"):
                self._ask_slots()
            if self.nphys:
                self._ask("q", self.nphys + 2, qname)
            ctx.probe("register_by_name")
            ctx.probe("name_the_library_uses", int("regnames" in spec))
        else:
            self.phys = sut.QuantumRegister(self.nphys, "bare") if self.nphys else []
            if self.nphys:
                self.circ.add_register(self.phys)
            for k, w in enumerate(spec.get("slots", [])):
                c = sut.ClassicalRegister(w, f"user{k}")
                self.circ.add_register(c)
                self.slots.append(c)
        self.steps = []  # (op, first instruction, past last instruction)
        self.new = []  # classical registers created by each operation
        self.rounds = [[] for _ in range(self.n)]  # per qubit: (op index, creg)
        self.reads = []  # (op index, kind, qubit, creg, own?)

    def _ask(self, kind, size, name, override=False):
        tc = self.tcirc
        fresh = override or (kind, name) not in self.names_asked
        self.names_asked.add((kind, name))
        held = (tc.creg if kind == "c" else tc.qreg).get(name)
        before = list(self.circ.cregs if kind == "c" else self.circ.qregs)
        with self.ctx.sut("add register"):
            add = tc.add_creg if kind == "c" else tc.add_qreg
            add(size, name, override=True) if override else add(size, name)
            got = (tc.creg if kind == "c" else tc.qreg)[name]
        self.asked.append((kind, name, size, fresh, held, before, list(self.circ.cregs if kind == "c" else self.circ.qregs), got))
        return got

    def _ask_slots(self):
        if self.pending:
            self.pending = False
            for k, w in enumerate(self.spec.get("slots", [])):  # the same name again: the new register takes over, the old one stays
                self.slots.append(self._ask("c", w, self.cname, override=k > 0))
                if k % 2 == 0:
                    self._ask("c", w + 1, self.cname)

    def _learn(self, i):
        """The data qubits of logical qubit i, in documented order."""
        from dst.core import Violation

        with self.ctx.sut("data qubits"):
            dq = sut.data_qubits(self.tq[i])
        if len(dq) != self.lats[i].n:
            raise Violation("data qubit count", f"{self.codes[i]} {self.spec['qubits'][i]['d']} has {len(dq)}")
        self.data[i] = dq

    def add(self, i):
        """Creates logical qubit i, in a circuit that may already have a history."""
        from dst.core import Violation

        with self.ctx.sut("add qubit"):
            if self.via == "treg":
                treg = self.tcs[self.group[i]].treg
                sub = self.spec.get("subs", {}).get(str(i), "data")
                before = list(treg[sub]) if sub in treg.tqubits else []
                if i % 2:
                    treg.add_tqubits(sub, [sut.CTYPE[self.codes[i]]], [self.params[i]])
                else:
                    treg.add_tqubit(sub, sut.CTYPE[self.codes[i]], self.params[i])
                new = [k for k in treg[sub] if k not in before]
                if len(new) != 1:
                    raise Violation("register content", f"one qubit added to {sub}, new indices {new}")
                self.ix[i] = new[0]
                self.tq[i] = treg[sub][new[0]]
            else:
                cls = self.lib.QUBIT[self.codes[i]]
                names = self.spec.get("names") or [f"{self.spec.get('name', 'q')}{k}" for k in range(self.n)]
                kw = {"name": names[i]}
                ctx = self.ctx
                ctx.probe("name_begins_another", int(any(a != names[i] and a.startswith(names[i]) for a in names)))
                if self.circ is not None:
                    kw["circ"] = self.circ
                elif self.spec["qubits"][i].get("spell"):
                    kw = {}  # as the documentation does: nothing but the params
                    self.ctx.probe("own_circuit")
                self.tq[i] = cls(**kw) if self.params[i] is None else cls(self.params[i], **kw)
                self.circ = self.tq[i].circ
        self._learn(i)

    # ------------------------------------------------------------ driving
    def apply(self, op):
        k = op[0]
        if k not in ("ph", "px", "pz", "pr", "pm", "pcx", "nop"):
            for q in op[1:3] if k == "cx" else op[1:2]:
                if self.tq[q] is None:
                    self.add(q)
                    if self.circ.data:
                        self.ctx.probe("late_qubit")
                    if any(o[0] == "cx" for o, _, _ in self.steps):
                        self.ctx.probe("late_after_cx")
        if self.pending and (k in ("xc", "zc", "pm") or k in ("mz", "mx") and op[2] is not None):
            self.ctx.probe("register_asked_late", int(bool(self.circ.data)))
            self._ask_slots()
        a = len(self.circ.data)
        nreg = len(self.circ.cregs)
        idx = len(self.steps)
        ctx = self.ctx
        circ, tc = self.circ, None
        if k in ("ph", "px", "pz", "pr", "pm", "pcx"):
            p = self.phys[op[1]]
            if k == "pm":
                circ.measure(p, self.slots[op[2]][op[3] if len(op) > 3 else 0])
            elif k == "pcx":
                circ.cx(p, self.phys[op[2]])
            else:
                {"ph": circ.h, "px": circ.x, "pz": circ.z, "pr": circ.reset}[k](p)
        elif k != "nop":
            q = op[1]
            tq = self.tq[q]
            tc, iq = self.tcs.get(self.group[q]), self.ix[q]
            with ctx.sut(k):
                if k in ("mz", "mx"):
                    creg = None if op[2] is None else self.slots[op[2]]
                    if tc is not None:
                        f = tc.measure_z if k == "mz" else tc.measure_x
                        who = iq if idx % 4 < 2 else tq  # both documented spellings
                        f(who, creg) if creg is not None else f(who)
                    else:
                        f = tq.readout_z if k == "mz" else tq.readout_x
                        f(creg) if creg is not None else f()
                elif k in ("lz", "lx"):
                    if tc is not None:
                        (tc.measure_lattice_z if k == "lz" else tc.measure_lattice_x)(iq if idx % 4 < 2 else tq)
                    else:
                        (tq.lattice_readout_z if k == "lz" else tq.lattice_readout_x)()
                elif k == "xc":
                    tq.x_c_if(self.slots[op[2]], op[3])
                elif k == "zc":
                    tq.z_c_if(self.slots[op[2]], op[3])
                elif k in ("xr", "zr"):  # feed forward an earlier own readout
                    own = [x for x in self.reads if x[4] and len(x[3]) == 1]
                    if own:
                        (tq.x_c_if if k == "xr" else tq.z_c_if)(own[op[2] % len(own)][3], op[3])
                elif k == "cx":
                    if self.group[op[2]] == self.group[q]:
                        other = self.ix[op[2]] if idx % 3 else self.tq[op[2]]
                    else:
                        other = self.tq[op[2]]
                        ctx.probe("cx_across_registers")
                    mine = self.spec.get("helper")
                    if mine and "ancilla" not in tc.treg.tqubits:  # the caller provides the helper
                        tc.treg.add_tqubit("ancilla", sut.CTYPE[mine[0]], sut.params(*mine) or {})
                        ctx.probe("own_helper")
                    iq = iq if idx % 5 < 3 else tq
                    if len(op) > 3:
                        sp = sut.SPELLINGS[idx % len(sut.SPELLINGS)]
                        tc.cx(iq, other, sut.CTYPE[op[3]], sut.params(op[3], op[4], sp) or {})
                    else:
                        tc.cx(iq, other)
                elif k == "pc":
                    tq.cx(control=self.phys[op[2]])
                elif k == "pt":
                    tq.cx(target=self.phys[op[2]])
                elif k == "echo":  # the user's own noise sites: gates that cancel on a perfect machine
                    for x in self.data[q]:
                        circ.x(x)
                        circ.x(x)
                else:
                    name = {"rz": "reset_z", "rx": "reset_x", "stab": "stabilize", "x": "x",
                            "z": "z", "id": "id", "idd": "id_data"}[k]
                    if tc is not None:
                        getattr(tc, name)(iq if idx % 2 else tq)  # both documented spellings
                    else:
                        getattr(tq, name)()
        new = list(circ.cregs[nreg:])
        self.steps.append((op, a, len(circ.data)))
        self.new.append(new)
        if k == "stab":
            self.rounds[op[1]].append((idx, self._one(new, "stab", self.lats[op[1]].width)))
        elif k in ("mz", "mx"):
            if op[2] is None:
                self.reads.append((idx, k, op[1], self._one(new, k, 1), True))
            else:
                self.reads.append((idx, k, op[1], self.slots[op[2]], False))
        elif k in ("lz", "lx"):
            self.reads.append((idx, k, op[1], self._one(new, k, self.lats[op[1]].n), True))
        return idx

    def _one(self, new, k, width):
        from dst.core import Violation

        if len(new) != 1 or len(new[0]) != width:
            raise Violation(
                "record layout", f"{k} produced registers {[(c.name, len(c)) for c in new]}, expected one of {width} bits"
            )
        return new[0]

    # ------------------------------------------------------------ running
    def program(self):
        for i in range(self.n):
            if self.tq[i] is None:
                self.add(i)
        self._ask_slots()
        self.prog = Program(self.circ)
        return self.prog

    def dq(self, q, i):
        return self.prog.qidx[self.data[q][i]]

    def at(self, idx, frac=0.0):
        """Instruction position inside operation idx (frac 1.0 = just after it)."""
        op, a, b = self.steps[idx]
        return a + int(round((b - a) * frac))

    def run(self, shots, seed, faults=(), readout=()):
        """Faults: (step, pauli, device qubit, mask). Falls back to one shot when it must."""
        prog = self.prog
        try:
            r = execute(prog, shots, seed, faults, readout)
        except NeedSingleShot:
            shots = 1
            r = execute(prog, 1, seed, faults, readout)
        self.shots = shots
        ctx = self.ctx
        for k, n in r.fired.items():
            ctx.fire("pauli_" + k if k != "readout_flip" else k, n)
        ctx.add("device_instructions", len(prog.steps))
        ctx.add("shots", shots)
        ctx.add("syndrome_rounds", sum(len(x) for x in self.rounds))
        ctx.add("device_runs")
        ctx.log(r.clbits)
        return r

    def written(self, run, idx):
        """{clbit: recorded value} of the measurements executed inside operation idx."""
        _, a, b = self.steps[idx]
        if not hasattr(run, "by_step"):
            run.by_step = {}
            for e in run.log:
                run.by_step.setdefault(e[0], []).append(e)
        out = {}
        for st in range(a, b):
            for e in run.by_step.get(st, ()):
                out[e[2]] = e[4]
        return out

    def bits(self, run, creg):
        """Bit vectors over shots, least significant bit of the register first."""
        return [run.clbits[self.prog.cidx[b]] for b in creg]

    @staticmethod
    def word(bits, s):
        return "".join("1" if v >> s & 1 else "0" for v in reversed(bits))

    def chunks(self, run, creg, shots=None):
        """The register as the device prints it, one string per shot."""
        bits = self.bits(run, creg)
        return [self.word(bits, s) for s in range(self.shots if shots is None else shots)]

    def parse(self, q, string, typ):
        # the type may be left out where it has a default (Z) or does not matter (single bit)
        short = len(string) + 3 * string.count("1")
        if short % 4 == 1 and (typ == "Z" and self.tcs or len(string.split(" ")[0]) == 1):
            self.ctx.probe("type_left_out")
            with self.ctx.sut("parse_readout"):
                if self.tcs:
                    return self.tcs[self.group[q]].parse_readout(self.tq[q], string)
                return self.tq[q].parse_readout(string)
        with self.ctx.sut("parse_readout"):
            if self.tcs:
                who = self.ix[q] if len(string) % 2 else self.tq[q]
                return self.tcs[self.group[q]].parse_readout(who, string, typ)
            return self.tq[q].parse_readout(string, typ)


def norm_hits(syn):
    """Parsed syndrome dict -> {type: set of (t, i, j)}; duplicates are kept visible."""
    out = {}
    for t in ("X", "Z"):
        xs = [tuple(float(v) for v in h) for h in syn.get(t, [])]
        out[t] = set(xs) if len(set(xs)) == len(xs) else ("duplicates", tuple(sorted(xs)))
    return out
