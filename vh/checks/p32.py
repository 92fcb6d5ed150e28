"""P32: the provided noise channels are the documented ones, and channel validation is exact."""
from __future__ import annotations

import itertools
import random
import warnings

import numpy as np

from .. import sim
from .. import simrun as sr
from ..tlc import run_batch
from ..util import observe

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification: Channels.tla gives every documented channel exactly (integer Kraus operators) and TLC prints its exact output on entangled inputs for the code to reproduce; Kraus.tla decides admissibility of operator lists and parameters"
NOTE = ("Every constructor over a grid of parameters (rational probabilities, Pythagorean damping rates), on maximally entangled states (which determine the whole map) and random pure and mixed states, on every choice of target qubits; "
        "random operator lists, spoiled in shape, count and normalisation, and parameters in and out of range.")
TOL = 1e-8

FRACS = [(0, 1), (1, 1), (1, 2), (1, 3), (2, 3), (1, 4), (3, 4), (1, 5), (4, 5), (1, 8), (7, 8), (9, 10), (1, 100)]
TRIPLES = [(1, 0, 1), (0, 1, 1), (3, 4, 5), (4, 3, 5), (5, 12, 13), (12, 5, 13), (15, 8, 17), (8, 15, 17)]
PAULI = [(0, 0, 0, 1), (1, 0, 0, 1), (0, 1, 0, 1), (0, 0, 1, 1), (1, 0, 0, 2), (0, 1, 0, 2), (0, 0, 1, 2), (1, 1, 1, 4), (1, 2, 3, 8), (3, 1, 0, 4), (0, 3, 1, 5), (2, 0, 1, 4),
         (1, 1, 2, 4), (1, 1, 1, 8), (2, 1, 1, 16), (3, 3, 4, 10), (0, 8, 2, 10), (1, 8, 1, 10)]


def grid():
    for num, den in FRACS:
        p = num / den
        for ch, f, k in (("deph", "dephasing_channel", 1), ("depol", "depolarising_channel", 1), ("depol2", "two_qubit_depolarising_channel", 2),
                         ("depoltensor", "two_qubit_depolarising_tensor_channel", 2)):
            yield {"ch": ch, "num": num, "den": den}, f, (p,), k
    for cs, sn, hy in TRIPLES:
        yield {"ch": "damp", "cs": cs, "sn": sn, "hy": hy}, "amplitude_damping_channel", ((sn / hy) ** 2,), 1
        yield {"ch": "damp2", "cs": cs, "sn": sn, "hy": hy}, "two_qubit_amplitude_damping_channel", ((sn / hy) ** 2,), 2
    for px, py, pz, d in PAULI:
        yield {"ch": "pauli", "px": px, "py": py, "pz": pz, "den": d}, "pauli_channel", (px / d, py / d, pz / d), 1


def targets(n, k):
    return list(itertools.permutations(range(n), k))


def entangled(k):
    """Amplitudes of k maximally entangled pairs: qubits 0..k-1 with k..2k-1."""
    v = np.zeros(1 << (2 * k), dtype=complex)
    for x in range(1 << k):
        v[(x << k) | x] = 1
    return v


def run(chk):
    import graphix.channels as gc
    from graphix.channels import KrausChannel, KrausData
    from graphix.noise_models import amplitude_damping, depolarising
    from graphix.sim.density_matrix import DensityMatrix

    quick = chk.tier == "quick"
    rng = random.Random(chk.seed * 179424673 + 32)
    cases, todo = [], {}

    def add(c, make, desc, v, n, q, extra=0):
        cid = f"{c['ch']}-{len(cases)}"
        cmds = [{"k": "IN", "ns": list(range(n + extra)), "amp": sim.flat(v)}, *({"k": "TR", "n": n + i} for i in range(extra)), {"k": "CH", "q": list(q), "c": c, "cond": 0, "d": []}]
        cs = sim.case(cid, cmds, None)
        if sim.bits(cs["cmds"]) > 30:
            chk.skipped += 1
            return
        t = (v / np.linalg.norm(v)).reshape(1 << n, 1 << extra)
        cases.append(cs)
        todo[cid] = (make, t @ t.conj().T, q, {"channel": desc, "spec": c, "state": repr(v.tolist()), "traced_out": extra, "targets": list(q)})

    noise_of = {"depolarising_channel": depolarising.DepolarisingNoise, "two_qubit_depolarising_channel": depolarising.TwoQubitDepolarisingNoise,
                "amplitude_damping_channel": amplitude_damping.AmplitudeDampingNoise, "two_qubit_amplitude_damping_channel": amplitude_damping.TwoQubitAmplitudeDampingNoise}
    for c, f, args, k in grid():
        make = lambda f=f, args=args: getattr(gc, f)(*args)
        add(c, make, f"{f}{args}", entangled(k), 2 * k, range(k))
        for _ in range(2 if quick else 12):
            n = rng.randrange(k, 4)
            extra = rng.randrange(0, 2)
            add(c, make, f"{f}{args}", sim.random_vec(rng, n + extra), n, rng.choice(targets(n, k)), extra)
        if f in noise_of:
            add(c, lambda f=f, args=args: noise_of[f](*args).to_krauschannel(), f"{noise_of[f].__name__}{args}", entangled(k), 2 * k, range(k))
    for i in range(60 if quick else 1200):
        k = rng.randrange(1, 3)
        c, data = sr.custom_channel(rng, k)
        n = rng.randrange(k, 4)
        add(c, lambda data=data: KrausChannel([KrausData(a, o) for a, o in data]), f"{data!r}", sim.random_vec(rng, n), n, rng.choice(targets(n, k)))
    recs, res = sim.run(cases)
    chk.states += res.states
    chk.distinct += res.distinct
    chk.actions.update(res.coverage)
    for cid, rs in recs.items():
        make, rho, q, org = todo[cid]
        rec, = rs
        chk.traces += 1
        if len(chk.samples) < 8 and chk.traces % 23 == 1:
            chk.samples.append({"case": cid, **org})

        def go():
            dm = DensityMatrix((rho + rho.conj().T) / 2)
            ch = make()
            dm.apply_channel(ch, list(q))
            return dm.rho, int(ch.nqubit)

        got, _ = observe(chk, cid, go, org)
        if got is None:
            continue
        exp = sim.rho(rec)
        if np.max(np.abs(got[0] - exp)) > TOL:
            chk.violate(cid, "action", {"origin": org, "got": repr(got[0]), "expected": repr(exp)})
        if got[1] != len(q):
            chk.violate(cid, "size", {"origin": org, "got": got[1]})
    a = admissible_parameters(chk, rng, noise_of)
    b = operator_lists(chk, rng, 250 if quick else 4000)
    chk.cov = {"constructor_points": len(list(grid())), "channel_applications": len(cases), "parameter_points": a, "operator_lists": b}


def admissible_parameters(chk, rng, noise_of):
    import graphix.channels as gc

    cs, meta = [], {}
    grid1 = [(-1, 1), (-1, 10), (-1, 1000), (0, 1), (1, 1000), (1, 2), (999, 1000), (1, 1), (1001, 1000), (11, 10), (2, 1), (5, 1)]
    todo = [(f, [p], k) for p in grid1 for f, k in (("dephasing_channel", 1), ("depolarising_channel", 1), ("two_qubit_depolarising_channel", 2), ("two_qubit_depolarising_tensor_channel", 2),
                                                    ("amplitude_damping_channel", 1), ("two_qubit_amplitude_damping_channel", 2))]
    todo += [(cls, [p], 1 if "Two" not in cls.__name__ else 2) for p in grid1 for cls in noise_of.values()]
    for a in itertools.product([-1, 0, 1, 2, 5], repeat=3):
        todo.append(("pauli_channel", [(x, 4) for x in a], 1))
    # no room for the identity: the probabilities sum to one, up to rounding
    todo += [("pauli_channel", [(a, d), (b, d), (d - a - b, d)], 1) for d in (10, 20) for a in range(d + 1) for b in range(d + 1 - a)]
    for i, (f, ps, k) in enumerate(todo):
        cid = f"par{i}"
        name = f if isinstance(f, str) else f.__name__
        org = {"channel": name, "parameters": [list(p) for p in ps]}

        def go():
            try:
                args = [a / b for a, b in ps]
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    x = getattr(gc, f)(*args) if isinstance(f, str) else f(*args).to_krauschannel()
            except ValueError:
                return {"ok": 0, "rn": 0}
            return {"ok": 1, "rn": int(x.nqubit)}

        got, _ = observe(chk, cid, go, org)
        if got:
            cs.append({"id": cid, "k": "param", "p": [list(p) for p in ps], "nq": k, **got})
            meta[cid] = {**org, **got}
    chk.absorb(run_batch("Kraus", cs), cs, meta)
    return len(cs)


def operator_lists(chk, rng, count):
    from graphix.channels import KrausChannel, KrausData

    cs, meta = [], {}
    for i in range(count):
        k = rng.choice([1, 1, 1, 2])
        w, ops, n = sr.kraus_ops(rng, k)
        spoil = rng.choice(["", "", "", "weight", "entry", "drop", "shape", "mixed", "many", "empty", "factor", "split", "odd"])
        ops = [o.copy() for o in ops]
        w = list(w)
        if spoil == "weight":
            w[rng.randrange(len(w))] += 1
        elif spoil == "entry":
            o = rng.choice(ops)
            o[rng.randrange(1 << k), rng.randrange(1 << k)] += rng.choice([1, 1j, -1])
        elif spoil == "drop":
            j = rng.randrange(len(ops))
            del ops[j], w[j]
        elif spoil == "shape":
            o = ops[0]
            ops[0] = o[:, :1] if rng.random() < 0.5 else o[:1, :]
        elif spoil == "odd":
            ops[rng.randrange(len(ops))] = np.eye(3, dtype=complex)
        elif spoil == "mixed":
            ops.append(np.eye(1 << (3 - k), dtype=complex))
            w.append(1)
        elif spoil == "many":
            m = rng.choice([4 ** k, 4 ** k + 1]) if k == 1 else rng.choice([16, 17])
            ops = [np.eye(1 << k, dtype=complex)] * m
            w, n = [1] * m, m
        elif spoil == "split":      # one operator given twice with half the weight
            ops = [*ops, *ops]
            w, n = w + w, 2 * n
        elif spoil == "empty":
            ops, w = [], []
        elif spoil == "factor":
            n *= 2
        cid = f"ops{i}"
        org = {"operators": [o.tolist() for o in ops], "weights": w, "N": n, "spoiled": spoil}

        def go():
            src = [o.real.copy() if not o.imag.any() and rng.random() < 0.5 else o.copy() for o in ops]
            try:
                kd = [KrausData(complex(np.sqrt(a / n)) * rng.choice([1, 1j, -1]), o) for a, o in zip(w, src)]
                ch = KrausChannel(kd if rng.random() < 0.7 else iter(kd))
            except ValueError:
                return {"ok": 0, "rn": 0}, None
            # a validated channel stays the one that was validated
            was = [(d.coef, d.operator.copy()) for d in ch]
            for o in src:
                try:
                    o[0, 0] += 5
                except ValueError:
                    pass
            for d in kd:
                try:
                    d.operator[0, 0] = 7
                except ValueError:
                    pass
            kd.clear()
            now = [(ch[j].coef, ch[j].operator) for j in range(len(ch))]
            same = len(was) == len(now) and all(a == c and np.array_equal(b, d) for (a, b), (c, d) in zip(was, now))
            listed = [x.coef for x in ch[:]] == [a for a, _ in was]
            return {"ok": 1, "rn": int(ch.nqubit)}, same and listed

        got, _ = observe(chk, cid, go, org)
        if got:
            got, same = got
            if same is False:
                chk.violate(cid, "channel-altered-after-validation", org)
            cs.append({"id": cid, "k": "ops", "ops": [{"rows": int(o.shape[0]), "cols": int(o.shape[1]), "m": sr.ints(o)} for o in ops], "w": w, "N": n, **got})
            meta[cid] = {**org, "observed": got}
    cs = [c for c in cs if c["ops"] or True]
    chk.absorb(run_batch("Kraus", cs), cs, meta)
    return len(cs)
