"""C02: bounds over Lp balls enclose every value the network takes in the ball"""
CASES = {"quick": 200, "thorough": 5000}
SHARDS = {"torch": 6, "tensorflow": 2}
MIN_NONTRIVIAL = 20
RULE = ("case = one random network (dense, conv, merge graph, pooling, special structures), one norm in {1,2,inf}, a radius in [0,1.5] and 6 centres; "
        "every supporting conversion method with a random slope option; entry points: range / upper / lower noise wrappers, plain network given to the "
        "wrapper, and a converted model built for another radius than the one queried; judged on 48 points (centre, sphere, axis and sign directions, "
        "interior) plus a finite-difference ascent to the boundary per output; distinct non-trivial = (backend, family, p, method, slope, entry, activations) "
        "with non-zero radius")
ASSUMPTIONS = ["the network's own forward pass in the same backend is the specification of its values",
               "relative tolerance 1e-4 for float32 rounding"]

import numpy as np

from vlib import dk
from vlib.nets import gen_family, make_spec


def gen_case(rng, tier, i, backend):
    fam = gen_family(rng, backend)
    spec, which = make_spec(rng, backend, fam)
    ms = dk.FORWARD if which == "fwd" else dk.METHODS
    k = 2 if backend == "tensorflow" else 4
    ms = [str(m) for m in rng.choice(ms, min(k, len(ms)), replace=False)]
    return dict(fam=fam, spec=spec, xseed=int(rng.integers(1 << 30)), methods=ms, slopes=[str(rng.choice(dk.SLOPES)) for _ in ms],
                kind=str(rng.choice(["ball1", "ball2", "ballinf"])), entry=str(rng.choice(["range", "split", "other_eps", "keras", "default", "keep"])))


def run(case, mon):
    rng = np.random.default_rng(case["xseed"])
    spec, entry = case["spec"], case["entry"]
    m = dk.build(spec)
    reg = dk.Region.make(rng, spec["n_in"], 6, case["kind"], r_max=0.3 if any(nd.get("act") in ("softmax", "exponential") for nd in spec["nodes"]) else None)
    X, Y = dk.points(m, reg, rng)
    acts = sorted({n["act"] for n in spec["nodes"] if n.get("act")})
    kw = dict(eps=reg.eps, p=reg.p)
    if entry == "keras" and "crown" not in case["methods"] and not _crown_ok(spec):
        entry = "range"
    todo = [("crown", "volume-slope")] if entry == "keras" else list(zip(case["methods"], case["slopes"]))
    for me, sl in todo:
        if entry == "keras":
            d = m
        elif entry == "other_eps":
            other = float(rng.choice([0.05, 0.5, 2.0]))
            d = dk.clone(m, method=me, slope=sl, perturbation_domain=dk.BallDomain(eps=other, p=reg.p))
            if rng.random() < 0.5:
                dk.decomon.get_range_noise(d, reg.x0, eps=other, p=reg.p)
        else:
            d = dk.clone(m, method=me, slope=sl, perturbation_domain=reg.domain())
        if entry == "keep":  # a negative radius means: the current ball of the model
            u, l = dk.decomon.get_range_noise(d, reg.x0, eps=-1, p=reg.p)
        elif entry == "split":
            u, l = dk.decomon.get_upper_noise(d, reg.x0, **kw), dk.decomon.get_lower_noise(d, reg.x0, **kw)
        elif entry == "default":
            o = dk.outputs(d, reg.z())
            if d.ibp and not d.affine:
                u, l = o[0], o[1]
            else:
                u, l = dk.decomon.get_range_noise(d, reg.x0, **kw)
        else:
            u, l = dk.decomon.get_range_noise(d, reg.x0, **kw)
        u, l = np.asarray(u).reshape(6, -1), np.asarray(l).reshape(6, -1)
        if not (np.isfinite(u).all() and np.isfinite(l).all()) and ("softmax" in acts or "exponential" in acts):
            mon.skip("overflow of a bound (exponential)")
            continue
        mon.events["bounds_observed"] += u.size
        dk.check_enclosure(mon, dict(u=u, l=l), X, Y, dk.yscale(Y), "ball-bounds", method=me, slope=sl, p=str(reg.p), eps=reg.eps, net=dk.desc(spec))
        if reg.eps > 0:
            mon.tag(case.get("backend"), case["fam"], str(reg.p), me, sl, entry, acts)


def _crown_ok(spec):
    return all(n["op"] in ("dense", "conv", "act", "bn", "flatten", "reshape", "permute", "dropout") and n.get("act") not in ("softmax", "exponential")
               for n in spec["nodes"])
