"""C01: bounds over boxes enclose every value the network takes in the box"""
CASES = {"quick": 240, "thorough": 5000}
SHARDS = {"torch": 6, "tensorflow": 2}
MIN_NONTRIVIAL = 20
RULE = ("case = one random network (dense / conv channels_last / conv channels_first / pooling / merge graphs / softmax) with random "
        "weights and 6 boxes (degenerate, zero-touching, flat, wide), bounded with every conversion method that supports it and a random slope "
        "option per method; judged on 48 samples (corners, faces, centre, interior) plus a finite-difference attack per output; "
        "distinct non-trivial = (backend, family, method, slope, set of activations) with at least one box that has non-empty interior")
ASSUMPTIONS = ["the network's own forward pass in the same backend is the specification of its values",
               "relative tolerance 1e-4 for float32 rounding"]

import numpy as np

from vlib import dk
from vlib.nets import gen_family, make_spec


def gen_case(rng, tier, i, backend):
    fam = gen_family(rng, backend)
    spec, which = make_spec(rng, backend, fam)
    ms = dk.FORWARD if which == "fwd" else dk.METHODS
    if backend == "tensorflow":
        ms = [str(m) for m in rng.choice(ms, 2, replace=False)]
    if len(spec["nodes"]) > 6 and fam in ("cnn", "cnnc1"):
        ms = [str(m) for m in rng.choice(ms, min(4, len(ms)), replace=False)]
    return dict(fam=fam, spec=spec, xseed=int(rng.integers(1 << 30)), methods=ms,
                slopes=[str(rng.choice(dk.SLOPES)) for _ in ms], api=str(rng.choice(["range", "split"])))


def run(case, mon):
    rng = np.random.default_rng(case["xseed"])
    spec = case["spec"]
    m = dk.build(spec)
    reg = dk.Region.make(rng, spec["n_in"], 6, "box")
    X, Y = dk.points(m, reg, rng)
    acts = sorted({n["act"] for n in spec["nodes"] if n.get("act")})
    for me, sl in zip(case["methods"], case["slopes"]):
        if sl == "volume-slope" and case["xseed"] % 2:
            d = dk.clone(m, method=me)
        else:
            d = dk.clone(m, method=me, slope=sl)
        if case["api"] == "range":
            u, l = dk.decomon.get_range_box(d, reg.lo, reg.hi)
        else:
            u, l = dk.decomon.get_upper_box(d, reg.lo, reg.hi), dk.decomon.get_lower_box(d, reg.lo, reg.hi)
        u, l = np.asarray(u).reshape(6, -1), np.asarray(l).reshape(6, -1)
        if not (np.isfinite(u).all() and np.isfinite(l).all()):
            if "softmax" in acts or "exponential" in acts:
                mon.skip("overflow of a bound (exponential)")
                continue
        mon.events["bounds_observed"] += u.size
        dk.check_enclosure(mon, dict(u=u, l=l), X, Y, dk.yscale(Y), "box-bounds", method=me, slope=sl, net=dk.desc(spec))
        mon.tag(case.get("backend"), case["fam"], me, sl, acts)
