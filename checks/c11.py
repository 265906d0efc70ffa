"""C11: in double precision, bounds enclose the network to double precision"""
CASES = {"quick": 400, "thorough": 6000}
SHARDS = {"torch": 6, "tensorflow": 2}
MIN_NONTRIVIAL = 20
RULE = ("case = one random network with floatx float64 (all families of C01), one random conversion (method, slope) or two, with concrete, affine or both kinds of outputs, over 4 boxes or p-norm balls, of usual size or tiny (1e-2 to 1e-7, judged at 1e-9 of the radius plus rounding); "
        "raw outputs and results of get_range_box, get_range_noise and their one-sided forms (with 1 to 3 sub-boxes), judged at 48 samples plus a finite-difference attack with relative tolerance 1e-9; distinct non-trivial = (backend, family, method, slope, mode, region kind, set of activations)")
ASSUMPTIONS = ["the network's own forward pass in double precision is the specification of its values",
               "keras' epsilon (the guard of divisions by the width of an interval) is set to 1e-14: with its default, intervals narrower than 1e-7 are relaxed with an error below 1e-7",
               "relative tolerance 1e-9, relative to the values and, for compositions, to the magnitude of the bounds"]

import keras

keras.config.set_floatx("float64")
keras.config.set_epsilon(1e-14)  # the guard of divisions by widths of intervals: its default is meant for single precision

import numpy as np

from vlib import dk
from vlib.nets import gen_family, make_spec

dk.PT = "float64"
TOL = 1e-9


def gen_case(rng, tier, i, backend):
    fam = gen_family(rng, backend)
    spec, which = make_spec(rng, backend, fam)
    ms = dk.FORWARD if which == "fwd" else dk.METHODS
    ms = [str(m) for m in rng.choice(ms, 1 if backend == "tensorflow" else 2, replace=False)]
    return dict(fam=fam, spec=spec, xseed=int(rng.integers(1 << 30)), methods=ms, slopes=[str(rng.choice(dk.SLOPES)) for _ in ms],
                modes=["ibp" if m == "forward-ibp" else str(rng.choice(["ibp", "affine", "hybrid"])) for m in ms], region=str(rng.choice(["box", "box", "ball1", "ball2", "ballinf"])),
                tiny=float(10.0 ** -int(rng.integers(2, 8))) if rng.random() < 0.35 else None)


def run(case, mon):
    rng = np.random.default_rng(case["xseed"])
    spec = case["spec"]
    m = dk.build(spec)
    reg = dk.Region.make(rng, spec["n_in"], 4, case["region"], r_max=case["tiny"])
    X, Y = dk.points(m, reg, rng)
    acts = sorted({n["act"] for n in spec["nodes"] if n.get("act")})
    for me, sl, mode in zip(case["methods"], case["slopes"], case["modes"]):
        d = dk.clone(m, method=me, slope=sl, final_ibp=mode != "affine", final_affine=mode != "ibp", perturbation_domain=reg.domain())
        o = dk.outputs(d, reg.z())
        mon.true(all(a.dtype == np.float64 for a in o), "bounds-not-double", method=me)
        p = dk.parts(mode, o)
        if not all(np.isfinite(a).all() for a in p.values()):
            if "softmax" in acts or "exponential" in acts:
                mon.skip("overflow of a bound (exponential)")
                continue
        mon.events["bounds_observed"] += sum(a.size for a in p.values())
        dk.check_enclosure(mon, p, X, Y, dk.yscale(Y), "double", tol=TOL, method=me, slope=sl, region=reg.kind, mode=mode, net=dk.desc(spec))
        mon.tag(case.get("backend"), case["fam"], me, sl, mode, reg.kind, acts)
        # the library's functions on top of the bounds keep the precision
        if reg.kind == "box":
            n_sub = int(case["xseed"] % 3) + 1 if spec["n_in"] < 8 else 1
            f, a, kw = "box", (reg.lo, reg.hi), dict(n_sub_boxes=n_sub)
        else:
            f, a, kw = "noise", (reg.x0,), dict(eps=reg.eps, p=reg.p)
        q = dict(zip("ul", getattr(dk.decomon, f"get_range_{f}")(d, *a, **kw)))
        if case["xseed"] % 2:
            q = dict(u=getattr(dk.decomon, f"get_upper_{f}")(d, *a, **kw), l=getattr(dk.decomon, f"get_lower_{f}")(d, *a, **kw))
        q = {k: np.asarray(v).reshape(len(Y), -1) for k, v in q.items()}
        if all(np.isfinite(v).all() for v in q.values()):
            dk.check_enclosure(mon, q, X, Y, dk.yscale(Y), "double-function", tol=TOL, method=me, slope=sl, region=reg.kind, mode=mode, net=dk.desc(spec))
