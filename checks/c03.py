"""C03: affine bounds are valid at every point of the region"""
CASES = {"quick": 200, "thorough": 5000}
SHARDS = {"torch": 6, "tensorflow": 2}
MIN_NONTRIVIAL = 20
RULE = ("case = one random network, one region family (6 boxes, or 6 balls with p in {1,2,inf}), several (conversion method, slope, output mode among "
        "affine / affine+constant / default); the affine bounds and the constant ones of the raw model output are judged pointwise on 48 points plus a "
        "finite-difference attack; distinct non-trivial = (backend, family, region kind, method, slope, mode)")
ASSUMPTIONS = ["the network's own forward pass in the same backend is the specification of its values",
               "relative tolerance 1e-4 for float32 rounding"]

import numpy as np

from vlib import dk
from vlib.nets import gen_family, make_spec


def gen_case(rng, tier, i, backend):
    fam = gen_family(rng, backend)
    spec, which = make_spec(rng, backend, fam)
    ms = dk.FORWARD if which == "fwd" else dk.METHODS
    k = 2 if backend == "tensorflow" else 4
    ms = [str(m) for m in rng.choice(ms, min(k, len(ms)), replace=False)]
    return dict(fam=fam, spec=spec, xseed=int(rng.integers(1 << 30)), methods=ms, slopes=[str(rng.choice(dk.SLOPES)) for _ in ms],
                kind=str(rng.choice(["box", "box", "ball1", "ball2", "ballinf"])), modes=[str(rng.choice(["affine", "hybrid", "default"])) for _ in ms])


def run(case, mon):
    rng = np.random.default_rng(case["xseed"])
    spec = case["spec"]
    m = dk.build(spec)
    acts = sorted({n["act"] for n in spec["nodes"] if n.get("act")})
    expo = "softmax" in acts or "exponential" in acts
    reg = dk.Region.make(rng, spec["n_in"], 6, case["kind"], r_max=0.5 if expo else None)
    X, Y = dk.points(m, reg, rng)
    for me, sl, mo in zip(case["methods"], case["slopes"], case["modes"]):
        kw = dict(affine=dict(final_ibp=False, final_affine=True), hybrid=dict(final_ibp=True, final_affine=True), default={})[mo]
        d = dk.clone(m, method=me, slope=sl, perturbation_domain=reg.domain(), **kw)
        out = dk.outputs(d, reg.z())
        p = dk.parts(dk.mode_of(d.ibp, d.affine), out)
        if expo and not all(np.isfinite(v).all() for v in p.values()):
            mon.skip("overflow of a bound (exponential)")
            continue
        mon.events["bounds_observed"] += sum(v.size for v in p.values())
        if "x" in p:
            mon.eq(p["x"].reshape(reg.z().shape), reg.z(), "region-returned", tol=0)
        dk.check_enclosure(mon, p, X, Y, dk.yscale(Y), "affine-bounds", method=me, slope=sl, mode=mo, kind=reg.kind, net=dk.desc(spec))
        mon.tag(case.get("backend"), case["fam"], case["kind"], me, sl, mo)
