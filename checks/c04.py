"""C04: bounds converge to the network's values and slopes as the region shrinks"""
CASES = {"quick": 400, "thorough": 8000}
SHARDS = {"torch": 8}
MIN_NONTRIVIAL = 20
RULE = ("case = one random network in double precision (weights moved away from ties) and one conversion (method, slope, outputs), bounded over 3 boxes or balls of radius 1e-2 then 1e-5 around generic points (of magnitude 1 to 8); at 1e-5 affine bounds must be the "
        "first-order expansion of the network (slopes equal to its jacobian), constant bounds must be first-order tight for affine propagation and backward methods and at a distance of the order of the radius for interval propagation; "
        "distinct non-trivial = (method, slope, mode, region kind, family, set of activations)")
ASSUMPTIONS = ["generic points: regions in which a unit changes its linear piece are not judged for the slopes", "distances are relative to the product of magnitudes of the weights"]

import json

import keras

keras.config.set_floatx("float64")
keras.config.set_epsilon(1e-14)

import numpy as np

from vlib import dk
from vlib.nets import gen_family, make_spec

dk.PT = "float64"


def gen_case(rng, tier, i, backend):
    fam = gen_family(rng, backend)
    spec, which = make_spec(rng, backend, fam)
    if rng.random() < 0.15:
        fam, k = "unary", int(rng.integers(1, 4))
        nodes = [dict(op="dense", units=k, **{"in": [0]}), dict(op="act", act=str(rng.choice(["exponential", "exponential", "relu", "tanh", "sigmoid", "softsign"])), **{"in": [1]})]
        if rng.random() < 0.5:
            nodes.append(dict(op="dense", units=2, **{"in": [2]}))
        which = "fwd" if nodes[1]["act"] == "exponential" else "any"  # refused by backward methods
        spec = dict(n_in=int(rng.integers(1, 4)), nodes=nodes, wseed=int(rng.integers(1 << 30)))
    method = str(rng.choice(dk.FORWARD if which == "fwd" else dk.METHODS))
    mode = "ibp" if method == "forward-ibp" else str(rng.choice(["ibp", "affine", "hybrid"]))
    return dict(fam=fam, spec=spec, method=method, mode=mode, slope=str(rng.choice(dk.SLOPES)), xseed=int(rng.integers(1 << 30)), region=str(rng.choice(["box", "ball1", "ball2", "ballinf"])), spread=float(rng.choice([1, 1, 3, 8])))


def run(case, mon):
    rng = np.random.default_rng(case["xseed"])
    spec, mode, me = case["spec"], case["mode"], case["method"]
    net = dk.build(spec)
    for v in net.weights:
        a = dk.np_(v).astype("float64")
        v.assign(a + rng.uniform(0.5, 1, a.shape) * rng.choice([-3e-3, 3e-3], a.shape) * (np.abs(a).max() > 0 or a.ndim > 1))
    n, nb = spec["n_in"], 3
    x0 = case["spread"] * rng.normal(0, 1, (nb, n))
    last_softmax = spec["nodes"][-1].get("act") == "softmax" or spec["nodes"][-1]["op"] == "softmax"
    if last_softmax:
        raise dk.Skip("softmax")
    if "softplus" in json.dumps(spec):
        raise dk.Skip("softplus")  # its lower relaxation is that of ReLU, whatever the interval
    acts = sorted({nd["act"] for nd in spec["nodes"] if nd.get("act")})
    det = dict(method=me, slope=case["slope"], mode=mode, region=case["region"], net=dk.desc(spec))

    def jac(x):
        h = 1e-6
        pts = x[:, None] + h * np.concatenate([np.eye(n), -np.eye(n)])[None]
        y = dk.fw(net, pts)
        return (y[:, :n] - y[:, n:]) / (2 * h)  # nb, n, no

    Y0 = dk.fw(net, x0[:, None])[:, 0]
    J = jac(x0)
    r = 1e-5
    # generic: the jacobian hardly moves within reach of the region
    moved = 0
    for _ in range(6):
        moved = np.maximum(moved, np.abs(jac(x0 + r * 3 * rng.uniform(-1, 1, x0.shape)) - J).max((1, 2)))
    sj = 1 + np.abs(J).max((1, 2))
    good = moved < 1e-3 * sj
    mon.events["regions_at_a_kink"] += int((~good).sum())
    p = {"ball1": 1, "ball2": 2, "ballinf": np.inf}.get(case["region"])
    if case["region"] == "box":
        w = rng.uniform(0.3, 1, (nb, n))
        reg = dk.Region("box", lo=x0 - r * w, hi=x0 + r * w)
    else:
        reg = dk.Region("ball", x0=x0, eps=r, p=p)
    d = dk.clone(net, method=me, slope=case["slope"], final_ibp=mode != "affine", final_affine=mode != "ibp", perturbation_domain=reg.domain())
    P = dk.parts(mode, dk.outputs(d, reg.z()))
    if not all(np.isfinite(v).all() for v in P.values()):
        raise dk.Skip("overflow")
    mon.events["bounds_observed"] += sum(v.size for v in P.values())
    up = reg.ext(J, Y0 - np.einsum("bn,bno->bo", x0, J), True)
    lo = reg.ext(J, Y0 - np.einsum("bn,bno->bo", x0, J), False)
    g = good
    first = not any(a in json.dumps(spec) for a in ("sigmoid", "tanh", "softsign", "maxpool"))  # s-shaped and max pooling relaxations are partly constants: zeroth order only
    if me in ("forward-ibp", "crown-forward-ibp") or (me == "crown" and case["region"] in ("ball1", "ball2")) or not first:
        # also: crown sees the box around 1- and 2-balls, methods with constant outputs have null slopes
        for k in "ul":
            if "wu" in P:
                f = np.einsum("bn,bno->bo", x0, P["w" + k].reshape(nb, n, -1)) + P["b" + k].reshape(nb, -1)
                mon.eq(f, Y0, "value-" + k, sj[:, None] + 0 * Y0, 2e-2, **det)
            if "u" in P:
                mon.eq(P[k].reshape(nb, -1), Y0, "constant-" + k, sj[:, None] + 0 * Y0, 2e-2, **det)
        mon.tag(me, case["slope"], mode, case["region"], case["fam"], acts)
        return
    if "wu" in P and me != "crown":
        for s in "ul":
            mon.eq(P["w" + s].reshape(nb, n, -1)[g], J[g], "slope-" + s, np.broadcast_to(sj[g][:, None, None], J[g].shape), 2e-2, **det)
            f = np.einsum("bn,bno->bo", x0, P["w" + s].reshape(nb, n, -1)) + P["b" + s].reshape(nb, -1)
            mon.eq(f[g], Y0[g], "value-" + s, sj[g][:, None] + 0 * Y0[g], 3e-2 * r, **det)
    if "u" in P:
        tol = 3e-2 * r
        mon.eq(P["u"].reshape(nb, -1)[g], up[g], "upper", sj[g][:, None] + 0 * Y0[g], tol, **det)
        mon.eq(P["l"].reshape(nb, -1)[g], lo[g], "lower", sj[g][:, None] + 0 * Y0[g], tol, **det)
    mon.tag(me, case["slope"], mode, case["region"], case["fam"], acts)
