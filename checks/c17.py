"""C17: backward activations: sound, touching relaxations of the activation over the interval of its input"""
CASES = {"quick": 4000, "thorough": 60000}
SHARDS = {"torch": 6, "tensorflow": 2}
MIN_NONTRIVIAL = 20
RULE = ("case = one activation, one propagation mode of the input bounds, one slope option, flat or image-shaped input, box or ball; the returned diagonal lines are judged on a dense grid of the interval of every "
        "neuron (constant bounds, or exact extrema of the affine ones); lines must touch the curve, upper lines of ReLU must be chords and lower lines follow the slope option; "
        "distinct non-trivial = (backend, activation, mode, slope, rank of the input, region kind)")
ASSUMPTIONS = ["the activation's own values (float64 formulas) are the specification", "softplus is only required to be sound and its upper line to be the chord",
               "s-shaped activations on intervals starting or ending exactly at 0 are only required to be sound", "relative tolerance 1e-4 for float32 rounding"]

import keras
import numpy as np

from checks.c16 import F, intervals, relu_slope
from vlib import dk, gen, lay

ACTS = ["relu", "relu", "sigmoid", "tanh", "softsign", "softplus", "linear"]


def gen_case(rng, tier, i, backend):
    sh = [gen.dim(rng, 1, 4) for _ in range(int(rng.choice([1, 1, 3])))]
    return dict(act=str(rng.choice(ACTS)), mode=str(rng.choice(["affine", "hybrid", "ibp"])), slope=str(rng.choice(dk.SLOPES)), sh=sh, seed=int(rng.integers(1 << 30)),
                region=str(rng.choice(["box", "box", "ball1", "ball2", "ballinf"])), kind=str(rng.choice(["id", "bundle"])), finetune=bool(rng.random() < 0.25))


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    act, mode, slope = case["act"], case["mode"], case["slope"]
    det = dict(act=act, mode=mode, slope=slope)
    if case["kind"] == "id":
        nb, n = 12, gen.dim(rng, 1, 5)
        sh = (n,)
        reg = dk.Region("box", *intervals(rng, nb, n, act))
        B = lay.identity(reg)
    else:
        nb, n, sh = 5, int(rng.integers(1, 4)), tuple(case["sh"])
        reg = dk.Region.make(rng, n, nb, case["region"])
        B = lay.make(rng, reg, sh, scale=float(rng.choice([0.3, 1.0, 2.0])), shift=float(rng.choice([0, 0, 1.5, -1.5])))
    layer, _ = lay.keras_layer(keras.layers.Activation(act), sh)
    bl_ = lay.to_backward(layer, slope=slope, mode=mode, perturbation_domain=reg.domain(), finetune=case["finetune"])
    out = [dk.np_(o) for o in bl_(B.tensors(mode))]
    dim = int(np.prod(sh))
    if case["finetune"]:  # the initial value of the slopes may be anything in [0, 1]
        vs = bl_.get_finetuning_variables()
        for v in vs:
            a = rng.random(v.shape) * (rng.random(v.shape) < 0.8)
            v.assign(np.where(rng.random(v.shape) < 0.2, 1.0, a).astype("float32"))
        mon.true(act == "linear" or len(vs) > 0, "no-tunable-slope", **det)
        out = [dk.np_(o) for o in bl_(B.tensors(mode))]
    mon.true(len(out) == 4, "four-outputs", **det)
    wu, bu, wl, bl = [np.asarray(o, "float64") for o in out]
    full = lambda w: np.broadcast_to(w, (nb,) + w.shape[1:])
    if not mon.true(wu.shape[1:] == (dim, dim) and wl.shape[1:] == (dim, dim) and bu.shape[1:] == (dim,) and bl.shape[1:] == (dim,), "shapes", s=[list(o.shape) for o in out], **det):
        return
    wu, bu, wl, bl = full(wu), full(bu), full(wl), full(bl)
    L, U = [a.reshape(nb, dim) for a in B.interval("ibp" if mode == "hybrid" else mode)]
    L2, U2 = [a.reshape(nb, dim) for a in B.interval(mode)]
    f = F[act]
    off = ~np.eye(dim, dtype=bool)
    t = np.linspace(0, 1, 121)[:, None, None]
    G = L2 + t * np.maximum(U2 - L2, 0)
    G = np.concatenate([G, np.clip(0.0, L2, np.maximum(L2, U2))[None]])
    G1 = L + t * (U - L)
    G1 = np.concatenate([G1, np.clip(0.0, L, U)[None]])
    sc = 1 + np.maximum(np.abs(f(L)), np.abs(f(U)))
    for nm, s, W, b in (("u", 1, wu, bu), ("l", -1, wl, bl)):
        if dim > 1:
            mon.eq(W[:, off], 0 * W[:, off], "depends-on-other-neurons", 1 + np.abs(W).max(), **det)
        w = W[:, np.arange(dim), np.arange(dim)]
        s2 = np.maximum(sc, np.abs(w) * np.maximum(np.abs(L), np.abs(U)) + np.abs(b))
        gap = s * (w * G + b - f(G))
        mon.le(-gap, 0 * gap, "line-crosses:" + nm, s2, **det)
        if case["finetune"]:
            continue
        exact = mode != "hybrid"  # which of the two sources of bounds a combined input uses is its own business
        if exact and (act != "softplus" or nm == "u"):
            tol = 1e-4 * s2 + (10.0 * ((np.abs(L) < 1e-6) | (np.abs(U) < 1e-6)) if act in ("sigmoid", "tanh", "softsign") else 0)
            gap = s * (w * G1 + b - f(G1))
            mon.le(gap.min(0), tol, "line-does-not-touch:" + nm, 1.0, tol=0.0, **det)
        ok = U - L > 1e-2
        if exact and act in ("relu", "softplus", "linear") and nm == "u":
            mon.eq(w * L + b, f(L), "upper-not-chord", s2, **det)
            mon.eq(np.where(ok, w * U + b, 0), np.where(ok, f(U), 0), "upper-not-chord", s2, **det)
        if exact and act == "relu" and nm == "l":
            tt = relu_slope(slope, L, U)
            un = (L < -1e-5) & (U > 1e-5) & ok & ~np.isnan(tt)
            mon.eq(np.where(un, w, 0), np.where(un, tt, 0), "relu-lower-slope", 1.0, tol=1e-3, **det)
            mon.eq(np.where(un, b, 0), 0 * b, "relu-lower-offset", 1.0, **det)
            mon.events["unstable_relus_observed"] += int(un.sum())
    mon.events["intervals_observed"] += L.size
    mon.tag(case.get("backend"), act, mode, slope, len(sh), reg.kind)
