"""C19: forward linear layers propagate bounds exactly"""
CASES = {"quick": 3000, "thorough": 50000}
SHARDS = {"torch": 6, "tensorflow": 2}
MIN_NONTRIVIAL = 20
RULE = ("case = one linear layer (dense; convolution with random kernel, stride, padding, dilation, data format; batch normalisation on any axis; flatten, reshape, permute, dropout) with random weights, fed with a random bundle of "
        "bounds over a box or ball in one propagation mode; affine outputs must be the exact signed combination of the affine inputs, constant outputs the exact signed combination of the constants (or the extrema of the affine "
        "outputs when tighter, in the combined mode); distinct non-trivial = (backend, layer, its options, mode, region kind)")
ASSUMPTIONS = ["the layer's own call in the same backend, on basis vectors, is the specification of its matrix; it is skipped where keras' declared output shape differs from its values",
               "relative tolerance 1e-4 for float32 rounding"]

import numpy as np

from checks.c20 import KINDS, linear_layer
from vlib import dk, gen, lay


def gen_case(rng, tier, i, backend):
    return dict(kind=str(rng.choice(KINDS)), seed=int(rng.integers(1 << 30)), mode=str(rng.choice(["ibp", "affine", "hybrid", "hybrid"])), backend_=backend,
                region=str(rng.choice(["box", "box", "ball1", "ball2", "ballinf"])), fast=bool(rng.random() < 0.8))


def matrix(layer, sh):
    din = int(np.prod(sh))
    V = lay.apply(layer, np.concatenate([np.zeros((1,) + sh), np.eye(din).reshape((-1,) + sh)])[None])[0]
    return V[1:].reshape(din, -1) - V[0].reshape(-1), V[0].reshape(-1), V.shape[1:]


def linear_bundle(M, c, Bs, mode):
    """exact expected outputs; M: list of matrices, Bs: bundles"""
    r = {}
    f = lambda a: a.astype("float64")
    nb, n = Bs[0].region.nb, Bs[0].region.n
    if mode != "affine":
        r["u"], r["l"] = c + np.zeros((nb, 1)), c + np.zeros((nb, 1))
    if mode != "ibp":
        r["wu"], r["bu"], r["wl"], r["bl"] = np.zeros((nb, n, len(c))), c + np.zeros((nb, 1)), np.zeros((nb, n, len(c))), c + np.zeros((nb, 1))
    for m, B in zip(M, Bs):
        P, N = np.maximum(m, 0), np.minimum(m, 0)
        if mode != "affine":
            u, l = f(B.u).reshape(nb, -1), f(B.l).reshape(nb, -1)
            r["u"], r["l"] = r["u"] + u @ P + l @ N, r["l"] + l @ P + u @ N
        if mode != "ibp":
            wu, wl, bu, bl = f(B.Wu).reshape(nb, n, -1), f(B.Wl).reshape(nb, n, -1), f(B.bu).reshape(nb, -1), f(B.bl).reshape(nb, -1)
            r["wu"], r["wl"] = r["wu"] + wu @ P + wl @ N, r["wl"] + wl @ P + wu @ N
            r["bu"], r["bl"] = r["bu"] + bu @ P + bl @ N, r["bl"] + bl @ P + bu @ N
    return r


def judge(mon, d, r, reg, osh, sc, det, tight=True):
    mode = det["mode"]
    nb, n = reg.nb, reg.n
    for k in r:
        shp = (nb, n) + tuple(osh) if k[0] == "w" else (nb,) + tuple(osh)
        if not mon.true(tuple(d[k].shape) == shp, "shape:" + k, got=list(d[k].shape), expected=list(shp), **det):
            return
    g = {k: v.reshape((nb, n, -1) if k[0] == "w" else (nb, -1)).astype("float64") for k, v in d.items() if k != "x"}
    for k in r:
        if k in ("u", "l") and mode == "hybrid":
            continue
        mon.eq(g[k], r[k], "exact:" + k, sc, **det)
    if mode == "hybrid":
        eu, el = reg.ext(r["wu"], r["bu"], True), reg.ext(r["wl"], r["bl"], False)
        mon.le(g["u"], r["u"], "looser:u", sc, **det)
        mon.le(r["l"], g["l"], "looser:l", sc, **det)
        if tight:
            mon.le(np.minimum(r["u"], eu), g["u"], "tighter:u", sc, **det)
            mon.le(g["l"], np.maximum(r["l"], el), "tighter:l", sc, **det)
    if mode != "ibp":
        mon.eq(d["x"], reg.z(), "x", 1.0, **det)


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    mode, kind = case["mode"], case["kind"]
    layer, sh, opts = linear_layer(rng, kind, case["backend_"])
    layer, osh = lay.keras_layer(layer, sh)
    lay.randomize(layer, rng)
    reg = dk.Region.make(rng, gen.dim(rng, 1, 5), int(rng.integers(1, 5)), case["region"])
    B = lay.make(rng, reg, sh)
    M, c, vsh = matrix(layer, sh)
    if vsh != osh:
        raise dk.Skip("keras' values do not have the declared shape")
    W0 = [np.array(w) for w in layer.get_weights()]
    _, d = lay.forward(layer, mode, reg, [B], fast=case["fast"])
    det = dict(layer=kind, opts=opts, mode=mode, region=reg.kind)
    mon.true(all(np.array_equal(a, b) for a, b in zip(W0, layer.get_weights())), "weights-changed", **det)
    r = linear_bundle([M], c, [B], mode)
    sc = 1 + np.abs(c).max() + np.abs(M).sum(0).max() * max(np.abs(v).max() for v in (B.u, B.l, B.bu, B.bl, B.Wu, B.Wl))
    judge(mon, d, r, reg, osh, sc, det)
    mon.events["bundles_observed"] += reg.nb
    mon.tag(case.get("backend"), kind, opts, mode, reg.kind)
