"""C21: max pooling: sound bounds, exact constants"""
CASES = {"quick": 3000, "thorough": 40000}
SHARDS = {"torch": 6, "tensorflow": 2}
MIN_NONTRIVIAL = 20
RULE = ("case = max pooling with random pool size, stride, padding and data format on an image, fast or refined, fed with a random bundle of bounds over a box or ball in one propagation mode; the bounds "
        "must enclose the pooling of admissible values, constants must be the pooling of the constants in constant-bound propagation; distinct non-trivial = (backend, options, mode, fast, region kind)")
ASSUMPTIONS = ["the layer's own call in the same backend is the specification of its values", "relative tolerance 1e-4 for float32 rounding"]

import keras
import numpy as np

from vlib import dk, gen, lay


def gen_case(rng, tier, i, backend):
    r = lambda a, b: int(rng.integers(a, b))
    df = "channels_first" if backend == "torch" and rng.random() < 0.4 else "channels_last"
    h, w, c = gen.dim(rng, 1, 6, 4), gen.dim(rng, 1, 6, 4), r(1, 3)
    pool = [gen.dim(rng, 1, 4, 3), gen.dim(rng, 1, 4, 3)]
    pad = str(rng.choice(["valid", "same"]))
    if pad == "valid":
        pool = [min(pool[0], h), min(pool[1], w)]
    st = None if rng.random() < 0.4 else [r(1, 4), r(1, 4)]
    return dict(df=df, sh=[h, w, c] if df == "channels_last" else [c, h, w], pool=pool, padding=pad, strides=st, mode=str(rng.choice(["ibp", "affine", "hybrid"])),
                fast=bool(rng.random() < 0.6), seed=int(rng.integers(1 << 30)), region=str(rng.choice(["box", "box", "ball1", "ball2", "ballinf"])))


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    mode, sh = case["mode"], tuple(case["sh"])
    layer, osh = lay.keras_layer(keras.layers.MaxPooling2D(tuple(case["pool"]), case["strides"] and tuple(case["strides"]), padding=case["padding"], data_format=case["df"]), sh)
    reg = dk.Region.make(rng, int(rng.integers(1, 4)), int(rng.integers(1, 4)), case["region"])
    B = lay.make(rng, reg, sh, scale=float(rng.choice([0.3, 1.0])), shift=float(rng.choice([0, 0, 2.0, -2.0])))
    det = dict(mode=mode, region=reg.kind, pool=case["pool"], strides=case["strides"], padding=case["padding"], df=case["df"], fast=case["fast"])
    X = reg.samples(rng, 60)
    V = B.values(rng, X, mode)
    Y = lay.apply(layer, V)
    if Y.shape[2:] != osh:
        raise dk.Skip("keras' values do not have the declared shape")
    _, d = lay.forward(layer, mode, reg, [B], fast=case["fast"])
    sc = 1 + np.abs(Y).max(1, keepdims=True) + np.abs(B.u).max()
    dk.check_enclosure(mon, d, X, Y, sc, "pool", **det)
    if "u" in d:
        u = lay.apply(layer, B.u[:, None].astype("float64"))[:, 0]
        l = lay.apply(layer, B.l[:, None].astype("float64"))[:, 0]
        s0 = 1 + np.abs(B.u).max() + np.abs(B.l).max()
        if mode == "ibp":
            mon.eq(d["u"], u, "constant:u", s0, **det)
            mon.eq(d["l"], l, "constant:l", s0, **det)
    mon.events["bundles_observed"] += reg.nb
    mon.tag(case.get("backend"), case["df"], case["pool"], case["strides"], case["padding"], mode, case["fast"], reg.kind)
