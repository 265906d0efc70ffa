"""C20: backward linear layers return the layer's exact matrix and bias"""
CASES = {"quick": 3000, "thorough": 50000}
SHARDS = {"torch": 6, "tensorflow": 2}
MIN_NONTRIVIAL = 20
RULE = ("case = one linear layer (dense; convolution with random kernel, stride, padding, dilation, data format; batch normalisation on any axis, with or without scale and centre; flatten, reshape, permute, dropout) "
        "with random weights, given as a plain layer or as its forward-propagating version, and a propagation mode, with inputs in the layer's shape or flattened as the backward pass hands them over; upper and lower matrices must both map the flattened input to the flattened output of the layer "
        "(compared on random points and basis vectors); distinct non-trivial = (backend, layer, its options, mode, plain or forward version)")
ASSUMPTIONS = ["the layer's own call in the same backend is the specification of its values; it is skipped where keras' declared output shape differs from its values (strided same-padded convolutions on torch)",
               "relative tolerance 1e-4 for float32 rounding"]

import keras
import numpy as np

from vlib import dk, gen, lay

KINDS = ["dense", "conv", "conv", "conv", "bn", "flatten", "reshape", "permute", "dropout", "bn_img"]


def gen_case(rng, tier, i, backend):
    return dict(kind=str(rng.choice(KINDS)), seed=int(rng.integers(1 << 30)), mode=str(rng.choice(lay.MODES)), wrapped=bool(rng.random() < 0.4), backend_=backend)


def linear_layer(rng, kind, backend):
    """(keras layer, input shape, options)"""
    L = keras.layers
    r = lambda a, b: int(rng.integers(a, b))
    D = lambda a, b: gen.dim(rng, a, b, 4, 0.04)
    if kind == "dense":
        bias = bool(rng.random() < 0.7)
        sh = (D(1, 6),) if rng.random() < 0.5 else tuple(D(1, 4) for _ in range(r(2, 4)))
        return L.Dense(D(1, 6), use_bias=bias), sh, [bias, len(sh)]
    if kind == "conv":
        df = "channels_first" if backend == "torch" and rng.random() < 0.4 else "channels_last"
        h, w, c = D(1, 6), D(1, 6), D(1, 4)
        pad = str(rng.choice(["valid", "same"]))
        st = [r(1, 3), r(1, 3)] if rng.random() < 0.5 else [1, 1]
        if backend == "tensorflow":
            st = [st[0], st[0]]
        dil = [r(1, 3), r(1, 3)] if max(st) == 1 and rng.random() < 0.4 else [1, 1]
        if backend == "tensorflow":
            dil = [dil[0], dil[0]]
        if max(st) > 1 and backend == "torch":
            pad = "valid"
        k = [D(1, 4), D(1, 4)]
        if pad == "valid":
            if dil[0] * (k[0] - 1) + 1 > h:
                k[0] = 1
            if dil[1] * (k[1] - 1) + 1 > w:
                k[1] = 1
        bias = bool(rng.random() < 0.7)
        lay_ = L.Conv2D(D(1, 4), k, strides=st, padding=pad, dilation_rate=dil, use_bias=bias, data_format=df)
        return lay_, ((h, w, c) if df == "channels_last" else (c, h, w)), [df, pad, max(st), max(dil), k[0] == k[1], bias]
    if kind == "bn":
        o = [bool(rng.random() < 0.6), bool(rng.random() < 0.6)]
        return L.BatchNormalization(center=o[0], scale=o[1], epsilon=float(rng.choice([1e-3, 0.1, 1.0]))), (D(1, 6),), o
    if kind == "bn_img":
        o = [bool(rng.random() < 0.6), bool(rng.random() < 0.6), int(rng.choice([-1, 1, 2, 3]))]
        return L.BatchNormalization(axis=o[2], center=o[0], scale=o[1]), (D(1, 4), D(1, 4), D(1, 4)), o
    sh = tuple(D(1, 4) for _ in range(r(1, 4)))
    if kind == "flatten":
        df = str(rng.choice(["channels_last", "channels_first"])) if len(sh) > 1 else "channels_last"
        return L.Flatten(data_format=df), sh, [len(sh), df]
    if kind == "reshape":
        tgt = [int(v) for v in rng.permutation(list(sh))] + ([1] if rng.random() < 0.3 else [])
        if rng.random() < 0.3:
            tgt = [int(np.prod(sh))]
        if rng.random() < 0.3:
            tgt[r(0, len(tgt))] = -1
        return L.Reshape(tuple(tgt)), sh, [len(sh), len(tgt)]
    if kind == "permute":
        sh = tuple(D(1, 4) for _ in range(r(2, 4)))
        p = [int(v) + 1 for v in rng.permutation(len(sh))]
        return L.Permute(tuple(p)), sh, [p]
    if kind == "dropout":
        return L.Dropout(0.4), sh, [len(sh)]
    raise ValueError(kind)


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    mode, kind = case["mode"], case["kind"]
    layer, sh, opts = linear_layer(rng, kind, case["backend_"])
    layer, osh = lay.keras_layer(layer, sh)
    lay.randomize(layer, rng)
    nb, n = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    reg = dk.Region.make(rng, n, nb, str(rng.choice(["box", "ball2"])))
    flat = bool(rng.random() < 0.5) and not case["wrapped"]  # crown hands over flattened bounds
    B = lay.make(rng, reg, (int(np.prod(sh)),) if flat else sh)
    Y = np.concatenate([np.zeros((1,) + sh), rng.normal(0, 1, (6,) + sh), np.eye(int(np.prod(sh))).reshape((-1,) + sh)])[None]
    V = lay.apply(layer, Y)[0]
    if V.shape[1:] != osh:
        raise dk.Skip("keras' values do not have the declared shape")
    det = dict(layer=kind, opts=opts, mode=mode, wrapped=case["wrapped"], flat=flat)
    if case["wrapped"]:
        fl, _ = lay.forward(layer, mode, reg, [B])
        bw = lay.to_backward(fl)
    else:
        bw = lay.to_backward(layer, mode=mode, perturbation_domain=reg.domain())
    out = [np.asarray(dk.np_(o), "float64") for o in bw(B.tensors(mode))]
    din, dout = int(np.prod(sh)), int(np.prod(osh))
    if not mon.true(len(out) == 4 and all(o.shape[-2:] == (din, dout) for o in out[::2]) and all(o.shape[-1] == dout for o in out[1::2]), "shapes", s=[list(o.shape) for o in out], **det):
        return
    Yf, Vf = Y[0].reshape(-1, din), V.reshape(-1, dout)
    for k in (0, 2):
        w, b = out[k].reshape(-1, din, dout), out[k + 1].reshape(-1, dout)
        for i in range(len(w)):
            got = Yf @ w[i] + b[min(i, len(b) - 1)]
            mon.eq(got, Vf, "matrix:" + "ul"[k // 2], 1 + np.abs(Vf).max() + np.abs(w[i]).max(), **det)
    mon.events["matrices_observed"] += 2
    mon.tag(case.get("backend"), kind, opts, mode, case["wrapped"], flat)
