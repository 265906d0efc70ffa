"""C18: merge layers: exact for linear merges, sound for the others"""
CASES = {"quick": 3000, "thorough": 50000}
SHARDS = {"torch": 6, "tensorflow": 2}
MIN_NONTRIVIAL = 20
RULE = ("case = one merge layer (add, average, subtract, concatenate on any axis, maximum, minimum, multiply, dot on any axes, normalised or not) of 2-4 flat or image-shaped inputs, each a random bundle of bounds over the same box or "
        "ball, in one propagation mode; linear merges must be exact, all outputs must enclose the merge of admissible values; "
        "distinct non-trivial = (backend, merge, its options, number and rank of inputs, mode, region kind)")
ASSUMPTIONS = ["the layer's own call in the same backend is the specification of its values", "relative tolerance 1e-4 for float32 rounding"]

import keras
import numpy as np

from checks.c19 import judge, linear_bundle
from vlib import dk, gen, lay

OPS = ["add", "average", "subtract", "concat", "maximum", "minimum", "multiply", "dot"]


def gen_case(rng, tier, i, backend):
    op = str(rng.choice(OPS))
    rank = int(rng.choice([1, 1, 3, 2]))
    sh = [gen.dim(rng, 1, 4) for _ in range(rank)]
    k = 2 if op in ("subtract", "dot") else gen.dim(rng, 2, 5, 3)
    shs = [list(sh) for _ in range(k)]
    opt = {}
    if op == "concat":
        ax = int(rng.integers(1, rank + 1))
        for s in shs:
            s[ax - 1] = gen.dim(rng, 1, 4)
        opt["axis"] = ax if rng.random() < 0.5 else ax - rank - 1
    if op == "dot":
        r2 = int(rng.choice([1, 2])) if rank > 1 else 1
        rank = min(rank, 2)
        sh = sh[:rank]
        s2 = [gen.dim(rng, 1, 4) for _ in range(r2 if rank > 1 else 1)]
        a, b = int(rng.integers(1, rank + 1)), int(rng.integers(1, len(s2) + 1))
        s2[b - 1] = sh[a - 1]
        shs = [sh, s2]
        if rng.random() < 0.3:
            a, b = (a - rank - 1 if rng.random() < 0.5 else a), (b - len(s2) - 1 if rng.random() < 0.5 else b)
        opt["axes"] = a if a == b and rng.random() < 0.5 else [a, b]
    return dict(op=op, shs=shs, opt=opt, seed=int(rng.integers(1 << 30)), mode=str(rng.choice(["ibp", "affine", "hybrid", "hybrid"])),
                region=str(rng.choice(["box", "box", "ball1", "ball2", "ballinf"])), same=bool(rng.random() < 0.1))


def make(op, opt):
    L = keras.layers
    return dict(add=L.Add, average=L.Average, subtract=L.Subtract, concat=L.Concatenate, maximum=L.Maximum, minimum=L.Minimum, multiply=L.Multiply, dot=L.Dot)[op](**opt)


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    op, mode = case["op"], case["mode"]
    layer, osh = lay.keras_layer(make(op, case["opt"]), *case["shs"])
    reg = dk.Region.make(rng, gen.dim(rng, 1, 5), int(rng.integers(1, 5)), case["region"])
    Bs = [lay.make(rng, reg, tuple(s), scale=float(rng.choice([0.3, 1.0])), shift=float(rng.choice([0, 0, 1.0, -1.0]))) for s in case["shs"]]
    if case["same"] and op not in ("concat", "dot"):
        Bs = [Bs[0]] * len(Bs)
    _, d = lay.forward(layer, mode, reg, Bs)
    det = dict(op=op, opt=case["opt"], shapes=case["shs"], mode=mode, region=reg.kind)
    k = len(Bs)
    if op in ("add", "average", "subtract", "concat"):
        M = []
        dims = [int(np.prod(s)) for s in case["shs"]]
        for j in range(k):
            ins = [np.zeros((1, dims[j]) + tuple(s)) for s in case["shs"]]
            ins[j] = np.eye(dims[j]).reshape((1, dims[j]) + tuple(case["shs"][j]))
            M.append(lay.apply(layer, *ins)[0].reshape(dims[j], -1))
        r = linear_bundle(M, np.zeros(M[0].shape[1]), Bs, mode)
        sc = 1 + k * max(np.abs(v).max() for B in Bs for v in (B.u, B.l, B.bu, B.bl, B.Wu, B.Wl))
        judge(mon, d, r, reg, osh, sc, det, tight=op == "concat")  # sums may use the tightest bounds of each input
    if True:
        X = reg.samples(rng, 80)
        V = [B.values(rng, X, mode) for B in Bs]
        Y = lay.apply(layer, *V)
        sc = 1 + np.abs(Y).max(1, keepdims=True)
        if op in ("multiply", "dot"):
            m = 1.0
            for B in Bs:
                iv = B.interval(mode)
                m = m * (1 + max(np.abs(iv[0]).max(), np.abs(iv[1]).max()))
            sc = sc + 0.1 * m
        dk.check_enclosure(mon, d, X, Y, sc, "merge", **det)
    mon.events["bundles_observed"] += reg.nb * k
    mon.tag(case.get("backend"), op, sorted(case["opt"].items()), k, len(case["shs"][0]), mode, reg.kind)
