"""C06: bounds are exact when the network is affine on the region, and on single points"""
CASES = {"quick": 300, "thorough": 6000}
SHARDS = {"torch": 6, "tensorflow": 2}
MIN_NONTRIVIAL = 20
RULE = ("case = (a) a random affine network (dense, conv, batch norm, reshape, permute, dropout, linear activations, add / subtract / average / concatenate) "
        "on 6 boxes or balls, judged against the exact extremum computed from its matrix; or (b) any network on regions reduced to a point, judged against "
        "its value; or (c) a ReLU network on boxes where interval arithmetic (done by the monitor) shows every unit stable, or (d) one whose units are stable by the signs of their weights, with intermediate bounds of exactly 0; every supporting method and slope; "
        "distinct non-trivial = (backend, kind, region kind, method, slope, ops)")
ASSUMPTIONS = ["methods propagating constant bounds only are exact on affine networks of a single layer only; they are judged there and on points",
               "backward methods started from constant bounds see a 1- or 2-norm ball as its enclosing box, and are judged exact on that box",
               "softplus and softmax are excluded on points: their lower relaxation is by design that of relu / through exp and 1/x",
               "relative tolerance 1e-4 for float32 rounding"]

import numpy as np

from vlib import dk, gen
from vlib.nets import d, gen_family, make_spec, ri


def affine_spec(rng, backend):
    z = rng.random()
    if z < 0.4:
        spec = gen.mlp(rng, ["linear"])
    elif z < 0.7:
        df = "channels_first" if backend == "torch" and rng.random() < 0.4 else "channels_last"
        spec = gen.cnn(rng, ["linear"], df=df, same_strides=backend == "tensorflow")
    elif z < 0.9:
        spec = gen.dag(rng, ["linear"], ["add", "subtract", "average", "concat"])
    else:
        n, k = ri(rng, 2, 5), ri(rng, 2, 5)
        spec = gen.finish(rng, dict(n_in=n, nodes=[d("bn", 0), d("dense", 1, units=k, bias=bool(rng.random() < 0.5)), d("bn", 2, center=False), d("act", 3, act="linear"),
                                                   d("dense", 4, units=2)]))
    return spec


def has_merge(spec):
    return any(nd["op"] in ("add", "subtract", "average", "concat") for nd in spec["nodes"])


def gen_case(rng, tier, i, backend):
    kind = str(rng.choice(["affine", "affine", "point", "stable", "touch"]))
    if kind == "affine":
        spec = affine_spec(rng, backend)
        ms = dk.FORWARD if has_merge(spec) else dk.METHODS
        one = sum(nd["op"] in ("dense", "conv") for nd in spec["nodes"]) == 1 and not has_merge(spec)
        ms = [m for m in ms if one or m != "forward-ibp"]
    elif kind == "point":
        fam = gen_family(rng, backend)
        while True:
            spec, which = make_spec(rng, backend, fam)
            if not any("softplus" in str(nd) or "softmax" in str(nd) for nd in spec["nodes"]):
                break
        ms = dk.FORWARD if which == "fwd" else dk.METHODS
    elif kind == "touch":
        while True:
            spec = gen.mlp(rng, ["relu"])
            if all(nd["op"] in ("dense", "act") for nd in spec["nodes"]):
                break
        spec["nodes"].append(d("dense", len(spec["nodes"]), units=ri(rng, 1, 4)))
        ms = [m for m in dk.METHODS if m != "forward-ibp"]
    else:
        spec = gen.mlp(rng, ["relu"])
        spec["bscale"] = float(rng.choice([3.0, 10.0, 30.0]))
        ms = [m for m in dk.METHODS if m != "forward-ibp"]
    k = 2 if backend == "tensorflow" else 4
    ms = [str(m) for m in rng.choice(ms, min(k, len(ms)), replace=False)]
    return dict(kind=kind, spec=spec, xseed=int(rng.integers(1 << 30)), methods=ms, slopes=[str(rng.choice(dk.SLOPES)) for _ in ms],
                region="box" if kind == "touch" else str(rng.choice(["box", "box", "ball1", "ball2", "ballinf"])))


def touching(m, rng):
    """kernels, but that of the last layer, whose columns have a constant sign and biases of the same sign (most of them 0): on a box of non-negative inputs no ReLU changes phase,
    although many have 0 for lower (or upper) bound, exactly"""
    for lay in [lay for lay in layers_of(m) if lay.__class__.__name__ == "Dense"][:-1]:
        ws = lay.get_weights()
        s = np.where(rng.random(ws[0].shape[1]) < 0.8, 1.0, -1.0).astype(ws[0].dtype)
        ws[0] = np.abs(ws[0]) * s
        if len(ws) > 1:
            ws[1] = np.abs(ws[1]) * s * (rng.random(ws[1].shape) < 0.3)
        lay.set_weights(ws)


def bounds(dm, reg):
    if reg.kind == "box":
        u, l = dk.decomon.get_range_box(dm, reg.lo, reg.hi)
    else:
        u, l = dk.decomon.get_range_noise(dm, reg.x0, eps=reg.eps, p=reg.p)
    return np.asarray(u, "float64").reshape(reg.nb, -1), np.asarray(l, "float64").reshape(reg.nb, -1)


def run(case, mon):
    rng = np.random.default_rng(case["xseed"])
    spec, kind = case["spec"], case["kind"]
    m = dk.build(spec)
    n = spec["n_in"]
    ops = sorted({nd["op"] for nd in spec["nodes"]} | {nd["act"] for nd in spec["nodes"] if nd.get("act")})
    if kind == "point":
        if case["region"] == "box":
            x0 = rng.normal(0, 1.5, (6, n)).astype("float32")
            x0[0] = 0
            reg = dk.Region("box", lo=x0, hi=x0.copy())
        else:
            reg = dk.Region.make(rng, n, 6, case["region"], r_max=0.0)
            x0 = reg.x0
        Y = dk.fw(m, x0)
        U = L = Y
        keep = np.ones(6, bool)
        scale = 1 + np.abs(Y)
    else:
        if kind == "touch":
            touching(m, rng)
            lo = (rng.random((6, n)) * (rng.random((6, n)) < 0.4)).astype("float32")
            lo[:2] = 0
            reg = dk.Region("box", lo=lo, hi=(lo + 0.05 + rng.random((6, n))).astype("float32"))
        else:
            reg = dk.Region.make(rng, n, 6, case["region"], r_max=0.3 if kind == "stable" else None)
        if kind == "affine":
            c = np.zeros((6, n), "float32")
            keep = np.ones(6, bool)
            h = 1.0
        else:
            c = (reg.lo + reg.hi) / 2 if reg.kind == "box" else reg.x0
            keep, h = np.ones(6, bool) if kind == "touch" else stable(m, spec, reg), 1e-2
        if not keep.any():
            raise dk.Skip("no stable box")
        eye = np.eye(n, dtype="float32")
        f0 = dk.fw(m, c)
        if kind == "affine":
            W = (dk.fw(m, c[:, None] + eye) - f0[:, None]) / h  # (nb, n, no)
            b = f0
        else:
            W, b = jac(m, spec, c)
        U, L = reg.ext(W, b, True), reg.ext(W, b, False)
        scale = 1 + np.abs(b) + np.einsum("bn,bno->bo", np.abs(reg.lo) + np.abs(reg.hi) if reg.kind == "box" else np.abs(reg.x0) + reg.eps, np.abs(W))
    for me, sl in zip(case["methods"], case["slopes"]):
        dm = dk.clone(m, method=me, slope=sl, perturbation_domain=reg.domain())
        u, l = bounds(dm, reg)
        det = dict(method=me, slope=sl, region=reg.kind, net=dk.desc(spec))
        mon.events["bounds_observed"] += u.size
        U2, L2 = U, L
        if kind != "point" and case["region"] in ("ball1", "ball2") and me in ("crown", "crown-forward-ibp"):
            # these start from the box enclosing the ball
            box = dk.Region("ballinf", x0=reg.x0, eps=reg.eps, p=np.inf)
            U2, L2 = box.ext(W, b, True), box.ext(W, b, False)
        mon.le(U[keep], u[keep], f"exact-{kind}:upper-unsound", scale[keep], **det)
        mon.le(u[keep], U2[keep], f"exact-{kind}:upper-loose", scale[keep], **det)
        mon.le(l[keep], L[keep], f"exact-{kind}:lower-unsound", scale[keep], **det)
        mon.le(L2[keep], l[keep], f"exact-{kind}:lower-loose", scale[keep], **det)
        mon.tag(case.get("backend"), kind, case["region"], me, sl, ops)


def layers_of(m):
    return [lay for lay in gen.all_layers(m) if lay.__class__.__name__ in ("Dense", "Activation", "BatchNormalization")]


def stable(m, spec, reg):
    """per region: True when interval arithmetic (float64) shows that no ReLU changes phase"""
    lo, hi = (reg.lo, reg.hi) if reg.kind == "box" else (reg.x0 - reg.eps, reg.x0 + reg.eps)
    lo, hi = lo.astype("float64"), hi.astype("float64")
    ok = np.ones(len(lo), bool)
    for lay in layers_of(m):
        act = None
        if lay.__class__.__name__ == "Dense":
            W, b = dense_wb(lay)
            c, r = (lo + hi) / 2, (hi - lo) / 2
            y, r = c @ W + b, r @ np.abs(W)
            lo, hi = y - r, y + r
            act = act_name(lay)
        elif lay.__class__.__name__ == "BatchNormalization":
            s, t = bn_st(lay)
            a, b = lo * s + t, hi * s + t
            lo, hi = np.minimum(a, b), np.maximum(a, b)
        else:
            act = act_name(lay)
        if act == "relu":
            ok &= ((lo > 1e-3) | (hi < -1e-3)).all(1)
            lo, hi = np.maximum(lo, 0), np.maximum(hi, 0)
    return ok


def jac(m, spec, c):
    """exact local affine piece (float64) of a ReLU network around c: W (nb, n, no) and b with f(x) = xW + b"""
    nb, n = c.shape
    W = np.broadcast_to(np.eye(n), (nb, n, n))
    y = c.astype("float64")
    for lay in layers_of(m):
        act = None
        if lay.__class__.__name__ == "Dense":
            K_, b = dense_wb(lay)
            W, y = W @ K_, y @ K_ + b
            act = act_name(lay)
        elif lay.__class__.__name__ == "BatchNormalization":
            s, t = bn_st(lay)
            W, y = W * s, y * s + t
        else:
            act = act_name(lay)
        if act == "relu":
            W, y = W * (y > 0)[:, None], np.maximum(y, 0)
    return W, y - np.einsum("bn,bno->bo", c.astype("float64"), W)


def act_name(lay):
    act = lay.activation
    return getattr(act, "activation", act).__name__  # the activation of a layer can be a layer


def dense_wb(lay):
    ws = [np.asarray(w, "float64") for w in lay.get_weights()]
    return ws[0], (ws[1] if len(ws) > 1 else 0.0)


def bn_st(lay):
    f = lambda v, d: dk.np_(v).astype("float64") if v is not None else d
    g, b = f(lay.gamma, 1.0), f(lay.beta, 0.0)
    mu, va = f(lay.moving_mean, 0.0), f(lay.moving_variance, 1.0)
    s = g / np.sqrt(va + lay.epsilon)
    return s, b - mu * s
