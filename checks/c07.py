"""C07: interval propagation is interval arithmetic; combining it with affine bounds never loosens it"""
CASES = {"quick": 240, "thorough": 6000}
SHARDS = {"torch": 6, "tensorflow": 2}
MIN_NONTRIVIAL = 20
RULE = ("case = one random network on 6 regions (boxes or balls); constant-bound propagation is compared, both ways, with the interval arithmetic done by "
        "the monitor in float64 layer after layer (each linear layer through its matrix, obtained by evaluating the keras layer on basis vectors); combined "
        "propagation with each slope must lie within it; shrinking every box must shrink the constant bounds; distinct non-trivial = (backend, family, region kind, slope, ops)")
ASSUMPTIONS = ["maximum, minimum, multiply and dot are by design wider than interval arithmetic (x + relu(y - x), McCormick planes): judged one-sided; softmax has no unique interval extension, networks with it are only judged on the order of the methods",
               "relative tolerance 1e-4 for float32 rounding"]

import numpy as np

from vlib import dk, gen
from vlib.nets import gen_family, make_spec


def gen_case(rng, tier, i, backend):
    fam = gen_family(rng, backend)
    spec, which = make_spec(rng, backend, fam)
    return dict(fam=fam, spec=spec, xseed=int(rng.integers(1 << 30)), slope=str(rng.choice(dk.SLOPES)), region=str(rng.choice(["box", "box", "ball1", "ball2", "ballinf"])))


def lin(layer, lo, hi):
    """interval image by a layer that is affine"""
    sh = lo.shape[1:]
    n = int(np.prod(sh))
    zero = dk.np_(layer(dk.T(np.zeros((1,) + sh)))).astype("float64")
    W = (dk.np_(layer(dk.T(np.eye(n).reshape((n,) + sh)))).astype("float64") - zero).reshape(n, -1)
    c, r = (lo + hi).reshape(len(lo), -1) / 2, (hi - lo).reshape(len(lo), -1) / 2
    y = (c @ W + zero.reshape(1, -1)).reshape((len(lo),) + zero.shape[1:])
    r = (r @ np.abs(W)).reshape(y.shape)
    return y - r, y + r


ACT = dict(relu=lambda x: np.maximum(x, 0), linear=lambda x: x, sigmoid=lambda x: 1 / (1 + np.exp(-x)), tanh=np.tanh, softsign=lambda x: x / (1 + np.abs(x)),
           softplus=lambda x: np.logaddexp(0, x), exponential=np.exp)


def prod(a, b):
    c = [a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1]]
    return np.minimum.reduce(c), np.maximum.reduce(c)


def layer_named(m, name):
    for lay in gen.all_layers(m):
        if lay.name == name:
            return lay
    raise dk.Skip("no layer")


def interval(m, spec, lo, hi, tag="m"):
    vals = [(lo, hi)]
    shared = {}
    for i, nd in enumerate(spec["nodes"]):
        ins = [vals[j] for j in nd["in"]]
        nm = f"{tag}_{i}_{nd['op']}"
        if nd.get("share") is not None:
            nm = shared.setdefault(nd["share"], nm)
        op, v = nd["op"], ins[0]
        if op in ("dense", "conv"):
            lay = layer_named(m, nm)
            plain = lay.__class__.from_config(dict(lay.get_config(), activation="linear"))  # a copy without activation
            plain.build((None,) + tuple(v[0].shape[1:]))
            plain.set_weights(lay.get_weights())
            v = lin(plain, *v)
            v = tuple(ACT[nd.get("act") or "linear"](x) for x in v)
        elif op in ("bn", "flatten", "reshape", "permute", "dropout"):
            v = lin(layer_named(m, nm), *v)
        elif op == "act":
            if nd["act"] == "softmax":
                return None
            v = tuple(ACT[nd["act"]](x) for x in v)
        elif op == "maxpool":
            lay = layer_named(m, nm)
            v = tuple(dk.np_(lay(dk.T(x))).astype("float64") for x in v)
        elif op == "sub":
            v = interval(m, nd["spec"], *v, tag=nm)
            if v is None:
                return None
        elif op == "add":
            v = sum(x[0] for x in ins), sum(x[1] for x in ins)
        elif op == "average":
            v = sum(x[0] for x in ins) / len(ins), sum(x[1] for x in ins) / len(ins)
        elif op == "subtract":
            v = ins[0][0] - ins[1][1], ins[0][1] - ins[1][0]
        elif op == "maximum":
            v = np.maximum.reduce([x[0] for x in ins]), np.maximum.reduce([x[1] for x in ins])
        elif op == "minimum":
            v = np.minimum.reduce([x[0] for x in ins]), np.minimum.reduce([x[1] for x in ins])
        elif op == "multiply":
            for x in ins[1:]:
                v = prod(v, x)
        elif op == "dot":
            v = prod(ins[0], ins[1])
            v = v[0].sum(1, keepdims=True), v[1].sum(1, keepdims=True)
        elif op == "concat":
            v = np.concatenate([x[0] for x in ins], nd.get("axis", -1)), np.concatenate([x[1] for x in ins], nd.get("axis", -1))
        else:
            raise ValueError(op)
        vals.append(v)
    return vals[-1]


def bounds(dm, reg):
    if reg.kind == "box":
        u, l = dk.decomon.get_range_box(dm, reg.lo, reg.hi)
    else:
        u, l = dk.decomon.get_range_noise(dm, reg.x0, eps=reg.eps, p=reg.p)
    return np.asarray(u, "float64").reshape(reg.nb, -1), np.asarray(l, "float64").reshape(reg.nb, -1)


def run(case, mon):
    rng = np.random.default_rng(case["xseed"])
    spec = case["spec"]
    m = dk.build(spec)
    n = spec["n_in"]
    ops = sorted({nd["op"] for nd in spec["nodes"]} | {nd["act"] for nd in spec["nodes"] if nd.get("act")})
    expo = "exponential" in ops or "softmax" in ops
    reg = dk.Region.make(rng, n, 6, case["region"], r_max=0.5 if expo else None)
    lo, hi = (reg.lo, reg.hi) if reg.kind == "box" else (reg.x0 - reg.eps, reg.x0 + reg.eps)
    dk.fw(m, lo)
    loose = bool({"multiply", "dot", "maximum", "minimum"} & set(ops))
    ref = interval(m, spec, lo.astype("float64"), hi.astype("float64"))
    d = dk.clone(m, method="forward-ibp", perturbation_domain=reg.domain())
    u, l = bounds(d, reg)
    if not (np.isfinite(u).all() and np.isfinite(l).all()):
        raise dk.Skip("overflow")
    scale = 1 + np.maximum(np.abs(u), np.abs(l))
    det = dict(slope=case["slope"], region=reg.kind, net=dk.desc(spec))
    mon.events["bounds_observed"] += u.size
    if ref is not None:
        rl, ru = ref[0].reshape(6, -1), ref[1].reshape(6, -1)
        mon.le(ru, u, "tighter-than-interval:upper", scale, **det)
        mon.le(l, rl, "tighter-than-interval:lower", scale, **det)
        if not loose:
            mon.le(u, ru, "looser-than-interval:upper", scale, **det)
            mon.le(rl, l, "looser-than-interval:lower", scale, **det)
    # combined propagation
    h = dk.clone(m, method="forward-hybrid", slope=case["slope"], perturbation_domain=reg.domain())
    uh, lh = bounds(h, reg)
    mon.le(uh, u, "hybrid-looser:upper", scale, **det)
    mon.le(l, lh, "hybrid-looser:lower", scale, **det)
    # monotone
    if reg.kind == "box":
        t = rng.random((2, 6, n)) * 0.5
        sub = dk.Region("box", lo=np.clip(lo + t[0] * (hi - lo), lo, hi).astype("float32"), hi=np.clip(hi - t[1] * (hi - lo), lo, hi).astype("float32"))
    else:
        sub = dk.Region(reg.kind, x0=reg.x0, eps=reg.eps * float(rng.random()), p=reg.p)
    us, ls = bounds(d, sub)
    mon.le(us, u, "not-monotone:upper", scale, **det)
    mon.le(l, ls, "not-monotone:lower", scale, **det)
    mon.tag(case.get("backend"), case["fam"], case["region"], case["slope"], ops)
