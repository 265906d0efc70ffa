"""C27: bounds are differentiable: gradients are finite and are those of the bounds"""
CASES = {"quick": 400, "thorough": 8000}
SHARDS = {"torch": 8}
MIN_NONTRIVIAL = 20
RULE = ("case = one random network and conversion (method, slope, outputs) in double precision, 3 boxes or balls (degenerate ones and null radius included), a random linear combination of all returned bounds or one of the robust losses; gradients with "
        "respect to every weight of the network and to the region, by automatic differentiation, must be finite and equal central finite differences along random directions wherever the two one-sided differences agree; "
        "distinct non-trivial = (method, slope, mode, region kind, quantity, family)")
ASSUMPTIONS = ["torch backend (double precision); at kinks of the bounds (one-sided differences disagree) only finiteness is judged", "relative tolerance 1e-3"]

import keras

keras.config.set_floatx("float64")

import numpy as np
import torch

from decomon.metrics import loss as DL
from vlib import dk
from vlib.nets import gen_family, make_spec


def gen_case(rng, tier, i, backend):
    fam = gen_family(rng, backend)
    spec, which = make_spec(rng, backend, fam)
    method = str(rng.choice(dk.FORWARD if which == "fwd" else dk.METHODS))
    mode = "ibp" if method == "forward-ibp" else str(rng.choice(["ibp", "affine", "hybrid"]))
    return dict(fam=fam, spec=spec, method=method, mode=mode, slope=str(rng.choice(dk.SLOPES)), xseed=int(rng.integers(1 << 30)), region=str(rng.choice(["box", "box", "ball1", "ball2", "ballinf"])),
                what=str(rng.choice(["bounds", "bounds", "bounds", "upper", "lower", "adv"])))


def run(case, mon):
    rng = np.random.default_rng(case["xseed"])
    spec, mode = case["spec"], case["mode"]
    net = dk.build(spec)
    reg = dk.Region.make(rng, spec["n_in"], 3, case["region"], r_max=float(rng.choice([0.1, 0.5, 1.0])))
    d = dk.clone(net, method=case["method"], slope=case["slope"], final_ibp=mode != "affine", final_affine=mode != "ibp", perturbation_domain=reg.domain())
    det = dict(method=case["method"], slope=case["slope"], mode=mode, region=reg.kind, net=dk.desc(spec), quantity=case["what"])
    z = torch.tensor(np.asarray(reg.z(), "float64"), requires_grad=True)
    o = d(z)
    o = o if isinstance(o, list) else [o]
    if not all(torch.isfinite(t).all() and t.abs().max() < 1e4 for t in o if t.numel()):
        raise dk.Skip("magnitudes")
    no = net.output_shape[-1]
    if case["what"] == "bounds" or (case["what"] == "adv" and no == 1):
        cs = [torch.tensor(rng.normal(0, 1, tuple(t.shape))) for t in o]
        f = lambda out: sum((c * t).sum() for c, t in zip(cs, out))
    else:
        fn = dict(upper=DL.get_upper_loss, lower=DL.get_lower_loss, adv=DL.get_adv_loss)[case["what"]](d)
        y = np.eye(no)[rng.integers(0, no, 3)] if case["what"] == "adv" else rng.normal(0, 1, (3, no))
        y = torch.tensor(y)
        packed = DL.get_model(d)
        f = None
    ws = [v for v in net.trainable_variables]

    def value(zz):
        if f is None:
            return fn(y, packed(zz)).sum()
        out = d(zz)
        return f(out if isinstance(out, list) else [out])

    def derive(zz):
        for v in ws:
            v.value.requires_grad_(True)
            v.value.grad = None
        zz.grad = None
        L = value(zz)
        if not torch.isfinite(L):
            raise dk.Skip("magnitudes")
        if not L.requires_grad:
            raise dk.Skip("constant")
        try:
            L.backward()
        except RuntimeError as e:
            if "slow_conv" in str(e):  # torch's own, without mkldnn
                raise dk.Skip("torch: gradient of a convolution")
            raise
        grads = [None if v.value.grad is None else v.value.grad.detach().numpy().copy() for v in ws] + [None if zz.grad is None else zz.grad.numpy().copy()]
        ok = True
        for v, g in zip([v.path for v in ws] + ["region"], grads):
            if g is not None:
                mon.events["gradients_observed"] += g.size
                ok &= mon.true(bool(np.isfinite(g).all()), "gradient-not-finite" + ("-region" if v == "region" else ""), variable=v, **det)
        return grads if ok else None

    if derive(z) is None:
        return
    # away from ties (null weights, symmetric boxes): a generic point
    with torch.no_grad():
        for v in ws:
            a = dk.np_(v).astype("float64")
            v.assign(a + rng.uniform(0.5, 1, a.shape) * rng.choice([-3e-3, 3e-3], a.shape))
        e = rng.uniform(0.5e-3, 1e-3, tuple(z.shape))
        if reg.kind == "box":
            e[:, 0] *= -1
        z = (z + torch.tensor(e)).clone().detach()
    z.requires_grad_(True)
    grads = derive(z)
    if grads is None:
        return
    v0 = [dk.np_(v).astype("float64").copy() for v in ws]
    z0 = z.detach().numpy().copy()

    def at(t, dirs):
        with torch.no_grad():
            for v, a, e in zip(ws, v0, dirs):
                v.assign(a + t * e)
            return float(value(torch.tensor(z0 + t * dirs[-1])))

    h = 1e-6
    for k in range(4):
        sel = int(rng.integers(len(ws) + 1)) if k else -1  # all the variables together, then one at a time
        dirs = [rng.normal(0, 1, a.shape) if sel in (-1, j) else 0 * a for j, a in enumerate(v0 + [z0])]
        f0, fp, fm = at(0, dirs), at(h, dirs), at(-h, dirs)
        for v, a in zip(ws, v0):
            v.assign(a)
        an = sum(float((g * e).sum()) for g, e in zip(grads, dirs) if g is not None)
        dp = (fp - f0) / h
        dm = (f0 - fm) / h
        sc = 1 + abs(an) + abs(dp)
        if abs(dp - dm) > 3e-4 * sc:
            mon.events["kinks"] += 1
            continue
        mon.eq(np.array([an]), np.array([(fp - fm) / (2 * h)]), "gradient-differs", sc, 1e-3, variable="all" if sel < 0 else (ws[sel].path if sel < len(ws) else "region"), **det)
        mon.events["directions_observed"] += 1
    mon.tag(case["method"], case["slope"], mode, reg.kind, case["what"], case["fam"])
