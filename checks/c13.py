"""C13: robust training losses are computed from sound bounds and dominate the losses the network really has in the region"""
CASES = {"quick": 420, "thorough": 9000}
SHARDS = {"torch": 6, "tensorflow": 2}
MIN_NONTRIVIAL = 20
RULE = ("case = one random network with 2-5 outputs, one conversion (method, slope, requested outputs), one region kind (box or p-ball), 5 regions, random references and labels, and one loss; the monitor reads the value of the loss on the packed "
        "model (upper and lower deviation, adversarial with its sigmoid, clip and softmax options, cross-entropy, asymptotic cross-entropy, robustness radius, bounds of the categorical cross-entropy), compares it with the value recomputed in float64 from the "
        "bounds of the same conversion, and compares it with the worst loss that attacked points of the regions give to the network itself; distinct non-trivial = (backend, loss, option, method, mode, region)")
ASSUMPTIONS = ["relative tolerance 1e-4 for float32 rounding", "the backward flavours of the cross-entropy and radius layers are not covered", "softmax option: one-sided (domination) only"]

import numpy as np

from decomon.metrics import loss as DL
from decomon.metrics.utils import categorical_cross_entropy
from vlib import dk
from vlib.nets import make_spec

LOSSES = ["upper", "lower", "adv", "adv", "ce", "asym", "radius", "radius", "cce"]


def gen_case(rng, tier, i, backend):
    fam = str(rng.choice(["mlp", "mlp", "cnn", "dag", "cnnpool"]))
    spec, which = make_spec(rng, backend, fam)
    spec["nodes"][-1]["units"] = int(rng.integers(2, 6))
    loss = LOSSES[i % len(LOSSES)]
    method = str(rng.choice(dk.FORWARD if which == "fwd" else dk.METHODS))
    modes = ["ibp", "affine", "hybrid"]
    if method == "forward-ibp":
        modes = ["ibp"]
    if loss == "radius":
        modes = modes[1:] or ["affine"]
        if method == "forward-ibp":
            method = "forward-affine"
    return dict(fam=fam, spec=spec, loss=loss, method=method, slope=str(rng.choice(dk.SLOPES)), mode=str(rng.choice(modes)), xseed=int(rng.integers(1 << 30)),
                region="box" if loss == "radius" else str(rng.choice(["box", "box", "ball1", "ball2", "ballinf"])), r=float(rng.choice([0.02, 0.1, 0.5])),
                sigmoid=bool(rng.random() < 0.3), clip=[None, None, -1.0, -0.1][int(rng.integers(4))], softmax=bool(rng.random() < 0.3), multi=bool(rng.random() < 0.2))


def lse(v, axis):
    m = v.max(axis, keepdims=True)
    return (m + np.log(np.exp(v - m).sum(axis, keepdims=True))).squeeze(axis)


def pairs(S):
    return (1 - S)[:, :, None] * S[:, None, :]  # target, source


def gapmax(D, S):
    return np.where(pairs(S) > 0, D, -np.inf).max((-1, -2))


def run(case, mon):
    rng = np.random.default_rng(case["xseed"])
    spec, loss, mode = case["spec"], case["loss"], case["mode"]
    net = dk.build(spec)
    reg = dk.Region.make(rng, spec["n_in"], 5, case["region"], r_max=case["r"])
    X, Y = dk.points(net, reg, rng)  # nb, k, no
    nb, _, no = Y.shape
    ysc = 1 + np.abs(Y).max((1, 2))
    d = dk.clone(net, method=case["method"], slope=case["slope"], final_ibp=mode != "affine", final_affine=mode != "ibp", perturbation_domain=reg.domain())
    got_mode = dk.mode_of(d.ibp, d.affine)
    mon.true(got_mode == mode, "mode-of-conversion", got=got_mode, want=mode, method=case["method"])
    z = reg.z()
    b = dk.parts(mode, dk.outputs(d, z))
    b = {k: np.asarray(v, "float64") for k, v in b.items()}
    det = dict(loss=loss, method=case["method"], mode=mode, region=reg.kind, net=dk.desc(spec), slope=case["slope"])
    if "wu" in b:
        au, al = reg.ext(b["wu"], b["bu"], True), reg.ext(b["wl"], b["bl"], False)
    if mode == "ibp":
        u, l = b["u"], b["l"]
    elif mode == "affine":
        u, l = au, al
    else:
        u, l = np.minimum(b["u"], au), np.maximum(b["l"], al)
    mag = float((ysc + np.abs(u).max(1) + np.abs(l).max(1)).max())
    if mode != "ibp":
        mag += max(float(np.abs(b["w" + c]).max()) * (1 + float(np.abs(X).max())) + float(np.abs(b["b" + c]).max()) for c in "ul")
    if mode == "hybrid":
        mag += float(max(np.abs(b["u"]).max(), np.abs(b["l"]).max()))
    if not np.isfinite(mag) or mag > 1e5:
        raise dk.Skip("magnitudes")

    def loss_value(fn, ref):
        packed = DL.get_model(d)
        p = packed(dk.T(z))
        v = dk.np_(fn(dk.T(ref), p))
        mon.events["loss_values_observed"] += 1
        mon.true(v.shape == (), "scalar", got=list(v.shape), **det)
        return float(v)

    opt = ""
    if loss in ("upper", "lower"):
        ref = Y[:, 0] + rng.normal(0, 0.5, (nb, no)) * (rng.random() < 0.7)
        sg = 1 if loss == "upper" else -1
        scores = []
        if mode != "affine":
            scores.append((sg * ((b["u"] if sg > 0 else b["l"]) - ref)).max(-1))
        if mode != "ibp":
            scores.append((sg * ((au if sg > 0 else al) - ref)).max(-1))
        want = np.min(scores, 0).mean()
        got = loss_value((DL.get_upper_loss if sg > 0 else DL.get_lower_loss)(d), ref)
        mon.eq(got, want, "loss-not-from-bounds", mag, **det)
        true = (sg * (Y - ref[:, None])).max((1, 2)).mean()
        mon.le(true, got, "loss-below-true-loss", float(ysc.mean()) + np.abs(ref).max(), **det)
    elif loss == "adv":
        S = np.eye(no)[rng.integers(0, no, nb)]
        if case["multi"] and no > 2:
            S[0, (S[0].argmax() + 1) % no] = 1
        clip, sig, sm = case["clip"], case["sigmoid"], case["softmax"]
        opt = f"clip={clip is not None} sigmoid={sig} softmax={sm}"
        if sm and mag > 20:
            raise dk.Skip("softmax of large logits")
        got = loss_value(DL.get_adv_loss(d, sigmoid=sig, clip_value=clip, softmax=sm), S)
        post = (lambda v: 1 / (1 + np.exp(-np.clip(v, -60, 60)))) if sig else (lambda v: v)
        cl = (lambda v: v) if clip is None else (lambda v: np.maximum(v, clip))
        if not sm:
            scores = []
            if mode != "affine":
                scores.append(cl(gapmax(b["u"][:, :, None] - b["l"][:, None, :], S)))
            if mode != "ibp":
                W = b["wu"][:, :, :, None] - b["wl"][:, :, None, :]
                B = b["bu"][:, :, None] - b["bl"][:, None, :]
                n = W.shape[1]
                A = reg.ext(W.reshape(nb, n, -1), B.reshape(nb, -1), True).reshape(nb, no, no)
                scores.append(cl(gapmax(A, S)))
            want = post(np.min(scores, 0)).mean()
            mon.eq(got, want, "loss-not-from-bounds", 2 * mag, option=opt, **det)
            F = Y
        else:
            F = np.exp(Y - lse(Y, -1)[..., None])
        G = np.where(pairs(S)[:, None] > 0, F[..., :, None] - F[..., None, :], -np.inf).max((-1, -2)).max(1)
        mon.le(post(cl(G)).mean(), got, "loss-below-true-loss", 1.0 if sm else float(ysc.mean()), option=opt, **det)
        mon.true(np.isfinite(got), "loss-not-finite", option=opt, **det)
    elif loss == "ce":
        got = dk.np_(DL.build_crossentropy_model(d)(dk.T(z))).astype("float64")
        want = -l + lse(u, -1)[:, None]
        mon.eq(got, want, "loss-not-from-bounds", mag, **det)
        true = (lse(Y, -1)[..., None] - Y).max(1)
        mon.le(true, got, "loss-below-true-loss", ysc[:, None], **det)
    elif loss == "asym":
        got = dk.np_(DL.build_asymptotic_crossentropy_model(d)(dk.T(z))).astype("float64")
        D = u[:, :, None] - l[:, None, :]  # target, source
        D[:, np.arange(no), np.arange(no)] = -np.inf
        want = np.maximum(D.max(1), -1)
        mon.eq(got, want, "loss-not-from-bounds", mag, **det)
        T_ = Y[..., :, None] - Y[..., None, :]
        T_[..., np.arange(no), np.arange(no)] = -np.inf
        mon.le(np.maximum(T_.max((1, 2)), -1), got, "loss-below-true-loss", ysc[:, None], **det)
    elif loss == "radius":
        got = dk.np_(DL.build_radius_robust_model(d)(dk.T(z))).astype("float64")
        W = b["wu"][:, :, :, None] - b["wl"][:, :, None, :]
        B = b["bu"][:, :, None] - b["bl"][:, None, :]
        c, r = (reg.lo.astype("float64") + reg.hi) / 2, (reg.hi.astype("float64") - reg.lo) / 2
        sc = np.einsum("bn,bnts->bts", c, W) + B
        den = np.einsum("bn,bnts->bts", r, np.abs(W))
        di = np.arange(no)
        ok = den > 1e-3 * mag
        ok[:, di, di] = True
        v = 1 + sc / np.maximum(den, 1e-7)
        v[:, di, di] = -np.inf
        want = np.maximum(v.max(1), -1)
        good = ok.all(1)
        mon.eq(np.where(good, got, 0), np.where(good, want, 0), "radius-not-from-bounds", np.where(good, 1 + np.abs(want) + mag / np.where(ok, den, np.inf).min(1).clip(1e-9), 1), **det)
        T_ = Y[..., :, None] - Y[..., None, :]
        T_[..., di, di] = -np.inf
        G = T_.max((1, 2))  # per source label
        cert = got < 0
        mon.events["certified_labels"] += int(cert.sum())
        mon.le(np.where(cert, G, -1), 0 * G, "certified-but-attacked", ysc[:, None], **det)
        full = sc + den
        full[:, di, di] = -np.inf
        margin = full.max(1)  # affine adversarial score
        sure = np.abs(margin) > 1e-3 * mag
        mon.true((cert == (margin < 0))[sure].all(), "radius-disagrees-with-score", got=got, margin=margin, **det)
    elif loss == "cce":
        if mag > 15:
            raise dk.Skip("exponential of large logits")
        o = d(dk.T(z))
        o = list(o) if isinstance(o, (list, tuple)) else [o]
        res = categorical_cross_entropy(o, mode=mode, perturbation_domain=reg.domain())
        r = dk.parts(mode, [dk.np_(t) for t in res])
        F = lse(Y, -1)[..., None] - Y
        s = 1 + np.abs(Y).max((1, 2))[:, None, None]
        for k in r:
            mon.true(r[k].shape[-1] == no or k == "x", "shape", part=k, got=list(r[k].shape), **det)
        mon.finite(list(r.values()), "not-finite", **det)
        dk.check_enclosure(mon, r, X, F, s, "cross-entropy", **det)
    mon.tag(case.get("backend"), loss, opt, case["method"], mode, reg.kind)
