"""C16: forward activations: sound, touching relaxations"""
CASES = {"quick": 4000, "thorough": 60000}
SHARDS = {"torch": 6, "tensorflow": 2}
MIN_NONTRIVIAL = 20
RULE = ("case = one activation layer, one propagation mode, one slope option, fed either with the coordinates of a box (intervals of all positions and widths: the returned line is judged on a dense grid of "
        "each interval, must not depend on other coordinates and must touch the curve) or with a random bundle of bounds over a box or ball (judged on admissible values); constant bounds of monotone activations "
        "must be the images of the constant bounds; distinct non-trivial = (backend, activation, mode, slope, kind of case, position of the intervals)")
ASSUMPTIONS = ["the activation's own values (float64 formulas) are the specification", "softplus and softmax relaxations are only required to be sound",
               "relative tolerance 1e-4 for float32 rounding; s-shaped activations on intervals starting or ending exactly at 0 average two lines and are only required to be sound"]

import keras
import numpy as np

from vlib import dk, gen, lay

ACTS = ["relu", "sigmoid", "tanh", "softsign", "softplus", "exponential", "linear"]


def sp(x):
    return np.maximum(x, 0) + np.log1p(np.exp(-np.abs(x)))


F = dict(relu=lambda x: np.maximum(x, 0), sigmoid=lambda x: 1 / (1 + np.exp(-x)), tanh=np.tanh, softsign=lambda x: x / (1 + np.abs(x)),
         softplus=sp, exponential=np.exp, linear=lambda x: x)


def softmax(y):
    e = np.exp(y - y.max(-1, keepdims=True))
    return e / e.sum(-1, keepdims=True)


def gen_case(rng, tier, i, backend):
    kind = str(rng.choice(["id", "id", "bundle"]))
    act = str(rng.choice(ACTS + ["softmax"] if kind == "bundle" else ACTS))
    sh = [gen.dim(rng, 1, 4) for _ in range(int(rng.choice([1, 1, 3])))]
    mode = str(rng.choice(["affine", "hybrid", "hybrid", "ibp"]))
    return dict(act=act, kind=kind, mode=mode, slope=str(rng.choice(dk.SLOPES)), sh=sh, region=str(rng.choice(["box", "box", "ball1", "ball2", "ballinf"])),
                seed=int(rng.integers(1 << 30)), finetune=bool(rng.random() < 0.2), layer=str(rng.choice(["Activation", "Activation", "Softmaxy"])))


def intervals(rng, nb, n, act):
    c = rng.normal(0, 2.0 if act != "exponential" else 1.0, (nb, n))
    r = np.exp(rng.uniform(np.log(1e-3), np.log(3.0), (nb, n)))
    z = rng.random((nb, n))
    c = np.where(z < 0.1, r, np.where(z < 0.2, -r, np.where(z < 0.25, 0, c)))
    r = np.where(rng.random((nb, n)) < 0.1, 0, r)
    wide = rng.random((nb, n)) < (0.1 if act not in ("exponential",) else 0)
    c, r = np.where(wide, c * 3, c), np.where(wide, r + rng.uniform(0, 10, (nb, n)), r)
    lo = (c - r).astype("float32")
    return lo, np.maximum(lo, (c + r).astype("float32"))


def relu_slope(slope, L, U):
    """documented lower slope of relu on unstable intervals; NaN where the two areas tie"""
    up = U / np.maximum(U - L, 1e-30)
    if slope in ("volume-slope", "adaptative-slope"):
        return np.where(np.abs(U + L) < 1e-5 * (U - L), np.nan, (U > -L) * 1.0)
    return {"zero-lb": 0 * up, "one-lb": 1 + 0 * up, "same-slope": up}[slope]


def ends(mon, act, slope, finetune, L, U, f, d, det):
    """upper lines of convex activations are chords; lower lines of relu follow the slope option"""
    n = L.shape[-1]
    get = lambda k: (d["w" + k].reshape(-1, n, n).astype("float64")[:, np.arange(n), np.arange(n)], d["b" + k].reshape(-1, n).astype("float64"))
    wu, bu = get("u")
    if act in ("relu", "exponential", "linear") or act == "softplus" and not finetune:
        sc = 1 + np.abs(wu) * np.maximum(np.abs(L), np.abs(U)) + np.abs(bu)
        mon.eq(wu * L + bu, f(L), "upper-not-chord", sc, **det)
        ok = U - L > 1e-2
        mon.eq(np.where(ok, wu * U + bu, 0), np.where(ok, f(U), 0), "upper-not-chord", sc, **det)
    if act == "relu" and not finetune:
        wl, bl = get("l")
        t = relu_slope(slope, L, U)
        un = (L < 0) & (U > 0) & (U - L > 1e-2) & ~np.isnan(t)
        mon.eq(np.where(un, wl, 0), np.where(un, t, 0), "relu-lower-slope", 1.0, **det)
        mon.eq(np.where(un, bl, 0), 0 * bl, "relu-lower-offset", 1.0, **det)
        mon.events["unstable_relus_observed"] += int(un.sum())


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    act, mode, slope = case["act"], case["mode"], case["slope"]
    det = dict(act=act, mode=mode, slope=slope)
    if case["kind"] == "id":
        nb, n = 12, gen.dim(rng, 1, 5)
        lo, hi = intervals(rng, nb, n, act)
        reg = dk.Region("box", lo=lo, hi=hi)
        layer, _ = lay.keras_layer(keras.layers.Activation(act), (n,))
        _, d = lay.forward(layer, mode, reg, [lay.identity(reg)], slope=slope, finetune=case["finetune"])
        L, U = lo.astype("float64"), hi.astype("float64")
        f = F[act]
        sc = 1 + np.maximum(np.abs(f(L)), np.abs(f(U)))
        if "u" in d and act != "softplus":
            mon.eq(d["u"], f(U), "constant-upper", sc, **det)
            mon.eq(d["l"], f(L), "constant-lower", sc, **det)
        if "u" in d and act == "softplus":
            mon.le(f(U), d["u"], "constant-upper", sc, **det)
            mon.le(d["l"], f(L), "constant-lower", sc, **det)
        if "wu" in d:
            t = np.linspace(0, 1, 161)[:, None, None]
            G = L + t * (U - L)  # 161, nb, n
            G = np.concatenate([G, np.clip(0.0, L, U)[None]])
            off = ~np.eye(n, dtype=bool)
            for nm, s in (("u", 1), ("l", -1)):
                W = d["w" + nm].reshape(nb, n, n).astype("float64")
                if n > 1:
                    mon.eq(W[:, off], 0 * W[:, off], "depends-on-other-coordinates", 1 + np.abs(W).max(), **det)
                w, b = W[:, np.arange(n), np.arange(n)], d["b" + nm].reshape(nb, n).astype("float64")
                gap = s * (w * G + b - f(G))
                s2 = np.maximum(sc, np.abs(w) * np.maximum(np.abs(L), np.abs(U)) + np.abs(b))
                mon.le(-gap, 0 * gap, "line-crosses:" + nm, s2, **det)
                if act != "softplus" or nm == "u":
                    tol = 1e-4 * s2
                    if act == "exponential":  # tangent at a point that may be off the grid
                        tol = tol + 1e-3 * (f(U) - f(L)) * (U - L)
                    if act in ("sigmoid", "tanh", "softsign"):  # intervals starting at 0: average of two lines
                        tol = tol + 10.0 * ((L == 0) | (U == 0))
                    if case["finetune"] is False:
                        mon.le(gap.min(0), tol, "line-does-not-touch:" + nm, 1.0, tol=0.0, **det)
            ends(mon, act, slope, case["finetune"], L, U, f, d, det)
        pos = ["neg" if (hi < 0).all() else "pos" if (lo > 0).all() else "mixed"]
        mon.events["intervals_observed"] += lo.size
    else:
        nb, n, sh = 5, int(rng.integers(1, 5)), tuple(case["sh"])
        reg = dk.Region.make(rng, n, nb, case["region"])
        small = act in ("exponential", "softmax")
        if small:
            reg = dk.Region.make(rng, n, nb, case["region"], r_max=0.5)
        B = lay.make(rng, reg, sh, scale=0.6 if small else float(rng.choice([0.3, 1.0, 2.0])), shift=float(rng.choice([0, 0, 1.5, -1.5])))
        kl = keras.layers.Activation(act) 
        layer, _ = lay.keras_layer(kl, sh)
        _, d = lay.forward(layer, mode, reg, [B], slope=slope, finetune=case["finetune"])
        X = reg.samples(rng, 80)
        V = B.values(rng, X, mode)
        Y = softmax(V) if act == "softmax" else F[act](V)
        if act == "softmax" and not all(np.isfinite(v).all() for v in d.values()):
            raise dk.Skip("overflow")
        l, u = B.interval(mode)
        if "u" in d and act not in ("softplus", "softmax"):
            sc = 1 + np.maximum(np.abs(F[act](B.l.astype("float64"))), np.abs(F[act](B.u.astype("float64"))))
            mon.le(d["u"], F[act](B.u.astype("float64")), "constant-looser:u", sc, **det)
            mon.le(F[act](B.l.astype("float64")), d["l"], "constant-looser:l", sc, **det)
        sc = 1 + np.abs(Y).max(1, keepdims=True)
        dk.check_enclosure(mon, d, X, Y, sc, "bundle", region=reg.kind, **det)
        pos = [reg.kind, len(sh)]
        mon.events["bundles_observed"] += nb
    mon.tag(case.get("backend"), act, mode, slope, case["kind"], pos)
