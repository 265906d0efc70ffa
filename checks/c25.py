"""C25: extrema of affine functions over regions are exact; switching between forms of bounds keeps them"""
CASES = {"quick": 6000, "thorough": 100000}
SHARDS = {"torch": 6, "tensorflow": 2}
MIN_NONTRIVIAL = 20
RULE = ("case = one region family (1-4 boxes or balls, p in {1,2,inf}, degenerate and zero radius included, up to 8 inputs), random affine functions over it with outputs of zero to three axes (dense, sparse, null, one-signed or huge-ratio weights) "
        "and one of: maximum and minimum asked to the domain; expansion of constant / affine / combined bounds into the full list (with and without tightening), alone or for several inputs at once; conversion between forms of bounds "
        "(forward and backward converters); distinct non-trivial = (backend, what, region kind, output axes, form, options)")
ASSUMPTIONS = ["closed-form extrema in float64 (centre and radius for boxes, dual norm for balls) are the oracle; the sampled points of the region are never above them",
               "relative tolerance 1e-5 of the sum of magnitudes for float32 rounding"]

import numpy as np

from decomon.backward_layers.utils import get_identity_lirpa
from decomon.core import InputsOutputsSpec
from decomon.models.crown import Convert2BackwardMode
from decomon.models.utils import Convert2Mode
from vlib import dk, lay

WHAT = ["extrema", "extrema", "full", "full", "merge", "convert", "back"]


def gen_case(rng, tier, i, backend):
    return dict(what=WHAT[i % len(WHAT)], seed=int(rng.integers(1 << 30)), region=str(rng.choice(["box", "box", "ball1", "ball2", "ballinf"])))


def weights(rng, full):
    w = rng.normal(0, 1, full)
    z = rng.random()
    if z < 0.15:
        w = w * (rng.random(full) < 0.4)
    elif z < 0.25:
        w = np.abs(w)
    elif z < 0.35:
        w = -np.abs(w)
    elif z < 0.42:
        w = 0 * w
    elif z < 0.55:
        w = w * 10.0 ** rng.integers(-3, 4, full)
    elif z < 0.65:
        w = w * (rng.random((full[0],) + (1,) * (len(full) - 1)) < 0.5)  # null for some regions only
    return w.astype("float32")


def mag(reg, w, b):
    x = np.maximum(np.abs(reg.lo), np.abs(reg.hi)) if reg.kind == "box" else np.abs(reg.x0) + reg.eps
    return np.einsum("bn,bn...->b...", x.astype("float64"), np.abs(w).astype("float64")) + np.abs(b) + 1e-6


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    n, nb = int(rng.integers(1, 9)), int(rng.integers(1, 5))
    reg = dk.Region.make(rng, n, nb, case["region"])
    sh = tuple(int(rng.integers(1, 4)) for _ in range(int(rng.integers(0 if case["what"] == "extrema" else 1, 4))))
    dom = reg.domain()
    what = case["what"]
    det = dict(case_kind=what, region=reg.kind, sh=list(sh))
    T, np_ = dk.T, dk.np_

    def extrema(w, b, up, lo, nm="", **k):
        s = mag(reg, w, b)
        if up is not None:
            mon.eq(np_(up), reg.ext(w, b, True), nm + "maximum", s, 1e-5, **det, **k)
        if lo is not None:
            mon.eq(np_(lo), reg.ext(w, b, False), nm + "minimum", s, 1e-5, **det, **k)

    if what == "extrema":
        w, b = weights(rng, (nb, n) + sh), rng.normal(0, 1, (nb,) + sh).astype("float32")
        z, tw, tb = T(reg.z()), T(w), T(b)
        up, lo = dom.get_upper(z, tw, tb), dom.get_lower(z, tw, tb)
        extrema(w, b, up, lo)
        mon.true(np.array_equal(np_(z), reg.z()) and np.array_equal(np_(tw), w) and np.array_equal(np_(tb), b), "arguments-changed", **det)
        X = reg.samples(rng, 16)
        f = lay.ein(w, X) + b[:, None]
        s = mag(reg, w, b)[:, None]
        mon.le(f, np_(up)[:, None].astype("float64"), "point-above-maximum", s, 1e-5, **det)
        mon.le(np_(lo)[:, None].astype("float64"), f, "point-below-minimum", s, 1e-5, **det)
        mon.events["extrema_observed"] += 2 * b.size
        # one region at a time
        j = int(rng.integers(nb))
        up1 = dom.get_upper(T(reg.z()[j : j + 1]), T(w[j : j + 1]), T(b[j : j + 1]))
        mon.eq(np_(up1)[0], np_(up)[j], "depends-on-the-batch", s[j, 0], 1e-5, **det)
        if len(sh) == 1:  # diagonal weights: the region's own projections
            e = (reg.hi, reg.lo) if reg.kind == "box" else (reg.x0 + reg.eps, reg.x0 - reg.eps)
            o, zz = np.ones((nb, n), "float32"), np.zeros((nb, n), "float32")
            mon.eq(np_(dom.get_upper(z, T(o), T(zz))), e[0], "maximum-of-the-input", 1 + np.abs(e[0]), 1e-5, **det)
            mon.eq(np_(dom.get_lower(z, T(o), T(zz))), e[1], "minimum-of-the-input", 1 + np.abs(e[1]), 1e-5, **det)
        mon.tag(case.get("backend"), what, reg.kind, len(sh), str(nb > 1))
        return

    mode = str(rng.choice(lay.MODES))
    if what == "merge" and mode == "affine":
        mode = "hybrid"  # no caller asks for the constants of several affine inputs
    det["mode"] = mode

    def cmp_(got, want, nm, s=None):
        want = np.asarray(want, "float64")
        mon.eq(np_(got), want, nm, 1 + np.abs(want) if s is None else s, 1e-5, **det)

    def unchanged(B, ts, before):
        mon.true(all(np.array_equal(np_(t), a) for t, a in zip(ts, before)), "arguments-changed", **det)

    if what in ("full", "merge"):
        spec = InputsOutputsSpec(mode=mode, perturbation_domain=dom, model_input_dim=n)
        k = 1 if what == "full" else int(rng.integers(1, 4))
        shs = [sh] + [tuple(int(rng.integers(1, 4)) for _ in range(int(rng.integers(1, 3)))) for _ in range(k - 1)]
        Bs = [lay.make(rng, reg, s) for s in shs]
        ts = [t for B in Bs for t in B.tensors(mode)]
        before = [np_(t).copy() for t in ts]
        tight, comp = bool(rng.random() < 0.6), bool(rng.random() < 0.7)
        det.update(tight=tight, compute=comp)
        if what == "full":
            full = [[f] for f in spec.get_fullinputs_from_inputsformode(list(ts), compute_ibp_from_affine=comp, tight=tight)]
        else:
            full = spec.get_fullinputs_by_type_from_inputsformode_to_merge(list(ts), compute_ibp_from_affine=comp, tight=tight)
            sp = spec.split_inputsformode_to_merge(list(ts))
            mon.true(len(sp) == k and all(a is b for g, B in zip(sp, range(k)) for a, b in zip(g, ts[B * spec.nb_tensors : (B + 1) * spec.nb_tensors])), "split", **det)
        unchanged(Bs, ts, before)
        x, u, wu, bu, l, wl, bl = full[:7]
        for j, B in enumerate(Bs):
            su, sl = mag(reg, B.Wu, B.bu), mag(reg, B.Wl, B.bl)
            if mode != "ibp":
                cmp_(x[j], reg.z(), "x")
                for g, e, nm in ((wu, B.Wu, "wu"), (bu, B.bu, "bu"), (wl, B.Wl, "wl"), (bl, B.bl, "bl")):
                    cmp_(g[j], e, nm)
            eu, el = reg.ext(B.Wu, B.bu, True), reg.ext(B.Wl, B.bl, False)
            if mode == "ibp":
                cmp_(u[j], B.u, "u")
                cmp_(l[j], B.l, "l")
            elif mode == "hybrid":
                cmp_(u[j], np.minimum(eu, B.u) if tight else B.u, "u", su + np.abs(B.u))
                cmp_(l[j], np.maximum(el, B.l) if tight else B.l, "l", sl + np.abs(B.l))
            elif comp:
                cmp_(u[j], eu, "u", su)
                cmp_(l[j], el, "l", sl)
        if what == "full":
            back = spec.extract_outputsformode_from_fulloutputs([f[0] for f in full])
            mon.true(len(back) == len(ts), "extract-length", **det)
            P, Q = dk.parts(mode, back), dk.parts(mode, ts)
            for q in Q:
                if q not in ("u", "l"):
                    cmp_(P[q], np_(Q[q]), "extract:" + q)
            fs = spec.get_fullinputshapes_from_inputshapesformode([tuple(t.shape) for t in ts])
            es = spec.extract_inputshapesformode_from_fullinputshapes(fs)
            mon.true([tuple(s) for s in es] == [tuple(t.shape) for t in ts], "shapes-round-trip", got=[list(s) for s in es], **det)
        mon.events["bundles_observed"] += k
        mon.tag(case.get("backend"), what, mode, reg.kind, len(sh), tight, comp, k)
        return

    if what == "convert":
        to = str(rng.choice(lay.MODES))
        det["to"] = to
        B = lay.make(rng, reg, sh)
        ts = B.tensors(mode)
        before = [np_(t).copy() for t in ts]
        conv = Convert2Mode(mode_from=mode, mode_to=to, perturbation_domain=dom, input_dim=n)
        out = conv(ts)
        unchanged(B, ts, before)
        d = dk.parts(to, [np_(o) for o in out])
        l, u = B.interval(mode)
        s = mag(reg, B.Wu, B.bu) + mag(reg, B.Wl, B.bl) + np.abs(B.u) + np.abs(B.l)
        if to != "affine":
            # the exact constants the incoming form knows
            cmp_(d["u"], B.u if mode == "ibp" else u, "u", s)
            cmp_(d["l"], B.l if mode == "ibp" else l, "l", s)
        if to != "ibp" and mode != "ibp":
            for nm, e in (("x", reg.z()), ("wu", B.Wu), ("bu", B.bu), ("wl", B.Wl), ("bl", B.bl)):
                cmp_(d[nm], e, nm)
        if to != "ibp" and mode == "ibp":
            for nm, e in (("wu", np.zeros((nb, n) + sh)), ("bu", B.u), ("wl", np.zeros((nb, n) + sh)), ("bl", B.l)):
                cmp_(d[nm], e, nm)
        mon.events["bundles_observed"] += 1
        mon.tag(case.get("backend"), what, mode, to, reg.kind, len(sh))
        return

    # backward bounds -> form of forward bounds (flat)
    m = int(rng.integers(1, 5))
    if mode == "ibp" and reg.kind != "box":
        raise dk.Skip("constant bounds of the input are a box")
    A = lay.make(rng, reg, (m,))
    ins = [T(reg.hi), T(reg.lo)] if mode == "ibp" else lay.make(rng, reg, (n,)).tensors(mode)
    out = Convert2BackwardMode(mode, dom)(ins + [T(A.Wu), T(A.bu), T(A.Wl), T(A.bl)])
    d = dk.parts(mode, [np_(o) for o in out])
    s = mag(reg, A.Wu, A.bu) + mag(reg, A.Wl, A.bl)
    if mode != "affine":
        cmp_(d["u"], reg.ext(A.Wu, A.bu, True), "u", s)
        cmp_(d["l"], reg.ext(A.Wl, A.bl, False), "l", s)
    if mode != "ibp":
        for nm, e in (("x", reg.z()), ("wu", A.Wu), ("bu", A.bu), ("wl", A.Wl), ("bl", A.bl)):
            cmp_(d[nm], e, nm)
    idt = [np_(t) for t in get_identity_lirpa(ins)]
    e = np.repeat(np.eye(n)[None], nb, 0)
    for t, want in zip(idt, (e, 0 * e[:, 0], e, 0 * e[:, 0])):
        cmp_(T(t), want, "identity")
    mon.tag(case.get("backend"), what, mode, reg.kind, n, m)
