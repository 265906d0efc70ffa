"""C15: the output modes of a converted model describe the same bounds"""
CASES = {"quick": 200, "thorough": 5000}
SHARDS = {"torch": 6, "tensorflow": 2}
MIN_NONTRIVIAL = 20
RULE = ("case = one random network, one region family (boxes / balls), several (method, slope); the model is converted three times (constant, affine, both) and once with "
        "the default outputs; affine bounds and constant bounds must not depend on the mode, constant bounds must equal the exact extremum of the affine ones (at most that "
        "for combined propagation), the default outputs must be one of these, and the wrappers must return the tightest of the constant bound and the extremum of the affine one; "
        "distinct non-trivial = (backend, family, region kind, method, slope)")
ASSUMPTIONS = ["relative tolerance 1e-4 for float32 rounding"]

import numpy as np

from vlib import dk
from vlib.nets import gen_family, make_spec


def gen_case(rng, tier, i, backend):
    fam = gen_family(rng, backend)
    spec, which = make_spec(rng, backend, fam)
    ms = dk.FORWARD if which == "fwd" else dk.METHODS
    k = 1 if backend == "tensorflow" else 2
    ms = [str(m) for m in rng.choice(ms, min(k, len(ms)), replace=False)]
    return dict(fam=fam, spec=spec, xseed=int(rng.integers(1 << 30)), methods=ms, slopes=[str(rng.choice(dk.SLOPES)) for _ in ms],
                kind=str(rng.choice(["box", "box", "ball1", "ball2", "ballinf"])))


def run(case, mon):
    rng = np.random.default_rng(case["xseed"])
    spec = case["spec"]
    m = dk.build(spec)
    acts = sorted({n["act"] for n in spec["nodes"] if n.get("act")})
    expo = "softmax" in acts or "exponential" in acts
    reg = dk.Region.make(rng, spec["n_in"], 6, case["kind"], r_max=0.5 if expo else None)
    for me, sl in zip(case["methods"], case["slopes"]):
        kw = dict(method=me, slope=sl, perturbation_domain=reg.domain())
        P, R = {}, {}
        for mode, fi, fa in (("ibp", True, False), ("affine", False, True), ("hybrid", True, True), ("default", None, None)):
            d = dk.clone(m, final_ibp=fi, final_affine=fa, **kw)
            out = dk.outputs(d, reg.z())
            md = dk.mode_of(d.ibp, d.affine)
            if mode != "default":
                mon.true(md == mode, "mode-attributes", method=me, mode=mode)
            nexp = {"ibp": 2, "affine": 5, "hybrid": 7}[md]
            if not mon.true(len(out) == nexp, "number-of-outputs", method=me, mode=mode, n=len(out)):
                return
            P[mode] = {k: v.reshape((6, spec["n_in"], -1) if k in ("wu", "wl") else (6, -1)).astype("float64") for k, v in dk.parts(md, out).items() if k != "x"}
            if reg.kind == "box":
                r = dk.decomon.get_range_box(d, reg.lo, reg.hi)
            else:
                r = dk.decomon.get_range_noise(d, reg.x0, eps=reg.eps, p=reg.p)
            R[mode] = [np.asarray(v, "float64").reshape(6, -1) for v in r]
        if expo and not all(np.isfinite(v).all() for p in P.values() for v in p.values()):
            mon.skip("overflow of a bound (exponential)")
            continue
        det = dict(method=me, slope=sl, region=reg.kind, net=dk.desc(spec))
        A, H, I, D = P["affine"], P["hybrid"], P["ibp"], P["default"]
        wsc = 1 + max(np.abs(A["wu"]).max(), np.abs(A["wl"]).max(), np.abs(A["bu"]).max(), np.abs(A["bl"]).max())
        for k in ("wu", "bu", "wl", "bl"):
            mon.eq(A[k], H[k], f"affine-depends-on-mode:{k}", wsc, **det)
            if k in D:
                mon.eq(A[k], D[k], f"affine-depends-on-mode:{k}", wsc, **det)
        eu, el = reg.ext(A["wu"], A["bu"], True), reg.ext(A["wl"], A["bl"], False)
        mag = np.abs(reg.lo) + np.abs(reg.hi) if reg.kind == "box" else np.abs(reg.x0) + reg.eps
        su = 1 + np.abs(A["bu"]) + np.einsum("bn,bno->bo", mag, np.abs(A["wu"]))
        sl_ = 1 + np.abs(A["bl"]) + np.einsum("bn,bno->bo", mag, np.abs(A["wl"]))
        mon.eq(I["u"], H["u"], "constant-depends-on-mode:u", su, **det)
        mon.eq(I["l"], H["l"], "constant-depends-on-mode:l", sl_, **det)
        if "u" in D:
            mon.eq(I["u"], D["u"], "constant-depends-on-mode:u", su, **det)
            mon.eq(I["l"], D["l"], "constant-depends-on-mode:l", sl_, **det)
        mon.le(I["u"], eu, "constant-looser-than-affine:u", su, **det)
        mon.le(el, I["l"], "constant-looser-than-affine:l", sl_, **det)
        if me != "forward-hybrid":
            mon.le(eu, I["u"], "constant-tighter-than-affine:u", su, **det)
            mon.le(I["l"], el, "constant-tighter-than-affine:l", sl_, **det)
        for mode, (u, l) in R.items():
            p = P[mode]
            xu = [p["u"]] if "u" in p else []
            xl = [p["l"]] if "l" in p else []
            if "wu" in p:
                xu.append(eu), xl.append(el)
            mon.eq(u, np.minimum.reduce(xu), "wrapper:u", su, mode=mode, **det)
            mon.eq(l, np.maximum.reduce(xl), "wrapper:l", sl_, mode=mode, **det)
        mon.events["bounds_observed"] += sum(v.size for p in P.values() for v in p.values())
        mon.tag(case.get("backend"), case["fam"], case["kind"], me, sl)
