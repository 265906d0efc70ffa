"""C08: refinement covers the boxes and combines the sub-bounds correctly"""
CASES = {"quick": 260, "thorough": 7000}
SHARDS = {"torch": 6, "tensorflow": 2}
MIN_NONTRIVIAL = 20
RULE = ("case = one random network, one conversion, 5 boxes, one way of refining: regular sub-boxes (1 to 40, also on image-shaped boxes), or the splitting wrapper with regular or random splits on upper, lower, adversarial "
        "and optimistic adversarial queries; the sub-boxes actually submitted are recorded by a spy on the query function: they must lie in their box, cover every sampled point of it, and have the "
        "volume of the box; the returned score must be the worst of the scores of the sub-boxes, which are recomputed one by one, must enclose the network's values, and (for constant-only propagation) may not be looser than without refinement; "
        "distinct non-trivial = (backend, way, method, query, number of splits)")
ASSUMPTIONS = ["sub-boxes may be any partition of the box", "relative tolerance 1e-4 for float32 rounding"]

import functools

import inspect

import numpy as np

import decomon.wrapper as W
from vlib import dk
from vlib.nets import make_spec

WAYS = ["boxes", "boxes", "range", "range", "adv", "refine_up", "refine_low", "refine_adv", "refine_check"]


def gen_case(rng, tier, i, backend):
    way = str(rng.choice(WAYS))
    if way == "boxes":
        return dict(way=way, shape=[int(v) for v in rng.integers(1, 5, int(rng.choice([1, 1, 2, 3])))], k=int(rng.integers(1, 70)), xseed=int(rng.integers(1 << 30)))
    fam = str(rng.choice(["mlp", "mlp", "cnn", "dag", "cnnpool"]))
    spec, which = make_spec(rng, backend, fam)
    if way in ("adv", "refine_adv", "refine_check"):
        spec["nodes"][-1]["units"] = int(rng.integers(2, 4))
    ms = dk.FORWARD if which == "fwd" else dk.METHODS
    return dict(way=way, fam=fam, spec=spec, xseed=int(rng.integers(1 << 30)), method=str(rng.choice(ms)), slope=str(rng.choice(dk.SLOPES)), k=int(rng.integers(1, 20)),
                batch=int(rng.choice([-1, -1, 1, 3])), random=bool(rng.random() < 0.5), fi=[None, True, False][int(rng.integers(3))])


def tiles(mon, reg, LO, HI, X, det):
    """LO, HI (nb, m, n) tile the boxes of reg"""
    lo, hi = reg.lo.astype("float64"), reg.hi.astype("float64")
    sc = 1 + np.abs(lo) + np.abs(hi)
    mon.le(lo[:, None], LO, "sub-box-out-of-box", sc[:, None], tol=1e-6, **det)
    mon.le(HI, hi[:, None], "sub-box-out-of-box", sc[:, None], tol=1e-6, **det)
    mon.le(LO, HI, "empty-sub-box", 1.0, tol=0.0, **det)
    # every point of the box lies in a sub-box
    P = np.concatenate([X.astype("float64"), (lo + (hi - lo) / 2)[:, None]], 1)[:, :, None]  # nb, k, 1, n
    e = 1e-6 * sc[:, None, None]
    inside = ((P >= LO[:, None] - e) & (P <= HI[:, None] + e)).all(-1).any(-1)
    mon.true(inside.all(), "points-not-covered", n=int((~inside).sum()), **det)
    # volumes (degenerate coordinates have measure 1)
    w = hi - lo
    r = (HI - LO) / np.where(w > 0, w, 1)[:, None]
    r = np.where(w[:, None] > 0, r, 1.0)
    big = (w <= 0) | (w > 1e-4)
    mon.eq(np.where(big.all(1), r.prod(-1).sum(1), 1.0) if (w > 0).any() else np.ones(len(w)), np.ones(len(w)), "volume-of-sub-boxes", 1.0, tol=1e-3, **det) if (w > 0).all() else None
    mon.events["sub_boxes_observed"] += LO.shape[0] * LO.shape[1]


def run(case, mon):
    rng = np.random.default_rng(case["xseed"])
    dec = W
    way, k = case["way"], case["k"]
    det = dict(way=way, k=k)
    nb = 5
    if way == "boxes":
        sh = tuple(case["shape"])
        n = int(np.prod(sh))
        reg = dk.Region.make(rng, n, nb, "box")
        a, b = reg.lo.reshape((nb,) + sh).copy(), reg.hi.reshape((nb,) + sh).copy()
        LO, HI = dec.refine_boxes(a, b, k)
        mon.true(np.array_equal(a, reg.lo.reshape(a.shape)) and np.array_equal(b, reg.hi.reshape(a.shape)), "inputs-modified", **det)
        m = LO.shape[1]
        mon.true(LO.shape == (nb, m) + sh and HI.shape == LO.shape, "shape", got=list(LO.shape), **det)
        mon.true(1 <= m <= max(1, k) and (k < 2 or m > k / 2), "number-of-sub-boxes", got=m, **det)
        LO, HI = LO.reshape(nb, m, n), HI.reshape(nb, m, n)
        tiles(mon, reg, LO, HI, reg.samples(rng, 60), det)
        # splits along the widest coordinates: no sub-box is much longer than the others
        if m > 1:
            wide = (reg.hi.astype("float64") - reg.lo).max(1)
            mon.true(((HI - LO).max(-1).max(1) <= wide * (1 + 1e-6)).all(), "wider-than-box", **det)
            if n == 1:
                mon.true(((HI - LO).max(-1).max(1) <= wide / m * (1 + 1e-4) + 1e-6).all(), "not-refined", **det)
        mon.tag(case.get("backend"), way, len(sh), m, n > 1)
        return
    spec = case["spec"]
    net = dk.build(spec)
    n = spec["n_in"]
    me = case["method"]
    det.update(method=me, net=dk.desc(spec))
    reg = dk.Region.make(rng, n, nb, "box")
    kw = {}
    if way == "range" and me in dk.FORWARD[1:] + dk.METHODS[2:4] and case["fi"] is not None:
        kw = dict(final_ibp=case["fi"], final_affine=True)
    d = dk.clone(net, method=me, slope=case["slope"], **kw)
    X, Y = dk.points(net, reg, rng)
    sc = dk.yscale(Y)[:, 0]
    no = Y.shape[-1]
    lo, hi = reg.lo, reg.hi
    if way in ("range", "adv"):
        LO, HI = dec.refine_boxes(lo, hi, k)
        tiles(mon, reg, LO, HI, X, det)
        if way == "range":
            u, l = dec.get_range_box(d, lo, hi, n_sub_boxes=k, batch_size=case["batch"])

            def alone(xs):
                single = [dec.get_range_box(d, xs[0][:, j], xs[-1][:, j]) for j in range(LO.shape[1])]
                return np.max([np.asarray(s[0]).reshape(nb, -1) for s in single], 0), np.min([np.asarray(s[1]).reshape(nb, -1) for s in single], 0)

            eu, el = alone([LO, HI])
            dev = lambda j: dk.wobble(alone, [LO, HI], np.random.default_rng(0), k=6)[j]  # ties between two relaxations
            u, l = np.asarray(u).reshape(nb, -1), np.asarray(l).reshape(nb, -1)
            mag = sc + np.abs(eu) + np.abs(el)
            dk.eq_stable(mon, u, eu, "not-worst-of-sub-boxes", mag, lambda: dev(0), **det)
            dk.eq_stable(mon, l, el, "not-worst-of-sub-boxes", mag, lambda: dev(1), **det)
            if rng.random() < 0.3:
                dk.eq_stable(mon, np.asarray(dec.get_upper_box(d, lo, hi, n_sub_boxes=k)).reshape(nb, -1), eu, "upper", mag, lambda: dev(0), **det)
                dk.eq_stable(mon, np.asarray(dec.get_lower_box(d, lo, hi, n_sub_boxes=k)).reshape(nb, -1), el, "lower", mag, lambda: dev(1), **det)
            dk.check_enclosure(mon, dict(u=u, l=l), X, Y, sc[:, None], "refined", **det)
            if me == "forward-ibp" and case["fam"] != "dag":
                u0, l0 = dec.get_range_box(d, lo, hi)
                mon.le(u, np.asarray(u0).reshape(nb, -1), "refinement-looser", mag, **det)
                mon.le(np.asarray(l0).reshape(nb, -1), l, "refinement-looser", mag, **det)
        else:
            s = int(rng.integers(no))
            got = np.asarray(dec.get_adv_box(d, lo, hi, s, n_sub_boxes=k, batch_size=case["batch"]))
            alone = lambda xs: [np.max([dec.get_adv_box(d, xs[0][:, j], xs[-1][:, j], s) for j in range(LO.shape[1])], 0)]
            e = alone([LO, HI])[0]
            dk.eq_stable(mon, got, e, "not-worst-of-sub-boxes", 1 + np.abs(e), lambda: dk.wobble(alone, [LO, HI], np.random.default_rng(0), k=6)[0], **det)
    else:
        base = dict(refine_up=dec.get_upper_box, refine_low=dec.get_lower_box, refine_adv=dec.get_adv_box, refine_check=dec.check_adv_box)[way]
        log = []

        @functools.wraps(base)
        def spy(*a, **kk):
            r = base(*a, **kk)
            b = inspect.signature(base).bind(*a, **kk).arguments
            log.append((np.array(b["x_min"]), np.array(b["x_max"])))
            return r

        kws = {}
        if way in ("refine_adv", "refine_check"):
            S = rng.integers(0, no, nb)
            kws["source_labels"] = np.eye(no, dtype=int)[S] if rng.random() < 0.5 else S
        np.random.seed(case["xseed"] % (1 << 31))
        try:
            res = np.asarray(dec.refine_box(spy, d, lo, hi, n_split=k, random=case["random"], batch_size=case["batch"], **kws), "float64")
        finally:
            np.random.seed(None)
        mon.true(np.array_equal(lo, reg.lo) and np.array_equal(hi, reg.hi), "inputs-modified", **det)
        if len(log) == 0:
            mon.skip("query function not called by name")
            return
        LO = np.concatenate([x[0].reshape(-1, n) for x in log])
        HI = np.concatenate([x[1].reshape(-1, n) for x in log])
        m = len(LO) // nb
        if not mon.true(m * nb == len(LO) and m <= k, "number-of-sub-boxes", got=len(LO), **det):
            return
        LO, HI = LO.reshape(nb, m, n), HI.reshape(nb, m, n)
        tiles(mon, reg, LO, HI, X, det)
        # recompute every sub-box alone
        def alone(xs):
            kk = dict(source_labels=kws["source_labels"]) if kws else {}
            out = [np.asarray(base(d, xs[0][:, j], xs[-1][:, j], **kk)).reshape(nb, -1) for j in range(m)]
            return [np.min(out, 0) if way == "refine_low" else np.max(out, 0)]

        worst = alone([LO, HI])[0]
        dk.eq_stable(mon, res.reshape(nb, -1), worst, "not-worst-of-sub-boxes", 1 + np.abs(worst) + (sc if not kws else 0), lambda: dk.wobble(alone, [LO, HI], np.random.default_rng(0), k=6)[0], **det)
        if way == "refine_up":
            mon.le(Y, res.reshape(nb, 1, -1), "refined:upper", sc[:, None], **det)
        if way == "refine_low":
            mon.le(res.reshape(nb, 1, -1), Y, "refined:lower", sc[:, None], **det)
    mon.tag(case.get("backend"), way, me, k, case["fam"], case.get("random"))
