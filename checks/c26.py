"""C26: backward composition: bounds of a layer substituted into bounds of what follows"""
CASES = {"quick": 6000, "thorough": 100000}
SHARDS = {"torch": 6, "tensorflow": 2}
MIN_NONTRIVIAL = 20
RULE = ("case = random affine bounds of a hidden quantity over a region (boxes, balls) and random affine bounds of an output over the hidden quantity (dense, sparse, one-signed, null weights; either side given by its diagonal only), composed by the "
        "composition function, by its layer, by the layer that fuses the forward bounds of the input in each mode, or by chains of two to four compositions; compared with the float64 signed combination and, at sampled points, with values of "
        "hidden quantities and outputs between their bounds; diagonal and identity builders compared elementwise; distinct non-trivial = (backend, what, mode, diagonal forms, sizes)")
ASSUMPTIONS = ["the float64 signed combination is the oracle of the exact result; relative tolerance 1e-5 of the sum of magnitudes for float32 rounding"]

import numpy as np

from decomon.keras_utils import BatchedDiagLike, BatchedIdentityLike
from decomon.models.crown import Fuse, MergeWithPrevious, merge_with_previous
from vlib import dk, gen, lay

WHAT = ["merge", "merge", "layer", "fuse", "fuse", "chain", "diag"]


def gen_case(rng, tier, i, backend):
    return dict(what=WHAT[i % len(WHAT)], seed=int(rng.integers(1 << 30)), region=str(rng.choice(["box", "box", "ball1", "ball2", "ballinf"])))


def rand(rng, sh):
    w = rng.normal(0, 1, sh)
    z = rng.random()
    if z < 0.2:
        w = w * (rng.random(sh) < 0.4)
    elif z < 0.3:
        w = np.abs(w)
    elif z < 0.4:
        w = -np.abs(w)
    elif z < 0.45:
        w = 0 * w
    return w.astype("float32")


def full(w):
    return np.stack([np.diag(v) for v in w]) if w.ndim == 2 else w


def compose(a, b):
    """float64: bounds b over h, bounds a of h over x; and the sums of magnitudes"""
    wu, bu, wl, bl = [full(v).astype("float64") if k % 2 == 0 else v.astype("float64") for k, v in enumerate(a)]
    vu, cu, vl, cl = [full(v).astype("float64") if k % 2 == 0 else v.astype("float64") for k, v in enumerate(b)]
    P, N = (lambda v: np.maximum(v, 0)), (lambda v: np.minimum(v, 0))
    mm = lambda w, v: np.einsum("bij,bjk->bik", w, v)
    mv = lambda w, v: np.einsum("bj,bjk->bk", w, v)
    r = [mm(wu, P(vu)) + mm(wl, N(vu)), mv(bu, P(vu)) + mv(bl, N(vu)) + cu, mm(wl, P(vl)) + mm(wu, N(vl)), mv(bl, P(vl)) + mv(bu, N(vl)) + cl]
    m = lambda w1, w2, v: mm(np.abs(w1) + np.abs(w2), np.abs(v))
    s = [m(wu, wl, vu), mv(np.abs(bu) + np.abs(bl), np.abs(vu)) + np.abs(cu), m(wu, wl, vl), mv(np.abs(bu) + np.abs(bl), np.abs(vl)) + np.abs(cl)]
    return r, [v + 1e-6 for v in s]


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    what = case["what"]
    T, np_ = dk.T, dk.np_
    nb = int(rng.integers(1, 5))
    n, h, o = (gen.dim(rng, 1, 7) for _ in range(3))
    det = dict(case_kind=what)
    names = ["w_u", "b_u", "w_l", "b_l"]

    if what == "diag":
        d = rand(rng, (nb, h))
        mon.eq(np_(BatchedDiagLike()(T(d))), full(d), "diagonal", 1.0, 0, **det)
        sh = tuple(int(rng.integers(1, 4)) for _ in range(int(rng.integers(1, 4))))
        e = np.broadcast_to(np.eye(sh[-1]), sh + (sh[-1],))
        mon.eq(np_(BatchedIdentityLike()(T(rand(rng, sh)))), e, "identity", 1.0, 0, **det)
        mon.tag(case.get("backend"), what, nb, h, len(sh))
        return

    def check(out, a, b, nm, **k):
        r, s = compose(a, b)
        for name, g, e, m in zip(names, out, r, s):
            mon.eq(np_(g), e, f"{nm}:{name}", m, 1e-5, **det, **k)
        mon.events["compositions_observed"] += 1
        return [np_(g) for g in out]

    if what == "chain":
        k = int(rng.integers(2, 5))
        dims = [int(rng.integers(1, 6)) for _ in range(k + 1)]
        links = [[rand(rng, (nb, p, q)), rand(rng, (nb, q)), rand(rng, (nb, p, q)), rand(rng, (nb, q))] for p, q in zip(dims, dims[1:])]
        acc = links[-1]
        for a in links[-2::-1]:
            acc = check(merge_with_previous([T(v) for v in a] + [T(v) for v in acc]), a, acc, "chain")
        mon.tag(case.get("backend"), what, k)
        return

    # bounds of h over x: sound ones, from a bundle over a region
    reg = dk.Region.make(rng, n, nb, case["region"])
    A = lay.make(rng, reg, (h,))
    a = [A.Wu, A.bu, A.Wl, A.bl]
    da = db = False
    mode = None
    if what in ("merge", "layer"):
        if rng.random() < 0.25:  # diagonal only
            n, da = h, True
            a = [rand(rng, (nb, h)), rand(rng, (nb, h)), rand(rng, (nb, h)), rand(rng, (nb, h))]
            if rng.random() < 0.5:
                a[0] = full(a[0])
        if rng.random() < 0.25:
            o, db = h, True
    else:
        mode = str(rng.choice(lay.MODES))
    # bounds of y over h: fl <= fu on the known box of h
    c = rng.normal(0, 1, (nb, o)).astype("float32")
    V = rand(rng, (nb, h) if db else (nb, h, o))
    eu, el = reg.ext(A.Wu, A.bu, True), reg.ext(A.Wl, A.bl, False)
    G = rand(rng, V.shape) * (rng.random() < 0.6)
    Gf = full(G) if db else G
    gap = -(np.einsum("bh,bho->bo", el, np.maximum(Gf, 0)) + np.einsum("bh,bho->bo", eu, np.minimum(Gf, 0)))  # minus the least value of G.h
    b = [(V + G).astype("float32"), (c + gap + rng.uniform(0, 1, c.shape)).astype("float32"), V, c]
    det.update(diag=[da, db], mode=mode)
    ta, tb = [T(v) for v in a], [T(v) for v in b]
    if what == "merge":
        out = merge_with_previous(ta + tb)
    elif what == "layer":
        L = MergeWithPrevious(None if da else (None, n, h), None if da or db else (None, h, o))
        out = L(ta + tb)
        shp = L.compute_output_shape([(nb, n, h), (nb, h)] * 2 + [(nb, h, o), (nb, o)] * 2)
        mon.true([tuple(s) for s in shp] == [tuple(v.shape) for v in out], "declared-shape", **det)
    else:
        ins = A.tensors(mode)
        out = Fuse(mode)(ins + tb)
        if mode == "ibp":
            for name, g, e in zip(names, out, b):
                mon.eq(np_(g), e, "fuse:" + name, 1.0, 0, **det)
            mon.tag(case.get("backend"), what, mode)
            return
    mon.true(all(np.array_equal(np_(t), v) for t, v in zip(ta + tb, a + b)), "arguments-changed", **det)
    g = check(out, a, b, what)
    if not da:
        # at points of the region, hidden values between their bounds, outputs between theirs
        X = reg.samples(rng, 12)
        H = A.values(rng, X, "affine")
        bf = [full(v).astype("float64") if k % 2 == 0 else v for k, v in enumerate(b)]
        yu = np.einsum("bkh,bho->bko", H, bf[0]) + b[1][:, None]
        yl = np.einsum("bkh,bho->bko", H, bf[2]) + b[3][:, None]
        r, s = compose(a, b)
        ax = np.abs(X).astype("float64")
        for y, w, bb, up in ((yu, g[0], g[1], True), (yl, g[2], g[3], False)):
            f = np.einsum("bkn,bno->bko", X.astype("float64"), w) + bb[:, None]
            sc = np.einsum("bkn,bno->bko", ax, s[0] if up else s[2]) + (s[1] if up else s[3])[:, None]
            mon.le(*((y, f) if up else (f, y)), "encloses:" + ("upper" if up else "lower"), sc, 1e-5, **det)
    mon.tag(case.get("backend"), what, mode, da, db, n, h, o)
