"""C05: adversarial certificates: a negative score never hides an adversarial example, a positive lower score always has one"""
CASES = {"quick": 200, "thorough": 5000}
SHARDS = {"torch": 6, "tensorflow": 2}
MIN_NONTRIVIAL = 20
RULE = ("case = one random classifier with 2-5 outputs, 6 boxes or balls, random source labels (integer, list, one-hot, several labels) and target labels "
        "(none, integer, list, masks), entry points: score on boxes (also with sub-boxes, mini-batches, refinement, plain network, linear specification given as "
        "back-propagated bounds), score on balls, and lower score on boxes; the score must dominate target-source differences at all sampled and attacked points, "
        "the lower score must be reached at a corner of the box (all corners enumerated), scores on points must be exact; "
        "distinct non-trivial = (backend, entry, method, slope, label encodings, family)")
ASSUMPTIONS = ["the network's own forward pass in the same backend is the specification of its values",
               "lower scores are judged on boxes of dimension at most 8, whose corners are enumerated",
               "relative tolerance 1e-4 for float32 rounding"]

import itertools

import numpy as np

from vlib import dk, gen
from vlib.nets import special

ENTRIES = ["adv_box", "adv_box", "adv_sub", "adv_refine", "keras", "spec", "adv_noise", "adv_noise", "check_box", "check_box", "keras_noise"]


def gen_case(rng, tier, i, backend):
    no = int(rng.integers(2, 6))
    entry = str(rng.choice(ENTRIES))
    fam = str(rng.choice(["mlp", "mlp", "cnn", "dag", "cnnpool", "mlp_softmax"]))
    if entry in ("keras", "spec", "keras_noise") and fam in ("dag", "cnnpool"):
        fam = "mlp"
    if entry == "check_box" and fam in ("cnn", "cnnpool"):
        fam = "mlp"
    if fam == "mlp":
        spec = gen.mlp(rng, dk.ACT_CROWN, n_out=no)
        which = "all"
    elif fam == "mlp_softmax":
        spec = gen.mlp(rng, ["relu", "tanh"], n_out=no)
        spec["nodes"][-1].pop("act", None)
        spec["nodes"][-1]["act"] = "softmax"
        which = "all"
    else:
        spec = dk.spec_gen(rng, fam, ["relu", "tanh", "sigmoid"], backend)
        spec["nodes"][-1]["units"] = no
        spec["nodes"][-1].pop("act", None)
        which = "all" if fam == "cnn" else "fwd"
    ms = dk.METHODS if which == "all" else dk.FORWARD
    if entry == "spec":
        ms = ["crown"]
    ms = [str(m) for m in rng.choice(ms, min(len(ms), 2 if backend == "tensorflow" else 3), replace=False)]
    return dict(fam=fam, spec=spec, no=no, entry=entry, methods=ms, slopes=[str(rng.choice(dk.SLOPES)) for _ in ms], xseed=int(rng.integers(1 << 30)),
                src=str(rng.choice(["int", "list", "array", "onehot", "multi"])), tgt=str(rng.choice(["none", "none", "int", "list", "mask"])),
                batch=int(rng.choice([-1, -1, 1, 4])), region=str(rng.choice(["ball1", "ball2", "ballinf"])), point=bool(rng.random() < 0.15))


def labels(rng, case, nb, no):
    """(argument for source, mask), (argument for target, mask or None), never both empty, disjoint"""
    def enc(kind):
        if kind == "int":
            k = int(rng.integers(no))
            return k, np.repeat(np.eye(no, dtype=int)[[k]], nb, 0)
        ks = rng.integers(0, no, nb)
        mask = np.eye(no, dtype=int)[ks]
        if kind == "list":
            return [int(k) for k in ks], mask
        if kind == "array":
            return ks, mask
        return mask, mask
    s, S = enc(case["src"])
    if case["src"] == "multi" and no > 2:
        S = S.copy()
        S[np.arange(nb), (S.argmax(1) + 1) % no] = 1
        s = S
    if case["tgt"] == "none":
        return (s, S), (None, 1 - S)
    # a target different from the sources
    free = [[j for j in range(no) if not S[b, j]] for b in range(nb)]
    if case["tgt"] == "int":
        ok = [j for j in range(no) if not S[:, j].any()]
        if not ok:
            return (s, S), (None, 1 - S)
        k = int(rng.choice(ok))
        return (s, S), (k, np.repeat(np.eye(no, dtype=int)[[k]], nb, 0))
    ks = np.array([int(rng.choice(f)) for f in free])
    Tm = np.eye(no, dtype=int)[ks]
    if case["tgt"] == "list":
        return (s, S), ([int(k) for k in ks], Tm)
    for b in range(nb):
        if len(free[b]) > 1 and rng.random() < 0.5:
            Tm[b, int(rng.choice(free[b]))] = 1
    return (s, S), (Tm, Tm)


def gap(Y, S, Tm):
    """max over target t and source s of y_t - y_s: (nb, k)"""
    D = Y[..., :, None] - Y[..., None, :]  # t, s
    M = Tm[:, None, :, None] * S[:, None, None, :]
    return np.where(M > 0, D, -np.inf).max((-1, -2))


def run(case, mon):
    rng = np.random.default_rng(case["xseed"])
    spec, no, entry, nb = case["spec"], case["no"], case["entry"], 6
    full = dk.build(spec)
    m = full
    if case["fam"] == "mlp_softmax":  # the certificate is on the scores before the last softmax
        spec2 = dict(spec, nodes=[dict(nd) for nd in spec["nodes"]])
        spec2["nodes"][-1].pop("act")
        m = dk.build(spec2)
    n = spec["n_in"]
    noise = entry in ("adv_noise", "keras_noise")
    reg = dk.Region.make(rng, n, nb, case["region"] if noise else "box", r_max=0.0 if case["point"] else 0.6)
    (s, S), (t, Tm) = labels(rng, case, nb, no)
    X, Y = dk.points(m, reg, rng)
    G = gap(Y, S, Tm)  # nb, k
    # a sharper attack: ascend the gap itself from the best point
    if n <= 40:
        g0 = X[np.arange(nb), G.argmax(1)][:, None]
        for _ in range(2):
            pts = g0 + 1e-2 * np.concatenate([np.eye(n), -np.eye(n)])[None]
            v = gap(dk.fw(m, pts.astype("float32")), S, Tm)
            g0 = reg.directional((v[:, :n] - v[:, n:])[:, None])
            G = np.concatenate([G, gap(dk.fw(m, g0), S, Tm)], 1)
    scale = 1 + np.abs(Y).max((1, 2))
    point = reg.kind == "box" and np.array_equal(reg.lo, reg.hi) or reg.kind != "box" and reg.eps == 0
    kw = dict(source_labels=s, batch_size=case["batch"])
    if t is not None:
        kw["target_labels"] = t
    for me, sl in zip(case["methods"], case["slopes"]):
        dec = dk.decomon
        ckw = dict(slope=sl, method=me, perturbation_domain=reg.domain())
        if entry == "check_box":
            if n > 8:
                raise dk.Skip("too many corners")
            d = dk.clone(full, **ckw)
            sc = np.asarray(dec.check_adv_box(d, reg.lo, reg.hi, **kw), "float64")
            c = np.array(list(itertools.product([0, 1], repeat=n)), bool)
            Xc = np.where(c[None], reg.hi[:, None], reg.lo[:, None])
            mon.le(sc, gap(dk.fw(m, Xc), S, Tm).max(1), "lower-score-unreached", scale, method=me, slope=sl, tgt=case["tgt"], src=case["src"], net=dk.desc(spec))
        else:
            if entry == "adv_box":
                sc = dec.get_adv_box(dk.clone(full, **ckw), reg.lo, reg.hi, **kw)
            elif entry == "adv_sub":
                sc = dec.get_adv_box(dk.clone(full, **ckw), reg.lo, reg.hi, n_sub_boxes=int(rng.integers(2, 9)), **kw)
            elif entry == "adv_refine":
                sc = dec.refine_box(dec.get_adv_box, dk.clone(full, **ckw), reg.lo, reg.hi, n_split=int(rng.integers(1, 6)), random=bool(rng.random() < 0.5), **kw)
            elif entry == "keras":
                sc = dec.get_adv_box(full, reg.lo, reg.hi, **kw)
            elif entry == "keras_noise":
                sc = dec.get_adv_noise(full, reg.x0, eps=reg.eps, p=reg.p, **kw)
            elif entry == "adv_noise":
                sc = dec.get_adv_noise(dk.clone(full, **ckw), reg.x0, eps=reg.eps, p=reg.p, **kw)
            elif entry == "spec":
                C = dk.keras.Input((no, no))
                d = dk.clone(full, method="crown", slope=sl, back_bounds=[C], perturbation_domain=reg.domain())
                sc = dec.get_adv_box(d, reg.lo, reg.hi, **kw)
            sc = np.asarray(sc, "float64").reshape(-1)
            mon.events["scores_observed"] += sc.size
            mon.events["certified_robust"] += int((sc < 0).sum())
            mon.le(G.max(1), sc, "score-too-low", scale, entry=entry, method=me, slope=sl, tgt=case["tgt"], src=case["src"], net=dk.desc(spec), region=reg.kind)
            if point and not any("softplus" in str(nd) for nd in spec["nodes"]):
                mon.le(sc, G.max(1), "score-not-exact-on-points", scale, entry=entry, method=me, slope=sl, tgt=case["tgt"], src=case["src"])
        mon.tag(case.get("backend"), entry, me, sl, case["src"], case["tgt"], case["fam"])
