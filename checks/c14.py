"""C14: tuning the relaxations keeps the bounds sound, never loosens the answer, and leaves the network alone"""
CASES = {"quick": 1000, "thorough": 12000}
SHARDS = {"torch": 8}
MIN_NONTRIVIAL = 20
RULE = ("case = one random network converted with tunable relaxations (method, slope, requested outputs) and 4-5 boxes or balls, then one of: random tuning variables in [0, 1] (incl. all 0, all 1, 0/1 vectors), the tuning wrappers on upper or lower bounds "
        "with random epochs, learning rate and batch size, or a direct training of the tuning variables with a robust loss and frozen weights; after each step the bounds are compared with the values of the network at attacked points, with the "
        "bounds before tuning and with those of an untuned conversion; weights, trainable flags and ranges of the tuning variables are read from the objects; distinct non-trivial = (way, method, mode, slope, region, family)")
ASSUMPTIONS = ["torch backend only: decomon models cannot be trained in graph mode with tensorflow", "relative tolerance 1e-4 for float32 rounding",
               "bounds equal to an untuned conversion up to the conditioning of its relaxation choices"]

import contextlib

import numpy as np

from decomon.metrics import loss as DL
from decomon.wrapper_with_tuning import get_lower_box_tuning, get_upper_box_tuning
from vlib import dk
from vlib.nets import make_spec

WAYS = ["random", "random", "fit", "wrapper_up", "wrapper_low", "fit"]


def gen_case(rng, tier, i, backend):
    way = WAYS[i % len(WAYS)]
    fam = str(rng.choice(["mlp", "mlp", "cnn", "dag", "cnnpool"]))
    spec, which = make_spec(rng, backend, fam)
    if way not in ("random",):  # batch normalisation and dropout layers do not train
        while any(nd["op"] in ("bn", "dropout") for nd in spec["nodes"]):
            spec, which = make_spec(rng, backend, fam)
    spec["nodes"][-1]["units"] = int(rng.integers(1, 4))
    if way != "random":
        for nd in spec["nodes"]:  # mostly relu, whose relaxation is tunable everywhere
            if nd.get("act") and rng.random() < 0.7:
                nd["act"] = "relu"
    ms = dk.FORWARD if which == "fwd" else dk.METHODS
    if way != "random":  # constant-bound propagation has nothing to tune
        ms = [m for m in ms if m != "forward-ibp"]
    method = str(rng.choice(ms))
    mode = "ibp" if method == "forward-ibp" else str(rng.choice(["ibp", "affine", "hybrid"]))
    return dict(way=way, fam=fam, spec=spec, method=method, mode=mode, slope=str(rng.choice(dk.SLOPES)), xseed=int(rng.integers(1 << 30)),
                region="box" if way.startswith("wrapper") else str(rng.choice(["box", "box", "ball1", "ball2", "ballinf"])),
                draw=str(rng.choice(["uniform", "uniform", "binary", "zeros", "ones", "mixed"])), batch=int(rng.choice([-1, 1, 2, 3, 4, 7])), epochs=int(rng.integers(1, 8)),
                lr=float(rng.choice([0.01, 0.1, 0.5, 1.0])), loss=str(rng.choice(["upper", "lower", "adv"])), part=str(rng.choice(["both", "both", "forward", "backward"])))


def tuning_vars(d):
    return [(lay, v) for lay in d._flatten_layers() if hasattr(lay, "get_finetuning_variables") for v in lay.get_finetuning_variables()]


@contextlib.contextmanager
def tunable():
    """torch refuses to differentiate a loss on which no variable acts (sigmoid-like activations are not tuned in forward propagation)"""
    try:
        yield
    except RuntimeError as e:
        if "does not require grad" in str(e):
            raise dk.Skip("no tuning variable acts on this loss")
        raise


def run(case, mon):
    rng = np.random.default_rng(case["xseed"])
    spec, way, mode = case["spec"], case["way"], case["mode"]
    net = dk.build(spec)
    reg = dk.Region.make(rng, spec["n_in"], 5, case["region"], r_max=float(rng.choice([0.1, 0.5, 1.0])))
    X, Y = dk.points(net, reg, rng)
    sc = dk.yscale(Y)[:, 0]
    kw = dict(method=case["method"], slope=case["slope"], final_ibp=mode != "affine", final_affine=mode != "ibp", perturbation_domain=reg.domain())
    tun = {"both": dict(finetune=True), "forward": dict(finetune_forward=True), "backward": dict(finetune_backward=True)}[case["part"] if way == "random" else "both"]
    d0 = dk.clone(net, **kw)
    d = dk.clone(net, **kw, **tun)
    det = dict(way=way, method=case["method"], mode=mode, slope=case["slope"], region=reg.kind, net=dk.desc(spec))
    z = reg.z()
    w0 = [np.array(w) for w in net.get_weights()]
    tv = tuning_vars(d)
    mon.events["tuning_variables"] += len(tv)
    for _, v in tv:
        mon.true((dk.np_(v) == 1).all(), "initial-value-of-tuning-variables", **det)

    def rows(dd, z=z):
        return dk.parts(mode, dk.outputs(dd, z))

    def same(a, b, what, dd):
        for k in a:
            s = 1 + np.abs(np.asarray(b[k], "float64")).max()
            f = lambda xs: [rows(dd, np.stack(xs, 1) if reg.kind == "box" else xs[0])[k]]
            xs = [reg.lo, reg.hi] if reg.kind == "box" else [reg.x0]
            dk.eq_stable(mon, a[k], b[k], what, s, lambda: dk.wobble(f, xs, np.random.default_rng(0))[0], part=k, **det)

    base = rows(d0)
    if max(float(np.abs(v).max()) for v in base.values()) > 1e5:
        raise dk.Skip("magnitudes")
    same(rows(d), base, "untuned-bounds-differ", d0)
    trainable0 = [(v.path, v.trainable) for v in d.variables]
    net_trainable0 = [v.trainable for v in net.variables]
    if way == "random":
        for _ in range(2):
            for _, v in tv:
                dr = str(rng.choice(["uniform", "binary", "zeros", "ones"])) if case["draw"] == "mixed" else case["draw"]
                a = rng.random(v.shape)
                a = {"uniform": a, "binary": np.round(a), "zeros": 0 * a, "ones": 0 * a + 1}[dr]
                v.assign(a)
            o = rows(d)
            mon.finite(list(o.values()), "not-finite", **det)
            dk.check_enclosure(mon, o, X, Y, sc[:, None], "tuned", draw=case["draw"], **det)
        d.reset_finetuning()
    elif way.startswith("wrapper"):
        up = way == "wrapper_up"
        lo, hi = reg.lo, reg.hi
        q = dk.decomon.get_upper_box if up else dk.decomon.get_lower_box
        ref = np.asarray(q(d, lo, hi)).reshape(5, -1)
        packed = DL.get_model(d)
        fn = get_upper_box_tuning if up else get_lower_box_tuning
        import warnings
        warnings.simplefilter("ignore")
        with tunable():
            got = np.asarray(fn(d, packed, lo, hi, batch_size=case["batch"], epochs=case["epochs"], lr=case["lr"]), "float64").reshape(5, -1)
        mon.events["tunings_observed"] += 1
        s2 = sc + np.abs(ref)
        if up:
            mon.le(got, ref, "tuned-looser", s2, batch=case["batch"], **det)
            mon.le(Y, got[:, None], "tuned:upper", sc[:, None], batch=case["batch"], **det)
            mon.events["improved"] += int((got < ref - 1e-4 * s2).sum())
        else:
            mon.le(ref, got, "tuned-looser", s2, batch=case["batch"], **det)
            mon.le(got[:, None], Y, "tuned:lower", sc[:, None], batch=case["batch"], **det)
            mon.events["improved"] += int((got > ref + 1e-4 * s2).sum())
        for _, v in tv:
            mon.true((dk.np_(v) == 1).all(), "not-reset", **det)
    else:
        packed = DL.get_model(d)
        no = Y.shape[-1]
        loss = case["loss"] if no > 1 else "upper"
        fn = dict(upper=DL.get_upper_loss, lower=DL.get_lower_loss, adv=DL.get_adv_loss)[loss](d)
        y = np.eye(no)[rng.integers(0, no, 5)] if loss == "adv" else Y[:, 0]
        if rng.random() < 0.6:  # anywhere in [0, 1]
            for _, v in tv:
                v.assign(rng.random(v.shape))
        start = [dk.np_(v).copy() for _, v in tv]
        d.freeze_weights()
        mon.true(all(not v.trainable for v in d.variables if not any(v is t for _, t in tv)), "weights-not-frozen", **det)
        mon.true(all(t.trainable for _, t in tv), "tuning-variables-frozen", **det)
        packed.compile(dk.keras.optimizers.Adam(learning_rate=case["lr"]), fn)
        import warnings
        with warnings.catch_warnings(), tunable():
            warnings.simplefilter("ignore")
            packed.fit(z, y.astype("float32"), epochs=case["epochs"], batch_size=max(1, case["batch"]), verbose=0)
        mon.events["trainings_observed"] += 1
        for _, v in tv:
            a = dk.np_(v)
            mon.true(np.isfinite(a).all(), "tuning-variables-not-finite", **det)
            mon.true((a >= 0).all() and (a <= 1).all(), "tuning-variables-out-of-range", lo=float(a.min()), hi=float(a.max()), **det)
        mon.events["moved_variables"] += sum(bool((dk.np_(v) != a).any()) for a, (_, v) in zip(start, tv))
        o = rows(d)
        mon.finite(list(o.values()), "not-finite", **det)
        dk.check_enclosure(mon, o, X, Y, sc[:, None], "trained", loss=loss, **det)
        # the other way round: frozen tuning variables do not move
        d.unfreeze_weights()
        d.freeze_alpha()
        mon.true(all(not t.trainable for _, t in tv), "tuning-variables-not-frozen", **det)
        d.unfreeze_alpha()
        d.reset_finetuning()
    w1 = [np.array(w) for w in net.get_weights()]
    mon.true(all(np.array_equal(a, b) for a, b in zip(w0, w1)), "weights-changed", **det)
    mon.true([(v.path, v.trainable) for v in d.variables] == trainable0, "trainable-flags-changed", **det)
    mon.true([v.trainable for v in net.variables] == net_trainable0, "network-trainable-flags-changed", **det)
    same(rows(d), base, "reset-bounds-differ", d0)
    mon.tag(way, case["method"], mode, case["slope"], reg.kind, case["fam"], case["part"] if way == "random" else "", len(tv) > 0)
