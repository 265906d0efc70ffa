"""C10: conversion and queries leave the network untouched; a converted model follows later changes of its weights"""
CASES = {"quick": 180, "thorough": 5000}
SHARDS = {"torch": 6, "tensorflow": 2}
MIN_NONTRIVIAL = 20
RULE = ("case = one random network and a random history of steps: conversions (each method, slope, boxes or balls, final softmax or not), queries on the converted models, refinements and scores, changes of the weights of some layers (Dense, Conv2D, "
        "BatchNormalization, shared and nested layers). After each step the monitor compares the network with its snapshot: weights bitwise, configuration, layer names, trainable weights, outputs on points. After each change of the weights, the "
        "bounds of every model converted before the change are compared with those of a fresh conversion; distinct non-trivial = (backend, family, method, kinds of steps)")
ASSUMPTIONS = ["conversions share the weights of the network by default (shared=True): other conversions are not expected to follow", "relative tolerance 1e-4 for float32 rounding"]

import numpy as np

import decomon.wrapper as W
from vlib import dk, gen
from vlib.nets import gen_family, make_spec


def gen_case(rng, tier, i, backend):
    fam = gen_family(rng, backend)
    spec, which = make_spec(rng, backend, fam)
    last = spec["nodes"][-1]
    if last["op"] == "dense" and rng.random() < 0.3:
        last["units"] = int(rng.integers(2, 4))
        last["act"] = "softmax"
    return dict(fam=fam, spec=spec, which=which, xseed=int(rng.integers(1 << 30)), steps=int(rng.integers(4, 8)))


class Snap:
    def __init__(self, m, X):
        self.y = dk.fw(m, X)  # first: the first call builds the activation layers embedded in other layers
        self.names = [lay.name for lay in m._flatten_layers()]
        self.layers = [id(lay) for lay in m._flatten_layers()]
        self.conf = str(m.get_config())
        self.vars = [id(w) for w in m.weights]
        self.train = [id(w) for w in m.trainable_weights]
        self.w = [np.array(dk.np_(w)) for w in m.weights]
        self.emb = [(id(lay.activation), lay.activation.name) for lay in m._flatten_layers() if isinstance(getattr(lay, "activation", None), dk.keras.layers.Layer)]


def same(mon, s, t, step, **det):
    mon.true(s.names == t.names, "layers-renamed", step=step, before=s.names[:8], after=t.names[:8], **det)
    mon.true(s.emb == t.emb, "embedded-activation-renamed", step=step, before=s.emb[:3], after=t.emb[:3], **det)
    mon.true(s.layers == t.layers, "layers-replaced", step=step, **det)
    if s.names == t.names:
        mon.true(s.conf == t.conf, "config-changed", step=step, **det)
    mon.true(s.vars == t.vars and s.train == t.train, "variables-changed", step=step, **det)
    mon.true(len(s.w) == len(t.w) and all(np.array_equal(a, b) for a, b in zip(s.w, t.w)), "weights-changed", step=step, **det)
    mon.true(np.array_equal(s.y, t.y), "outputs-changed", step=step, **det)
    mon.events["snapshots_compared"] += 1


def bounds(d, reg):
    u, l = W.get_range_box(d, reg.lo, reg.hi) if reg.kind == "box" else W.get_range_noise(d, reg.x0, eps=reg.eps, p=reg.p)
    return [np.asarray(v, "float64").reshape(reg.nb, -1) for v in (u, l)]


def perturb(rng, m):
    ls = list(dict.fromkeys(lay for lay in gen.all_layers(m) if lay.weights))
    k = int(rng.integers(1, len(ls) + 1))
    for j in rng.permutation(len(ls))[:k]:
        lay = ls[j]
        for w in lay.weights:
            a = dk.np_(w)
            r = rng.normal(0, 0.4, a.shape) * (rng.random() < 0.8)
            a = a * np.exp(np.abs(r)) if "variance" in w.name else a + r
            w.assign(a.astype("float32"))
    return sorted({type(ls[j]).__name__ for j in range(len(ls))})


def run(case, mon):
    rng = np.random.default_rng(case["xseed"])
    spec = case["spec"]
    m = dk.build(spec)
    if rng.random() < 0.25:  # frozen layers: their weights can be changed too
        for lay in gen.all_layers(m):
            if rng.random() < 0.5:
                lay.trainable = False
    n = spec["n_in"]
    expo = any(nd.get("act") in ("softmax", "exponential") for nd in spec["nodes"][:-1])
    X = rng.normal(0, 1, (6, n)).astype("float32")
    cur = Snap(m, X)
    ms = dk.FORWARD if case["which"] == "fwd" else dk.METHODS
    clones, kinds = [], []
    regs = {k: dk.Region.make(rng, n, 4, k, r_max=0.5) for k in ("box", "ball1", "ball2", "ballinf")}
    no = int(np.prod(m.output_shape[1:]))
    has_w = any(lay.weights for lay in gen.all_layers(m))
    for s in range(case["steps"]):
        step = "clone" if not clones else str(rng.choice(["clone", "query", "query", "weights"] if has_w else ["clone", "query"]))
        if s == case["steps"] - 1 and has_w and "weights" not in kinds:
            step = "weights"
        det = dict(net=dk.desc(spec))
        if step == "clone":
            kw = dict(method=str(rng.choice(ms)), slope=str(rng.choice(dk.SLOPES)))
            kind = str(rng.choice(["box", "box", "ball1", "ball2", "ballinf"]))
            ft = bool(rng.random() < 0.15)
            kw["perturbation_domain"] = regs[kind].domain()
            if ft and dk.BACKEND == "torch":
                kw["finetune"] = True
            clones.append((dk.clone(m, **kw), kw, kind))
            det.update(method=kw["method"])
        elif step == "query":
            d, kw, kind = clones[int(rng.integers(len(clones)))]
            q = str(rng.choice(["range", "adv", "refine", "noise"]))
            reg = regs[kind]
            if q == "adv" and no > 1:
                S = rng.integers(0, no, reg.nb)
                W.get_adv_box(d, reg.lo, reg.hi, S) if kind == "box" else W.get_adv_noise(d, reg.x0, S, eps=reg.eps, p=reg.p)
            elif q == "refine" and kind == "box":
                W.refine_box(W.get_lower_box, d, reg.lo, reg.hi, n_split=3)
            else:
                bounds(d, reg)
            det.update(method=kw["method"], query=q)
        else:
            types = perturb(rng, m)
            cur = Snap(m, X)
            det.update(types=types)
            for d, kw, kind in clones:
                reg = regs[kind]
                A = bounds(d, reg)
                fresh = dk.clone(m, **kw)
                B = bounds(fresh, reg)
                if expo and not all(np.isfinite(v).all() for v in B) or max(np.abs(v).max() for v in B) > 1e6:
                    mon.skip("huge bounds")
                    continue

                def f(xs, d=fresh, reg=reg):
                    r = dk.Region(reg.kind, lo=xs[0], hi=xs[-1]) if reg.kind == "box" else dk.Region(reg.kind, x0=xs[0], eps=reg.eps, p=reg.p)
                    return bounds(d, r)

                xs = [reg.lo, reg.hi] if reg.kind == "box" else [reg.x0]
                for j in range(2):
                    sc = 1 + np.abs(B[j]).max(1, keepdims=True)
                    dk.eq_stable(mon, A[j], B[j], "stale-weights", sc, lambda j=j: dk.wobble(f, xs, np.random.default_rng(0))[j], method=kw["method"], finetune=bool(kw.get("finetune")), region=kind, **det)
                mon.events["clones_after_weight_change"] += 1
        kinds.append(step)
        t = Snap(m, X)
        same(mon, cur, t, step, **det)
        if step == "clone":
            mon.tag(case.get("backend"), case["fam"], det["method"])
    mon.tag(case.get("backend"), case["fam"], sorted(set(kinds)), len(clones))
