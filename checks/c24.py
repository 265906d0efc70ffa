"""C24: a final softmax is replaced by the identity: the bounds are those of the scores before it; the network keeps its softmax"""
CASES = {"quick": 150, "thorough": 4000}
SHARDS = {"torch": 6, "tensorflow": 2}
MIN_NONTRIVIAL = 20
RULE = ("case = one random classifier written three ways (softmax as the activation of the last Dense, as an Activation layer, as a Softmax layer) and without softmax, same weights; all bounds, adversarial and optimistic scores must equal those of the "
        "network without softmax, in any conversion method, output form, with or without tunable relaxations; afterwards each classifier must still return probabilities equal to its recorded outputs; distinct non-trivial = (backend, family, form, method, region kind)")
ASSUMPTIONS = ["relative tolerance 1e-4 for float32 rounding"]

import keras
import numpy as np
from keras import layers as L

import decomon.wrapper as W
from vlib import dk, gen
from vlib.nets import gen_family, make_spec


def gen_case(rng, tier, i, backend):
    fam = str(rng.choice(["mlp", "mlp", "cnn", "dag", "nested", "bn", "sequential"]))
    spec, which = make_spec(rng, backend, fam)
    last = spec["nodes"][-1]
    last["units"] = int(rng.integers(2, 5)) if "units" in last else 2
    last.pop("act", None)
    return dict(fam=fam, spec=spec, which=which, xseed=int(rng.integers(1 << 30)), slope=str(rng.choice(dk.SLOPES)), kind=str(rng.choice(["box", "box", "ball1", "ball2", "ballinf"])),
                finetune=bool(rng.random() < 0.2), out=str(rng.choice(["default", "default", "ibp", "affine", "hybrid"])))


def forms(spec):
    """three ways of ending with a softmax; same layers otherwise"""
    nodes = spec["nodes"]
    out = {}
    if nodes[-1]["op"] == "dense":
        out["fused"] = dict(spec, nodes=nodes[:-1] + [dict(nodes[-1], act="softmax")])
    out["activation"] = dict(spec, nodes=nodes + [dict(op="act", act="softmax", **{"in": [len(nodes)]})])
    return out


def ask(d, reg, S):
    if reg.kind == "box":
        u, l = W.get_range_box(d, reg.lo, reg.hi)
        a = W.get_adv_box(d, reg.lo, reg.hi, S)
    else:
        u, l = W.get_range_noise(d, reg.x0, eps=reg.eps, p=reg.p)
        a = W.get_adv_noise(d, reg.x0, S, eps=reg.eps, p=reg.p)
    return [np.asarray(v, "float64").reshape(reg.nb, -1) for v in (u, l, a)]


def run(case, mon):
    rng = np.random.default_rng(case["xseed"])
    spec = case["spec"]
    m0 = dk.build(spec)
    no = int(np.prod(m0.output_shape[1:]))
    if no < 2:
        raise dk.Skip("one output")
    ws = m0.get_weights()
    reg = dk.Region.make(rng, spec["n_in"], 5, case["kind"])
    X = reg.samples(rng, 6)
    S = rng.integers(0, no, reg.nb)
    dk.fw(m0, X)
    variants = {}
    for nm, sp in forms(spec).items():
        mm = dk.build({k: v for k, v in sp.items() if k != "wseed"})
        mm.set_weights(ws)
        variants[nm] = mm
    base = dk.build(dict(spec, tag="b"))
    base.set_weights(ws)
    try:
        variants["layer"] = keras.Model(base.inputs, L.Softmax()(base.outputs[0]))
    except Exception:  # plain keras
        mon.skip("keras: Softmax layer")
    ms = dk.FORWARD if case["which"] == "fwd" else dk.METHODS
    for nm, mm in variants.items():
        P = dk.fw(mm, X)
        conf = mm.get_config()
        w_b = [np.array(w) for w in mm.get_weights()]
        for me in dict.fromkeys([str(v) for v in rng.choice(ms, 2)]):
            out = dict(default={}, ibp=dict(final_ibp=True, final_affine=False), affine=dict(final_ibp=False, final_affine=True), hybrid=dict(final_ibp=True, final_affine=True))[case["out"]]
            kw = dict(out, method=me, slope=case["slope"], perturbation_domain=reg.domain(), finetune=case["finetune"])
            d0, d1 = dk.clone(m0, **kw), dk.clone(mm, **kw)
            A, B = ask(d0, reg, S), ask(d1, reg, S)
            if max(np.abs(v).max() for v in A) > 1e6:
                mon.skip("huge bounds")
                continue
            for j, (u, v) in enumerate(zip(A, B)):
                sc = 1 + np.abs(A[0]).max(1, keepdims=True) + np.abs(A[1]).max(1, keepdims=True)

                def f(xs, d=d0):
                    r = dk.Region(reg.kind, lo=xs[0], hi=xs[-1]) if reg.kind == "box" else dk.Region(reg.kind, x0=xs[0], eps=reg.eps, p=reg.p)
                    return ask(d, r, S)

                xs = [reg.lo, reg.hi] if reg.kind == "box" else [reg.x0]
                dk.eq_stable(mon, v, u, "bounds-with-softmax", sc, lambda j=j: dk.wobble(f, xs, np.random.default_rng(0))[j], form=nm, method=me, out=["upper", "lower", "adv"][j], net=dk.desc(spec))
            mon.tag(case.get("backend"), case["fam"], nm, me, reg.kind, case["finetune"], case["out"])
        mon.true(np.array_equal(P, dk.fw(mm, X)), "network-lost-its-softmax", form=nm)
        mon.true(str(conf) == str(mm.get_config()), "network-config-changed", form=nm)
        mon.true(all(np.array_equal(a, b) for a, b in zip(w_b, mm.get_weights())), "network-weights-changed", form=nm)
