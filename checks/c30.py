"""C30: networks with several outputs: the bounds of each output, in order, are those of the network with this output alone"""
CASES = {"quick": 150, "thorough": 5000}
SHARDS = {"torch": 6, "tensorflow": 2}
MIN_NONTRIVIAL = 20
RULE = ("case = one random network of which 2-3 tensors are returned (hidden layers, the last one, the same one twice, layers at different depths, an output of a shared layer), optionally embedded in another model that returns its outputs in another order or puts layers on them; "
        "converted by random methods and output forms over boxes and balls: as many bounds as outputs, the i-th group encloses the i-th output at sampled and attacked points and equals the bounds of the single-output network; distinct non-trivial = (backend, family, method, outputs asked, region kind, form)")
ASSUMPTIONS = ["networks with a softmax are not judged here: a final one is left out", "relative tolerance 1e-4 for float32 rounding; ill-conditioned choices of relaxation are not counted"]

import json

import keras
import numpy as np

from vlib import dk
from vlib.nets import gen_family, make_spec


def gen_case(rng, tier, i, backend):
    fam = gen_family(rng, backend)
    spec, which = make_spec(rng, backend, fam)
    ms = dk.FORWARD if which == "fwd" else dk.METHODS
    return dict(fam=fam, spec=spec, methods=[str(v) for v in rng.choice(ms, 2, replace=False)], form=str(rng.choice(["plain", "plain", "embedded", "headed"])), xseed=int(rng.integers(1 << 30)),
                slope=str(rng.choice(dk.SLOPES)), kind=str(rng.choice(["box", "box", "ball1", "ball2", "ballinf"])), modes=[str(rng.choice(["default", "ibp", "affine", "hybrid"])) for _ in range(2)])


def tensors_of(m):
    """distinct tensors computed by the layers of a model, in topological order"""
    seen, todo, out = set(), list(m.outputs), []
    while todo:
        t = todo.pop()
        if id(t) in seen:
            continue
        seen.add(id(t))
        op, ni, _ = t._keras_history
        node = op._inbound_nodes[ni]
        if node.input_tensors:
            out.append(t)
        todo += node.input_tensors
    return out


def run(case, mon):
    rng = np.random.default_rng(case["xseed"])
    spec = case["spec"]
    if "softmax" in json.dumps(spec):
        raise dk.Skip("softmax")
    m = dk.build(spec)
    if isinstance(m, keras.Sequential):
        m = keras.Model(m.inputs, m.outputs)
    ts = tensors_of(m)
    k = int(rng.choice([2, 2, 3]))
    picks = [m.outputs[0]] + [ts[int(j)] for j in rng.integers(0, len(ts), k - 1)]
    picks = [picks[int(j)] for j in rng.permutation(k)]
    x = m.inputs[0]
    singles = [keras.Model(x, t) for t in picks]
    form = case["form"]
    try:
        if form == "plain":
            net = keras.Model(x, picks)
        else:
            sub = keras.Model(x, picks, name="emb")
            x2 = keras.Input(x.shape[1:])
            o = sub(x2)
            perm = [int(j) for j in rng.permutation(k)]
            if form == "embedded":
                net = keras.Model(x2, [o[j] for j in perm])
                singles = [singles[j] for j in perm]
            else:
                heads = [(keras.layers.Dense(2, name=f"hd_{i}", bias_initializer="normal"), keras.layers.Flatten(name=f"fl_{i}")) for i in range(k)]
                net = keras.Model(x2, [heads[i][0](heads[i][1](o[j])) for i, j in enumerate(perm)])
                ref = []
                for i, j in enumerate(perm):
                    hd = keras.layers.Dense(2, name=f"rd_{i}")
                    ref.append(keras.Model(x, hd(keras.layers.Flatten(name=f"rf_{i}")(picks[j]))))
                    hd.set_weights(heads[i][0].get_weights())
                singles = ref
    except Exception as e:  # plain keras
        raise dk.Skip(f"keras: {type(e).__name__}")
    expo = "exponential" in json.dumps(spec)
    reg = dk.Region.make(rng, spec["n_in"], 4, case["kind"], r_max=0.5 if expo else None)
    pts = [dk.points(s, reg, rng) for s in singles]
    for me, mo in zip(case["methods"], case["modes"]):
        kw = dict(affine=dict(final_ibp=False, final_affine=True), ibp=dict(final_ibp=True, final_affine=False), hybrid=dict(final_ibp=True, final_affine=True), default={})[mo]
        kw = dict(kw, method=me, slope=case["slope"], perturbation_domain=reg.domain())
        d = dk.clone(net, **kw)
        out = dk.outputs(d, reg.z())
        mode = dk.mode_of(d.ibp, d.affine)
        n = dict(ibp=2, affine=5, hybrid=7)[mode]
        det = dict(method=me, mode=mode, form=form, region=case["kind"], net=dk.desc(spec))
        if not mon.true(len(out) == n * k, "number-of-bounds", got=len(out), expected=n * k, **det):
            continue
        for i, s in enumerate(singles):
            P = dk.parts(mode, out[i * n : (i + 1) * n])
            if expo and not all(np.isfinite(v).all() for v in P.values()):
                mon.skip("overflow of a bound (exponential)")
                continue
            mon.events["bounds_observed"] += sum(v.size for v in P.values())
            X, Y = pts[i]
            dk.check_enclosure(mon, P, X, Y, dk.yscale(Y), "output", index=i, **det)
            ds = dk.clone(s, **kw)
            R = dk.parts(mode, dk.outputs(ds, reg.z()))
            mag = 1 + max(np.abs(v).max() for kk, v in R.items() if kk != "x")
            if mag > 1e6:
                mon.skip("huge bounds")
                continue
            xs = [reg.lo, reg.hi] if reg.kind == "box" else [reg.x0]
            names = [kk for kk in R if kk != "x"]

            def f(z, ds=ds):
                r = dk.Region(reg.kind, lo=z[0], hi=z[-1]) if reg.kind == "box" else dk.Region(reg.kind, x0=z[0], eps=reg.eps, p=reg.p)
                q = dk.parts(mode, dk.outputs(ds, r.z()))
                return [q[kk] for kk in names]

            for j, kk in enumerate(names):
                dk.eq_stable(mon, P[kk], R[kk], "same-as-alone", mag + 0 * R[kk].astype("float64"), lambda j=j: dk.wobble(f, xs, np.random.default_rng(0))[j], index=i, part=kk, **det)
        mon.tag(case.get("backend"), case["fam"], me, mode, case["kind"], form)
