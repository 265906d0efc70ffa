"""C23: networks that compute the same function through rewritings that decomon handles exactly get the same bounds"""
CASES = {"quick": 260, "thorough": 7000}
SHARDS = {"torch": 6, "tensorflow": 2}
MIN_NONTRIVIAL = 20
RULE = ("case = one random network (dense, convolutional, residual, nested, shared layers), rewritten by 1-3 random transformations that keep its function (activation fused or separate, given by name or as a layer, inserted Dropout / linear Activation / identity Reshape / "
        "Reshape and back / Flatten and back / Permute and back, part nested in a model or a Sequential and nested model inlined, one shared layer or copies, other creation order of a graph, other names, the same names in embedded models, swapped terms of a sum or an average); "
        "the rewritten network is first checked to compute the same values, then both are converted the same way and their bounds (and affine outputs) compared; distinct non-trivial = (backend, transformations, method, region kind)")
ASSUMPTIONS = ["relative tolerance 1e-4 for float32 rounding; differences explained by an ill-conditioned choice of relaxation (a few ulps on the inputs move the bounds as much) are not counted"]

import numpy as np

from vlib import dk, equiv as Q, gen
from vlib.nets import gen_family, make_spec


def gen_case(rng, tier, i, backend):
    fam = gen_family(rng, backend)
    spec, which = make_spec(rng, backend, fam)
    return dict(fam=fam, spec=spec, which=which, xseed=int(rng.integers(1 << 30)), slope=str(rng.choice(dk.SLOPES)), kind=str(rng.choice(["box", "box", "ball1", "ball2", "ballinf"])), nt=int(rng.integers(1, 4)))


def rewrite(rng, a, m, nt):
    cnt = [0]

    def fresh():
        cnt[0] += 1
        return f"z_{cnt[0]}"

    done = []
    cur, mod = a, m
    W = Q.weights_of(a, m)
    for _ in range(12):
        if len(done) == nt:
            break
        t = str(rng.choice(list(Q.TRANS)))
        r = Q.TRANS[t](rng, cur, Q.shapes_of(cur, mod), fresh)
        if r is None:
            continue
        if isinstance(r, tuple):
            r, t = r[0], t + ":" + r[1]
        new = dict(cur, nodes=r)
        new.pop("wseed", None)
        new.pop("sequential", None)
        mod2 = dk.build(new)
        Q.put_weights(new, mod2, W)
        cur, mod = new, mod2
        done.append(t)
    if done and Q.is_chain(cur) and rng.random() < 0.3:
        cur = dict(cur, sequential=True)
        mod = dk.build(cur)
        Q.put_weights(cur, mod, W)
        done.append("sequential")
    if rng.random() < 0.6 and Q.same_names(rng, mod):
        done.append("same-names")
    return cur, mod, done


def run(case, mon):
    rng = np.random.default_rng(case["xseed"])
    a = Q.annotate(case["spec"])
    m = dk.build(a)
    n = a["n_in"]
    b, m2, done = rewrite(rng, a, m, case["nt"])
    if not done:
        raise dk.Skip("no transformation applies")
    expo = any(nd.get("act") in ("softmax", "exponential") for nd in Q.flat_nodes(a))
    reg = dk.Region.make(rng, n, 5, case["kind"], r_max=0.5 if expo else None)
    X = reg.samples(rng, 8)
    Y, Y2 = dk.fw(m, X), dk.fw(m2, X)
    if np.abs(Y - Y2).max() > 1e-4 * (1 + np.abs(Y).max()):
        raise dk.Skip("rewriting is not exact in keras")
    ms = dk.FORWARD if case["which"] == "fwd" else dk.METHODS
    for me in dict.fromkeys([str(v) for v in rng.choice(ms, 3)]):
        kw = dict(method=me, slope=case["slope"], perturbation_domain=reg.domain())
        if rng.random() < 0.4:
            kw.update(final_ibp=True, final_affine=me != "forward-ibp")

        def outs(model, kw=kw):
            d = dk.clone(model, **kw)

            def f(xs):
                r = dk.Region(reg.kind, lo=xs[0], hi=xs[-1]) if reg.kind == "box" else dk.Region(reg.kind, x0=xs[0], eps=reg.eps, p=reg.p)
                return [np.asarray(v, "float64").reshape(reg.nb, -1) for v in dk.outputs(d, r.z())]

            return f

        xs = [reg.lo, reg.hi] if reg.kind == "box" else [reg.x0]
        f, g = outs(m), outs(m2)
        A, B = f(xs), g(xs)
        if expo and not all(np.isfinite(v).all() for v in A):
            mon.skip("overflow of a bound")
            continue
        mon.true(len(A) == len(B), "number-of-outputs", method=me, done=done)
        if max(np.abs(v).max() for v in A) > 1e6:
            mon.skip("huge bounds")
            continue
        for j, (u, v) in enumerate(zip(A, B)):
            sc = 1 + np.abs(u).max(1, keepdims=True)
            dev = lambda j=j, f=f, g=g: np.maximum(dk.wobble(f, xs, np.random.default_rng(0))[j], dk.wobble(g, xs, np.random.default_rng(1))[j])
            dk.eq_stable(mon, v, u, "bounds-depend-on-writing", sc, dev, method=me, done=done, out=j, net=dk.desc(a), region=reg.kind, slope=case["slope"])
        mon.events["pairs_compared"] += 1
        mon.tag(case.get("backend"), sorted(set(done)), me, reg.kind)
