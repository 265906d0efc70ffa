"""C12: queries with another radius or norm answer for that radius and norm, whatever was asked before"""
CASES = {"quick": 150, "thorough": 4000}
SHARDS = {"torch": 6, "tensorflow": 2}
MIN_NONTRIVIAL = 20
RULE = ("case = one random network converted once for a ball domain, then a random history of 4 to 8 steps (range, upper, lower, adversarial score with a radius, a norm and centres, both new or only one of them new; set_domain; queries with a negative radius, "
        "which keep the current domain; copies converted from the same network in between, with their own domain); every answer must equal that of a model freshly converted for the current domain, raw outputs too, and the model must report the current "
        "domain; the domain object of other conversions must not change; distinct non-trivial = (backend, family, method, kind of step, norm before, norm after)")
ASSUMPTIONS = ["set_domain accepts a domain of the same class only (documented)", "relative tolerance 1e-4 for float32 rounding"]

import keras
import numpy as np

import decomon.wrapper as W
from decomon.core import BallDomain, BoxDomain
from vlib import dk
from vlib.nets import gen_family, make_spec

PS = [1, 2, np.inf]


def gen_case(rng, tier, i, backend):
    fam = gen_family(rng, backend)
    spec, which = make_spec(rng, backend, fam)
    if spec["nodes"][-1].get("units"):
        spec["nodes"][-1]["units"] = int(rng.integers(2, 4))
    ms = dk.FORWARD if which == "fwd" else dk.METHODS
    k = int(rng.integers(4, 9))
    steps = []
    p0, e0 = int(rng.integers(3)), float(np.round(rng.uniform(0.01, 0.6), 3))
    cp, ce = p0, e0
    for _ in range(k):
        kind = str(rng.choice(["range", "range", "updown", "adv", "set", "keep", "keepadv", "clone", "badset"]))
        steps.append([kind, int(rng.integers(3)), float(np.round(np.exp(rng.uniform(np.log(0.01), np.log(1.0))), 4)) if rng.random() < 0.9 else 0.0, int(rng.integers(1 << 30))])
        u = rng.random()  # often change one of the two only, with respect to the current domain
        if u < 0.35:
            steps[-1][1:3] = [(cp + int(rng.integers(1, 3))) % 3, ce]
        elif u < 0.5:
            steps[-1][1] = cp
        if kind in ("range", "updown", "adv", "set"):
            cp, ce = steps[-1][1:3]
    return dict(fam=fam, spec=spec, method=str(rng.choice(ms)), slope=str(rng.choice(dk.SLOPES)), steps=steps, p0=p0, e0=e0, xseed=int(rng.integers(1 << 30)),
                final=[None, None, [True, True], [True, False]][int(rng.integers(4))])


def run(case, mon):
    rng = np.random.default_rng(case["xseed"])
    spec, me = case["spec"], case["method"]
    m = dk.build(spec)
    expo = any(nd.get("act") in ("softmax", "exponential") for nd in spec["nodes"])
    n, nb = spec["n_in"], 4
    no = int(np.prod(m.output_shape[1:]))
    kw = dict(method=me, slope=case["slope"])
    if case["final"]:
        kw.update(final_ibp=case["final"][0], final_affine=case["final"][1])
    fresh = {}

    def get(e, p):
        if (e, p) not in fresh:
            fresh[e, p] = dk.clone(m, perturbation_domain=BallDomain(eps=e, p=p), **kw)
        return fresh[e, p]

    dom = BallDomain(eps=case["e0"], p=PS[case["p0"]])
    d = dk.clone(m, perturbation_domain=dom, **kw)
    cur = (case["e0"], PS[case["p0"]])
    other, other_cur, other_ref = None, None, None
    for kind, pi, e, sd in case["steps"]:
        r2 = np.random.default_rng(sd)
        x = r2.normal(0, 1.2, (nb, n)).astype("float32")
        s = r2.integers(0, no, nb)
        p = PS[pi]
        if expo:
            e = min(e, 0.4)
        prev = cur
        if kind == "set":
            d.set_domain(BallDomain(eps=e, p=p))
            cur = (e, p)
        elif kind == "badset":
            try:
                d.set_domain(BoxDomain())
                mon.fail("type-change-accepted", method=me)
            except NotImplementedError:
                pass
        elif kind == "clone":
            od = BallDomain(eps=e, p=p)
            other, other_cur, other_obj = dk.clone(m, perturbation_domain=od, **kw), (e, p), od
        if kind in ("range", "updown", "adv"):
            cur = (e, p)
        a = dict(eps=cur[0], p=cur[1])
        if kind in ("keep", "keepadv"):
            a = dict(eps=-1, p=p)
        b = dict(eps=cur[0], p=cur[1])
        if no == 1 and kind in ("adv", "keepadv"):
            kind = "range" if kind == "adv" else "keep"

        def ask(mod, a, xs):
            if kind in ("adv", "keepadv"):
                return [W.get_adv_noise(mod, xs[0], s, **a).reshape(nb, -1)]
            if kind == "updown":
                return [W.get_upper_noise(mod, xs[0], **a).reshape(nb, -1), W.get_lower_noise(mod, xs[0], **a).reshape(nb, -1)]
            return [np.asarray(v).reshape(nb, -1) for v in W.get_range_noise(mod, xs[0], **a)]

        f = get(*cur)
        if kind in ("set", "badset", "clone"):
            got = [np.asarray(v).reshape(nb, -1) for v in dk.outputs(d, x)]
            fref = lambda xs: [np.asarray(v).reshape(nb, -1) for v in dk.outputs(f, xs[0])]
        else:
            got = ask(d, a, [x])
            fref = lambda xs: ask(f, b, xs)
        ref = fref([x])
        if expo and not all(np.isfinite(v).all() for v in ref):
            mon.skip("overflow of a bound (exponential)")
            continue
        for j, (g, r) in enumerate(zip(got, ref)):
            dk.eq_stable(mon, g, r, "stale-domain:" + kind, 1 + np.abs(np.asarray(r, "float64")), lambda j=j: dk.wobble(fref, [x], np.random.default_rng(0))[j], step=kind, before=list(map(str, prev)), now=list(map(str, cur)), method=me, net=dk.desc(spec))
        mon.true(d.perturbation_domain.eps == cur[0] and d.perturbation_domain.p == cur[1], "reported-domain", step=kind, got=[d.perturbation_domain.eps, str(d.perturbation_domain.p)], expected=[cur[0], str(cur[1])])
        if other is not None:
            mon.true(other.perturbation_domain.eps == other_cur[0] and other.perturbation_domain.p == other_cur[1] and (other_obj.eps, other_obj.p) == other_cur, "other-model-changed", step=kind, method=me)
        mon.events["steps_observed"] += 1
        mon.tag(case.get("backend"), case["fam"], me, kind, str(prev[1]), str(cur[1]))
    # the fresh models have been used with their own domain only
    for (e, p), f in fresh.items():
        mon.true(f.perturbation_domain.eps == e and f.perturbation_domain.p == p, "other-model-changed", method=me)
    if other is not None:
        x = rng.normal(0, 1.2, (nb, n)).astype("float32")
        ref = dk.outputs(get(*other_cur), x)
        got = dk.outputs(other, x)
        if all(np.isfinite(v).all() for v in ref):
            for j, (g, r) in enumerate(zip(got, ref)):
                dk.eq_stable(mon, g, r, "other-model-changed", 1 + np.abs(np.asarray(r, "float64")), lambda j=j: dk.wobble(lambda xs: dk.outputs(get(*other_cur), xs[0]), [x], np.random.default_rng(0))[j], method=me)
