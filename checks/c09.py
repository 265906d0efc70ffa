"""C09: queries are independent: of the batch, of its order, of mini-batches, of previous queries; arguments are not modified"""
CASES = {"quick": 220, "thorough": 6000}
SHARDS = {"torch": 6, "tensorflow": 2}
MIN_NONTRIVIAL = 20
RULE = ("case = one random network and conversion, 5-7 regions, and a random history of queries (range, upper, lower, adversarial and optimistic adversarial scores, refinement, raw outputs) on random sub-batches, orders, "
        "mini-batch sizes, float32 or float64 arrays, flat or with the extra axes the wrappers accept; every row of every answer must equal the answer for that region queried alone first; the arrays, labels and weights "
        "passed must come out bitwise unchanged; distinct non-trivial = (backend, family, method, query, mini-batch size, sub-batch size)")
ASSUMPTIONS = ["relative tolerance 1e-4 for float32 rounding (batched and single matrix products may round differently)"]

import numpy as np

import decomon.wrapper as W
from vlib import dk
from vlib.nets import gen_family, make_spec


def gen_case(rng, tier, i, backend):
    fam = gen_family(rng, backend)
    spec, which = make_spec(rng, backend, fam)
    if spec["nodes"][-1].get("units"):
        spec["nodes"][-1]["units"] = int(rng.integers(2, 5))
    ms = dk.FORWARD if which == "fwd" else dk.METHODS
    return dict(fam=fam, spec=spec, xseed=int(rng.integers(1 << 30)), method=str(rng.choice(ms)), slope=str(rng.choice(dk.SLOPES)), kind=str(rng.choice(["box", "box", "ball1", "ball2", "ballinf"])),
                nq=int(rng.integers(3, 7)), final=[None, None, [True, True], [True, False]][int(rng.integers(4))])


def run(case, mon):
    rng = np.random.default_rng(case["xseed"])
    spec = case["spec"]
    m = dk.build(spec)
    expo = any(nd.get("act") in ("softmax", "exponential") for nd in spec["nodes"])
    n, nb = spec["n_in"], int(rng.integers(5, 8))
    reg = dk.Region.make(rng, n, nb, case["kind"], r_max=0.5 if expo else None)
    kw = {}
    if case["final"]:
        kw = dict(final_ibp=case["final"][0], final_affine=case["final"][1])
    me = case["method"]
    d = dk.clone(m, method=me, slope=case["slope"], perturbation_domain=reg.domain(), **kw)
    no = int(np.prod(m.output_shape[1:]))
    box = reg.kind == "box"
    x0 = (reg.lo, reg.hi) if box else (reg.x0,)
    S = rng.integers(0, no, nb)
    T = (S + 1) % no
    w0 = [np.array(w) for w in m.get_weights()]
    queries = (["range", "range", "updown", "adv", "advt", "check", "sub", "refine", "raw"] if box else ["range", "range", "updown", "adv", "advt", "raw"])
    if no == 1:
        queries = [q for q in queries if q not in ("adv", "advt", "check")]
    if not box and reg.eps == 0:
        pass
    k = int(rng.integers(2, 5))

    def ask(q, idx, bs=-1, dtype="float32", ext=False, xs=None):
        a = [np.array(x[idx], dtype=dtype) for x in (x0 if xs is None else xs)]
        if ext and q != "raw":
            a = [x.reshape((len(idx), 1, n)) for x in a]
        s, t = np.array(S[idx]), np.eye(no, dtype=int)[T[idx]]
        keep = [x.copy() for x in a] + [s.copy(), t.copy()]
        nz = dict(eps=reg.eps, p=reg.p) if not box else {}
        if q == "range":
            r = W.get_range_box(d, *a, batch_size=bs) if box else W.get_range_noise(d, *a, batch_size=bs, **nz)
        elif q == "updown":
            r = (W.get_upper_box(d, *a, batch_size=bs), W.get_lower_box(d, *a, batch_size=bs)) if box else (W.get_upper_noise(d, *a, batch_size=bs, **nz), W.get_lower_noise(d, *a, batch_size=bs, **nz))
        elif q == "adv":
            r = (W.get_adv_box(d, *a, s, batch_size=bs) if box else W.get_adv_noise(d, *a, s, batch_size=bs, **nz),)
        elif q == "advt":
            r = (W.get_adv_box(d, *a, s, t, batch_size=bs) if box else W.get_adv_noise(d, *a, s, target_labels=t, batch_size=bs, **nz),)
        elif q == "check":
            r = (W.check_adv_box(d, *a, s, batch_size=bs),)
        elif q == "sub":
            r = W.get_range_box(d, *a, batch_size=bs, n_sub_boxes=k)
        elif q == "refine":
            r = (W.refine_box(W.get_upper_box, d, *a, n_split=k, batch_size=bs, random=False),)
        elif q == "raw":
            z = np.stack(a, 1) if box else a[0]
            o = d.predict_on_single_batch_np(z)
            r = o if isinstance(o, list) else [o]
        for x, y in zip(a + [s, t], keep):
            mon.true(np.array_equal(x, y) and x.dtype == y.dtype, "argument-modified", query=q, method=me)
        r = [np.asarray(v, "float64") for v in r]
        for v in r:
            if not mon.true(v.shape[:1] == (len(idx),), "number-of-answers", query=q, got=list(v.shape), n=len(idx), batch=bs, method=me):
                return None
        return [v.reshape(len(idx), -1) for v in r]

    order = [str(rng.choice(queries)) for _ in range(case["nq"])]
    ref = {}
    for q in dict.fromkeys(order):
        rows = [ask(q, [b]) for b in range(nb)]
        if any(r is None for r in rows):
            return
        ref[q] = [np.concatenate([r[j] for r in rows]) for j in range(len(rows[0]))]
    if expo and not all(np.isfinite(v).all() for r in ref.values() for v in r):
        raise dk.Skip("overflow of a bound (exponential)")
    if me != "forward-ibp" and max(np.abs(v).max() for r in ref.values() for v in r) > 1e6:
        raise dk.Skip("huge bounds")
    for q in order:
        idx = rng.permutation(nb)[: int(rng.integers(1, nb + 1))] if rng.random() < 0.7 else rng.integers(0, nb, int(rng.integers(1, 9)))
        idx = [int(v) for v in idx]
        bs = int(rng.choice([-1, 1, 2, 3, 4, len(idx), 50]))
        dt = "float64" if rng.random() < 0.25 else "float32"
        ext = bool(box and rng.random() < 0.2)
        got = ask(q, idx, bs, dt, ext)
        if got is None:
            continue
        for j, v in enumerate(got):
            e = ref[q][j][idx]
            if v.shape != e.shape:
                mon.fail("shape", query=q, got=list(v.shape), expected=list(e.shape), batch=bs, method=me)
                continue
            sc = 1 + np.abs(e).max(1, keepdims=True) if q == "raw" else 1 + np.abs(e).max(1, keepdims=True) + sum(np.abs(r).max(1, keepdims=True) for r in ref.get("range", [np.zeros((nb, 1))]))[idx]
            f = lambda xs, q=q: [np.concatenate(r) for r in zip(*[ask(q, [b], xs=xs) for b in range(nb)])]
            dev = lambda j=j, q=q, idx=idx: dk.wobble(f, x0, np.random.default_rng(0))[j][idx]
            dk.eq_stable(mon, v, e, "answer-depends-on-batch:" + q, sc, dev, query=q, batch=bs, nrow=len(idx), method=me, dtype=dt, net=dk.desc(spec), region=reg.kind)
        mon.events["queries_observed"] += 1
        mon.tag(case.get("backend"), case["fam"], me, q, bs, len(idx), reg.kind)
    mon.true(all(np.array_equal(a, b) for a, b in zip(w0, m.get_weights())), "weights-modified", method=me)
