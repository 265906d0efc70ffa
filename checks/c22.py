"""C22: symbolic operations on bundles of bounds are sound"""
CASES = {"quick": 6000, "thorough": 80000}
SHARDS = {"torch": 6, "tensorflow": 2}
MIN_NONTRIVIAL = 30
RULE = ("case = one or two random bundles of bounds (constants and affine functions over a box or ball, of several ranks) passed to one symbolic operation of decomon (sum, max, min, exp, log, 1/x, |x|, x^2, sort, split, "
        "expand, permute, broadcast, product, relu, softplus, opposite, add, subtract, maximum, minimum) along a random axis; admissible values of the operands, sampled at points of the region, are pushed through the plain operation and must "
        "stay within every returned bound; linear operations must return the exact bounds; distinct non-trivial = (backend, operation, mode, rank, axis, region)")
ASSUMPTIONS = ["numpy's value of the operation is the specification", "log and 1/x are only used on positive quantities, their documented domain", "axes are given as -1 or as positive axes counting the batch axis"]

import numpy as np

import decomon.layers.utils as LU
import decomon.utils as UU
from vlib import dk, lay

UN = ["sum", "max_", "min_", "exp", "log", "frac_pos", "abs", "pow", "sort", "split", "expand_dims", "permute", "broadcast", "minus", "relu_", "softplus_"]
BIN = ["add", "subtract", "maximum", "minimum", "multiply"]
LINEAR = {"sum", "split", "expand_dims", "permute", "broadcast", "minus", "add", "subtract"}
AXIS = {"sum", "max_", "min_", "sort", "split", "expand_dims", "permute", "broadcast"}


def gen_case(rng, tier, i, backend):
    op = str(rng.choice(UN + BIN))
    rank = int(rng.choice([1, 1, 2, 3]))
    sh = [int(v) for v in rng.integers(1, 5 if rank < 3 else 4, rank)]
    ax = -1 if rng.random() < 0.5 else int(rng.integers(1, rank + 1))
    if rng.random() < 0.2:
        sh[int(rng.integers(rank))] = int(rng.integers(5, 10))
    if op == "sum" and len(sh) == 1:
        sh, ax = sh + [int(rng.integers(1, 4))], -1
    return dict(op=op, mode=str(rng.choice(lay.MODES)), sh=sh, axis=ax, region=str(rng.choice(["box", "box", "ball1", "ball2", "ballinf"])), seed=int(rng.integers(1 << 30)),
                perm=int(rng.integers(1, len(sh) + 1)), nb=int(rng.integers(1, 3)), default=bool(rng.random() < 0.3))


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    op, mode, sh, ax = case["op"], case["mode"], tuple(case["sh"]), case["axis"]
    n, nb = int(rng.integers(1, 5)), 4
    small = op in ("exp", "pow", "multiply")
    reg = dk.Region.make(rng, n, nb, case["region"], r_max=0.6 if op in ("exp",) else None)
    pos = None
    scale = 0.6 if op == "exp" else float(rng.choice([0.3, 1.0, 2.0]))
    if op in ("log", "frac_pos"):
        pos, scale = float(rng.choice([0.05, 0.5, 2.0])), float(rng.choice([0.2, 1.0]))
    kw = dict(mode=mode, perturbation_domain=reg.domain())
    if case["default"] and reg.kind == "box":
        kw.pop("perturbation_domain")
    k = 60
    X = reg.samples(rng, k)
    B = lay.make(rng, reg, sh, scale=scale, pos=pos)
    V = B.values(rng, X, mode)
    na = ax if ax == -1 else ax + 1  # numpy axis of values (nb, k) + sh
    det = dict(op=op, mode=mode, sh=list(sh), axis=ax, region=reg.kind)
    bs = [B]
    ins = B.tensors(mode)
    if op in BIN:
        B2 = lay.make(rng, reg, sh, scale=scale)
        V2 = B2.values(rng, X, mode)
        bs.append(B2)
        g = dict(add=np.add, subtract=np.subtract, maximum=np.maximum, minimum=np.minimum, multiply=np.multiply)[op]
        f = LU.multiply if op == "multiply" else getattr(UU, op)
        outs, ref = [f(ins, B2.tensors(mode), **kw)], [lambda a, b: g(a, b)]
        vals = (V, V2)
    else:
        vals = (V,)
        f = getattr(UU if op in ("minus", "relu_") else LU, {"permute": "permute_dimensions"}.get(op, op))
        if op == "permute":
            outs = [f(ins, axis=ax, axis_perm=case["perm"], **kw)]
            a = ax if ax > 0 else len(sh)

            def r(v):
                return np.moveaxis(v, a + 1, case["perm"] + 1) if len(sh) > 1 else v

            ref = [r]
        elif op == "broadcast":
            outs = [f(ins, case["nb"], ax, **kw)]

            def r(v):
                for _ in range(case["nb"]):
                    v = np.expand_dims(v, na)
                return v

            ref = [r]
        elif op == "split":
            outs = list(f(ins, axis=ax, **kw))
            m = V.shape[na]
            if len(outs) != m:
                return mon.fail("split-count", got=len(outs), expected=m, **det)
            ref = [(lambda v, j=j: np.take(v, [j], axis=na)) for j in range(m)]
        else:
            if op in AXIS:
                kw["axis"] = ax
            outs = [f(ins, **kw)]
            ref = [dict(sum=lambda v: v.sum(na), max_=lambda v: v.max(na), min_=lambda v: v.min(na), exp=np.exp, log=np.log, frac_pos=lambda v: 1 / v, abs=np.abs, pow=lambda v: v**2,
                        sort=lambda v: np.sort(v, na), expand_dims=lambda v: np.expand_dims(v, na), minus=lambda v: -v, relu_=lambda v: np.maximum(v, 0),
                        softplus_=lambda v: np.maximum(v, 0) + np.log1p(np.exp(-np.abs(v))))[op]]
    for o, r in zip(outs, ref):
        d = {kk: dk.np_(v) for kk, v in dk.parts(mode, o).items()}
        Y = r(*vals)
        ok = True
        for kk in ("u", "l", "bu", "bl"):
            if kk in d and d[kk].shape != (nb,) + Y.shape[2:]:
                ok = mon.true(False, "shape:" + kk, got=list(d[kk].shape), expected=[nb] + list(Y.shape[2:]), **det)
        for kk in ("wu", "wl"):
            if kk in d and d[kk].shape != (nb, n) + Y.shape[2:]:
                ok = mon.true(False, "shape:" + kk, got=list(d[kk].shape), expected=[nb, n] + list(Y.shape[2:]), **det)
        if not ok:
            continue
        if not all(np.isfinite(v).all() for v in d.values()):
            mon.fail("not-finite", **det)
            continue
        sc = 1 + np.abs(Y).max(1, keepdims=True)
        dk.check_enclosure(mon, d, X, Y, sc, "op", **det)
        if op in LINEAR:
            # the bounds themselves are transformed exactly
            neg = op == "minus"
            get = lambda b, nm: getattr(b, nm).astype("float64")
            for hi, lo in (("u", "l"), ("l", "u")):
                second = lo if op == "subtract" else hi
                first = lo if neg else hi

                def comb(pre, lead):
                    a = [get(bs[0], pre + first if pre else first)] + ([get(bs[1], pre + second if pre else second)] if len(bs) > 1 else [])
                    a = [x if lead else x[:, None] for x in a]
                    return r(*a) if lead else r(*a)[:, 0]

                if "u" in d:
                    e = comb("", False)
                    s = 1 + np.abs(e)
                    if mode == "hybrid" and op in ("add", "subtract", "minus", "sum"):
                        # constants may be intersected with the affine ones
                        (mon.le(d[hi], e, "linear-constant:" + hi, s, **det) if hi == "u" else mon.le(e, d[hi], "linear-constant:" + hi, s, **det))
                    else:
                        mon.eq(d[hi], e, "linear-constant:" + hi, s, **det)
                if "wu" in d:
                    for pre in ("W", "b"):
                        e = comb(pre, pre == "W")
                        mon.eq(d[("w" if pre == "W" else "b") + hi], e, f"linear-{pre}:" + hi, 1 + np.abs(e), **det)
        elif op in ("max_", "min_", "sort") and mode == "ibp":
            mon.eq(d["u"], r(B.u[:, None].astype("float64"))[:, 0] if op != "sort" else d["u"], "ibp-max", sc[:, 0], **det)
    mon.events["bundles_observed"] += nb * len(bs)
    mon.tag(case.get("backend"), op, mode, len(sh), ax, reg.kind)
