"""Helpers for the checks that drive decomon (imported in the workers only, after KERAS_BACKEND is set)."""
import os
import sys

import keras
import keras.ops as K
import numpy as np

import decomon
from decomon.core import BallDomain, BoxDomain
from decomon.models import clone

from vlib import gen
from vlib.core import Skip

assert os.path.abspath(decomon.__file__).startswith("/repo/src/"), decomon.__file__
BACKEND = keras.backend.backend()
PT = "float32"  # type of the points fed to the network (C11: float64)

METHODS = ["crown", "crown-forward-ibp", "crown-forward-affine", "crown-forward-hybrid", "forward-ibp", "forward-affine", "forward-hybrid"]
FORWARD = METHODS[4:]
SLOPES = ["volume-slope", "adaptative-slope", "same-slope", "zero-lb", "one-lb"]
ACT_CROWN = ["relu", "linear", "sigmoid", "tanh", "softsign", "softplus"]
ACT_FWD = ACT_CROWN + ["exponential"]
MERGES = ["add", "subtract", "average", "maximum", "minimum", "multiply", "concat"]


def np_(t):
    return np.asarray(K.convert_to_numpy(t))


def T(a):
    return K.convert_to_tensor(np.asarray(a, dtype=keras.config.floatx()))


def build(spec):
    try:
        return gen.build(spec)
    except Exception as e:  # plain keras
        raise Skip(f"keras build: {type(e).__name__} {str(e)[:80]}")


def fw(model, X):
    """the network itself on points X (..., n_in): (..., n_out) float64; Skip when keras cannot evaluate it"""
    sh = X.shape[:-1]
    try:
        y = np_(model(T(X.reshape((-1,) + tuple(model.input_shape[1:])))))
    except Exception as e:
        if "/src/decomon/" in "".join(__import__("traceback").format_exception(e)):
            raise
        raise Skip(f"keras call: {type(e).__name__}")
    y = y.reshape(len(y), -1).astype("float64")
    if not np.isfinite(y).all():
        raise Skip("network not finite on its inputs")
    return y.reshape(sh + (-1,))


# ------------------------------------------------------------------ regions
class Region:
    """nb boxes, or nb balls |x-x0|_p <= eps"""

    def __init__(self, kind, lo=None, hi=None, x0=None, eps=None, p=None):
        self.kind, self.lo, self.hi, self.x0, self.eps, self.p = kind, lo, hi, x0, eps, p
        self.nb, self.n = (lo if kind == "box" else x0).shape

    @staticmethod
    def make(rng, n, nb, kind=None, r_max=None):
        kind = kind or str(rng.choice(["box", "box", "ball1", "ball2", "ballinf"]))
        if kind == "box":
            lo, hi = [a.astype(PT) for a in gen.boxes(rng, n, nb)]
            if r_max is not None:
                c, r = (lo + hi) / 2, np.minimum((hi - lo) / 2, r_max)
                lo, hi = c - r, c + r
            return Region("box", lo=lo, hi=hi)
        p = {"ball1": 1, "ball2": 2, "ballinf": np.inf}[kind]
        eps = float(np.exp(rng.uniform(np.log(0.01), np.log(1.5))))
        if rng.random() < 0.08:
            eps = 0.0
        if r_max is not None:
            eps = min(eps, r_max)
        x0 = rng.normal(0, 1.5, (nb, n)).astype(PT)
        if rng.random() < 0.2:
            x0[0] = 0.0
        return Region(kind, x0=x0, eps=eps, p=p)

    def domain(self):
        return BoxDomain() if self.kind == "box" else BallDomain(eps=self.eps, p=self.p)

    def z(self):
        return np.stack([self.lo, self.hi], 1) if self.kind == "box" else self.x0

    def ext(self, w, b, upper):
        """exact extremum over the region of w.x+b in float64; w (nb, n, ...), b (nb, ...)"""
        w, b = np.asarray(w, "float64"), np.asarray(b, "float64")
        s = 1.0 if upper else -1.0
        if self.kind == "box":
            c, r = (self.lo.astype("float64") + self.hi) / 2, (self.hi.astype("float64") - self.lo) / 2
            return np.einsum("bn,bn...->b...", c, w) + s * np.einsum("bn,bn...->b...", r, np.abs(w)) + b
        q = {1: np.inf, 2: 2, np.inf: 1}[self.p]
        nrm = np.abs(w).max(1) if q == np.inf else (np.sqrt((w**2).sum(1)) if q == 2 else np.abs(w).sum(1))
        return np.einsum("bn,bn...->b...", self.x0.astype("float64"), w) + s * self.eps * nrm + b

    def samples(self, rng, k):
        """(nb, k, n) float32 points of the region (balls: shrunk by the rounding of the points)"""
        if self.kind == "box":
            return gen.samples(rng, self.lo, self.hi, k)
        d = rng.normal(0, 1, (self.nb, k, self.n))
        m = rng.random((self.nb, k))
        # sparse directions, sign vectors
        j = rng.integers(0, self.n, (self.nb, k))
        axis = np.eye(self.n)[j] * np.sign(d[..., :1])
        sgn = np.sign(d)
        d = np.where(m[..., None] < 0.3, axis, np.where(m[..., None] < 0.55, sgn, d))
        nrm = {1: np.abs(d).sum(-1), 2: np.sqrt((d**2).sum(-1)), np.inf: np.abs(d).max(-1)}[self.p]
        rad = np.where(rng.random((self.nb, k)) < 0.7, 1.0, rng.random((self.nb, k)))
        rad[:, 0] = 0.0
        x = self.x0[:, None].astype("float64") + d / nrm[..., None] * rad[..., None] * self.eps
        return x.astype(PT)

    def directional(self, g):
        """the point of the region maximising g.x ; g (nb, ..., n)"""
        if self.kind == "box":
            lo, hi = [a.reshape((self.nb,) + (1,) * (g.ndim - 2) + (self.n,)) for a in (self.lo, self.hi)]
            return np.where(g > 0, hi, lo).astype(PT)
        x0 = self.x0.reshape((self.nb,) + (1,) * (g.ndim - 2) + (self.n,)).astype("float64")
        if self.p == np.inf:
            d = np.sign(g)
        elif self.p == 2:
            d = g / np.maximum(np.sqrt((g**2).sum(-1, keepdims=True)), 1e-30)
        else:
            d = np.eye(self.n)[np.abs(g).argmax(-1)] * np.sign(g)
        return (x0 + self.eps * d).astype(PT)


def attack(model, region, X, Y, rounds=2):
    """finite-difference ascent/descent from the best samples: extra points, (nb, k', n)"""
    nb, k, n = X.shape
    no = Y.shape[-1]
    out = []
    for s in (1.0, -1.0):
        best = (s * Y).argmax(1)  # nb, no
        x = np.take_along_axis(X, best[..., None], 1).astype("float64")  # nb,no,n
        for _ in range(rounds):
            h = 1e-2
            pts = x[:, :, None, :] + h * np.concatenate([np.zeros((1, n)), np.eye(n), -np.eye(n)])[None, None]
            y = fw(model, pts.astype(PT))  # nb,no,1+2n,no
            y = np.stack([y[:, o, :, o] for o in range(no)], 1)  # nb,no,1+2n
            g = s * (y[..., 1 : n + 1] - y[..., n + 1 :])
            x = region.directional(g).astype("float64")
            out.append(x.astype(PT))
    return np.concatenate(out, 1)


def points(model, region, rng, k=48, att=True):
    X = region.samples(rng, k)
    Y = fw(model, X)
    if att and region.n <= 40:
        X2 = attack(model, region, X, Y)
        X, Y = np.concatenate([X, X2], 1), np.concatenate([Y, fw(model, X2)], 1)
    return X, Y


def yscale(Y, *more):
    """(nb, 1, no): 1 + magnitude of the observed values"""
    s = 1 + np.abs(Y).max(1, keepdims=True)
    for m in more:
        s = np.maximum(s, 1 + 0 * s + 0 * np.abs(m)[:, None])
    return s


# ------------------------------------------------------------------ decomon
def spec_gen(rng, fam, acts, backend):
    if fam == "mlp":
        return gen.mlp(rng, acts)
    ss = backend == "tensorflow"  # keras 3.0 on torch: strided "same" convolutions are inconsistent with their declared shape
    if fam == "cnn":
        return gen.cnn(rng, acts, same_strides=ss)
    if fam == "cnnpool":
        return gen.cnn(rng, acts, pool=True, same_strides=ss)
    if fam == "cnnc1":
        return gen.cnn(rng, acts, df="channels_first", same_strides=ss)
    if fam == "dag":
        return gen.dag(rng, acts, MERGES)
    if fam == "dagsoft":
        return gen.dag(rng, acts, ["add", "subtract", "average", "concat"])
    raise ValueError(fam)


def methods_for(fam):
    return FORWARD if fam in ("dag", "dagsoft", "cnnpool") else METHODS


def desc(spec):
    return "+".join(n["op"] + (":" + n["act"] if n.get("act") else "") for n in spec["nodes"])


def outputs(dm, z):
    o = dm.predict_on_single_batch_np(z)
    return o if isinstance(o, list) else [o]


def parts(mode, out):
    """outputs of a given mode -> dict"""
    if mode == "ibp":
        u, l = out[:2]
        return dict(u=u, l=l)
    if mode == "affine":
        x, wu, bu, wl, bl = out[:5]
        return dict(x=x, wu=wu, bu=bu, wl=wl, bl=bl)
    x, u, wu, bu, l, wl, bl = out[:7]
    return dict(x=x, u=u, wu=wu, bu=bu, l=l, wl=wl, bl=bl)


def mode_of(ibp, affine):
    return "hybrid" if ibp and affine else ("ibp" if ibp else "affine")


def check_enclosure(mon, d, X, Y, scale, what, tol=1e-4, **detail):
    """Y (nb,k,...) values at points X (nb,k,n) must lie within the bounds in d (any mode)"""
    nb, k = Y.shape[:2]
    Yf = Y.reshape(nb, k, -1)
    s = np.broadcast_to(scale, Y.shape[:1] + (1,) + Y.shape[2:]).reshape(nb, 1, -1)
    ok = True
    if "u" in d:
        ok &= mon.le(Yf, d["u"].reshape(nb, 1, -1).astype("float64"), what + ":upper", s, tol, **detail)
        ok &= mon.le(d["l"].reshape(nb, 1, -1).astype("float64"), Yf, what + ":lower", s, tol, **detail)
    if "wu" in d:
        n = X.shape[-1]
        X64 = X.astype("float64")
        for nm, sg in (("u", 1), ("l", -1)):
            w = d["w" + nm].reshape(nb, n, -1).astype("float64")
            b = d["b" + nm].reshape(nb, 1, -1).astype("float64")
            f = np.einsum("bkn,bno->bko", X64, w) + b
            # rounding of w.x+b itself
            sw = np.maximum(s, np.einsum("bkn,bno->bko", np.abs(X64), np.abs(w)) + np.abs(b))
            if sg > 0:
                ok &= mon.le(Yf, f, what + ":affine-upper", sw, tol, **detail)
            else:
                ok &= mon.le(f, Yf, what + ":affine-lower", sw, tol, **detail)
    return ok


def wobble(f, xs, rng, k=16):
    """how much the rows of f move when its float inputs move by a few ulps: explains discontinuous choices (ties between two relaxations)"""
    ref = [np.asarray(v, "float64") for v in f(xs)]
    dev = [0 * v for v in ref]
    for _ in range(k):
        e = float(rng.choice([1e-7, 1e-6, 3e-6]))
        ys = [(x + e * rng.normal(0, 1, x.shape) * (1 + np.abs(x))).astype("float32") for x in xs]
        if len(ys) == 2:
            ys = [np.minimum(*ys), np.maximum(*ys)]
        for j, v in enumerate(f(ys)):
            dev[j] = np.maximum(dev[j], np.nan_to_num(np.abs(np.asarray(v, "float64") - ref[j]), nan=np.inf))
    return dev


def eq_stable(mon, a, b, what, scale, dev, tol=1e-4, **detail):
    """a == b up to tol * scale; where they differ, dev() says how ill-conditioned b is"""
    a, b = np.asarray(a, "float64"), np.asarray(b, "float64")
    if a.shape != b.shape:
        return mon.eq(a, b, what, scale, **detail)
    s = np.broadcast_to(scale, a.shape)
    if (np.abs(a - b) <= tol * s).all():
        return mon.eq(a, b, what, scale, tol, **detail)
    mon.events["conditioning_examined"] += 1
    d = 3 * np.asarray(dev(), "float64").reshape(a.shape)
    return mon.le(np.abs(a - b) - d, 0 * a, what, scale, tol, **detail)
