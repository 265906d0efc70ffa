"""Random bundles of bounds (what flows between decomon layers) and helpers to drive single decomon layers."""
import keras
import keras.ops as K
import numpy as np

from decomon.backward_layers.convert import to_backward
from decomon.layers.convert import to_decomon

from vlib.dk import Region, T, np_, parts
from vlib.core import Skip

MODES = ["ibp", "affine", "hybrid"]


def ein(W, X):
    """W (nb, n, ...), X (nb, k, n) -> (nb, k, ...)"""
    nb, n = W.shape[:2]
    o = np.einsum("bkn,bno->bko", X.astype("float64"), W.reshape(nb, n, -1).astype("float64"))
    return o.reshape(X.shape[:2] + W.shape[2:])


class Bundle:
    """bounds on an intermediate quantity of shape sh: affine functions fu >= fl over the region, and constants u >= l"""

    def __init__(self, region, Wu, bu, Wl, bl, u, l):
        f = lambda a: np.asarray(a, "float32")
        self.region, self.Wu, self.bu, self.Wl, self.bl, self.u, self.l = region, f(Wu), f(bu), f(Wl), f(bl), f(u), f(l)
        self.sh = self.u.shape[1:]

    def tensors(self, mode, x=True):
        z = T(self.region.z())
        t = [T(a) for a in (self.u, self.Wu, self.bu, self.l, self.Wl, self.bl)]
        if mode == "ibp":
            return [t[0], t[3]]
        if mode == "affine":
            return [z, t[1], t[2], t[4], t[5]]
        return [z] + t

    def interval(self, mode):
        """float64 [l, u] known in this mode"""
        eu, el = self.region.ext(self.Wu, self.bu, True), self.region.ext(self.Wl, self.bl, False)
        if mode == "ibp":
            return self.l.astype("float64"), self.u.astype("float64")
        if mode == "affine":
            return el, eu
        return np.maximum(el, self.l), np.minimum(eu, self.u)

    def values(self, rng, X, mode):
        """admissible values at points X (nb, k, n) -> (nb, k) + sh, float64"""
        one = np.ones(X.shape[:2] + (1,) * len(self.sh))
        hi, lo = one * self.u[:, None].astype("float64"), one * self.l[:, None].astype("float64")
        if mode != "ibp":
            fu, fl = ein(self.Wu, X) + self.bu[:, None], ein(self.Wl, X) + self.bl[:, None]
            hi, lo = (fu, fl) if mode == "affine" else (np.minimum(hi, fu), np.maximum(lo, fl))
        lam = rng.random(hi.shape)
        r = rng.random(X.shape[:2] + (1,) * len(self.sh))
        lam = np.where(r < 0.25, 0.0, np.where(r < 0.5, 1.0, np.where(r < 0.8, np.round(lam), lam)))
        return lo + lam * np.maximum(hi - lo, 0)


def make(rng, region, sh, scale=1.0, shift=0.0, pos=None, exact=False, same=None):
    """random bundle; pos: keep the lower bounds above this value; exact: fu == fl"""
    nb, n = region.nb, region.n
    full = (nb, n) + tuple(sh)
    A = rng.normal(0, scale / np.sqrt(n), full)
    if rng.random() < 0.3:
        A = A * (rng.random(full) < 0.6)
    c = rng.normal(0, scale, (nb,) + tuple(sh)) + shift
    mode = rng.random() if same is None else (0.0 if same else 1.0)
    if exact:
        V, d = 0 * A, 0 * c
    elif mode < 0.35:
        V, d = 0 * A, rng.uniform(0, scale, c.shape) * (rng.random(c.shape) < 0.8)
    else:
        V = rng.normal(0, 0.5 * scale / np.sqrt(n), full)
        d = -region.ext(V, 0 * c, False) + rng.uniform(0, 0.5, c.shape) * (rng.random(c.shape) < 0.7)
    # fu - fl = V.x + d >= 0 over the region
    Wl, bl = A, c
    Wu, bu = A + V, c + d
    f = lambda a: np.asarray(a, "float32").astype("float64")
    Wu, bu, Wl, bl = f(Wu), f(bu), f(Wl), f(bl)
    eu, el = region.ext(Wu, bu, True), region.ext(Wl, bl, False)
    if pos is not None:
        sft = np.maximum(0, pos - el)
        bl, bu, el, eu = bl + sft, bu + sft, el + sft, eu + sft
    # constants: at the extrema, looser, or tighter than the affine ones (never below the middle function)
    mid = region.ext((Wu + Wl) / 2, (bu + bl) / 2, True), region.ext((Wu + Wl) / 2, (bu + bl) / 2, False)
    z = rng.random()
    if z < 0.35:
        u, l = eu, el
    elif z < 0.65:
        u = eu + rng.uniform(0, 0.5, eu.shape) * (rng.random(eu.shape) < 0.5)
        l = el - rng.uniform(0, 0.5, eu.shape) * (rng.random(eu.shape) < 0.5)
    else:
        t = rng.uniform(0, 1, eu.shape) * (rng.random(eu.shape) < 0.6)
        u, l = eu + t * (mid[0] - eu), el + t * (mid[1] - el)
    if pos is not None:
        l = np.maximum(l, pos)
    return Bundle(region, Wu, bu, Wl, bl, np.maximum(u, l), l)


def identity(region):
    """x itself (boxes)"""
    nb, n = region.nb, region.n
    I = np.repeat(np.eye(n)[None], nb, 0)
    z = np.zeros((nb, n))
    return Bundle(region, I, z, I, z, region.hi, region.lo)


def keras_layer(layer, *shapes):
    """build a keras layer on inputs of these shapes"""
    ins = [keras.Input(tuple(s)) for s in shapes]
    try:
        out = layer(ins[0] if len(ins) == 1 else ins)
        keras.Model(ins, out)
    except Exception as e:
        raise Skip(f"keras: {type(e).__name__} {str(e)[:60]}")
    return layer, tuple(out.shape[1:])


def randomize(layer, rng, scale=1.0):
    ws = []
    for w in layer.weights:
        nm = w.name
        sh = tuple(w.shape)
        if "variance" in nm:
            a = rng.uniform(0.2, 3, sh)
        else:
            a = rng.normal(0, scale, sh) * (1 / np.sqrt(max(1, np.prod(sh[:-1]))) if len(sh) > 1 else 1)
            if rng.random() < 0.3:
                a = a * (rng.random(sh) < 0.6)
        ws.append(a.astype("float32"))
    if ws:
        layer.set_weights(ws)


def apply(layer, *ys):
    """keras layer on float arrays (nb, k) + sh -> (nb, k) + out"""
    lead = ys[0].shape[:2]
    a = [T(y.reshape((-1,) + y.shape[2:])) for y in ys]
    try:
        o = np_(layer(a[0] if len(a) == 1 else a)).astype("float64")
    except Exception as e:
        raise Skip(f"keras call: {type(e).__name__}")
    return o.reshape(lead + o.shape[1:])


def forward(layer, mode, region, bundles, slope="volume-slope", fast=True, finetune=False, **kw):
    """decomon forward layer on concrete bundles -> dict of float64 arrays"""
    ibp, affine = mode != "affine", mode != "ibp"
    dl = to_decomon(layer, region.n, slope=slope, ibp=ibp, affine=affine, perturbation_domain=region.domain(), fast=fast, finetune=finetune, **kw)
    ins = [t for b in bundles for t in b.tensors(mode)]
    return dl, {k: np_(v) for k, v in parts(mode, dl(ins)).items()}
