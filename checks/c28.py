"""C28: what decomon cannot bound is refused, never answered wrongly"""
CASES = {"quick": 420, "thorough": 8000}
SHARDS = {"torch": 6, "tensorflow": 2}
MIN_NONTRIVIAL = 60
RULE = ("case = one random network with an element that decomon may not support (activation, layer, layer configuration, backend operation, way of merging) at a random place (first, middle, in a nested model, in a layer called twice), "
        "converted by every method; or one invalid request (unknown method, slope or norm, inverted box, region of another shape, network with several inputs or an image as input, other type of domain). Either an exception is raised, "
        "at conversion or at the query, or the bounds enclose the values of the network (constant bounds and affine ones, at points of the boxes); invalid requests must be refused; distinct non-trivial = (backend, element, place, method, outcome)")
ASSUMPTIONS = ["classes and functions that take the name of those of keras (decomon recognises layers and activations by name) are not judged", "several outputs and dtypes below float32 are not judged", "tolerance 1e-3 of the scale of the bounds: this check is about wrong answers, C01 is about precision"]

import keras
import keras.layers as L
import numpy as np

import decomon.wrapper as W
from decomon.core import BallDomain, BoxDomain
from vlib import dk
from vlib.core import Skip

D = L.Dense
ACTS = ["relu6", "leaky_relu", "elu", "selu", "silu", "gelu", "hard_sigmoid", "mish", "log_softmax", "tanh", "sigmoid", "softsign", "softplus", "exponential", "linear", "softmax", "relu"]


def sin_(t):
    return keras.ops.sin(t)


def negrelu(t):
    return keras.ops.relu(t) - 0.7 * keras.ops.relu(-t)


class MyDense(L.Dense):
    def call(self, x):
        return super().call(x) ** 2


class Twice(L.Layer):
    def call(self, x):
        return 2 * x


def lora(rng, x):
    y = D(4, activation=str(rng.choice(["relu", "linear"])))
    o = y(x)
    y.enable_lora(2)
    return o


def lora2(rng, x):
    return D(4, lora_rank=2, activation=str(rng.choice(["relu", "linear"])))(x)


def r3(x):
    return L.Reshape((2, 4))(x)


def im(x, sh=(2, 2, 2)):
    return L.Reshape(sh)(x)


def act(a):
    return lambda rng, x: L.Activation(a)(D(8)(x)) if rng.random() < 0.5 else D(8, activation=a)(x)


def on3(f):
    return lambda rng, x: L.Flatten()(f(rng)(r3(x)))


def on4(f):
    return lambda rng, x: L.Flatten()(f(rng)(im(x)))


def on1(f):
    return lambda rng, x: f(rng)(x)


def merge(cls, *a, **k):
    def f(rng, x):
        xs = [D(4, activation=str(rng.choice(["relu", "linear", "tanh"])))(x) for _ in range(int(rng.integers(2, 4)) if cls not in (L.Subtract, L.Dot) else 2)]
        if rng.random() < 0.3 and cls not in (L.Dot, L.Concatenate):
            xs[-1] = D(1)(x)
        return cls(*a, **k)(xs)

    return f


EL = {"act:" + a: act(a) for a in ACTS}
EL.update({
    "act:sin": act(sin_), "act:negrelu": act(negrelu), "act:lambda": act(lambda t: -t * 2), "act:ops.relu": act(keras.ops.relu), "act:ops.abs": act(keras.ops.abs),
    "layer:ReLU": on1(lambda r: L.ReLU(**[{}, dict(max_value=1.0), dict(negative_slope=0.3), dict(threshold=0.4)][int(r.integers(4))])),
    "layer:LeakyReLU": on1(lambda r: L.LeakyReLU()), "layer:PReLU": on1(lambda r: L.PReLU()), "layer:ELU": on1(lambda r: L.ELU()), "layer:Softmax": on1(lambda r: L.Softmax()),
    "layer:Softmax3": on3(lambda r: L.Softmax(axis=int(r.integers(1, 3)))), "layer:Lambda": on1(lambda r: L.Lambda(lambda t: t**2)), "layer:own": on1(lambda r: Twice()), "layer:MyDense": on1(lambda r: MyDense(4)),
    "layer:Rescaling": on1(lambda r: L.Rescaling(3.0, 1.0)), "layer:UnitNorm": on1(lambda r: L.UnitNormalization()), "layer:LayerNorm": on1(lambda r: L.LayerNormalization()), "layer:Identity": on1(lambda r: L.Identity()),
    "layer:GaussianNoise": on1(lambda r: L.GaussianNoise(0.2)), "layer:GaussianDropout": on1(lambda r: L.GaussianDropout(0.2)), "layer:AlphaDropout": on1(lambda r: L.AlphaDropout(0.2)),
    "layer:ActivityReg": on1(lambda r: L.ActivityRegularization(0.1)), "layer:Masking": on3(lambda r: L.Masking()), "layer:SpectralNorm": on1(lambda r: L.SpectralNormalization(D(4))), "layer:RepeatVector": lambda r, x: L.Flatten()(L.RepeatVector(2)(x)),
    "3d:Conv1D": on3(lambda r: L.Conv1D(3, 2)), "3d:AveragePooling1D": on3(lambda r: L.AveragePooling1D(2)), "3d:MaxPooling1D": on3(lambda r: L.MaxPooling1D(2)), "3d:GlobalMax": on3(lambda r: L.GlobalMaxPooling1D()),
    "3d:GlobalAverage": on3(lambda r: L.GlobalAveragePooling1D()), "3d:LSTM": on3(lambda r: L.LSTM(3)), "3d:GRU": on3(lambda r: L.GRU(3)), "3d:Cropping": on3(lambda r: L.Cropping1D((1, 0))), "3d:Padding": on3(lambda r: L.ZeroPadding1D(1)),
    "3d:UpSampling": on3(lambda r: L.UpSampling1D(2)), "3d:TimeDistributed": on3(lambda r: L.TimeDistributed(D(3))), "3d:GroupNorm": on3(lambda r: L.GroupNormalization(2)), "3d:Dense": on3(lambda r: D(3, activation="relu")),
    "3d:BN": on3(lambda r: L.BatchNormalization(axis=int(r.integers(1, 3)))), "3d:Permute": on3(lambda r: L.Permute((2, 1))), "3d:SpatialDropout": on3(lambda r: L.SpatialDropout1D(0.3)), "3d:Attention": lambda r, x: L.Flatten()(L.Attention()([r3(x), r3(x)])),
    "4d:Depthwise": on4(lambda r: L.DepthwiseConv2D(2)), "4d:Separable": on4(lambda r: L.SeparableConv2D(3, 2)), "4d:Transpose": on4(lambda r: L.Conv2DTranspose(2, 2)), "4d:AveragePooling": on4(lambda r: L.AveragePooling2D(2)),
    "4d:MaxPooling": on4(lambda r: L.MaxPooling2D(2, strides=1)), "4d:GlobalMax": on4(lambda r: L.GlobalMaxPooling2D()), "4d:GlobalAverage": on4(lambda r: L.GlobalAveragePooling2D(keepdims=bool(r.random() < 0.5))), "4d:Padding": on4(lambda r: L.ZeroPadding2D(1)),
    "4d:Cropping": on4(lambda r: L.Cropping2D(((0, 1), (0, 0)))), "4d:UpSampling": on4(lambda r: L.UpSampling2D(2)), "4d:BN": on4(lambda r: L.BatchNormalization(axis=int(r.integers(1, 4)))), "4d:ConvGroups": on4(lambda r: L.Conv2D(4, 2, groups=2, activation=str(r.choice(["relu", "linear"])))),
    "4d:ConvDilated": on4(lambda r: L.Conv2D(2, 2, dilation_rate=2, padding="same")), "4d:Flatten": on4(lambda r: L.Dense(2)), "4d:SpatialDropout": on4(lambda r: L.SpatialDropout2D(0.2)), "5d:MaxPooling3D": lambda r, x: L.Flatten()(L.MaxPooling3D(2)(L.Reshape((2, 2, 2, 1))(x))),
    "5d:Conv3D": lambda r, x: L.Flatten()(L.Conv3D(2, 2)(L.Reshape((2, 2, 2, 1))(x))), "lora": lora, "lora_rank": lora2,
    "op:add": lambda r, x: D(4)(x) + D(4)(x), "op:scale": lambda r, x: D(4)(x) * 2.5, "op:neg": lambda r, x: -D(4)(x), "op:slice": lambda r, x: D(4)(x)[:, 1:3], "op:relu": lambda r, x: keras.ops.relu(D(4)(x)), "op:abs": lambda r, x: keras.ops.abs(D(4)(x)),
    "op:concat": lambda r, x: keras.ops.concatenate([D(4)(x), D(2)(x)], -1), "op:reshape": lambda r, x: L.Flatten()(keras.ops.reshape(x, (-1, 2, 4))), "op:transpose": lambda r, x: L.Flatten()(keras.ops.transpose(r3(x), (0, 2, 1))), "op:max": lambda r, x: keras.ops.max(r3(x), 1),
    "merge:Add": merge(L.Add), "merge:Subtract": merge(L.Subtract), "merge:Multiply": merge(L.Multiply), "merge:Average": merge(L.Average), "merge:Maximum": merge(L.Maximum), "merge:Minimum": merge(L.Minimum),
    "merge:Concatenate": merge(L.Concatenate, axis=-1), "merge:Dot": merge(L.Dot, axes=1), "merge:DotNorm": merge(L.Dot, axes=1, normalize=True), "bn": on1(lambda r: L.BatchNormalization(epsilon=0.3)), "dropout": on1(lambda r: L.Dropout(0.5, noise_shape=(None, 1))),
    "nested:softmax": lambda r, x: sub(r, lambda a: D(4, activation="softmax")(a), x), "nested:softmax-layer": lambda r, x: sub(r, lambda a: L.Softmax()(D(4)(a)), x), "nested:softmax-act": lambda r, x: sub(r, lambda a: L.Activation("softmax")(D(4)(a)), x),
})
NAMES = sorted(EL)
REQ = ["method", "slope", "p-conversion", "p-query", "inverted-range", "inverted-adv", "inverted-check", "two-inputs", "image-input", "domain-type", "not-a-model", "subclassed", "region-shape"]


def sub(rng, f, x):
    a = L.Input(tuple(x.shape[1:]))
    return keras.Model(a, f(a))(x)


def gen_case(rng, tier, i, backend):
    if i % 6 == 5:
        return dict(req=REQ[int(rng.integers(len(REQ)))], nseed=int(rng.integers(1 << 30)))
    return dict(el=NAMES[int(rng.integers(len(NAMES)))], place=str(rng.choice(["first", "middle", "middle", "nested", "sequential", "twice", "last"])), nseed=int(rng.integers(1 << 30)), slope=str(rng.choice(dk.SLOPES)))


def randomize(m, rng):
    for w in m.weights:
        if not w.dtype.startswith("float"):
            continue
        v = rng.normal(0, 1, w.shape)
        w.assign((np.abs(v) + 0.1 if "variance" in w.path else v).astype("float32"))


def network(case, rng):
    f, n = EL[case["el"]], 8
    x = L.Input((n,))
    h = x
    pl = case["place"]
    hid = lambda h: D(8, activation=str(rng.choice(["relu", "tanh", "linear"])))(h)
    if pl != "first":
        h = hid(h)
    if pl == "nested":
        h = sub(rng, lambda a: f(rng, D(8)(a)), h)
    elif pl == "sequential":
        a = L.Input((8,))
        h = keras.Sequential([keras.Model(a, f(rng, a))])(h)
    elif pl == "twice":
        a = L.Input((8,))
        s = keras.Model(a, D(8)(f(rng, a)))
        h = s(hid(s(h)))
    else:
        h = f(rng, h)
    if len(h.shape) != 2:
        h = L.Flatten()(h)
    if pl != "last" or "softmax" in case["el"].lower():
        h = D(2)(h)
        if rng.random() < 0.4:
            h = L.Activation("relu")(h)
    m = keras.Model(x, h)
    randomize(m, rng)
    return m


def judge(mon, m, d, reg, rng, **info):
    """the answer of d on the region must enclose the network"""
    nb = reg.nb
    o = [np.asarray(a, "float64") for a in dk.outputs(d, reg.z())]
    X = reg.samples(rng, 160)
    Y = dk.fw(m, X)
    ok = True
    if len(o) in (2, 7):
        u, l = (o[0], o[1]) if len(o) == 2 else (o[1], o[4])
        sc = 1 + max(np.abs(u).max(), np.abs(l).max())
        if not np.isfinite(sc):
            return "overflow"
        ok &= mon.le(Y, u.reshape(nb, 1, -1), "accepted-but-wrong", scale=sc, tol=1e-3, kind="upper", **info)
        ok &= mon.le(l.reshape(nb, 1, -1), Y, "accepted-but-wrong", scale=sc, tol=1e-3, kind="lower", **info)
    if len(o) >= 5:
        wu, bu, wl, bl = o[1:5] if len(o) == 5 else (o[2], o[3], o[5], o[6])
        sc = 1 + max(np.abs(v).max() for v in (wu, bu, wl, bl)) * (1 + np.abs(X).max())
        if not np.isfinite(sc):
            return "overflow"
        for w, b, s in ((wu, bu, 1), (wl, bl, -1)):
            g = np.einsum("bkn,bno->bko", X.astype("float64"), w.reshape(nb, w.shape[1], -1)) + b.reshape(nb, 1, -1)
            ok &= mon.le(s * Y, s * g, "accepted-but-wrong", scale=sc, tol=1e-3, kind="affine upper" if s == 1 else "affine lower", **info)
    return "sound" if ok else "wrong"


def run(case, mon):
    rng = np.random.default_rng(case["nseed"])
    if "req" in case:
        return request(case, mon, rng)
    try:
        m = network(case, rng)
        dk.fw(m, rng.normal(0, 1, (1, 2, 8)).astype("float32"))
    except Skip:
        raise
    except Exception as e:  # plain keras refuses this combination
        raise Skip(f"keras: {type(e).__name__}")
    w0 = [dk.np_(w.value).copy() for w in m.weights]
    for me in dk.METHODS:
        reg = dk.Region.make(rng, 8, 4, r_max=0.5)
        info = dict(element=case["el"], place=case["place"], method=me, region=reg.kind)
        try:
            d = dk.clone(m, method=me, slope=case["slope"], perturbation_domain=reg.domain())
        except Exception as e:
            mon.events["refused_at_conversion"] += 1
            mon.tag(case.get("backend"), case["el"], case["place"], me, "refused")
            continue
        try:
            dk.outputs(d, reg.z())
        except Exception as e:
            mon.events["refused_at_query"] += 1
            mon.tag(case.get("backend"), case["el"], case["place"], me, "refused-query")
            continue
        out = judge(mon, m, d, reg, rng, **info)
        mon.events["accepted_" + out] += 1
        mon.tag(case.get("backend"), case["el"], case["place"], me, out)
    for a, w in zip(w0, m.weights):
        mon.true(np.array_equal(a, dk.np_(w.value)), "network-changed", element=case["el"])


def request(case, mon, rng):
    r = case["req"]
    x = L.Input((4,))
    m = keras.Model(x, D(3)(D(5, activation="relu")(x)))
    randomize(m, rng)
    lo = rng.normal(0, 1, (5, 4)).astype("float32")
    hi = lo + rng.random((5, 4)).astype("float32")
    me = str(rng.choice(dk.METHODS))
    d = dk.clone(m, method=me)
    j = (int(rng.integers(5)), int(rng.integers(4)))
    bad = hi.copy()
    bad[j] = lo[j] - 0.5
    model = [m, d][int(rng.integers(2))]
    lab = np.array([0, 1, 2, 0, 1])

    def two():
        a, b = L.Input((3,)), L.Input((3,))
        return dk.clone(keras.Model([a, b], L.Add()([D(2)(a), D(2)(b)])), method=me)

    def image():
        a = L.Input((3, 2))
        return dk.clone(keras.Model(a, D(2)(L.Flatten()(a))), method=me)

    class Own(keras.Model):
        def __init__(self):
            super().__init__()
            self.l = D(2)

        def call(self, z):
            return self.l(z)

    def subclassed():
        o = Own()
        o(dk.T(lo))
        return dk.clone(o, method=me)

    def ballp():
        b = dk.clone(m, method=me, perturbation_domain=BallDomain(eps=0.3, p=float(rng.choice([0, -1, 1.5, 0.5]))))
        return W.get_range_noise(b, lo, eps=0.3, p=3)

    def queryp():
        b = dk.clone(m, method=me, perturbation_domain=BallDomain(eps=0.3, p=2))
        return W.get_range_noise(b, lo, eps=0.3, p=float(rng.choice([0, -1, 1.5, 0.5])))

    f = {
        "method": lambda: dk.clone(m, method=str(rng.choice(["crwn", "forward", "ibp", "backward", ""]))),
        "slope": lambda: dk.outputs(dk.clone(m, method=me, slope=str(rng.choice(["slope", "v", "one", "zero_lb"]))), np.stack([lo, hi], 1)),
        "p-conversion": ballp, "p-query": queryp,
        "inverted-range": lambda: W.get_range_box(model, lo, bad), "inverted-adv": lambda: W.get_adv_box(model, lo, bad, lab), "inverted-check": lambda: W.check_adv_box(model, lo, bad, lab),
        "two-inputs": two, "image-input": image, "domain-type": lambda: d.set_domain(BallDomain(eps=0.1)),
        "not-a-model": lambda: dk.clone(m.layers[-1], method=me), "subclassed": subclassed,
        "region-shape": lambda: dk.outputs(d, np.concatenate([lo, hi], 1)[:, None, :]),
    }[r]
    if r == "slope" and me == "forward-ibp":
        raise Skip("slopes are not used")
    try:
        out = f()
    except Exception as e:
        mon.events["requests_refused"] += 1
        mon.true(True, "refused")
        mon.tag(case.get("backend"), "request", r, me, type(e).__name__)
        return
    mon.fail("accepted-invalid-request", request=r, method=me)
