"""Random Keras networks, described by JSON specs so that every case can be replayed.

A spec is {"n_in", "nodes": [...], "wseed", "wscale"}; node 0 is the (flat) input, node i>0 is
nodes[i-1], whose "in" lists the node ids it reads.  The last node is the output.
"""
import keras
import numpy as np
from keras import layers as L

ACTS_EXACT = ["relu", "linear"]
ACTS_SHAPE = ["sigmoid", "tanh", "softsign"]


def build(spec):
    tag = spec.get("tag", "m")
    x = x_layer(spec, tag)
    vals = [x]
    shared = {}
    for i, nd in enumerate(spec["nodes"]):
        if i == 0 and spec.get("img_in"):
            vals.append(x)
            continue
        ins = [vals[j] for j in nd["in"]]
        nm = nd.get("nm") or f"{tag}_{i}_{nd['op']}"
        op = nd["op"]
        share = nd.get("share")
        if share is not None and share in shared:
            lay = shared[share]
        else:
            lay = make_layer(nd, nm)
            if share is not None:
                shared[share] = lay
        if op in ("sub",):
            sub = build(dict(nd["spec"], n_in=int(ins[0].shape[-1]), tag=nm))
            lay = sub
        out = lay(ins[0] if len(ins) == 1 else ins)
        vals.append(out)
    if spec.get("sequential"):
        model = keras.Sequential([x_layer(spec, tag + "s")] + [make_layer(nd, nd.get("nm") or f"{tag}_{i}_{nd['op']}") for i, nd in enumerate(spec["nodes"])], name=tag)
    else:
        model = keras.Model(x, vals[-1], name=tag)
    if "wseed" in spec:
        set_weights(model, spec)
    return model


def x_layer(spec, tag):
    shape = tuple(spec["nodes"][0]["shape"]) if spec.get("img_in") else (spec["n_in"],)
    return L.Input(shape, name=f"{tag}_in")


def make_layer(nd, nm):
    op = nd["op"]
    act = nd.get("act")
    if act and nd.get("actlay"):
        act = L.Activation(act)  # an activation layer embedded in the layer
    if op == "dense":
        return L.Dense(nd["units"], activation=act, use_bias=nd.get("bias", True), name=nm)
    if op == "conv":
        return L.Conv2D(
            nd["filters"], nd["kernel"], strides=nd.get("strides", 1), padding=nd.get("padding", "valid"),
            dilation_rate=nd.get("dilation", 1), activation=act, use_bias=nd.get("bias", True),
            data_format=nd.get("df", "channels_last"), name=nm)
    if op == "act":
        return L.Activation(nd["act"], name=nm)
    if op == "bn":
        return L.BatchNormalization(axis=nd.get("axis", -1), center=nd.get("center", True), scale=nd.get("scale", True),
                                    epsilon=nd.get("epsilon", 1e-3), name=nm)
    if op == "dropout":
        return L.Dropout(0.3, name=nm)
    if op == "flatten":
        return L.Flatten(name=nm, **({"data_format": nd["df"]} if "df" in nd else {}))
    if op == "reshape":
        return L.Reshape(tuple(nd["shape"]), name=nm)
    if op == "permute":
        return L.Permute(tuple(nd["dims"]), name=nm)
    if op == "maxpool":
        return L.MaxPooling2D(nd["pool"], strides=nd.get("strides"), padding=nd.get("padding", "valid"), name=nm,
                              data_format=nd.get("df", "channels_last"))
    if op == "add":
        return L.Add(name=nm)
    if op == "subtract":
        return L.Subtract(name=nm)
    if op == "average":
        return L.Average(name=nm)
    if op == "maximum":
        return L.Maximum(name=nm)
    if op == "minimum":
        return L.Minimum(name=nm)
    if op == "multiply":
        return L.Multiply(name=nm)
    if op == "concat":
        return L.Concatenate(axis=nd.get("axis", -1), name=nm)
    if op == "dot":
        return L.Dot(axes=nd.get("axes", 1), name=nm)
    if op == "sub":
        return None
    raise ValueError(op)


def all_layers(model):
    for lay in model.layers:
        if isinstance(lay, keras.Model):
            yield from all_layers(lay)
        else:
            yield lay


def set_weights(model, spec):
    rng = np.random.default_rng(spec["wseed"])
    sc = spec.get("wscale", 1.0)
    seen = set()
    for lay in all_layers(model):
        if id(lay) in seen:
            continue
        seen.add(id(lay))
        if isinstance(lay, L.BatchNormalization):
            ws = []
            for w in lay.weights:
                n = w.name if hasattr(w, "name") else str(w.path)
                if "variance" in n:
                    ws.append(rng.uniform(0.2, 3.0, w.shape))
                else:
                    v = rng.normal(0, 1, w.shape)
                    ws.append(v)
            lay.set_weights([a.astype("float32") for a in ws])
        elif lay.weights:
            ws = []
            for w in lay.weights:
                sh = tuple(w.shape)
                if len(sh) >= 2:
                    fan = int(np.prod(sh[:-1]))
                    a = rng.normal(0, sc / np.sqrt(fan), sh)
                    mode = spec.get("wmode", "gauss")
                    if mode == "sparse":
                        a = a * (rng.random(sh) < 0.5) * 1.5
                    elif mode == "int":
                        a = np.round(a * 2)
                    elif mode == "pos":
                        a = np.abs(a)
                    elif mode == "neg":
                        a = -np.abs(a)
                else:
                    a = rng.normal(0, spec.get("bscale", 0.5), sh)
                ws.append(a.astype("float32"))
            lay.set_weights(ws)


# ------------------------------------------------------------------ spec generators
def dim(rng, a, b, extra=5, p=0.06):
    """a size in [a, b), from time to time a larger one: in [b, b + extra)"""
    return int(rng.integers(b, b + extra)) if rng.random() < p else int(rng.integers(a, b))


def rnd_act(rng, acts):
    return str(rng.choice(acts))


def mlp(rng, acts, n_in=None, n_out=None, depth=None, wide=6):
    n_in = n_in or dim(rng, 1, 6, 8)
    depth = depth or dim(rng, 1, 4, 3)
    nodes = []
    cur = 0
    for d in range(depth):
        a = rnd_act(rng, acts)
        nodes.append(dict(op="dense", units=dim(rng, 1, wide + 1), bias=bool(rng.random() < 0.8), **{"in": [cur]}))
        cur += 1
        style = rng.random()
        if style < 0.5:
            nodes[-1]["act"] = a
        else:
            if rng.random() < 0.3:
                nodes.append(dict(op="bn", **{"in": [cur]}))
                cur += 1
            nodes.append(dict(op="act", act=a, **{"in": [cur]}))
            cur += 1
        if rng.random() < 0.1:
            nodes.append(dict(op="dropout", **{"in": [cur]}))
            cur += 1
    nodes.append(dict(op="dense", units=n_out or dim(rng, 1, 4), bias=True, **{"in": [cur]}))
    if rng.random() < 0.25:
        nodes[-1]["act"] = rnd_act(rng, acts)
    return finish(rng, dict(n_in=n_in, nodes=nodes))


def finish(rng, spec):
    spec["wseed"] = int(rng.integers(1 << 30))
    spec["wscale"] = float(rng.choice([0.5, 1.0, 1.5, 2.5]))
    spec["wmode"] = str(rng.choice(["gauss", "gauss", "gauss", "sparse", "int"]))
    if rng.random() < 0.12:
        for nd in spec["nodes"]:
            if nd["op"] in ("dense", "conv") and nd.get("act") and rng.random() < 0.7:
                nd["actlay"] = True
    return spec


def cnn(rng, acts, df="channels_last", pool=False, square=False, permute=True, same_strides=True):
    h, w, c = dim(rng, 3, 6, 3), dim(rng, 3, 6, 3), dim(rng, 1, 3, 2)
    if square:
        w = h
    cl = df == "channels_last"
    n_in = h * w * c
    nodes = [dict(op="reshape", shape=[h, w, c] if cl else [c, h, w], **{"in": [0]})]
    cur = 1
    ops = dim(rng, 1, 3, 1)
    for _ in range(ops):
        kh = int(rng.integers(1, 4))
        kw = kh if square else int(rng.integers(1, 4))
        stride = int(rng.integers(1, 3))
        padding = str(rng.choice(["valid", "same"]))
        if stride > 1 and not same_strides:
            padding = "valid"
        st, dil = [stride, stride], [1, 1]
        z = rng.random()
        if z < 0.15 and not same_strides and not square:
            st = [int(v) for v in rng.integers(1, 4, 2)]
            padding = "valid"
        elif z < 0.3 and stride == 1:
            dil = [2, 2] if same_strides or square else [int(v) for v in rng.integers(1, 4, 2)]
        if padding == "valid":
            kh, kw = min(kh, h), min(kw, w)
            kh, kw = (1 if dil[0] * (kh - 1) >= h else kh), (1 if dil[1] * (kw - 1) >= w else kw)
        a = rnd_act(rng, acts)
        nd = dict(op="conv", filters=int(rng.integers(1, 4)), kernel=[kh, kw], strides=st, padding=padding, dilation=dil,
                  bias=bool(rng.random() < 0.8), df=df, **{"in": [cur]})
        nodes.append(nd)
        cur += 1
        if rng.random() < 0.5:
            nd["act"] = a
        else:
            if rng.random() < 0.3:
                nodes.append(dict(op="bn", axis=-1 if cl else 1, **{"in": [cur]}))
                cur += 1
            nodes.append(dict(op="act", act=a, **{"in": [cur]}))
            cur += 1
        if padding == "valid":
            h, w = (h - dil[0] * (kh - 1) - 1) // st[0] + 1, (w - dil[1] * (kw - 1) - 1) // st[1] + 1
        else:
            h, w = -(-h // st[0]), -(-w // st[1])
        c = nd["filters"]
    if pool and h >= 2 and w >= 2:
        nodes.append(dict(op="maxpool", pool=[2, 2], strides=[int(rng.integers(1, 3))] * 2, padding="valid", df=df, **{"in": [cur]}))
        cur += 1
    if permute and rng.random() < 0.3:
        nodes.append(dict(op="permute", dims=[int(v) for v in rng.permutation([1, 2, 3])], **{"in": [cur]}))
        cur += 1
    nodes.append(dict(op="flatten", **{"in": [cur]}))
    cur += 1
    nodes.append(dict(op="dense", units=int(rng.integers(1, 4)), bias=True, **{"in": [cur]}))
    return finish(rng, dict(n_in=n_in, nodes=nodes))


def dag(rng, acts, merges, n_in=None):
    """residual-like graphs with merge nodes"""
    n_in = n_in or dim(rng, 1, 5)
    k = dim(rng, 2, 5)
    nodes = [dict(op="dense", units=k, act=rnd_act(rng, acts), **{"in": [0]})]
    pool = [1]
    if n_in == k:
        pool.append(0)
    cur = 1
    for _ in range(int(rng.integers(2, 6))):
        if rng.random() < 0.5:
            src = int(rng.choice(pool))
            nodes.append(dict(op="dense", units=k, act=rnd_act(rng, acts), bias=bool(rng.random() < 0.8), **{"in": [src]}))
        else:
            m = str(rng.choice(merges))
            nin = 2 if m in ("subtract",) else dim(rng, 2, 4, 3)
            srcs = [int(rng.choice(pool)) for _ in range(nin)]
            if len(set(srcs)) == 1 and len(pool) > 1:
                srcs[0] = [p for p in pool if p != srcs[0]][0]
            if m == "concat":
                nodes.append(dict(op="concat", axis=-1, **{"in": srcs}))
                cur += 1
                nodes.append(dict(op="dense", units=k, act=rnd_act(rng, acts), **{"in": [cur]}))
            else:
                nodes.append(dict(op=m, **{"in": srcs}))
        cur += 1
        pool.append(cur)
    nodes.append(dict(op="dense", units=int(rng.integers(1, 4)), **{"in": [cur]}))
    return finish(rng, dict(n_in=n_in, nodes=prune(nodes)))


def prune(nodes):
    need = {len(nodes)}
    for i in range(len(nodes), 0, -1):
        if i in need:
            need.update(nodes[i - 1]["in"])
    keep = sorted(need | {0})
    remap = {o: n for n, o in enumerate(keep)}
    return [dict(nodes[o - 1], **{"in": [remap[j] for j in nodes[o - 1]["in"]]}) for o in keep if o > 0]


# ------------------------------------------------------------------ input regions
def boxes(rng, n, nb, kind=None):
    """nb boxes in R^n: (lo, hi) float32, of varied size, position and degeneracy"""
    c = rng.normal(0, 1.5, (nb, n))
    r = np.exp(rng.uniform(np.log(0.01), np.log(2.0), (nb, 1))) * rng.uniform(0.3, 1.0, (nb, n))
    for b in range(nb):
        z = rng.random()
        if z < 0.12:
            r[b] = 0.0
        elif z < 0.3:
            r[b] *= rng.random(n) < 0.6
        elif z < 0.45:
            c[b] = np.where(rng.random(n) < 0.5, r[b], -r[b])  # touches 0
        elif z < 0.55:
            c[b] = 0.0
    lo = (c - r).astype("float32")
    hi = (c + r).astype("float32")
    return lo, np.maximum(lo, hi)


def samples(rng, lo, hi, k):
    """(nb, k, n) points inside the boxes: corners, centre, faces, interior"""
    nb, n = lo.shape
    t = rng.random((nb, k, n))
    m = rng.random((nb, k, 1))
    corner = np.round(t)
    t = np.where(m < 0.45, corner, np.where(m < 0.6, np.where(rng.random((nb, k, n)) < 0.5, corner, t), t))
    t[:, 0] = 0.5
    t[:, 1] = 0.0
    t[:, 2] = 1.0
    lo64, hi64 = lo[:, None].astype("float64"), hi[:, None].astype("float64")
    x = (lo64 + t * (hi64 - lo64)).astype(lo.dtype)
    return np.clip(x, lo[:, None], hi[:, None])
