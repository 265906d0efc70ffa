"""Random networks shared by the model-level checks."""
import os

from vlib import dk, gen


def gen_family(rng, backend):
    if os.environ.get("VLIB_FAM"):
        return os.environ["VLIB_FAM"]
    fams = ["mlp", "mlp", "cnn", "cnnpool", "dag", "dag", "special", "special", "special", "chain", "chain", "graph"] + (["cnnc1"] if backend == "torch" else [])
    return str(rng.choice(fams))


def d(op, i, **kw):
    return dict(op=op, **{"in": i if isinstance(i, list) else [i]}, **kw)


def ri(rng, a, b):
    return int(rng.integers(a, b))


def special(rng, kind, backend):
    """(spec, "all" | "fwd"): structures that the regular families do not contain"""
    n, k = ri(rng, 2, 5), ri(rng, 2, 5)
    act = lambda: str(rng.choice(["relu", "tanh", "sigmoid", "softplus", "softsign"]))
    which = "all"
    fix = {}
    if kind == "softmax_mid":
        nodes = [d("dense", 0, units=k, act=act()), d("dense", 1, units=k), d("act", 2, act="softmax"), d("dense", 3, units=2)]
        which, fix = "fwd", dict(wscale=float(rng.choice([0.3, 0.6, 1.0])), wmode="gauss")
    elif kind == "expo":
        nodes = [d("dense", 0, units=k, act="exponential"), d("dense", 1, units=2)]
        which, fix = "fwd", dict(wscale=0.5, wmode="gauss")
    elif kind == "shared":
        a = act()
        nodes = [d("dense", 0, units=k, act=a), d("dense", 1, units=k, act=a, share="s"), d("dense", 2, units=k, act=a, share="s"),
                 d("dense", 3, units=2)]
    elif kind == "shared_dag":
        a = act()
        nodes = [d("dense", 0, units=k, act="relu"), d("dense", 1, units=k), d("dense", 1, units=k, act=a, share="s"),
                 d("dense", 2, units=k, act=a, share="s"), d(str(rng.choice(["add", "maximum", "subtract"])), [3, 4]), d("dense", 5, units=2)]
        which = "fwd"
    elif kind == "nested":
        sub = dict(nodes=[d("dense", 0, units=k, act=act()), d("dense", 1, units=k)], sequential=bool(rng.random() < 0.5))
        nodes = [d("dense", 0, units=k, act="relu"), d("sub", 1, spec=sub), d("act", 2, act=act()), d("dense", 3, units=2)]
    elif kind == "nested2":
        inner = dict(nodes=[d("dense", 0, units=k), d("act", 1, act=act())])
        sub = dict(nodes=[d("dense", 0, units=k, act=act()), d("sub", 1, spec=inner)])
        nodes = [d("sub", 0, spec=sub), d("dense", 1, units=2)]
    elif kind == "nested_dag":
        sub = dict(nodes=[d("dense", 0, units=k, act=act()), d("dense", 0, units=k), d("add", [1, 2])])
        nodes = [d("dense", 0, units=k, act="relu"), d("sub", 1, spec=sub), d("act", 2, act=act()), d("dense", 3, units=2)]
        which = "fwd"
    elif kind == "sequential":
        spec = gen.mlp(rng, dk.ACT_CROWN)
        spec["sequential"] = True
        return spec, "all"
    elif kind == "bn":
        nodes = [d("bn", 0, center=bool(rng.random() < 0.7), scale=bool(rng.random() < 0.7)), d("dense", 1, units=k), d("bn", 2),
                 d("act", 3, act=act()), d("dense", 4, units=2), d("bn", 5, scale=bool(rng.random() < 0.7))]
    elif kind == "dot":
        nodes = [d("dense", 0, units=k, act=act()), d("dense", 0, units=k), d("dot", [1, 2], axes=1)]
        which = "fwd"
    elif kind == "convdag":
        h, w, c = ri(rng, 2, 4), ri(rng, 2, 4), ri(rng, 1, 3)
        n = h * w * c
        f = ri(rng, 1, 3)
        op = str(rng.choice(["add", "subtract", "average", "maximum", "minimum", "multiply", "concat"]))
        kw = dict(axis=ri(rng, 1, 4)) if op == "concat" else {}
        nodes = [d("reshape", 0, shape=[h, w, c]), d("conv", 1, filters=f, kernel=[2, 2], padding="same", act=act()),
                 d("conv", 1, filters=f, kernel=[1, 2], padding="same"), d(op, [2, 3], **kw), d("act", 4, act=act()),
                 d("flatten", 5), d("dense", 6, units=2)]
        which = "fwd"
    elif kind == "image_out":
        h, w, c = ri(rng, 2, 5), ri(rng, 2, 5), ri(rng, 1, 3)
        n = h * w * c
        nodes = [d("reshape", 0, shape=[h, w, c]), d("conv", 1, filters=2, kernel=[2, 1], padding="same", act=act()),
                 d("permute", 2, dims=[int(v) for v in rng.permutation([1, 2, 3])]), d("act", 3, act=act()), d("flatten", 4)]
    elif kind == "reshapes":
        nodes = [d("dense", 0, units=6, act=act()), d("reshape", 1, shape=[2, 3]), d("permute", 2, dims=[2, 1]), d("act", 3, act=act()),
                 d("dropout", 4), d("flatten", 5), d("dense", 6, units=2)]
    elif kind == "one_layer":
        nodes = [d("dense", 0, units=k, bias=bool(rng.random() < 0.6))]
        if rng.random() < 0.6:
            nodes[0]["act"] = act()
    elif kind == "act_first":
        nodes = [d("act", 0, act=act()), d("dense", 1, units=k), d("act", 2, act=act())]
    elif kind == "act_act":
        nodes = [d("dense", 0, units=k, act=act()), d("act", 1, act=act()), d("act", 2, act=act()), d("dense", 3, units=2)]
    else:
        raise ValueError(kind)
    return dict(gen.finish(rng, dict(n_in=n, nodes=nodes)), **fix), which


def size(sh):
    r = 1
    for v in sh:
        r *= v
    return r


def chain(rng, backend, n_steps=None):
    """random chain of layers over tensors of one to three axes; (nodes, n_in, pooled)"""
    sh = tuple(ri(rng, 1, 4) for _ in range(ri(rng, 1, 4)))
    n_in = size(sh)
    nodes, cur, pooled = [], 0, False
    if len(sh) > 1:
        nodes.append(d("reshape", 0, shape=list(sh)))
        cur = 1
    acts = ["relu", "relu", "tanh", "sigmoid", "softplus", "softsign", "linear"]
    heavy = 0
    for _ in range(n_steps or ri(rng, 2, 7)):
        ops = ["dense", "act", "bn", "reshape", "dropout", "flatten"] + (["permute"] if len(sh) > 1 else []) + (["conv", "conv"] if len(sh) == 3 else [])
        if len(sh) == 3 and rng.random() < 0.3 and sh[0] > 1 and sh[1] > 1:
            ops = ["maxpool"]
        op = str(rng.choice(ops))
        if op in ("act", "maxpool"):
            if heavy >= 3:
                continue
            heavy += 1
        if op == "dense":
            nd = d("dense", cur, units=ri(rng, 1, 5), bias=bool(rng.random() < 0.7))
            if rng.random() < 0.4 and heavy < 3:
                nd["act"] = str(rng.choice(acts))
                heavy += 1
            sh = sh[:-1] + (nd["units"],)
        elif op == "act":
            nd = d("act", cur, act=str(rng.choice(acts)))
        elif op == "bn":
            nd = d("bn", cur, axis=int(rng.choice([-1] + list(range(1, len(sh) + 1)))), center=bool(rng.random() < 0.7), scale=bool(rng.random() < 0.7))
        elif op == "reshape":
            f = size(sh)
            div = [v for v in range(1, f + 1) if f % v == 0]
            a = int(rng.choice(div))
            div = [v for v in div if (f // a) % v == 0]
            b = int(rng.choice(div))
            sh = [(f,), (a, f // a), (a, b, f // a // b)][ri(rng, 0, 3)]
            nd = d("reshape", cur, shape=list(sh))
        elif op == "dropout":
            nd = d("dropout", cur)
        elif op == "flatten":
            nd = d("flatten", cur)
            sh = (size(sh),)
        elif op == "permute":
            perm = [int(v) for v in rng.permutation(len(sh))]
            nd = d("permute", cur, dims=[v + 1 for v in perm])
            sh = tuple(sh[v] for v in perm)
        elif op == "conv":
            pad = str(rng.choice(["valid", "same"]))
            k = [ri(rng, 1, 3) if pad == "same" else ri(rng, 1, min(3, sh[i] + 1)) for i in (0, 1)]
            nd = d("conv", cur, filters=ri(rng, 1, 4), kernel=k, padding=pad, bias=bool(rng.random() < 0.7))
            if rng.random() < 0.4 and heavy < 3:
                nd["act"] = str(rng.choice(acts))
                heavy += 1
            hw = sh[:2] if pad == "same" else (sh[0] - k[0] + 1, sh[1] - k[1] + 1)
            sh = tuple(hw) + (nd["filters"],)
        else:
            nd = d("maxpool", cur, pool=[2, 2], strides=[1, 1])
            sh = (sh[0] - 1, sh[1] - 1, sh[2])
            pooled = True
        if size(sh) > 40:
            break
        nodes.append(nd)
        cur += 1
    if not nodes or rng.random() < 0.8 or len(sh) > 1:
        if len(sh) > 1:
            nodes.append(d("flatten", cur))
            cur += 1
        if rng.random() < 0.8 or not nodes:
            nodes.append(d("dense", cur, units=ri(rng, 1, 4)))
    return nodes, n_in, pooled


def graph(rng, backend):
    """random graph over tensors of two or three axes with merge nodes; (nodes, n_in)"""
    sh = tuple(ri(rng, 1, 4) for _ in range(ri(rng, 2, 4)))
    n_in = size(sh)
    nodes = [d("reshape", 0, shape=list(sh))]
    shapes = {1: sh}
    acts = ["relu", "relu", "tanh", "sigmoid", "linear"]
    heavy = 0
    for _ in range(ri(rng, 4, 8)):
        src = ri(rng, 1, len(nodes) + 1)
        s = shapes[src]
        same = [j for j in shapes if shapes[j] == s]
        if len(same) > 1 and rng.random() < 0.5:
            op = str(rng.choice(["add", "subtract", "average", "maximum", "minimum", "multiply", "concat"]))
            k = 2 if op == "subtract" else ri(rng, 2, 4)
            ins = [int(v) for v in rng.choice(same, k, replace=k > len(same))]
            nd = d(op, ins)
            if op == "concat":
                ax = ri(rng, 1, len(s) + 1)
                nd["axis"] = ax if rng.random() < 0.6 else ax - len(s) - 1
                o = list(s)
                o[ax - 1] *= k
                s = tuple(o)
        elif rng.random() < 0.35:
            if heavy >= 4:
                continue
            heavy += 1
            nd = d("act", src, act=str(rng.choice(acts)))
        elif rng.random() < 0.25:
            perm = [int(v) for v in rng.permutation(len(s))]
            nd = d("permute", src, dims=[v + 1 for v in perm])
            s = tuple(s[v] for v in perm)
        elif len(s) == 3 and rng.random() < 0.5:
            nd = d("conv", src, filters=s[2], kernel=[ri(rng, 1, 3), ri(rng, 1, 3)], padding="same", bias=bool(rng.random() < 0.7))
        else:
            nd = d("dense", src, units=s[-1], bias=bool(rng.random() < 0.7))
        if size(s) > 40:
            continue
        nodes.append(nd)
        shapes[len(nodes)] = s
    # join everything unused
    used = {j for nd in nodes for j in nd["in"]}
    outs = []
    for j in range(1, len(nodes) + 1):
        if j not in used:
            nodes.append(d("flatten", j))
            outs.append(len(nodes))
    if len(outs) > 1:
        nodes.append(d("concat", outs, axis=-1))
    nodes.append(d("dense", len(nodes), units=ri(rng, 1, 3)))
    return nodes, n_in


SPECIALS = ["softmax_mid", "expo", "shared", "shared_dag", "nested", "nested2", "nested_dag", "sequential", "bn", "dot", "convdag", "image_out",
            "reshapes", "one_layer", "act_first", "act_act"]


def make_spec(rng, backend, fam):
    if fam == "special":
        fam = str(rng.choice(SPECIALS))
    if fam == "chain":
        nodes, n, pooled = chain(rng, backend)
        spec, which = gen.finish(rng, dict(n_in=n, nodes=nodes)), "fwd" if pooled else "all"
    elif fam == "graph":
        nodes, n = graph(rng, backend)
        spec, which = gen.finish(rng, dict(n_in=n, nodes=nodes)), "fwd"
    elif fam in SPECIALS:
        spec, which = special(rng, fam, backend)
    else:
        spec, which = dk.spec_gen(rng, fam, dk.ACT_CROWN, backend), ("fwd" if fam in ("dag", "cnnpool") else "all")
    return spec, which
