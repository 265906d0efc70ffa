"""Rewritings of a network spec that do not change the function it computes; every weighted node keeps a key ("key") by which weights are copied."""
import copy

import numpy as np

from vlib import gen


def annotate(spec, tag="m"):
    """explicit names on every node; weighted nodes get a key naming the weights they use"""
    spec = copy.deepcopy(spec)
    first = {}
    for i, nd in enumerate(spec["nodes"]):
        nm = f"{tag}_{i}_{nd['op']}"
        nd["nm"] = nd["key"] = nm
        if nd.get("share") is not None:
            nd["nm"] = nd["key"] = first.setdefault(nd["share"], nm)
        if nd["op"] == "sub":
            nd["spec"] = annotate(nd["spec"], nm)
    return spec


def flat_nodes(spec):
    for nd in spec["nodes"]:
        if nd["op"] == "sub":
            yield from flat_nodes(nd["spec"])
        else:
            yield nd


def weights_of(spec, model):
    by = {lay.name: lay for lay in gen.all_layers(model)}
    return {nd["key"]: by[nd["nm"]].get_weights() for nd in flat_nodes(spec) if nd["nm"] in by and by[nd["nm"]].weights}


def put_weights(spec, model, W):
    by = {lay.name: lay for lay in gen.all_layers(model)}
    for nd in flat_nodes(spec):
        lay = by.get(nd["nm"])
        if lay is not None and lay.weights:
            lay.set_weights(W[nd["key"]])


def shapes_of(spec, model):
    """shape (without batch) of each value 0..len(nodes), top level, by re-walking the layers"""
    by = {lay.name: lay for lay in model.layers}
    sh = [(spec["n_in"],)]
    for nd in spec["nodes"]:
        ins = [(1,) + sh[j] for j in nd["in"]]
        lay = by[nd["nm"]]
        if nd["op"] == "sub":
            o = lay.output_shape
        else:
            o = lay.compute_output_shape(ins[0] if len(ins) == 1 else ins)
        sh.append(tuple(int(v) for v in o[1:]))
    return sh


def consumers(nodes):
    c = {i: [] for i in range(len(nodes) + 1)}
    for i, nd in enumerate(nodes):
        for j in nd["in"]:
            c[j].append(i + 1)
    return c


def insert_after(nodes, v, new):
    """new: chain of nodes without "in", reading value v; every consumer of v then reads the end of the chain"""
    k = len(new)
    out = []
    rm = lambda j: j if j < v else (v + k if j == v else j + k)
    for i, nd in enumerate(nodes):
        if i == v:
            for q, x in enumerate(new):
                out.append(dict(x, **{"in": [v + q]}))
        out.append(dict(nd, **{"in": [rm(j) for j in nd["in"]]}) if i >= v else nd)
    if v == len(nodes):
        for q, x in enumerate(new):
            out.append(dict(x, **{"in": [v + q]}))
    return out


def t_unfuse(rng, spec, sh, fresh):
    c = [i for i, nd in enumerate(spec["nodes"]) if nd["op"] in ("dense", "conv") and nd.get("act")]
    if not c:
        return None
    i = int(rng.choice(c))
    nd = spec["nodes"][i]
    if nd.get("share") is not None:
        return None
    act = nd["act"]
    nodes = list(spec["nodes"])
    nodes[i] = {k: v for k, v in nd.items() if k != "act"}
    return insert_after(nodes, i + 1, [dict(op="act", act=act, nm=fresh())])


def t_fuse(rng, spec, sh, fresh):
    nodes = spec["nodes"]
    co = consumers(nodes)
    c = [i for i, nd in enumerate(nodes) if nd["op"] in ("dense", "conv") and not nd.get("act") and nd.get("share") is None
         and len(co[i + 1]) == 1 and nodes[co[i + 1][0] - 1]["op"] == "act" and nodes[co[i + 1][0] - 1]["act"] != "softmax"]
    if not c:
        return None
    i = int(rng.choice(c))
    j = co[i + 1][0]  # value of the activation
    out = [dict(nd) for nd in nodes]
    out[i]["act"] = nodes[j - 1]["act"]
    rm = lambda v: i + 1 if v == j else (v if v < j else v - 1)
    return [dict(nd, **{"in": [rm(v) for v in nd["in"]]}) for k, nd in enumerate(out) if k != j - 1]


def t_embed(rng, spec, sh, fresh):
    """activation given by its name, or as an activation layer"""
    c = [i for i, nd in enumerate(spec["nodes"]) if nd["op"] in ("dense", "conv") and nd.get("act") and nd.get("share") is None]
    if not c:
        return None
    i = int(rng.choice(c))
    return [dict(nd, actlay=not nd.get("actlay")) if k == i else nd for k, nd in enumerate(spec["nodes"])]


def t_insert(rng, spec, sh, fresh):
    nodes = spec["nodes"]
    v = int(rng.integers(0, len(nodes) + 1))
    s = sh[v]
    kind = str(rng.choice(["dropout", "linear", "reshape", "reshape2", "permute", "flatten"]))
    if kind == "dropout":
        new = [dict(op="dropout", nm=fresh())]
    elif kind == "linear":
        new = [dict(op="act", act="linear", nm=fresh())]
    elif kind == "reshape":
        new = [dict(op="reshape", shape=list(s), nm=fresh())]
    elif kind == "reshape2":
        n = int(np.prod(s))
        t = [n, 1] if rng.random() < 0.5 else [1, n]
        new = [dict(op="reshape", shape=t, nm=fresh()), dict(op="reshape", shape=list(s), nm=fresh())]
    elif kind == "flatten":
        new = [dict(op="flatten", nm=fresh()), dict(op="reshape", shape=list(s), nm=fresh())]
    else:
        if len(s) < 2:
            return None
        p = [int(q) for q in rng.permutation(len(s)) + 1]
        inv = [int(q) + 1 for q in np.argsort(np.array(p) - 1)]
        new = [dict(op="permute", dims=p, nm=fresh()), dict(op="permute", dims=inv, nm=fresh())]
    return insert_after(nodes, v, new), kind


def t_copies(rng, spec, sh, fresh):
    if not any(nd.get("share") is not None for nd in spec["nodes"]):
        return None
    out, seen = [], set()
    for nd in spec["nodes"]:
        nd = dict(nd)
        if nd.pop("share", None) is not None:
            if nd["nm"] in seen:
                nd["nm"] = fresh()
            seen.add(nd["nm"])
        out.append(nd)
    return out


def t_reorder(rng, spec, sh, fresh):
    nodes = spec["nodes"]
    if any(nd.get("share") is not None for nd in nodes):
        return None
    n = len(nodes)
    done, order = {0}, []
    left = list(range(1, n + 1))
    while left:
        ready = [v for v in left if all(j in done for j in nodes[v - 1]["in"]) and (v != n or len(left) == 1)]
        v = int(rng.choice(ready))
        order.append(v)
        done.add(v)
        left.remove(v)
    if order == sorted(order):
        return None
    pos = {0: 0, **{v: k + 1 for k, v in enumerate(order)}}
    return [dict(nodes[v - 1], **{"in": [pos[j] for j in nodes[v - 1]["in"]]}) for v in order]


def t_rename(rng, spec, sh, fresh):
    new = {}
    out = []
    for nd in spec["nodes"]:
        nd = dict(nd)
        if nd["op"] != "sub":
            nd["nm"] = new.setdefault(nd["nm"], fresh())
        out.append(nd)
    return out


def t_swap(rng, spec, sh, fresh):
    c = [i for i, nd in enumerate(spec["nodes"]) if nd["op"] in ("add", "average")]
    if not c:
        return None
    i = int(rng.choice(c))
    nodes = list(spec["nodes"])
    nodes[i] = dict(nodes[i], **{"in": nodes[i]["in"][::-1]})
    return nodes


def t_nest(rng, spec, sh, fresh):
    """a chain of nodes becomes a model of its own"""
    nodes = spec["nodes"]
    co = consumers(nodes)
    starts = [i for i in range(len(nodes)) if len(nodes[i]["in"]) == 1 and len(sh[nodes[i]["in"][0]]) == 1 and nodes[i]["op"] != "sub" and nodes[i].get("share") is None]
    if not starts:
        return None
    i = int(rng.choice(starts))
    j = i
    while j + 1 < len(nodes) and co[j + 1] == [j + 2] and nodes[j + 1]["in"] == [j + 1] and nodes[j + 1]["op"] != "sub" and nodes[j + 1].get("share") is None and rng.random() < 0.7:
        j += 1
    if i == 0 and j == len(nodes) - 1:
        return None
    sub = [dict(nodes[q], **{"in": [q - i]}) for q in range(i, j + 1)]
    s = dict(nodes=sub)
    if rng.random() < 0.5:
        s["sequential"] = True
    k = j - i
    rm = lambda v: v if v <= i else v - k
    out = nodes[:i] + [dict(op="sub", spec=s, nm=fresh(), **{"in": nodes[i]["in"]})]
    return out + [dict(nd, **{"in": [rm(v) for v in nd["in"]]}) for nd in nodes[j + 1:]]


def t_inline(rng, spec, sh, fresh):
    c = [i for i, nd in enumerate(spec["nodes"]) if nd["op"] == "sub"]
    if not c:
        return None
    i = int(rng.choice(c))
    nodes = spec["nodes"]
    sub = nodes[i]["spec"]["nodes"]
    k = len(sub) - 1
    src = nodes[i]["in"][0]
    mid = [dict(nd, **{"in": [src if j == 0 else i + j for j in nd["in"]]}) for nd in sub]
    rm = lambda v: v if v <= i else v + k
    return nodes[:i] + mid + [dict(nd, **{"in": [rm(v) for v in nd["in"]]}) for nd in nodes[i + 1:]]


TRANS = dict(unfuse=t_unfuse, fuse=t_fuse, embed=t_embed, insert=t_insert, copies=t_copies, reorder=t_reorder, rename=t_rename, swap=t_swap, nest=t_nest, inline=t_inline)


def is_chain(spec):
    return all(nd["in"] == [i] and nd["op"] != "sub" and nd.get("share") is None for i, nd in enumerate(spec["nodes"]))


def same_names(rng, model):
    """every model (outer or embedded) names its layers in the same way: names are unique in each model only"""
    subs = [lay for lay in model.layers if hasattr(lay, "layers")]
    if not subs:
        return False
    i = 0
    for lay in model.layers:
        if not type(lay).__name__ == "InputLayer":
            lay.name = f"h_{i}"
            i += 1
    for sub in subs:
        same_names(rng, sub) or [setattr(lay, "name", f"h_{i}") for i, lay in enumerate(la for la in sub.layers if type(la).__name__ != "InputLayer")]
    return True
