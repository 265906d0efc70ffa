"""C29: the shapes and types that are declared are those that are computed"""
CASES = {"quick": 900, "thorough": 14000}
SHARDS = {"torch": 5, "tensorflow": 3}
MIN_NONTRIVIAL = 150
RULE = ("case = (model) a random network converted by a random method with random output kinds, every layer of the result being observed, or (forward, backward) one random "
        "layer's forward / backward version, or (fuse) two successive affine bounds to compose, or (loss) the loss or robustness layer put on a converted model, or (tensor) the identity / diagonal helpers; "
        "each is first called on symbolic inputs without a batch size, then on arrays of two batch sizes; judged: the number of outputs, every declared rank, dimension and dtype "
        "against those computed, that no dimension but the batch one is left undeclared, and that a model's output_shape is that of its predictions; "
        "distinct non-trivial = (backend, what, kind of layer / method, mode, rank)")
ASSUMPTIONS = ["the intermediate input placeholder of Convert2Mode from constant to affine bounds (replaced by the model's own input at once) is not judged",
               "layers that keras itself cannot wire are skipped"]

import keras
import numpy as np

from checks import c18, c20, c21
from vlib import dk, gen, lay
from vlib.nets import gen_family, make_spec

WHAT = ["model", "model", "forward", "forward", "backward", "fuse", "loss", "tensor"]


def gen_case(rng, tier, i, backend):
    what = WHAT[i % len(WHAT)]
    c = dict(what=what, seed=int(rng.integers(1 << 30)), mode=str(rng.choice(lay.MODES)), region=str(rng.choice(["box", "box", "ball1", "ball2", "ballinf"])), backend_=backend)
    if what in ("model", "loss"):
        fam = gen_family(rng, backend) if what == "model" else "mlp"
        c["spec"], which = make_spec(rng, backend, fam)
        c["method"] = str(rng.choice(dk.FORWARD if which == "fwd" else dk.METHODS))
        c["final"] = [None, [True, True], [False, True], [True, False]][int(rng.integers(4))]
    elif what == "forward":
        c["sub"] = ["merge", "linear", "pool", "act"][int(rng.integers(4))]
        if c["sub"] == "merge":
            c["case"] = c18.gen_case(rng, tier, i, backend)
        elif c["sub"] == "pool":
            c["case"] = c21.gen_case(rng, tier, i, backend)
    return c


def lst(o):
    return list(o) if isinstance(o, (list, tuple)) else [o]


def same(mon, decl, got, name, skip=(), **det):
    """declared symbolic tensors against computed arrays"""
    decl, got = lst(decl), lst(got)
    if not mon.true(len(decl) == len(got), "number", name=name, declared=len(decl), computed=len(got), **det):
        return
    for k, (a, b) in enumerate(zip(decl, got)):
        if k in skip:
            continue
        s, t = tuple(a.shape), tuple(b.shape)
        mon.true(len(s) == len(t) and all(x is None or x == y for x, y in zip(s, t)), "shape", name=name, output=k, declared=list(s), computed=list(t), **det)
        mon.true(all(x is not None for x in s[1:]), "undeclared", name=name, output=k, declared=list(s), computed=list(t), **det)
        mon.true(keras.backend.standardize_dtype(a.dtype) == keras.backend.standardize_dtype(b.dtype), "dtype", name=name, output=k, declared=str(a.dtype), computed=str(b.dtype), **det)
        mon.events["tensors_observed"] += 1


def sym(ts):
    return [keras.Input(tuple(t.shape)[1:], dtype=keras.backend.standardize_dtype(t.dtype)) for t in ts]


def both(mon, f, batches, name, **det):
    """symbolic call, then concrete ones"""
    d = lst(f(sym(batches[0])))
    for b in batches:
        same(mon, d, f(b), name, batch=int(b[0].shape[0]), **det)
    return d


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    what, mode = case["what"], case["mode"]
    sizes = sorted({1, int(rng.integers(2, 6))})
    if what in ("model", "loss"):
        spec, me = case["spec"], case["method"]
        m = dk.build(spec)
        n = spec["n_in"]
        kind = case["region"] if what == "model" else "box"
        reg = dk.Region.make(rng, n, max(sizes), kind)
        kw = {}
        if case["final"]:
            kw = dict(final_ibp=case["final"][0], final_affine=case["final"][1])
        d = dk.clone(m, method=me, perturbation_domain=reg.domain(), slope=str(rng.choice(dk.SLOPES)), **kw)
        det = dict(method=me, final=case["final"], net=dk.desc(spec))
        if what == "model":
            nodes = [nd for nds in d._nodes_by_depth.values() for nd in nds if not isinstance(nd.operation, keras.layers.InputLayer)]
            ts = [t for nd in nodes for t in nd.outputs]
            mm = keras.Model(d.inputs, ts)
            for nb in sizes:
                z = reg.z()[:nb]
                got = lst(mm([dk.T(z)]))
                j = 0
                for nd in nodes:
                    k = len(nd.outputs)
                    op = nd.operation
                    skip = (0,) if type(op).__name__ == "Convert2Mode" and op.mode_from == "ibp" and op.mode_to != "ibp" else ()
                    same(mon, nd.outputs, got[j : j + k], type(op).__name__, skip=skip, batch=nb, **det)
                    j += k
                    mon.events["layers_observed"] += 1
                out = lst(d.predict_on_single_batch_np(z))
                same(mon, d.outputs, out, "model", batch=nb, **det)
                sh = d.output_shape if isinstance(d.output_shape, list) else [d.output_shape]
                mon.true([tuple(s)[1:] for s in sh] == [o.shape[1:] for o in out], "output_shape", declared=[list(s) for s in sh], computed=[list(o.shape) for o in out], **det)
                mon.true(len(out) == {(1, 0): 2, (0, 1): 5, (1, 1): 7}[(int(d.ibp), int(d.affine))], "kind-of-outputs", ibp=bool(d.ibp), affine=bool(d.affine), n=len(out), **det)
            mon.tag(case.get("backend"), what, me, case["final"], kind)
            return
        ibp, affine = d.ibp, d.affine
        dmode = dk.mode_of(ibp, affine)
        Ls = [("fusion", a, b) for a in (False, True) for b in (False, True)] + [("radius", False, b) for b in (False, True)]
        name, asym, back = Ls[int(rng.integers(len(Ls)))]
        if name == "radius" and dmode == "ibp" or asym and back:
            return mon.skip("loss layer not available")
        from decomon.metrics import loss as ML

        cls = ML.DecomonLossFusion if name == "fusion" else ML.DecomonRadiusRobust
        a = dict(asymptotic=asym) if name == "fusion" else {}
        layer = cls(backward=back, mode=dmode, perturbation_domain=reg.domain(), **a)
        decl = layer(lst(d.outputs))
        for nb in sizes:
            same(mon, decl, layer([dk.T(o) for o in lst(d.predict_on_single_batch_np(reg.z()[:nb]))]), cls.__name__, batch=nb, asymptotic=asym, backward=back, **det)
        mon.tag(case.get("backend"), what, name, asym, back, dmode)
        return
    n = gen.dim(rng, 1, 5)
    regs = [dk.Region.make(rng, n, nb, case["region"]) for nb in sizes]
    if what in ("forward", "backward"):
        sub = case.get("sub", "linear" if rng.random() < 0.6 else "act")
        if sub == "merge":
            c = case["case"]
            layer, shs = c18.make(c["op"], c["opt"]), [tuple(s) for s in c["shs"]]
            nm = c["op"]
        elif sub == "pool":
            c = case["case"]
            layer = keras.layers.MaxPooling2D(tuple(c["pool"]), c["strides"] and tuple(c["strides"]), padding=c["padding"], data_format=c["df"])
            shs, nm = [tuple(c["sh"])], "pool"
        elif sub == "act":
            nm = str(rng.choice(["relu", "sigmoid", "tanh", "softsign", "softplus", "linear"] + (["exponential", "softmax"] if what == "forward" else [])))
            layer, shs = keras.layers.Activation(nm), [tuple(gen.dim(rng, 1, 4) for _ in range(int(rng.choice([1, 1, 3]))))]
        else:
            nm = str(rng.choice(c20.KINDS))
            layer, sh, _ = c20.linear_layer(rng, nm, case["backend_"])
            shs = [sh]
        layer, osh = lay.keras_layer(layer, *shs)
        lay.randomize(layer, rng)
        if lay.apply(layer, *[np.zeros((1, 1) + tuple(s)) for s in shs]).shape[2:] != osh:
            raise dk.Skip("keras' values do not have the declared shape")
        det = dict(layer=nm, mode=mode, shapes=[list(s) for s in shs])
        bundles = [[lay.make(rng, r, tuple(s), scale=0.5) for s in shs] for r in regs]
        ins = [[t for B in bs for t in B.tensors(mode)] for bs in bundles]
        if what == "forward":
            f = lay.to_decomon(layer, n, slope=str(rng.choice(dk.SLOPES)), ibp=mode != "affine", affine=mode != "ibp", perturbation_domain=regs[0].domain(), fast=bool(rng.random() < 0.5))
        else:
            f = lay.to_backward(layer, slope=str(rng.choice(dk.SLOPES)), mode=mode, perturbation_domain=regs[0].domain())
        both(mon, f, ins, type(f).__name__, **det)
        mon.tag(case.get("backend"), what, nm, mode, [len(s) for s in shs])
    elif what == "fuse":
        from decomon.models import crown as MC

        h, o = gen.dim(rng, 1, 7), gen.dim(rng, 1, 7)
        g = lambda b, i, j: [dk.T(rng.normal(0, 1, s).astype("float32")) for s in ((b, i, j), (b, j), (b, i, j), (b, j))]
        which = ["fuse", "previous"][int(rng.integers(2))]
        ins = []
        for b, r in zip(sizes, regs):
            first = g(b, n, h)
            if which == "fuse":
                lead = [] if mode == "ibp" else [dk.T(r.z())]
                uu = [dk.T(rng.normal(0, 1, (b, h)).astype("float32")) for _ in range(2)]
                first = uu if mode == "ibp" else lead + first if mode == "affine" else lead + [uu[0]] + first[:2] + [uu[1]] + first[2:]
            ins.append(first + g(b, h, o))
        f = MC.Fuse(mode=mode) if which == "fuse" else MC.MergeWithPrevious()
        both(mon, f, ins, type(f).__name__, mode=mode, dims=[n, h, o])
        mon.tag(case.get("backend"), what, which, mode)
    else:
        from decomon import keras_utils as KU

        which = ["identity", "diag"][int(rng.integers(2))]
        sh = tuple(gen.dim(rng, 1, 4) for _ in range(1 if which == "diag" else int(rng.integers(1, 4))))
        f = KU.BatchedIdentityLike() if which == "identity" else KU.BatchedDiagLike()
        ins = [[dk.T(rng.normal(0, 1, (b,) + sh).astype("float32"))] for b in sizes]
        both(mon, lambda t: f(t[0]), ins, type(f).__name__, rank=len(sh))
        mon.tag(case.get("backend"), what, which, len(sh))
