"""campaign.py SEED N OUT [FILE...]: random small mutants of decomon; those that pass the repository's tests are run against the checks.
Works in private mount namespaces (patched copy bound over /repo).  A development tool: no check uses it."""
import ast, json, os, random, shutil, subprocess, sys, tempfile

SRC = "/repo/src/decomon/"
FILES = ["core.py", "utils.py", "wrapper.py", "keras_utils.py", "layers/utils.py", "layers/core.py", "layers/activations.py", "layers/decomon_layers.py", "layers/decomon_merge_layers.py",
         "layers/decomon_reshape.py", "layers/maxpooling.py", "layers/utils_pooling.py", "layers/convert.py", "backward_layers/activations.py", "backward_layers/backward_layers.py",
         "backward_layers/utils.py", "backward_layers/utils_conv.py", "backward_layers/core.py", "backward_layers/crown.py", "backward_layers/convert.py", "models/convert.py", "models/crown.py",
         "models/utils.py", "models/models.py", "models/forward_cloning.py", "models/backward_cloning.py", "metrics/loss.py", "metrics/utils.py", "wrapper_with_tuning.py"]
ORDER = {"core.py": "C25 C15 C12 C02 C19 C18 C04 C26 C29 C11", "utils.py": "C16 C17 C22 C06 C01 C11 C04 C27", "wrapper.py": "C05 C08 C09 C12 C15", "layers/utils.py": "C22 C18 C16 C21 C01", "layers/activations.py": "C16 C22 C01",
         "layers/decomon_layers.py": "C19 C01 C06 C14", "layers/decomon_merge_layers.py": "C18 C07 C01", "layers/decomon_reshape.py": "C19 C23", "layers/maxpooling.py": "C21 C07 C01",
         "layers/utils_pooling.py": "C21 C01", "backward_layers/activations.py": "C17 C01", "backward_layers/backward_layers.py": "C20 C17 C01 C06", "backward_layers/utils.py": "C03 C01 C06 C20",
         "backward_layers/utils_conv.py": "C20 C01", "models/crown.py": "C03 C06 C01", "metrics/loss.py": "C13 C14", "wrapper_with_tuning.py": "C14", "models/models.py": "C12 C14 C10 C28 C29", "backward_layers/crown.py": "C03 C26 C29 C01", "layers/core.py": "C29 C10 C15 C27", "models/convert.py": "C28 C24 C15 C29", "models/utils.py": "C28 C03 C24", "backward_layers/core.py": "C10 C29 C20", "layers/convert.py": "C28 C10", "backward_layers/convert.py": "C28 C10", "models/forward_cloning.py": "C10 C24 C29 C28", "models/backward_cloning.py": "C03 C10 C24 C29"}
PAIRS = [("u_c", "l_c"), ("w_u", "w_l"), ("b_u", "b_l"), ("upper", "lower"), ("x_min", "x_max"), ("u_c_0", "l_c_0"), ("u_c_1", "l_c_1"), ("w_u_0", "w_l_0"), ("b_u_0", "b_l_0"), ("w_u_1", "w_l_1"),
         ("b_u_1", "b_l_1"), ("u_c_out", "l_c_out"), ("cx_u_pos", "cx_u_neg"), ("o_value", "z_value"), ("kernel_pos", "kernel_neg")]
SWAP = {}
for a, b in PAIRS:
    SWAP[a], SWAP[b] = b, a
ATTR = {"maximum": "minimum", "minimum": "maximum", "max": "min", "min": "max", "get_upper": "get_lower", "get_lower": "get_upper", "zeros_like": "ones_like"}
OPS = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.Div: "*"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}


def sites(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln.encode()))
    b = src.encode()
    pos = lambda l, c: off[l - 1] + c
    out = []

    def add(a, z, new, kind, node):
        out.append((a, z, new, kind, node.lineno))

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef,)) and n.name in ("get_config", "compute_output_shape"):
            for m in ast.walk(n):
                skip.add(id(m))
        if isinstance(n, (ast.arguments, ast.AnnAssign)) or (isinstance(n, ast.Raise)):
            for m in ast.walk(n):
                skip.add(id(m))
        if isinstance(n, ast.FunctionDef) and n.returns is not None:
            for m in ast.walk(n.returns):
                skip.add(id(m))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in SWAP:
            add(pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset), SWAP[n.id], "swap", n)
        elif isinstance(n, ast.Attribute) and n.attr in ATTR:
            z = pos(n.end_lineno, n.end_col_offset)
            add(z - len(n.attr), z, ATTR[n.attr], "attr", n)
        elif isinstance(n, ast.BinOp) and type(n.op) in OPS:
            a, z = pos(n.left.end_lineno, n.left.end_col_offset), pos(n.right.lineno, n.right.col_offset)
            mid = b[a:z].decode()
            sym = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/"}[type(n.op)]
            if mid.count(sym) == 1:
                add(a, z, mid.replace(sym, OPS[type(n.op)]), "op", n)
                add(pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset), "(" + b[pos(n.left.lineno, n.left.col_offset):pos(n.left.end_lineno, n.left.end_col_offset)].decode() + ")", "left", n)
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            a, z = pos(n.left.end_lineno, n.left.end_col_offset), pos(n.comparators[0].lineno, n.comparators[0].col_offset)
            add(a, z, " " + CMP[type(n.ops[0])] + " ", "cmp", n)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            add(pos(n.lineno, n.col_offset), pos(n.operand.lineno, n.operand.col_offset), "", "neg", n)
        elif isinstance(n, (ast.If, ast.IfExp)):
            t = n.test
            a, z = pos(t.lineno, t.col_offset), pos(t.end_lineno, t.end_col_offset)
            for v in ("True", "False"):
                add(a, z, v, "if", n)
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool) and n.value in (0, 1, 2, 0.0, 1.0, 2.0, 0.5):
            a, z = pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
            add(a, z, str(type(n.value)({0: 1, 1: 0, 2: 1, 0.5: 1.0}[n.value])), "const", n)
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            a, z = pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
            add(a, z, str(not n.value), "bool", n)
        elif isinstance(n, ast.Call) and n.keywords:
            for k in n.keywords:
                if k.arg in ("perturbation_domain", "slope", "mode", "tight", "compute_ibp_from_affine", "axis", "fast", "finetune", "strides", "padding", "dilation_rate", "source_labels", "target_labels",
                             "batch_size", "n_sub_boxes", "ibp", "affine", "merge_layers", "eps", "p"):
                    a, z = pos(k.lineno, k.col_offset), pos(k.end_lineno, k.end_col_offset)
                    if b[z:z + 1] == b",":
                        z += 1
                    add(a, z, "", "kwarg " + k.arg, n)
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            a, z = pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
            add(a, z, "pass", "drop", n)
    return b, out


def main():
    seed, n, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    files = sys.argv[4:] or FILES
    rng = random.Random(seed)
    muts = []
    for f in files:
        if not os.path.exists(SRC + f):
            continue
        b, ss = sites(open(SRC + f).read())
        for s in ss:
            muts.append((f, s))
    # as many per file as the square root of its sites
    byf = {}
    for f, s in muts:
        byf.setdefault(f, []).append(s)
    fl = list(byf)
    wts = [len(byf[f]) ** 0.6 for f in fl]
    print({f: len(byf[f]) for f in fl}, flush=True)
    seen = set()
    checks_all = sorted(os.path.basename(p)[:-3].upper() for p in os.listdir("/verif/checks") if p.startswith("c") and p.endswith(".py"))
    for k in range(n):
        f = rng.choices(fl, wts)[0]
        s = rng.choice(byf[f])
        if (f, s) in seen:
            continue
        seen.add((f, s))
        a, z, new, kind, line = s
        b = open(SRC + f, "rb").read()
        m = b[:a] + new.encode() + b[z:]
        try:
            compile(m, f, "exec")
        except SyntaxError:
            continue
        la, lz = b.rfind(b"\n", 0, a) + 1, b.find(b"\n", z)
        rec = dict(file=f, line=line, kind=kind, old=b[la:lz].decode().strip()[:200], new=(b[la:a] + new.encode() + b[z:lz]).decode().strip()[:200])
        rec.update(trial(f, m, checks_all))
        with open(out, "a") as fd:
            fd.write(json.dumps(rec) + "\n")


def trial(f, m, checks_all):
    wt = tempfile.mkdtemp(prefix="mut_")
    try:
        os.rmdir(wt)
        shutil.copytree("/repo", wt, symlinks=True)
        open(wt + "/src/decomon/" + f, "wb").write(m)
        diff = subprocess.run(["git", "-C", wt, "diff"], capture_output=True, text=True).stdout
        ev = tempfile.mkdtemp(prefix="mutev_")
        nj = os.environ.get("NJ", "4")
        order = ORDER.get(f, "C01 C03 C06").split()
        order = [c for c in order if c in checks_all] + [c for c in checks_all if c not in order]
        sh = f"""mount --bind {wt} /repo; mount --bind {ev} /verif/evidence
. /opt/vp/env.sh
cd /repo
for b in torch tensorflow; do
 KERAS_BACKEND=$b nice timeout -k 10 600 $PY -m pytest -q -x -p no:cacheprovider -p seed_each_test -n {nj} --timeout=200 --deselect tests/test_import_all_submodules.py::test_importing_all_submodules --ignore tests/notebooks > {ev}/t.log 2>&1 || {{ echo KILLED $b; exit 0; }}
done
echo SURVIVED
for c in {' '.join(order)}; do
 nice timeout 900 bash /verif/check.sh $c > {ev}/c.log 2>&1; rc=$?
 echo CHECK $c $rc
 if [ $rc = 1 ]; then grep -B1 -m1 VIOLATION {ev}/c.log | head -1 | cut -c1-300; exit 0; fi
done
"""
        r = subprocess.run(["unshare", "-Urm", "bash", "-c", sh], capture_output=True, text=True)
        shutil.rmtree(ev, ignore_errors=True)
        o = r.stdout.strip().splitlines()
        if any(x.startswith("KILLED") for x in o):
            return dict(result="killed")
        c = [x.split()[1] for x in o if x.startswith("CHECK") and x.endswith(" 1")]
        odd = [x for x in o if x.startswith("CHECK") and x.split()[2] not in ("0", "1")]
        return dict(result="caught" if c else "MISSED", by=c, tried=sum(x.startswith("CHECK") for x in o), msg=o[-1][:300] if o else r.stderr[-300:], odd=odd, diff=diff)
    finally:
        shutil.rmtree(wt, ignore_errors=True)


main()
