"""mkseed.py SPEC.py: SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source); writes seeded/ID"""
import json, os, subprocess, sys, tempfile, shutil
spec = {}
exec(open(sys.argv[1]).read(), spec)
V = "/verif/seeded/" + spec["ID"]
tmp = tempfile.mkdtemp(prefix="mk_")
subprocess.check_call(["git", "clone", "-q", "/repo", tmp + "/r"])
for f, old, new, *occ in spec["EDITS"]:
    p = f"{tmp}/r/src/decomon/{f}"
    s = open(p).read()
    if occ:
        parts = s.split(old)
        k = occ[0] + 1
        s = old.join(parts[:k]) + new + old.join(parts[k:])
    else:
        assert s.count(old) == 1, (f, s.count(old), old)
        s = s.replace(old, new)
    open(p, "w").write(s)
    blame = subprocess.check_output(["git", "-C", "/repo", "blame", "-l", "-s", "src/decomon/" + f], text=True).splitlines()
diff = subprocess.check_output(["git", "-C", tmp + "/r", "diff", "-U3"], text=True)
# removed lines must be original
d0 = subprocess.check_output(["git", "-C", tmp + "/r", "diff", "-U0"], text=True)
cur, n_rm = None, 0
import re
for line in d0.splitlines():
    if line.startswith("--- a/"):
        cur = line[6:]
    m = re.match(r"@@ -(\d+)(?:,(\d+))? ", line)
    if m:
        a, k = int(m.group(1)), int(m.group(2) or 1)
        for ln in range(a, a + k):
            b = subprocess.check_output(["git", "-C", "/repo", "blame", "-l", "-s", "-L", f"{ln},{ln}", "--", cur], text=True)
            h = b.split()[0].lstrip("^")
            anc = subprocess.call(["git", "-C", "/repo", "merge-base", "--is-ancestor", h[:39], "794178f"]) == 0
            n_rm += anc
            print("removed", cur, ln, "ORIGINAL" if anc else "OURS!!")
print("original lines removed:", n_rm)
os.makedirs(V, exist_ok=True)
open(V + "/patch.diff", "w").write(diff)
open(V + "/demo.py", "w").write(spec["DEMO"].lstrip("\n"))
open(V + "/demo.sh", "w").write('''#!/bin/bash
# exit 0: the property held in this execution; non-zero: it did not
here="$(cd "$(dirname "$0")" && pwd)"
kh=$(mktemp -d)
env KERAS_BACKEND=%s PYTHONPATH=/repo/src PYTHONDONTWRITEBYTECODE=1 KERAS_HOME="$kh" OMP_NUM_THREADS=1 TF_CPP_MIN_LOG_LEVEL=3 \\
  CUDA_VISIBLE_DEVICES="" TF_ENABLE_ONEDNN_OPTS=0 /opt/venv/bin/python "$here/demo.py"
rc=$?
rmdir "$kh" 2>/dev/null
exit $rc
''' % spec.get("BACKEND", "torch"))
os.chmod(V + "/demo.sh", 0o755)
json.dump(dict(property=spec["PROP"], needs=spec["NEEDS"], what_it_breaks=spec["BREAKS"]), open(V + "/meta.json", "w"), indent=1)
shutil.rmtree(tmp)
