"""Runs a check: python -m vlib.drive PROP [--replay FILE]; VERIF_SEED and VERIF_TIER from the environment."""
import collections
import hashlib
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def env_for(backend, t0):
    e = dict(os.environ)
    e.pop("PYTHONHOME", None)
    e.update(
        PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=f"{VERIF}:/repo/src:/opt/vp/plugins",
        KERAS_HOME=e.get("KERAS_HOME", "/opt/vp/keras_home"), MPLBACKEND="Agg", CUDA_VISIBLE_DEVICES="", TF_CPP_MIN_LOG_LEVEL="3",
        TF_NUM_INTRAOP_THREADS="1", TF_NUM_INTEROP_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1", TF_ENABLE_ONEDNN_OPTS="0", KERAS_BACKEND=backend, VLIB_T0=str(t0),
    )
    return e


def load_meta(prop):
    """CASES, SHARDS, RULE, ASSUMPTIONS are plain literals at the top of checks/<prop>.py"""
    import ast

    src = open(os.path.join(VERIF, "checks", prop.lower() + ".py")).read()
    meta = {}
    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1 and getattr(node.targets[0], "id", "") in (
            "CASES", "SHARDS", "RULE", "ASSUMPTIONS", "MIN_NONTRIVIAL",
        ):
            meta[node.targets[0].id] = ast.literal_eval(node.value)
    return meta


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    try:
        data = json.load(open(path))
    except FileNotFoundError:
        return []
    return [k for k in data.get("known", []) if k["property"] == prop]


def main():
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    replay = None
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if "--replay" in sys.argv:
        replay = sys.argv[sys.argv.index("--replay") + 1]
    meta = load_meta(prop)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"verif_{prop}_")
    try:
        results, crashes = run_shards(prop, meta, seed, tier, replay, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    # ---- merge
    ev, sk, cov = collections.Counter(), collections.Counter(), collections.Counter()
    viol, samples, evaluations, margin, complete = [], [], 0, 0.0, True
    for r in results:
        ev.update(r["events"])
        sk.update(r["skips"])
        cov.update(r["cover"])
        viol += r["violations"]
        samples += r["samples"]
        evaluations += r["evaluations"]
        margin = max(margin, r["margin"])
        complete &= bool(r.get("complete"))
    known = known_findings(prop)
    new, seen_known = [], collections.OrderedDict()
    for v in viol:
        m = [k for k in known if v["key"].startswith(k["key"])]
        if m:
            seen_known[m[0]["key"]] = m[0]
        else:
            new.append(v)
    wall = time.time() - t0
    if replay is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        harness = [s for s in samples if isinstance(s, dict) and "harness_error" in s]
        samples = [s for s in samples if not (isinstance(s, dict) and "harness_error" in s)]
        evd = dict(
            property=prop, tier=tier, seed=seed, level="exploration",
            coverage=dict(
                evaluations=evaluations, distinct_nontrivial=len(cov), rule=meta["RULE"], samples=samples[:4],
                observed=dict(ev), configurations=dict(cov.most_common(40)), skipped=dict(sk.most_common(20)), worker_crashes=[len(crashes)] + crashes[:5],
                worst_accepted_relative_error=margin, all_cases_run=complete, harness_errors=harness[:3],
            ),
            assumptions=meta.get("ASSUMPTIONS", []), wall_s=round(wall, 2), violations=len(new),
        )
        tmp = os.path.join(VERIF, "evidence", f"{prop}.json.tmp")
        with open(tmp, "w") as fd:
            json.dump(evd, fd, indent=1, default=str)
        os.replace(tmp, tmp[:-4])
    for k in known:
        if k["key"] in seen_known or replay is None:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    print(f"{prop} tier={tier} seed={seed}: {evaluations} cases, {len(cov)} distinct configurations, "
          f"{ev.get('comparisons', 0)} comparisons, {ev.get('assertions', 0)} assertions, skipped {sum(sk.values())}, "
          f"crashes {len(crashes)}, {wall:.0f}s")
    if ev.get("harness_errors"):
        print("harness errors:", ev["harness_errors"])
    if new:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for v in new[:5]:
            h = hashlib.sha256(json.dumps(v, sort_keys=True, default=str).encode()).hexdigest()[:12]
            path = os.path.join(rdir, f"{prop}-{h}.json")
            with open(path, "w") as fd:
                json.dump(dict(v, property=prop), fd, indent=1, default=str)
            print(f"  {v['key']} {json.dumps({k: x for k, x in v['detail'].items() if k != 'traceback'}, default=str)[:300]}")
            if "traceback" in v["detail"]:
                print("   ", v["detail"]["traceback"][-400:].replace("\n", "\n    "))
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if replay is None and (len(cov) < meta.get("MIN_NONTRIVIAL", 3) or ev.get("harness_errors", 0) > 0.05 * max(1, evaluations)):
        print("INCONCLUSIVE: the monitor observed too little")
        return 2
    return 0


def run_shards(prop, meta, seed, tier, replay, scratch, t0):
    shards = meta["SHARDS"]
    jobs = []
    if replay is not None:
        be = json.load(open(replay))["case"].get("backend", "torch")
        jobs = [dict(backend=be, shard=0, n=1)]
    else:
        tot = sum(shards.values())
        s = 0
        for be, k in shards.items():
            for _ in range(k):
                jobs.append(dict(backend=be, shard=s, n=tot))
                s += 1
    results, crashes = [], []
    for j in jobs:
        j["tries"] = 0
        j["start"] = j["shard"]
        launch(j, prop, seed, tier, replay, scratch, t0)
    hard = (300 if tier == "quick" else 840) + t0
    while any(j["p"] for j in jobs):
        time.sleep(0.2)
        for j in jobs:
            if not j["p"]:
                continue
            rc = j["p"].poll()
            if rc is None:
                if time.time() > hard:
                    j["p"].kill()
                    j["p"].wait()
                    collect(j, results)
                    j["p"] = None
                continue
            if rc == 0:
                collect(j, results)
                j["p"] = None
                continue
            # the interpreter died (native crash in the backend) or could not start
            collect(j, results)
            err = open(j["err"]).read()[-1500:]
            crashes.append(f"{j['backend']} shard {j['shard']} rc {rc}: {err[-400:]}")
            cur = None
            try:
                cur = int(open(j["out"] + ".cur").read())
                crashes[-1] += f" (case {cur})"
            except Exception:
                pass
            if cur is None:
                print(f"worker failed to start (rc {rc}):\n{err}")
                results.append(blank_violation(prop, j, rc, err) if "/src/decomon/" in err else blank(err))
                j["p"] = None
                continue
            j["tries"] += 1
            if j["tries"] > 8 or replay is not None:
                j["p"] = None
                continue
            j["start"] = cur + j["n"]
            launch(j, prop, seed, tier, replay, scratch, t0)
    return results, crashes


def blank(err):
    return dict(events={"harness_errors": 1000}, skips={"worker failed to start": 1}, cover={}, violations=[],
                evaluations=0, samples=[dict(harness_error=err)], margin=0.0)


def blank_violation(prop, j, rc, err):
    r = blank(err)
    r["events"] = {}
    r["violations"] = [dict(key="import-failure", detail=dict(traceback=err), case=dict(backend=j["backend"], i=-1))]
    return r


def launch(j, prop, seed, tier, replay, scratch, t0):
    j["gen"] = j.get("gen", -1) + 1
    j["out"] = os.path.join(scratch, f"{j['backend']}-{j['shard']}-{j['gen']}.json")
    j["err"] = j["out"] + ".err"
    cmd = [PY, "-m", "vlib.worker", prop, j["backend"], str(j["shard"]), str(j["n"]), str(seed), tier, str(j["start"]), j["out"]]
    if replay is not None:
        cmd.append(os.path.abspath(replay))
    j["p"] = subprocess.Popen(cmd, cwd=scratch, env=env_for(j["backend"], t0), stdout=subprocess.DEVNULL, stderr=open(j["err"], "w"))


def collect(j, results):
    try:
        results.append(json.load(open(j["out"])))
    except Exception:
        pass


if __name__ == "__main__":
    sys.exit(main())
