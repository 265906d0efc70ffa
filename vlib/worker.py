"""python -m vlib.worker PROP BACKEND SHARD NSHARDS SEED TIER START OUT [REPLAY]: runs one shard of the cases of a check."""
import importlib
import json
import os
import signal
import sys
import time
import traceback
import warnings

warnings.filterwarnings("ignore")


class CaseTimeout(BaseException):
    pass


def main():
    prop, backend, shard, nshards, seed, tier, start, out = sys.argv[1:9]
    shard, nshards, seed, start = int(shard), int(nshards), int(seed), int(start)
    os.environ["KERAS_BACKEND"] = backend
    if backend == "torch":
        import torch

        torch.backends.mkldnn.enabled = False  # its convolutions crash on this platform
        torch.set_num_threads(1)
    from vlib.core import Mon, Skip, case_rng, code_frame

    mod = importlib.import_module(f"checks.{prop.lower()}")
    mon = Mon(prop)
    replay = None
    if len(sys.argv) > 9:
        replay = json.load(open(sys.argv[9]))["case"]
    n = mod.CASES[tier]
    tmax = float(os.environ.get("VLIB_TMAX", "0")) or (150.0 if tier == "quick" else 700.0)
    t0 = float(os.environ.get("VLIB_T0", "0")) or time.time()
    signal.signal(signal.SIGALRM, lambda *a: (_ for _ in ()).throw(CaseTimeout()))
    i = start
    done = True
    while replay is not None or i < n:
        if time.time() - t0 > tmax:
            done = False
            break
        with open(out + ".cur", "w") as fd:
            fd.write(str(i))
        rng = case_rng(seed, prop, i)
        try:
            case = replay if replay is not None else mod.gen_case(rng, tier, i, backend)
        except Skip as e:
            mon.skip(f"gen: {e}")
            i += nshards
            continue
        except Exception:
            mon.events["harness_errors"] += 1
            mon.samples.append(dict(harness_error=traceback.format_exc()[-1500:]))
            i += nshards
            continue
        if case is not None:
            if replay is None:
                case = dict(case, i=i, backend=backend)
            mon.begin(case)
            signal.alarm(120 if tier == "quick" else 240)
            try:
                mod.run(case, mon)
                signal.alarm(0)
            except Skip as e:
                mon.skip(str(e))
            except CaseTimeout:
                mon.skip("case watchdog")
            except Exception as e:  # noqa
                signal.alarm(0)
                fr = code_frame(e)
                txt = "".join(traceback.format_exception(e))[-2500:]
                if fr is None:
                    # raised outside decomon: the harness's own fault (or plain keras')
                    mon.events["harness_errors"] += 1
                    mon.samples.append(dict(harness_error=txt))
                else:
                    mon.fail(f"exception:{type(e).__name__}:{fr}", traceback=txt)
            signal.alarm(0)
            mon.end()
        if replay is not None:
            break
        i += nshards
        if i % (nshards * 10) < nshards:
            save(mon, out, i, done=False)
    save(mon, out, i, done=True, complete=done)


def save(mon, out, nxt, done, complete=False):
    with open(out + ".tmp", "w") as fd:
        json.dump(dict(mon.dump(), next=nxt, done=done, complete=complete), fd, default=str)
    os.replace(out + ".tmp", out)


if __name__ == "__main__":
    main()
