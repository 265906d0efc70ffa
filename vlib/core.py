"""Monitor object shared by every check: counts what it observed, records what it refuted."""
import collections
import hashlib
import json
import traceback

import numpy as np


class Skip(Exception):
    """the case is outside of the property (plain keras failed, numerical overflow...): inconclusive"""


class Mon:
    def __init__(self, prop):
        self.prop = prop
        self.events = collections.Counter()
        self.skips = collections.Counter()
        self.cover = collections.Counter()
        self.violations = []
        self.evaluations = 0  # cases executed to their verdict
        self.samples = []
        self.margin = 0.0  # largest relative error accepted
        self.case = None
        self.nontrivial = False

    # -- case life cycle
    def begin(self, case):
        self.case = case
        self.nontrivial = False
        self.case_viol = 0

    def end(self):
        self.evaluations += 1
        if self.nontrivial:
            self.events["nontrivial_cases"] += 1
        if len(self.samples) < 2:
            self.samples.append(shorten(self.case))

    def tag(self, *sig):
        """a distinct, non-trivial configuration that the monitor judged"""
        self.nontrivial = True
        self.cover[json.dumps(sig, default=str)] += 1

    def skip(self, why):
        self.skips[str(why)[:120]] += 1

    # -- verdicts
    def fail(self, what, **detail):
        self.case_viol += 1
        if self.case_viol <= 3:
            self.violations.append(dict(key=what, detail={k: jsonable(v) for k, v in detail.items()}, case=self.case))

    def true(self, cond, what, **detail):
        self.events["assertions"] += 1
        if not cond:
            self.fail(what, **detail)
        return bool(cond)

    def le(self, a, b, what, scale=1.0, tol=1e-4, **detail):
        """a <= b up to tol * scale, everywhere (NaN is a failure)"""
        a, b = np.asarray(a, dtype="float64"), np.asarray(b, dtype="float64")
        err = (a - b) / scale
        self.events["comparisons"] += int(err.size)
        if err.size == 0:
            return True
        bad = ~(err <= tol)
        if bad.any():
            idx = np.unravel_index(int(np.argmax(np.where(np.isnan(err), np.inf, err))), err.shape)
            self.fail(what, worst=float(err[idx]), at=[int(i) for i in idx], n_bad=int(bad.sum()), **detail)
            return False
        self.margin = max(self.margin, float(err.max()))
        return True

    def eq(self, a, b, what, scale=1.0, tol=1e-4, **detail):
        a, b = np.asarray(a, dtype="float64"), np.asarray(b, dtype="float64")
        if a.shape != b.shape:
            self.events["assertions"] += 1
            self.fail(what + ":shape", a=list(a.shape), b=list(b.shape), **detail)
            return False
        with np.errstate(invalid="ignore"):
            d = np.where(a == b, 0.0, np.abs(a - b))
        return self.le(d, np.zeros_like(d), what, scale=scale, tol=tol, **detail)

    def finite(self, arrs, what, **detail):
        ok = all(np.isfinite(np.asarray(a)).all() for a in arrs)
        return self.true(ok, what, **detail)

    def dump(self):
        return dict(events=self.events, skips=self.skips, cover=self.cover, violations=self.violations,
                    evaluations=self.evaluations, samples=self.samples, margin=self.margin)


def jsonable(v):
    if isinstance(v, np.ndarray):
        return v.tolist() if v.size <= 200 else v.ravel()[:200].tolist()
    if isinstance(v, (np.floating, np.integer, np.bool_)):
        return v.item()
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, (str, int, float, bool, type(None))):
        return v
    return str(v)[:500]


def shorten(case):
    s = json.dumps(jsonable(case))
    return json.loads(s) if len(s) < 3000 else s[:3000]


def case_rng(seed, prop, i):
    h = int(hashlib.sha256(prop.encode()).hexdigest()[:8], 16)
    return np.random.default_rng([seed, h, i])


def code_frame(exc):
    """the innermost frame of the exception that lies in decomon, as file:function (no line numbers)"""
    last = None
    for fr in traceback.extract_tb(exc.__traceback__):
        if "/src/decomon/" in fr.filename:
            last = fr.filename.split("/src/decomon/")[1] + ":" + fr.name
    return last
