"""Shared machinery for the property checks (see DESIGN.md).

A property module declares SUBS: a list of Sub objects. A Sub couples a
Hypothesis strategy producing a plain JSON-able case with an oracle function
that runs the real PyFHD code on that case and raises on a violation. The
worker drives the strategy, counts what was generated, and turns a shrunk
failure into a replay file that bypasses Hypothesis.
"""

import contextlib
import hashlib
import json
import logging
import os
import sys
import tempfile
import time
import traceback
import warnings
import zlib

HYPO = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if HYPO not in sys.path:
    sys.path.append(HYPO)

import numpy as np  # noqa: E402
from hypothesis import strategies as st  # noqa: E402,F401

warnings.filterwarnings("ignore")
np.seterr(all="ignore")

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Sub:
    """One generated check: name, strategy, oracle and case counts."""

    def __init__(self, name, strategy, fn, quick=200, thorough=None, rule="", explicit=(), crashy=False):
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 10
        self.rule = rule
        self.explicit = list(explicit)
        self.crashy = crashy  # persist each case before running it (native crash => replay)


def large(sub, quick, thorough, name="large", **over):
    """The same check on inputs of realistic size: the keys given replace those of the cases of `sub`."""
    over = {k: v if isinstance(v, st.SearchStrategy) else st.just(v) for k, v in over.items()}
    both = st.tuples(sub.strategy, st.fixed_dictionaries(over)).map(lambda t: dict(t[0], **t[1]))
    return Sub(f"{sub.name}_{name}", both, sub.fn, quick, thorough, rule=sub.rule + "; " + ", ".join(over), crashy=sub.crashy)


class Violation(AssertionError):
    pass


class HarnessError(BaseException):
    """Raised when the check itself cannot do its job (never a violation)."""


class StopShrink(BaseException):
    pass


def fail(msg):
    raise Violation(msg)


def check(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def _desc(a):
    a = np.asarray(a)
    if a.size <= 12:
        return repr(a.tolist())
    return f"shape{a.shape} {a.dtype} head {a.ravel()[:6].tolist()}"


def same_shape(got, want, what):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        raise Violation(f"{what}: shape {got.shape}, expected {want.shape}")


def close(got, want, what, rtol=1e-9, atol=None, scale=None):
    """Elementwise agreement within rtol relative to the overall magnitude of `want`
    (NaN must match NaN)."""
    got, want = np.asarray(got), np.asarray(want)
    same_shape(got, want, what)
    if got.size == 0:
        return
    if got.dtype == object or want.dtype == object:
        raise Violation(f"{what}: object dtype {got.dtype}/{want.dtype}")
    got = got.astype(complex) if np.iscomplexobj(got) else got.astype(float)
    want = want.astype(complex) if np.iscomplexobj(want) else want.astype(float)
    if scale is None:
        fin = np.isfinite(want)
        scale = float(np.max(np.abs(want[fin]))) if fin.any() else 0.0
    tol = rtol * scale + (atol if atol is not None else 1e-300)
    nan_g, nan_w = np.isnan(got), np.isnan(want)
    if not np.array_equal(nan_g, nan_w):
        i = np.argwhere(nan_g != nan_w)[0]
        raise Violation(f"{what}: NaN mismatch at {i.tolist()}: got {got[tuple(i)]}, expected {want[tuple(i)]}")
    both_inf = np.isinf(got) & np.isinf(want)
    with np.errstate(all="ignore"):
        diff = np.abs(got - want)
    bad = ~(diff <= tol) & ~nan_w & ~(both_inf & (got == want))
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        raise Violation(
            f"{what}: {int(bad.sum())}/{got.size} elements differ, first at {tuple(int(k) for k in i)}: "
            f"got {got[i]}, expected {want[i]} (tol {tol:g})"
        )


def equal(got, want, what):
    got, want = np.asarray(got), np.asarray(want)
    same_shape(got, want, what)
    if got.dtype.kind in "fc" or want.dtype.kind in "fc":
        ok = (got == want) | ((got != got) & (want != want))
    else:
        ok = got == want
    if not np.all(ok):
        i = tuple(np.argwhere(~np.atleast_1d(ok))[0])
        g, w = np.atleast_1d(got)[i], np.atleast_1d(want)[i]
        raise Violation(f"{what}: differs at {tuple(int(k) for k in i)}: got {g!r}, expected {w!r} ({_desc(got)} vs {_desc(want)})")


def rng(*seeds):
    """A generator that is a pure function of integers drawn by Hypothesis."""
    return np.random.default_rng([int(s) & 0xFFFFFFFF for s in seeds])


class NullLogger(logging.Logger):
    def __init__(self):
        super().__init__("verif-null", level=100)
        self.addHandler(logging.NullHandler())


class RecLogger(logging.Logger):
    """A logger that records (level, message)."""

    def __init__(self):
        super().__init__("verif-rec", level=1)
        self.records = []

    def _log(self, level, msg, args, **kw):
        self.records.append((level, str(msg)))


LOG = NullLogger()


@contextlib.contextmanager
def scratch():
    with tempfile.TemporaryDirectory(prefix="pyfhd-pbt-") as d:
        yield d


class Layout:
    """Stand-ins for array arguments that have the same values in another order in memory (columns first, every
    other element, or backwards), as slices and transposed arrays have. The code under test sees the stand-ins, and
    what it does to them is copied back afterwards."""

    case = 0

    def __init__(self, a, k):
        self.bits, self.n, self.undo = Layout.case, 0, []
        self.a = tuple(self.swap(x) for x in a)
        self.k = {n: self.swap(k[n]) for n in sorted(k)}

    def swap(self, x):
        if type(x) is dict:
            for n in sorted(x, key=str):
                y = self.swap(x[n])
                if y is not x[n]:
                    self.undo.append((x, n, x[n], y))
                    x[n] = y
            return x
        if type(x) is not np.ndarray or x.size < 2 or x.size > 10**6 or x.dtype.kind not in "biufc":
            return x
        self.n += 1
        how = zlib.crc32(b"%d %d" % (self.bits, self.n)) % 6 if self.bits else 0
        if how == 1:
            y = np.asfortranarray(x) if x.ndim > 1 else x
        elif how == 2:
            y = np.repeat(x, 2, axis=-1)[..., ::2]
        elif how == 3:
            y = np.ascontiguousarray(x[..., ::-1])[..., ::-1]
        else:
            y = x
        if y is not x:
            y.flags.writeable = x.flags.writeable
            self.undo.append((None, None, x, y))
        return y

    def restore(self):
        for d, n, x, y in reversed(self.undo):
            if d is None:
                if x.flags.writeable and not np.array_equal(x, y, equal_nan=x.dtype.kind in "fc"):
                    x[...] = y
            elif d.get(n) is y:
                d[n] = x


def call(what, fn, *a, **k):
    """Run code under test; any exception on a valid input is a violation."""
    lay = Layout(a, k)
    try:
        got = fn(*lay.a, **lay.k)
    except (Violation, MemoryError, KeyboardInterrupt):
        raise
    except SystemExit as e:
        raise Violation(f"{what}: exited the process ({e.code!r}) on a valid input")
    except Exception as e:
        raise Violation(f"{what}: raised {type(e).__name__}: {e} on a valid input\n" + traceback.format_exc(limit=-4))
    finally:
        lay.restore()
    return got


def evaluate(sub, case):
    """One case; a third of them with all arrays laid out as usual."""
    h = zlib.crc32(json.dumps(case, sort_keys=True, default=str).encode())
    Layout.case = h if h % 3 else 0
    return sub.fn(case)


# ---------------------------------------------------------------- worker

SHRINK_BUDGET = 45.0


def run_sub(prop, sub, tier, seed, outfile):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    n = sub.quick if tier == "quick" else sub.thorough
    state = {
        "evals": 0,
        "nontrivial": set(),
        "labels": {},
        "samples": [],
        "fail": None,
        "first_fail": None,
    }
    cur = outfile + ".case"

    def one(case):
        js = json.dumps(case, sort_keys=True, default=str)
        if state["first_fail"] is not None and time.monotonic() - state["first_fail"] > SHRINK_BUDGET:
            raise StopShrink()
        if sub.crashy:
            with open(cur, "w") as f:
                f.write(js)
        state["evals"] += 1
        try:
            r = evaluate(sub, case)
        except (HarnessError, StopShrink, MemoryError, KeyboardInterrupt):
            raise
        except (SystemExit, Exception) as e:
            if type(e).__module__.startswith("hypothesis"):
                raise
            msg = f"{type(e).__name__}: {e}"
            tb = traceback.format_exc(limit=-6)
            if state["fail"] is None or len(js) <= state["fail"]["len"]:
                state["fail"] = {"len": len(js), "case": case, "msg": msg, "tb": tb}
            if state["first_fail"] is None:
                state["first_fail"] = time.monotonic()
            if isinstance(e, SystemExit):
                raise Violation("process exit") from None
            raise
        nt, labels = True, ()
        if isinstance(r, tuple):
            nt, labels = r[0], r[1]
        elif r is not None:
            nt = bool(r)
        if nt:
            h = hashlib.blake2b(js.encode(), digest_size=12).hexdigest()
            if h not in state["nontrivial"]:
                state["nontrivial"].add(h)
                if len(state["samples"]) < 3:
                    state["samples"].append({"check": sub.name, "case": json.loads(js)})
        for lb in labels:
            state["labels"][lb] = state["labels"].get(lb, 0) + 1

    t0 = time.monotonic()
    err = None
    try:
        for case in sub.explicit:
            one(case)
        if sub.strategy is not None:
            hs = (int(seed) * 1000003 + zlib.crc32(f"{prop}/{sub.name}".encode())) & 0x7FFFFFFF

            @hypothesis.seed(hs)
            @settings(
                max_examples=n,
                deadline=None,
                database=None,
                report_multiple_bugs=False,
                suppress_health_check=list(HealthCheck),
                phases=[Phase.generate, Phase.shrink],
                print_blob=False,
            )
            @given(sub.strategy)
            def driver(case):
                one(case)

            with contextlib.redirect_stdout(sys.stderr):
                driver()
    except StopShrink:
        pass
    except (HarnessError, MemoryError) as e:
        err = f"{type(e).__name__}: {e}\n{traceback.format_exc()}"
    except BaseException as e:
        if state["fail"] is None:
            err = f"{type(e).__name__}: {e}\n{traceback.format_exc()}"
    res = {
        "sub": sub.name,
        "evals": state["evals"],
        "nontrivial": len(state["nontrivial"]),
        "labels": state["labels"],
        "samples": state["samples"],
        "fail": state["fail"],
        "error": err,
        "wall": time.monotonic() - t0,
        "rule": sub.rule,
    }
    with open(outfile, "w") as f:
        json.dump(res, f, default=str)
