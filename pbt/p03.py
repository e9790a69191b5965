"""P03: inverse weights and robust statistics."""
import math
from core import *
from PyFHD.pyfhd_tools.pyfhd_utils import idl_median, resistant_mean, weight_invert

SPECIAL = [0.0, -0.0, 1.0, -1.0, 0.5, 2.0, 1e-310, 5e-324, 1e308, float("inf"), float("-inf"), float("nan"), 1e-3, 3.25]


def num(c):
    return float(c) if not isinstance(c, list) else complex(c[0], c[1])


def f_winv(c):
    if c["complex"]:
        w = np.array([complex(a, b) for a, b in c["vals"]])
    else:
        w = np.array([a if "float" in c["dtype"] else int(np.clip(np.nan_to_num(a), *((0, 200) if c["dtype"] == "uint8" else (-10**6, 10**6)))) for a, _ in c["vals"]], dtype=c["dtype"])
    if c["twod"] and w.size % 2 == 0:
        w = w.reshape(2, -1)
    arg = w if not c["scalar"] else w.flat[0]
    if c["scalar"]:
        w = np.array([arg])
    before = w.copy()
    kw = {}
    if c["thr"] is not None:
        kw["threshold"] = c["thr"]
    if c["use_abs"]:
        kw["use_abs"] = True
    got = call("weight_invert", weight_invert, arg, **kw)
    equal(w, before, "weight_invert input must be left unchanged")
    ints = w.dtype.kind in "iu"  # the inverse of an integer is a real number
    if ints and c["scalar"] and c["pyint"]:
        arg = int(arg)
    w = w.astype(float) if ints else w
    want = np.zeros(w.shape, w.dtype)
    for i in np.ndindex(w.shape):
        v = w[i]
        key = abs(v) if (c["use_abs"] or c["complex"]) else v
        use = (key >= c["thr"]) if c["thr"] is not None else not (v == 0)
        if use:
            q = np.divide(w.dtype.type(1), v)
            if not (np.isnan(q) or np.isinf(q)):
                want[i] = q
    if w.size == 1:
        check(np.ndim(got) == 0, "a single weight must give a scalar back")
        got = np.array([got]).reshape(w.shape)
    check(np.all(np.isfinite(got)), f"inverse weights contain NaN or infinity: {got}")
    same_shape(got, want, "weight_invert")
    rel = np.abs(np.asarray(got) - want) <= (1e-5 if w.dtype in (np.float32, np.complex64) else 1e-12) * np.abs(want)
    check(np.all(rel), lambda: f"weight_invert({w.tolist()}, {kw}) = {np.asarray(got).tolist()}, expected {want.tolist()}")
    return w.size > 1, ["complex" if c["complex"] else "integer" if ints else "real"]


def ref_rm(a, dev):
    a = list(a)
    re = sorted(complex(x).real for x in a)
    n = len(re)
    med = (re[(n - 1) // 2] + re[n // 2]) / 2
    ad = [abs(x - med) for x in a]
    s = sorted(ad)
    mad = (s[(n - 1) // 2] + s[n // 2]) / 2 / 0.67449999999999999
    kept = [x for x, d in zip(a, ad) if d <= dev * mad]
    if not kept:
        return float("nan"), 0.0, 0
    m = sum(kept) / len(kept)
    sr = math.sqrt(sum((complex(x).real - complex(m).real) ** 2 for x in kept) / len(kept))
    si = math.sqrt(sum((complex(x).imag - complex(m).imag) ** 2 for x in kept) / len(kept))
    d = max(dev, 1.0)
    sig = complex(sr, si)
    if d <= 4.5:
        sig = sig / (0.020142 * d**3 - 0.23584 * d**2 + 0.90723 * d - 0.15405)
    thr = abs(sig * dev)
    # a difference of zero is within a limit of zero, rounding has no say in it
    marg = min([abs(x - t) for x in ad for t in (thr, dev * mad) if not x == t == 0], default=1e99)
    out = [x for x, q in zip(a, ad) if q <= thr]
    return (sum(out) / len(out) if out else float("nan")), marg, len(out)


def f_rm(c):
    r = rng(c["seed"])
    n = c["n"]
    a = r.normal(size=n) * c["mag"]
    if c["complex"]:
        a = a + 1j * r.normal(size=n) * c["mag"]
    k = int(c["outfrac"] * n)
    if k:
        a[r.permutation(n)[:k]] += c["mag"] * c["off"] * (1j if c["complex"] and c["outimag"] else 1)
    a = a + c["shift"]
    if c["ties"]:  # most values the same, as constant data give
        a[r.permutation(n)[: n - n // 3]] = c["ties"] if c["ties"] > 0 else 0  # zeros are values as any other
        if c["ties"] == 7:
            a = np.round(a.real).astype(int)
    want, marg, kept = ref_rm(a, c["dev"])
    if marg < 1e-9 * c["mag"] or kept == 0:
        return False, ["on-threshold"]
    before = a.copy()
    got = call("resistant_mean", resistant_mean, a, c["dev"])
    equal(a, before, "resistant_mean input must be left unchanged")
    close(got, want, f"resistant_mean of {n} values, {c['dev']} deviations", rtol=1e-9, atol=1e-12 * c["mag"])
    p = r.permutation(n)
    close(resistant_mean(a[p], c["dev"]), got, "resistant_mean of permuted data", rtol=1e-9, atol=1e-12 * c["mag"])
    close(resistant_mean(a * 4, c["dev"]), 4 * got, "resistant_mean of scaled data", rtol=1e-9, atol=1e-12 * c["mag"])
    if k and c["off"] >= 1e4 and c["outfrac"] <= 0.3 and n >= 20 and 1 <= c["dev"] <= 4 and not c["shift"] and not c["ties"]:
        check(abs(got) <= 20 * c["mag"], f"far outliers moved the resistant mean to {got}")
        return True, ["far-outliers"]
    return kept < n, ["rejects"] if kept < n else []


def f_med(c):
    x = np.array(c["x"], dtype=c["dtype"])
    before = x.copy()
    s = sorted(x.tolist())
    if c["width"] == 0:
        got = call("idl_median", idl_median, x, even=c["even"])
        want = (s[(len(s) - 1) // 2] + s[len(s) // 2]) / 2 if c["even"] else s[len(s) // 2]
        close(got, want, f"median of {c['x']} (even={c['even']})", rtol=1e-12)
        equal(x, before, "idl_median input must be left unchanged")
        return x.size > 1, ["odd-length" if x.size % 2 else "even-length"]
    w = c["width"]
    got = call("idl_median(width)", idl_median, x, width=w)
    equal(x, before, "idl_median input must be left unchanged")
    same_shape(got, x, "median filter")
    h = w // 2
    want = x.copy()
    for i in range(h, x.size - h):
        if w % 2:
            want[i] = sorted(x[i - h:i + h + 1].tolist())[h]
    if w % 2:
        equal(got, want, f"median filter width {w}")
    else:
        for i in range(x.size):
            if i < h or i >= x.size - h:
                check(got[i] == x[i], "median filter must leave the edges alone")
            else:
                check(got[i] in x[i - h:i + h + 1], "filtered value is not a sample of its window")
    return h > 0 and x.size > 2 * h, ["filter"]


def f_med_large(c):
    r = rng(c["seed"])
    x = r.normal(size=c["n"]) if c["kind"] == 0 else r.integers(-50, 50, c["n"]).astype(float) if c["kind"] == 1 else np.arange(c["n"])[:: -1].astype(float)
    return f_med(dict(x=x.tolist(), dtype="float64", even=c["even"], width=min(c["width"], c["n"] - 1)))


fl = st.one_of(st.sampled_from(SPECIAL), st.floats(-1e6, 1e6))
SUBS = [
    Sub("weight_invert", st.fixed_dictionaries(dict(
        vals=st.lists(st.tuples(fl, fl), min_size=1, max_size=12), complex=st.booleans(), dtype=st.sampled_from(["float64", "float64", "float32", "int64", "uint8"]), pyint=st.booleans(),
        twod=st.booleans(), scalar=st.booleans(), use_abs=st.booleans(), thr=st.none() | st.sampled_from([1.0, 1e-3, 0.0, 2.0]) | st.floats(-5, 5))),
        f_winv, 3000, 40000, rule="real and complex weights seeded with 0, NaN, inf, denormals; non-trivial: more than one weight"),
    Sub("resistant_mean", st.fixed_dictionaries(dict(
        n=st.integers(1, 200), seed=st.integers(0, 10**6), complex=st.booleans(), mag=st.sampled_from([1.0, 1e-5, 1e7]),
        outfrac=st.sampled_from([0.0, 0.05, 0.1, 0.3]), off=st.sampled_from([3.0, 10.0, 1e4, 1e6]), outimag=st.booleans(), shift=st.sampled_from([0, 0, 5.0, -100.0]),
        ties=st.sampled_from([0, 0, 0, 3.0, 7, -1]), dev=st.sampled_from([1, 2, 2, 3, 4, 5, 2.5, 0.5]))), f_rm, 1500, 20000, rule="gaussian data with planted outliers; non-trivial: at least one value rejected"),
    Sub("median", st.fixed_dictionaries(dict(
        x=st.lists(st.integers(-20, 20), min_size=1, max_size=30), dtype=st.sampled_from(["float64", "int64"]), even=st.booleans(),
        width=st.one_of(st.just(0), st.integers(1, 9)))).filter(lambda c: c["width"] == 0 or len(c["x"]) > c["width"]), f_med, 1000, 10000,
        rule="medians and median filtering; non-trivial: >1 sample / window narrower than data"),
    Sub("median_large", st.fixed_dictionaries(dict(seed=st.integers(0, 99999), n=st.integers(2, 3000), kind=st.integers(0, 2), even=st.booleans(), width=st.sampled_from([0, 0, 0, 3, 19, 38, 101]))), f_med_large, 60, 1000,
        rule="medians of as many values as there are channels and tiles; non-trivial: >1 sample / window narrower than data"),
]
