"""P01: histogram with reverse indices is an exact partition of the in-range data."""
from core import *
from PyFHD.pyfhd_tools.pyfhd_utils import histogram


def verify(data, hist, bins, ri, lo, hi, bs, what, tol=0.0):
    hist, bins, ri = np.asarray(hist), np.asarray(bins), np.asarray(ri)
    nb = hist.size
    check(bins.size == nb and nb >= 1, f"{what}: {bins.size} bins but {nb} counts")
    close(bins, lo + bs * np.arange(nb), f"{what}: left bin edges", rtol=1e-9)
    flat = data.ravel()
    inr = np.nonzero((flat >= lo) & (flat <= hi))[0]
    check(ri.size == nb + 1 + inr.size, f"{what}: reverse indices have {ri.size} entries, expected {nb + 1 + inr.size}")
    check(int(hist.sum()) == inr.size, f"{what}: counts sum to {hist.sum()}, {inr.size} elements in range")
    check(ri[0] == nb + 1 and ri[nb] == ri.size, f"{what}: reverse index offsets {ri[0]}..{ri[nb]}")
    seen = []
    for k in range(nb):
        seg = ri[ri[k]:ri[k + 1]]
        check(ri[k + 1] - ri[k] == hist[k], f"{what}: bin {k} lists {ri[k+1]-ri[k]} members, count says {hist[k]}")
        check(np.all(np.diff(seg) > 0), f"{what}: bin {k} members not in data order: {seg.tolist()}")
        check(seg.size == 0 or (seg.min() >= 0 and seg.max() < flat.size), f"{what}: bin {k} lists an index outside the data")
        v = flat[seg]
        if k < nb - 1:
            ok = (v >= lo + k * bs - tol) & (v < lo + (k + 1) * bs + tol)
        else:  # the last bin also takes what rounding leaves on its right edge
            ok = v >= lo + k * bs - tol
        check(np.all(ok), lambda: f"{what}: bin {k} [{lo + k*bs},{lo + (k+1)*bs}) holds {v[~ok].tolist()}")
        seen.append(seg)
    check(np.array_equal(np.sort(np.concatenate(seen)), inr), f"{what}: members are not exactly the in-range indices")


def f_int(c):
    if c["dtype"] == "int8":
        c = dict(c, data=[(x + 60) % 240 - 120 for x in c["data"]], min=None if c["min"] is None else c["min"] % 240 - 120, max=None if c["max"] is None else c["max"] % 240 - 120)
    data = np.array(c["data"], dtype=c["dtype"]).reshape(-1, c["cols"]) if c["cols"] > 1 and len(c["data"]) % c["cols"] == 0 else np.array(c["data"], dtype=c["dtype"])
    kw = {}
    if c["min"] is not None:
        kw["min"] = c["min"]
    if c["max"] is not None:
        kw["max"] = c["max"]
    lo = c["min"] if c["min"] is not None else int(data.min())
    hi = c["max"] if c["max"] is not None else int(data.max())
    if hi < lo:
        hi = lo
    before = data.copy()
    hist, bins, ri = call("histogram", histogram, data, bin_size=c["bs"], **kw)
    equal(data, before, "histogram input must be left unchanged")
    nb = (hi - lo) // c["bs"] + 1
    check(hist.size == nb, f"expected {nb} bins, got {hist.size}")
    verify(data, hist, bins, ri, lo, hi, c["bs"], "int histogram")
    flat = data.ravel().astype(int)
    ref = np.bincount((flat[(flat >= lo) & (flat <= hi)] - lo) // c["bs"], minlength=nb)
    equal(hist, ref, "int histogram counts")
    inr = ((flat >= lo) & (flat <= hi)).sum()
    labels = []
    if inr < flat.size:
        labels.append("some-out-of-range")
    if inr == 0:
        labels.append("none-in-range")
    if data.ndim == 2:
        labels.append("2-D data")
    return flat.size > 1 and nb > 1, labels


def f_float(c):
    data = np.array(c["data"], dtype=np.float64) * c["unit"] + c["shift"]
    bs = c["bs"] * c["unit"]
    kw = {}
    lo, hi = float(data.min()), float(data.max())
    missing = [i for i in c["odd"] if i < data.size] if c["min"] is not None and c["max"] is not None and c["odd"] else []
    for i in missing:  # not a number and infinities are in no range
        data[i] = [np.nan, np.inf, -np.inf, np.nan][i % 4]
    if c["min"] is not None:
        kw["min"] = lo = c["min"] * c["unit"] + c["shift"]
    if c["max"] is not None:
        kw["max"] = hi = c["max"] * c["unit"] + c["shift"]
    if hi < lo:
        hi = lo
    hist, bins, ri = call("histogram", histogram, data, bin_size=bs, **kw)
    tol = 1e-9 * (abs(lo) + abs(hi) + bs)
    n_exact = (hi - lo) / bs
    check(abs(hist.size - (np.floor(n_exact) + 1)) <= (1 if abs(n_exact - round(n_exact)) < 1e-6 else 0), f"{hist.size} bins over [{lo},{hi}] by {bs}")
    verify(data, hist, bins, ri, lo, hi, bs, "float histogram", tol)
    return data.size > 1 and hist.size > 1, (["edge-aligned"] if c["aligned"] else []) + (["NaN or infinite"] if missing else [])


def f_nbins(c):
    data = np.array(c["data"], dtype=float if c["float"] else int)
    lo, hi = data.min(), data.max()
    if lo == hi:
        return False
    n = c["n"]
    hist, bins, ri = call("histogram(num_bins)", histogram, data, num_bins=n)
    check(abs(hist.size - n) <= 1, f"asked for {n} bins, got {hist.size}")
    verify(data, hist, bins, ri, lo, hi, (hi - lo) / n, "num_bins histogram", 1e-9 * (abs(lo) + abs(hi)))
    return data.size > 2


def f_many(c):
    """As many elements, bins and distinct values as gridding has; the reference is a stable sort."""
    r = rng(c["seed"])
    n, nb = int(10 ** c["size"]), int(10 ** c["bins"])
    if c["int"]:
        bs, lo = c["bs"], c["lo"]
        data = r.integers(lo - c["out"], lo + nb * bs + c["out"], n).astype(c["dtype"])
    else:
        bs, lo = c["bs"] * 0.25, c["lo"] * 0.5
        data = lo + (r.integers(-c["out"], nb + c["out"], n) + r.choice([0.25, 0.5, 0.75], n)) * bs
    hi = lo + nb * bs - (1 if c["int"] else bs / 2)
    hist, bins, ri = call("histogram", histogram, data.reshape(2, -1) if n % 2 == 0 else data, bin_size=bs, min=lo, max=hi)
    check(hist.size == nb and bins.size == nb, f"{hist.size} bins, expected {nb}")
    close(bins, lo + np.arange(nb) * bs, "left bin edges", rtol=1e-12)
    k = np.floor((data.astype(float) - lo) / bs).astype(int)
    inr = np.flatnonzero((k >= 0) & (k < nb) & (data <= hi))
    cnt = np.bincount(k[inr], minlength=nb)
    equal(hist, cnt, "counts")
    equal(ri[: nb + 1], np.concatenate([[0], np.cumsum(cnt)]) + nb + 1, "offsets")
    equal(ri[nb + 1 :], inr[np.argsort(k[inr], kind="stable")], "members")
    return n > 70000 or nb > 70000


ints = st.integers(-60, 300)
s_int = st.fixed_dictionaries({
    "data": st.lists(ints, min_size=1, max_size=60), "dtype": st.sampled_from(["int64", "int64", "int32", "int16", "int8", "float32"]),
    "bs": st.integers(1, 12), "cols": st.sampled_from([1, 1, 2, 3]),
    "min": st.none() | st.integers(-70, 310), "max": st.none() | st.integers(-70, 310)})
s_float = st.booleans().flatmap(lambda al: st.fixed_dictionaries({
    "aligned": st.just(al),
    "data": st.lists(st.integers(0, 40).map(float) if al else st.floats(0, 40, allow_nan=False).map(lambda x: round(x, 6)), min_size=1, max_size=40),
    "bs": st.integers(1, 5).map(float) if al else st.floats(0.05, 7).map(lambda x: round(x, 4)),
    "unit": st.sampled_from([1.0, 0.1, 0.07, 1 / 3, 80000.0, 5e-7, 0.01, 1e3]), "shift": st.sampled_from([0.0, -3.0, 0.33, 1.67e8 / 80000 * 1e-3]),
    "min": st.none() | st.integers(-5, 45), "max": st.none() | st.integers(-5, 45), "odd": st.sampled_from([[], []]) | st.lists(st.integers(0, 39), max_size=4, unique=True)}))
s_nb = st.fixed_dictionaries({"data": st.lists(st.integers(-100, 100), min_size=2, max_size=40), "n": st.integers(1, 30), "float": st.booleans()})

SUBS = [
    Sub("int_partition", s_int, f_int, 1500, 20000, rule="integer arrays with optional limits; non-trivial: >1 element and >1 bin",
        explicit=[{"data": [0, 0, 0, 2, 2], "dtype": "int64", "bs": 1, "cols": 1, "min": 1, "max": 1}], crashy=True),
    Sub("float_partition", s_float, f_float, 1500, 20000, rule="float arrays incl. values exactly on bin edges; non-trivial: >1 element and >1 bin", crashy=True),
    Sub("num_bins", s_nb, f_nbins, 600, 6000, rule="requested bin counts; non-trivial: >2 elements, distinct extremes", crashy=True),
    Sub("many", st.fixed_dictionaries(dict(seed=st.integers(0, 99999), size=st.floats(3, 5.5), bins=st.floats(0, 6), bs=st.integers(1, 9), lo=st.sampled_from([0, 1, -500, 70000, 3000000]), out=st.sampled_from([0, 5, 50]), int=st.booleans(), dtype=st.sampled_from(["int64", "int64", "int32"]))), f_many, 40, 600,
        rule="up to 300000 elements in up to a million bins; non-trivial: more than 70000 of either", crashy=True),
]
