"""P02: rebin averages blocks when shrinking and interpolates when growing, exactly as documented."""
from core import *
from PyFHD.pyfhd_tools.pyfhd_utils import rebin


def grow_axis(a, s, axis):
    """Reference: linear interpolation between samples, last block held."""
    a = np.moveaxis(np.asarray(a), axis, 0)
    n = a.shape[0]
    out = np.empty((n * s,) + a.shape[1:], dtype=a.dtype if a.dtype.kind in "fc" else np.int64)
    for k in range(n):
        for j in range(s):
            step = 0 if k == n - 1 else (a[k + 1] - a[k]) / s * j
            if a.dtype.kind in "iu":
                step = np.floor(np.asarray(step)).astype(np.int64)
            out[k * s + j] = a[k] + step
    return np.moveaxis(out, 0, axis)


def shrink(a, rows, cols):
    r, c = a.shape[0] // rows, a.shape[1] // cols
    out = np.empty((rows, a.shape[0] * 0 + cols), dtype=complex if np.iscomplexobj(a) else float)
    isint = a.dtype.kind in "iu"
    for i in range(rows):
        for j in range(cols):
            per_row = [sum(a[i * r + p, j * c + q] for q in range(c)) / c for p in range(r)]
            if isint:
                per_row = [float(np.fix(v)) for v in per_row]
            v = sum(per_row) / r
            out[i, j] = np.fix(v) if isint else v
    return out


def reference(a, shape):
    oned = a.ndim == 1
    m = a.reshape(1, -1) if oned else a
    isint = a.dtype.kind in "iu"
    # shrink first, then grow
    m2 = shrink(m, min(m.shape[0], shape[0]), min(m.shape[1], shape[1]))
    m2 = m2.astype(np.int64) if isint else m2
    if shape[0] > m2.shape[0]:
        m2 = np.repeat(m2, shape[0], axis=0) if m2.shape[0] == 1 else grow_axis(m2, shape[0] // m2.shape[0], 0)
    if shape[1] > m2.shape[1]:
        m2 = grow_axis(m2, shape[1] // m2.shape[1], 1)
    return m2[0] if shape[0] == 1 else m2


def build(c):
    r = rng(c["seed"])
    shp = (c["cols"],) if c["oned"] and not c["row"] else (c["rows"], c["cols"])
    k = c["kind"]
    if k == "int":
        return r.integers(-50, 50, shp)
    a = r.normal(size=shp) * c["mag"]
    return a + 1j * r.normal(size=shp) if k == "complex" else a


def fn(c):
    a = build(c)
    rows = 1 if c["oned"] else c["rows"]
    ro, co = c["rf"] * rows if c["rup"] else rows // c["rf"], c["cf"] * c["cols"] if c["cup"] else c["cols"] // c["cf"]
    shape = (ro, co)
    before = a.copy()
    arg = {"tuple": tuple, "list": list, "array": np.array}[c["as"]](shape)
    if c["sample"]:
        got = call("rebin(sample)", rebin, a, arg, sample=True)
        m = a.reshape(1, -1) if a.ndim == 1 else a
        ri = (np.arange(ro) * rows) // ro
        ci = (np.arange(co) * c["cols"]) // co
        want = m[np.ix_(ri, ci)]
        if ro == 1:  # a single row may come with or without its row axis
            check(np.ndim(got) in (1, 2), f"sampled rebin {a.shape}->{shape} has shape {np.shape(got)}")
            got = np.atleast_2d(got)
        equal(got, want, f"sampled rebin {a.shape}->{shape}")
    else:
        got = call("rebin", rebin, a, arg)
        want = np.atleast_2d(reference(a, shape) if shape != a.shape else a)
        check(np.ndim(got) == 2 or (np.ndim(got) == 1 and ro == 1), f"rebin {a.shape}->{shape} has shape {np.shape(got)}")
        close(np.atleast_2d(got), want, f"rebin {a.shape}->{shape}", rtol=1e-10)
        if a.dtype.kind in "iu":
            check(np.asarray(got).dtype.kind in "iu", f"integer input gave {np.asarray(got).dtype}")
    equal(a, before, "rebin input must be left unchanged")
    lab = (["one row"] if c["row"] else []) + ["int" if c["kind"] == "int" else c["kind"], ("up" if c["rup"] else "down") + "/" + ("up" if c["cup"] else "down")]
    return c["rf"] > 1 or c["cf"] > 1, lab


@st.composite
def cases(draw, sample):
    oned = draw(st.booleans())
    rf, cf = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    rup, cup = draw(st.booleans()), draw(st.booleans())
    if oned:
        rup = True
    kr, kc = draw(st.integers(1, 4)), draw(st.integers(1, 5))
    rows = 1 if oned else (max(kr, 2) if rup else max(kr, 1) * rf)
    if not oned and rows == 1:
        rows, rf = 2, 1
    cols = kc if cup else kc * cf
    kind = draw(st.sampled_from(["int", "float", "complex"]))
    if kind == "int" and not sample and (rup and rf > 1) != (cup and cf > 1) and ((not rup and rf > 1) or (not cup and cf > 1)):
        kind = "float"  # rounding order of a mixed integer rebin is unspecified
    return dict(oned=oned, rows=rows, cols=cols, rf=rf, cf=cf, rup=rup, cup=cup, kind=kind, sample=sample,
                row=oned and draw(st.booleans()), **{"as": draw(st.sampled_from(["tuple", "tuple", "list", "array"]))}, mag=draw(st.sampled_from([1.0, 1e-6, 1e9])), seed=draw(st.integers(0, 10**6)))


def f_laws(c):
    """Metamorphic: linearity for floats, mean preserved when shrinking, growing then shrinking a constant is the identity."""
    r = rng(c["seed"])
    a, b = r.normal(size=(c["r"] * c["f"], c["c"] * c["g"])), r.normal(size=(c["r"] * c["f"], c["c"] * c["g"]))
    sh = (c["r"], c["c"])
    k = c["k"]
    close(np.atleast_2d(rebin(a + k * b, sh)), np.atleast_2d(rebin(a, sh)) + k * np.atleast_2d(rebin(b, sh)), "rebin linearity", rtol=1e-9, atol=1e-12)
    close(np.mean(rebin(a, sh)), a.mean(), "block averaging preserves the mean", rtol=1e-9, atol=1e-12)
    up = (a.shape[0] * 2, a.shape[1] * 3)
    if a.shape[0] > 1:
        g = rebin(a, up)
        close(g[::2, ::3], a, "growing keeps the original samples", rtol=1e-12)
        check(g.max() <= a.max() + 1e-12 and g.min() >= a.min() - 1e-12, "interpolation left the range of its inputs")
    return c["f"] * c["g"] > 1


def f_big(c):
    """Image sized arrays; the reference averages a reshaped array or interpolates at fractional positions."""
    r = rng(c["seed"])
    e, d, k, m = c["e"], c["d"], c["k"], c["m"]
    a = r.normal(size=(e * k, d * m)) if not c["int"] else r.integers(-(10**6), 10**6, (e * k, d * m))
    if c["complex"] and not c["int"]:
        a = a + 1j * r.normal(size=a.shape)
    got = call("rebin(sample)", rebin, a, (e, d), sample=True)
    equal(got, a[::k, ::m], "sampled")
    got = call("rebin(sample)", rebin, a, (e * k * 2, d * m), sample=True)
    equal(got, np.repeat(a, 2, 0), "repeated rows")
    if c["int"]:
        return a.size > 65536
    got = call("rebin", rebin, a, (e, d))
    close(got, a.reshape(e, k, d, m).mean((1, 3)), "block means", rtol=1e-9)
    b = got
    up = call("rebin", rebin, b, (e * k, d * m))
    x = np.arange(e * k) / k
    i = np.floor(x).astype(int)
    b = b[i] + (b[np.minimum(i + 1, e - 1)] - b[i]) * (x - i)[:, None]
    x = np.arange(d * m) / m
    i = np.floor(x).astype(int)
    b = b[:, i] + (b[:, np.minimum(i + 1, d - 1)] - b[:, i]) * (x - i)
    close(up, b, "interpolated", rtol=1e-9)
    return a.size > 65536


def f_reject(c):
    a = np.arange(float(c["shape"][0] * c["shape"][1])).reshape(c["shape"])
    if c["oned"]:
        a = a[0]
    kw = {"sample": True} if c["sample"] else {}
    try:
        rebin(a, tuple(c["new"]), **kw)
    except ValueError:
        return True, ["sample" if c["sample"] else "interpolate"] + (["1-D"] if c["oned"] else []) + ["one axis fits" if any(x % y == 0 or y % x == 0 for x, y in zip(c["shape"], c["new"])) else "no axis fits"]
    fail(f"rebin {a.shape}->{tuple(c['new'])} {kw} is not integral but was accepted")


@st.composite
def bad(draw):
    oned = draw(st.booleans())

    def axis(off):
        n, f = draw(st.integers(2, 6)), draw(st.integers(1, 4))
        if not off:
            return (n, n * f) if draw(st.booleans()) else (n * f, n)
        m = n * f + draw(st.integers(1, n - 1))
        return (n, m) if draw(st.booleans()) else (m, n)

    which = draw(st.sampled_from([1, 2, 3]))
    (r, nr), (c, nc) = axis(which & 1), axis(which & 2)
    if oned:
        c, nc = (c, nc) if which & 2 else (2, 3)
        r = 1
    return dict(shape=[r, c], new=[nr, nc], oned=oned, sample=draw(st.booleans()))


SUBS = [
    Sub("interpolate_and_average", cases(False), fn, 1500, 30000, rule="1-D/2-D int, float, complex arrays, every grow/shrink combination; non-trivial: some factor > 1"),
    Sub("sample", cases(True), fn, 600, 8000, rule="nearest-sample mode; non-trivial: some factor > 1"),
    Sub("laws", st.fixed_dictionaries(dict(r=st.integers(1, 4), c=st.integers(1, 4), f=st.integers(1, 4), g=st.integers(1, 4), k=st.floats(-3, 3), seed=st.integers(0, 9999))), f_laws, 400, 4000, rule="linearity, mean, sample preservation; non-trivial: shrink factor > 1"),
    Sub("images", st.fixed_dictionaries(dict(seed=st.integers(0, 99999), e=st.integers(2, 300), d=st.integers(2, 300), k=st.integers(1, 5), m=st.integers(1, 5), int=st.booleans(), complex=st.booleans())), f_big, 25, 400, rule="arrays of image size; non-trivial: more than 65536 values"),
    Sub("non_integral_rejected", bad(), f_reject, 200, 1000, rule="target shape not a multiple: must be refused"),
]
