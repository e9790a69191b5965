"""P05: index and grid helpers agree with their brute-force meaning."""
from math import factorial
from core import *
from PyFHD.pyfhd_tools.pyfhd_utils import array_match, deriv_coefficients, idl_argunique, meshgrid


def f_match(c):
    a = np.array(c["a"]) + c["off"]
    v = np.array(c["v"]) + c["off"]
    if c["dtype"] != "int64":
        a, v = a.astype(c["dtype"]), v.astype(c["dtype"])
    b = None
    if c["two"]:
        b = (np.array((list(c["b"]) * len(c["a"]))[:len(c["a"])] if len(c["b"]) != len(c["a"]) else c["b"]) + c["off"]).astype(a.dtype)
    a0 = a.copy()
    got = call("array_match", array_match, a, v, b) if b is not None else call("array_match", array_match, a, v)
    equal(a, a0, "array_match input must be left unchanged")
    hit = np.isin(a, v)
    if b is not None:
        hit |= np.isin(b, v)
    want = np.nonzero(hit)[0]
    if want.size == 0:
        check(np.size(got) == 1 and int(np.ravel(got)[0]) == -1, f"no match must give -1, got {got}")
        return False, ["none"]
    equal(got, want, f"array_match({a[:30].tolist()}, {v[:30].tolist()}, {None if b is None else b[:30].tolist()})")
    return want.size < a.size, ["two-arrays"] if b is not None else ["one-array"]


def f_match_many(c):
    r = rng(c["seed"])
    n = c["n"]
    a = r.integers(0, c["top"], n) + c["off"]
    b = r.integers(0, c["top"], n) + c["off"] if c["two"] else None
    v = r.integers(-3, c["top"] + 3, c["nv"]) + c["off"]
    return f_match(dict(a=a, b=b, v=v, two=c["two"], off=0, dtype="int64"))


def f_uniq(c):
    a = np.sort(np.array(c["a"], dtype=c["dtype"]))
    got = call("idl_argunique", idl_argunique, a)
    want = [i for i in range(a.size) if i == a.size - 1 or a[i + 1] != a[i]]
    equal(got, want, f"last index of each distinct value of {a.tolist()}")
    return len(want) < a.size and len(want) > 1


def f_mesh(c):
    d, e = c["d"], c["e"]
    for ax in (1, 2):
        if c["short"]:
            got = call("meshgrid", meshgrid, d, ax, return_integer=c["int"])
            e = d
        else:
            got = call("meshgrid", meshgrid, d, e, ax, return_integer=c["int"])
        rows, cols = np.indices((e, d))
        equal(got, cols if ax == 1 else rows, f"meshgrid({d},{e},{ax})")
        if c["int"]:
            check(np.asarray(got).dtype.kind == "i", "return_integer must give integers")
    return d > 1


def f_deriv(c):
    n = c["n"]
    got = call("deriv_coefficients", deriv_coefficients, n, divide_factorial=c["fac"])
    # x(x-1)...(x-n+1) evaluated through the returned coefficients: sum_k coeff[k] a^(n-k)
    p = np.poly1d([1.0])
    for m in range(n):
        p = p * np.poly1d([1.0, -m])
    want = np.array(p.coeffs[:n])
    if c["fac"]:
        want = want / np.array([float(factorial(m + 1)) for m in range(n)])
    close(got, want, f"derivative coefficients n={n}", rtol=1e-12)
    return n > 2


SUBS = [
    Sub("array_match", st.fixed_dictionaries(dict(a=st.lists(st.integers(0, 20), min_size=1, max_size=25), b=st.lists(st.integers(0, 24), min_size=1, max_size=25),
        v=st.lists(st.integers(-2, 26), min_size=1, max_size=6), two=st.booleans(), off=st.sampled_from([0, 0, 1, 100, -10, -30, 2000]), dtype=st.sampled_from(["int64", "int64", "int32"]))), f_match, 1200, 15000, rule="tile-like arrays and values; non-trivial: some but not all match", crashy=True),
    Sub("match_many", st.fixed_dictionaries(dict(seed=st.integers(0, 99999), n=st.integers(100, 90000), top=st.sampled_from([10, 128, 300, 70000, 200000]), nv=st.sampled_from([1, 3, 50, 300]), off=st.sampled_from([0, 1, 1000, 100000]), two=st.booleans())), f_match_many, 40, 600, rule="as many baselines and tiles as arrays have; non-trivial: some but not all match", crashy=True),
    Sub("last_unique", st.fixed_dictionaries(dict(a=st.lists(st.integers(-9, 9), min_size=1, max_size=30), dtype=st.sampled_from(["float64", "int64"]))), f_uniq, 600, 6000, rule="sorted data with repeats"),
    Sub("meshgrid", st.fixed_dictionaries(dict(d=st.integers(1, 12), e=st.integers(1, 12), short=st.booleans(), int=st.booleans())), f_mesh, 400, 3000, rule="column/row index grids", explicit=[dict(d=700, e=300, short=False, int=True), dict(d=300, e=40000, short=False, int=True), dict(d=1030, e=1, short=True, int=False)]),
    Sub("derivative_coefficients", st.fixed_dictionaries(dict(n=st.integers(1, 28), fac=st.booleans())), f_deriv, 60, 60, rule="falling-factorial coefficients"),
]
