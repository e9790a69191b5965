"""P32 polarisation conversions and conjugate mirror."""
from core import *
from PyFHD.gridding.gridding_utils import conjugate_mirror, crosspol_reformat
from PyFHD.pyfhd_tools.pyfhd_utils import crosspol_split_real_imaginary


def img(r, shape, cplx):
    a = r.normal(size=shape)
    return a + 1j * r.normal(size=shape) if cplx else a


def ref_mirror(a):
    n, m = a.shape
    out = np.empty_like(a)
    for i in range(n):
        for j in range(m):
            out[i, j] = np.conj(a[(-i) % n, (-j) % m])
    return out


def f_mirror(c):
    a = img(rng(c["seed"]), (c["n"], c["m"]), c["cplx"])
    k = a.copy()
    got = call("conjugate_mirror", conjugate_mirror, a)
    equal(a, k, "input untouched")
    equal(got, ref_mirror(k), "mirror about the origin pixel")
    equal(conjugate_mirror(got), k, "mirroring twice")
    if c["cplx"]:
        f = np.fft.fft2(np.asarray(k + got))
        check(np.abs(f.imag).max() < 1e-9 * (1 + np.abs(f).max()), "image plus its mirror transforms to a real image")
    return c["n"] > 2 and c["m"] > 2, ["complex"] if c["cplx"] else ["real"]


def f_reformat(c):
    r = rng(c["seed"])
    a = img(r, (4, c["n"], c["m"]), True)
    k = a.copy()
    got = call("crosspol_reformat", crosspol_reformat, a)
    x = (k[2] + ref_mirror(k[3])) / 2
    close(got[2], x, "pseudo Q")
    close(got[3], ref_mirror(x), "pseudo U is the conjugate mirror")
    equal(got[:2], k[:2], "XX and YY untouched")
    return c["n"] > 2


def f_source(c):
    """Cross polarised sources, gridded on one half of the plane: their brightness is in the image of the reformatted plane."""
    r = rng(c["seed"])
    n, m = 2 * c["n"], 2 * c["m"]
    v, u = np.meshgrid(np.arange(n) - n // 2, np.arange(m) - m // 2, indexing="ij")
    # every coordinate whose opposite is on the plane too, once
    half = ((v < 0) | ((v == 0) & (u < 0))) & (v > -n // 2) & (u > -m // 2) & (r.random((n, m)) < c["fill"])
    w = np.zeros((4, n, m), complex)
    w[2:, half] = 1
    pos = r.integers(0, n * m, c["k"])
    flux = r.normal(size=c["k"]) + 1j * r.normal(size=c["k"])
    a = np.zeros((4, n, m), complex)
    for p, f in ((2, flux), (3, flux.conj())):  # YX is the conjugate of XY in every direction
        for s, q in zip(f, pos):
            a[p] += w[p] * s * np.exp(2j * np.pi * (u * (q % m - m // 2) / m + v * (q // m - n // 2) / n))
    both = half | ref_mirror(half.astype(float)).astype(bool)
    want = np.zeros((n, m), complex)
    for s, q in zip(flux, pos):
        want += both * s * np.exp(2j * np.pi * (u * (q % m - m // 2) / m + v * (q // m - n // 2) / n))
    got = call("crosspol_reformat", crosspol_reformat, a)
    wt = call("crosspol_reformat", crosspol_reformat, w.copy())
    close(2 * got[2], want, "the plane of XY, both halves")
    close(2 * got[3], ref_mirror(want), "the plane of YX, both halves")
    close(wt[2].sum(), half.sum(), "weight of the plane of XY")
    return bool(half.sum() > 3)


def f_split(c):
    r = rng(c["seed"])
    a = img(r, (4, c["n"], c["m"]), True)
    k = a.copy()
    names = ["XX", "YY", "XY", "YX", "I", "Q", "U", "V"]
    given = list(names) if c["names"] else None
    got, nm = call("crosspol_split_real_imaginary", crosspol_split_real_imaginary, a, pol_names=given)
    equal(got[2], k[2].real.astype(complex), "real part of the cross polarization")
    equal(got[3], k[2].imag.astype(complex), "imaginary part of the cross polarization")
    equal(got[:2], k[:2], "XX and YY untouched")
    if c["names"]:
        check(list(nm) == ["XX", "YY", "XY_real", "XY_imag", "I", "Q", "U", "V"], f"names {nm}")
        check(given == names, "the caller's names are left alone")
    else:
        check(nm is None, "no names")
    return True


dims = dict(seed=st.integers(0, 99999), n=st.integers(1, 12), m=st.integers(1, 12))
SUBS = [
    Sub("mirror", st.fixed_dictionaries(dict(dims, cplx=st.booleans())), f_mirror, 300, 4000, rule="images; non-trivial: larger than 2x2"),
    Sub("reformat", st.fixed_dictionaries(dict(dims)), f_reformat, 150, 2000, rule="uv planes; non-trivial: larger than 2 rows"),
    Sub("source", st.fixed_dictionaries(dict(seed=st.integers(0, 99999), n=st.integers(1, 12), m=st.integers(1, 12), k=st.integers(1, 3), fill=st.sampled_from([1.0, 0.6, 0.2]))), f_source, 150, 2000, rule="half planes of cross polarised sources; non-trivial: more than 3 coordinates with data"),
    Sub("split", st.fixed_dictionaries(dict(dims, names=st.booleans())), f_split, 150, 2000, rule="images"),
]
SUBS.append(large(SUBS[0], 4, 60, n=st.integers(128, 400), m=st.integers(128, 400)))
SUBS.append(large(SUBS[1], 4, 60, n=st.integers(128, 400), m=st.integers(128, 400)))
SUBS.append(large(SUBS[2], 4, 60, n=st.integers(128, 400), m=st.integers(128, 400)))
SUBS.append(large(SUBS[3], 4, 60, n=st.integers(128, 400), m=st.integers(128, 400)))
