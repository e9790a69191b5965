"""P24 dirty images from uv planes."""
from core import *
from PyFHD.gridding.gridding_utils import dirty_image_generate

CFG = dict(image_filter="filter_uv_uniform")


def dft(uv):
    """Centred Fourier sum: brightness of each direction, divided by the number of pixels."""
    e, d = uv.shape
    ky, kx = np.arange(e) - e // 2, np.arange(d) - d // 2
    A = np.exp(-2j * np.pi * np.outer(ky, ky) / e)
    B = np.exp(-2j * np.pi * np.outer(kx, kx) / d)
    return A @ uv @ B.T / uv.size


def plane(r, e, d, hermitian):
    uv = r.normal(size=(e, d)) + 1j * r.normal(size=(e, d))
    if hermitian:
        uv = (uv + np.conj(np.roll(uv[::-1, ::-1], 1, (0, 1)))) / 2
    return uv


def smooth(m, k):
    out = m.copy()
    h = k // 2
    out[h : m.shape[0] - h, h : m.shape[1] - h] = np.lib.stride_tricks.sliding_window_view(m, (k, k)).mean((2, 3))
    return out


def f_image(c):
    r = rng(c["seed"])
    k = 2 if c["pad"] == int(c["pad"]) else 4  # the padded sizes are even
    e, d = c["e"] * k, c["d"] * k
    uv = plane(r, e, d, c["herm"])
    kw, want = {}, uv.copy()
    if c["thr"]:
        t = c["thr"] * min(e, d) / 2
        rad = np.hypot(*np.meshgrid(np.arange(e) - e / 2, np.arange(d) - d / 2, indexing="ij"))
        m = np.where(rad < t, 0.0, 1.0) if t > 0 else np.where(rad > -t, 0.0, 1.0)
        k = np.floor(np.sqrt(e * d) / 100) if c["width"] is None else c["width"]
        if c["width"] is not None:
            kw["width_smooth"] = c["width"]
        k = max(int(k), 1)
        k += k % 2 == 0
        if k > min(e, d):
            return False
        want = want * smooth(m, k)
        kw["baseline_threshold"] = t
    elif c["thr"] is None:
        kw["baseline_threshold"] = None
    if c["mask"]:
        kw["mask"] = (r.random((e, d)) < 0.7).astype(int)
        want = want * kw["mask"]
    fil = None
    if c["filter"] == "array":
        fil = kw["filter"] = r.uniform(0.1, 2, (e, d))
        want = want * fil
    elif c["filter"] == "zeros":
        fil = kw["filter"] = np.zeros((e, d))
        want = want * fil
    elif c["filter"] == "uniform":
        cnt = r.choice([0, 0.5, 1, 2, 7], size=(e, d))
        cnt[0, 0] = 3
        kw.update(filter=np.empty(0), uniform_filter_uv=cnt)
        fil = np.where(cnt >= 1, 1 / np.where(cnt >= 1, cnt, 1), 0)
        fil = fil / fil[fil > 0].mean()
        if c["wt"]:
            wt = (r.random((e, d)) < 0.8) * (1 + 1j)
            wt[0, 0] = 1
            kw["weights"] = wt
            fil = np.where(cnt >= 1, 1 / np.where(cnt >= 1, cnt, 1), 0)
            fil = fil / fil[wt != 0].mean()
        want = want * fil
    if c["degpix"]:
        kw["degpix"] = c["degpix"]
    if c["norm"]:
        kw["normalization"] = c["norm"]
    if c["pad"] > 1:
        kw["pad_uv_image"] = c["pad"]
    elif c["pad"] == 1:
        kw["pad_uv_image"] = 1
    beam = None
    cfg = dict(CFG)
    if c["optimal"]:
        cfg["image_filter"] = "filter_uv_optimal"
        n = max(c["pad"], 1)
        beam = kw["beam_ptr"] = r.uniform(-0.3, 1, (int(e * n), int(d * n)))
    keep = {k: np.array(v, copy=True) for k, v in kw.items() if isinstance(v, np.ndarray)}
    uv0 = uv.copy()
    img, gotf, gotn = call("dirty_image_generate", dirty_image_generate, uv, cfg, LOG, not_real=c["cplx"], **kw)
    equal(uv, uv0, "uv plane untouched")
    for k, v in keep.items():
        equal(kw[k], v, f"{k} untouched")
    scale = 1.0
    if c["degpix"]:
        scale /= np.radians(c["degpix"]) ** 2
    if c["norm"]:
        scale *= c["norm"]
        check(gotn == c["norm"], "normalization is returned")
    if fil is None:
        check(gotf is None, "no filter is returned when none was applied")
    else:
        close(gotf, fil, "filter returned")
    n = max(c["pad"], 1)
    check(img.shape == (int(e * n), int(d * n)), f"image shape {img.shape}")
    check(np.iscomplexobj(img) == c["cplx"], "real unless a complex image is asked for")
    ref = dft(want)
    full = ref
    if n > 1:
        E, D = int(e * n), int(d * n)
        big = np.zeros((E, D), complex)
        y, x = E // 2 - e // 2, D // 2 - d // 2
        big[y : y + e, x : x + d] = want
        full = dft(big) * n * n
    expect = full * scale * (1 if beam is None else beam)
    tol = 1e-9
    close(img, expect if c["cplx"] else expect.real, "image", rtol=tol, atol=tol * abs(scale) * np.abs(full).max())
    if beam is None and n == int(n):
        n = int(n)
        close(img[::n, ::n] if n > 1 else img, (ref if c["cplx"] else ref.real) * scale, "the original pixels in the padded image", rtol=tol, atol=tol * abs(scale) * np.abs(full).max())
    if c["herm"] and not kw.get("mask") is not None and fil is None and not c["thr"]:
        check(np.abs(full.imag).max() <= 1e-9 * np.abs(full).max() if n == 1 else True, "a plane equal to its conjugate mirror images to real numbers")
    return e * d > 4, ([c["filter"]] if c["filter"] else []) + (["padded"] if n > 1 else []) + (["threshold"] if c["thr"] else []) + (["non-square"] if e != d else [])


def f_source(c):
    """A point source appears at its own pixel, with its own flux."""
    r = rng(c["seed"])
    e, d = c["e"] * 2, c["d"] * 2
    ky, kx = np.meshgrid(np.arange(e) - e // 2, np.arange(d) - d // 2, indexing="ij")
    n = c["n"]
    pos = r.permutation(e * d)[:n]
    flux = r.uniform(0.5, 3, n)
    y, x = pos // d, pos % d
    uv = np.zeros((e, d), complex)
    for f, yy, xx in zip(flux, y, x):
        uv += f * np.exp(2j * np.pi * (kx * (xx - d // 2) / d + ky * (yy - e // 2) / e))
    img, _, _ = call("dirty_image_generate", dirty_image_generate, uv, CFG, LOG)
    want = np.zeros((e, d))
    want[y, x] = flux
    close(img, want, "sources at their pixels", rtol=1e-9, atol=1e-10)
    uv2 = plane(r, e, d, False)
    a, _, _ = call("dirty_image_generate", dirty_image_generate, uv + 2 * uv2, CFG, LOG, not_real=True)
    b, _, _ = call("dirty_image_generate", dirty_image_generate, uv2, CFG, LOG, not_real=True)
    close(a - 2 * b, want + 0j, "imaging is linear", rtol=1e-8, atol=1e-9)
    power = np.sum(np.abs(b) ** 2) * b.size
    close(power, np.sum(np.abs(uv2) ** 2), "power is conserved", rtol=1e-9)
    return n > 1 and e != d


def f_resize(c):
    r = rng(c["seed"])
    e, d, k = c["e"] * 2, c["d"] * 2, c["k"]
    uv = plane(r, e, d, False)
    img, _, _ = call("dirty_image_generate", dirty_image_generate, uv, CFG, LOG, resize=k, not_real=True)
    check(img.shape == (e * k, d * k), "resized image shape")

    def grow(a, k, axis):
        n = a.shape[axis]
        p = np.arange(n * k) / k
        i = np.floor(p).astype(int)
        t = p - i
        j = np.minimum(i + 1, n - 1)
        sh = [1, 1]
        sh[axis] = -1
        return np.take(a, i, axis) * (1 - t).reshape(sh) + np.take(a, j, axis) * t.reshape(sh)

    close(img, dft(grow(grow(uv, k, 0), k, 1)), "image of the interpolated plane", rtol=1e-8)
    return k > 1


BIG = dict(seed=3, e=100, d=120, herm=False, cplx=True, thr=0.3, width=None, mask=False, filter=None, wt=False, degpix=None, norm=None, pad=0, optimal=False)
SUBS = [
    Sub("image", st.fixed_dictionaries(dict(seed=st.integers(0, 99999), e=st.integers(1, 12), d=st.one_of(st.none(), st.integers(1, 12)), herm=st.booleans(), cplx=st.booleans(), thr=st.sampled_from([0, None, 0.3, -0.6, -0.9, 0.05]), width=st.sampled_from([None, None, 1, 2, 3, 4, 5]), mask=st.booleans(), filter=st.sampled_from([None, "array", "uniform"]), wt=st.booleans(),
        degpix=st.sampled_from([None, 0.2, 1.7]), norm=st.sampled_from([None, 2.5, -0.25]), pad=st.sampled_from([0, 1, 1.0, 2, 3, 2.0, 1.5, 2.5]), optimal=st.sampled_from([False, False, True]))).map(lambda c: dict(c, d=c["d"] or c["e"])), f_image, 400, 6000, explicit=[BIG, dict(BIG, e=150, d=90), dict(BIG, e=90, d=150), dict(BIG, filter="zeros", e=3, d=2), dict(BIG, e=210, d=100), dict(BIG, thr=-0.4, e=150, d=100)], rule="uv planes and every option of the imaging step against a direct Fourier sum; non-trivial: more than 4 pixels"),
    Sub("source", st.fixed_dictionaries(dict(seed=st.integers(0, 99999), e=st.integers(1, 16), d=st.integers(1, 16), n=st.integers(1, 4))).filter(lambda c: c["e"] * c["d"] * 4 >= c["n"]), f_source, 150, 2000, rule="point sources; non-trivial: several on a non-square plane"),
    Sub("resize", st.fixed_dictionaries(dict(seed=st.integers(0, 99999), e=st.integers(1, 8), d=st.integers(1, 8), k=st.integers(1, 4))), f_resize, 80, 800, rule="resized planes; non-trivial: factor above 1"),
]
SUBS.append(large(SUBS[0], 4, 60, e=st.integers(100, 200), d=st.integers(100, 200), pad=st.sampled_from([0, 1, 1, 2])))
