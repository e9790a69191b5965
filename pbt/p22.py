"""P22 grid locations and visibility counts."""
from copy import deepcopy
from core import *
from gridlib import *
from PyFHD.gridding.gridding_utils import baseline_grid_locations, visibility_count, conjugate_mirror
from PyFHD.gridding.filters import filter_uv_uniform


def choose(c, r, obs, w):
    nb, nf = w.shape[-1], obs["n_freq"]
    b = None if c["bi"] == "none" else np.sort(r.choice(nb, max(1, int(nb * 0.6)), replace=False))
    f = None if c["fi"] == "none" else np.sort(r.choice(nf, max(1, int(nf * 0.6)), replace=False))
    return b, f


def expect_lists(obs, w, b, f, fill):
    if fill:
        f = np.arange(obs["n_freq"])
    elif f is None:
        f = np.nonzero(obs["baseline_info"]["freq_use"])[0]
    if b is None:
        b = np.arange(w.shape[-1]) if fill else np.nonzero((np.maximum(w, 0)).sum(0) > 0)[0]
    return b, f


def f_locate(c):
    r = rng(c["seed"])
    obs, par, _, w = scene(c, r)
    w = w[0]
    pd, res = c["psf_dim"], c["res"]
    psf, _ = psf_dict(r, c, obs, 1, c["h5"])
    b, f = choose(c, r, obs, w)
    fill = c["fill"]
    be, fe = expect_lists(obs, w, b, f, fill)
    model = locate(obs, par, w, pd, res, fe, be, fill, c["mask"])
    if model is None:
        return False
    p0, w0 = deepcopy(par), w.copy()
    got = call("baseline_grid_locations", baseline_grid_locations, obs, psf, par, w, LOG, bi_use=b, fi_use=f, fill_model_visibilities=fill, interp_flag=c["interp"], mask_mirror_indices=c["mask"])
    for q in ("uu", "vv"):
        equal(par[q], p0[q], f"params {q} untouched")
    equal(w, w0, "weights untouched")
    if b is None:
        equal(got["bi_use"], be, "baselines in use")
    else:
        check("bi_use" not in got, "bi_use is only returned when it was not given")
    shp = (len(fe), len(be))
    xm, ym, xo, yo = (np.zeros(shp, np.int64) for _ in range(4))
    dx, dy = np.zeros(shp), np.zeros(shp)
    for (i, j), m in model.items():
        xm[i, j], ym[i, j] = (m["xm"], m["ym"]) if m["ok"] else (-1, -1)
        xo[i, j], yo[i, j], dx[i, j], dy[i, j] = m["xo"], m["yo"], m["dx"], m["dy"]
    equal(got["xmin"], xm, "lowest pixel column of each footprint (-1: not gridded)")
    equal(got["ymin"], ym, "lowest pixel row of each footprint (-1: not gridded)")
    equal(got["x_offset"], xo, "hyperresolved column offset")
    equal(got["y_offset"], yo, "hyperresolved row offset")
    if c["interp"]:
        for k, wt in (("dx0dy0_arr", (1 - dx) * (1 - dy)), ("dx1dy0_arr", dx * (1 - dy)), ("dx0dy1_arr", (1 - dx) * dy), ("dx1dy1_arr", dx * dy)):
            close(got[k], wt, k, rtol=1e-6, atol=1e-6)
    # the bins partition the gridded visibilities by position
    places = {}
    for k, (x, y) in enumerate(zip(xm.ravel(), ym.ravel())):
        if x >= 0:
            places.setdefault((y, x), []).append(k)
    check(got["n_bin_use"] == len(places), f"{got['n_bin_use']} bins in use, expected {len(places)}")
    if places:
        for q, pos in zip(got["bin_i"], sorted(places)):
            ri = got["ri"]
            equal(ri[ri[q] : ri[q + 1]], places[pos], f"visibilities at {pos}")
            check(got["bin_n"][q] == len(places[pos]), "bin counts")
        check(got["bin_n"].sum() == sum(map(len, places.values())), "total count")
    return bool(places) and len(places) < xm.size, ["all cut"] if not places else []


def f_count(c):
    r = rng(c["seed"])
    obs, par, _, w = scene(c, r)
    w = w[0]
    pd = c["psf_dim"]
    psf, _ = psf_dict(r, c, obs, 1, c["h5"])
    b, f = choose(c, r, obs, w)
    be, fe = expect_lists(obs, w, b, f, c["fill"])
    model = locate(obs, par, w, pd, c["res"], fe, be, c["fill"], c["mask"])
    if model is None:
        return False
    want = np.zeros((c["elem"], c["dim"]))
    n = 0
    for m in model.values():
        if m["ok"]:
            n += 1
            want[m["ym"] : m["ym"] + pd, m["xm"] : m["xm"] + pd] += 1
    half = call("visibility_count", visibility_count, obs, psf, par, w, LOG, fi_use=f, bi_use=b, mask_mirror_indices=c["mask"], no_conjugate=True, fill_model_visibilities=c["fill"])
    close(half, want, "footprint counts")
    full = call("visibility_count", visibility_count, obs, psf, par, w, LOG, fi_use=f, bi_use=b, mask_mirror_indices=c["mask"], fill_model_visibilities=c["fill"])
    flip = np.roll(want[::-1, ::-1], 1, (0, 1))
    close(full, (want + flip) / 2, "counts with their mirror")
    # uniform weighting from the counts
    img = r.normal(size=want.shape) + 1j * r.normal(size=want.shape)
    if n:
        i0 = img.copy()
        out, fil = call("filter_uv_uniform", filter_uv_uniform, img, full)
        inv = np.where(full >= 1, 1 / np.where(full >= 1, full, 1), 0)
        if (inv > 0).any():
            inv = inv / inv[inv > 0].mean()
            close(fil, inv, "uniform filter: one over the counts, mean one")
            close(out, img * inv, "uniformly weighted plane")
        # normalised over the weights when these are a plane of their own
        W = np.where(r.random(full.shape) < 0.4, r.uniform(0.5, 3, full.shape), 0)
        if (inv[W > 0] > 0).any():
            o3, f3 = call("filter_uv_uniform", filter_uv_uniform, img, full, weights=W)
            close(f3, inv / inv[W > 0].mean(), "uniform filter normalised over the weighted pixels")
            close(o3, img * f3, "uniformly weighted plane")
        W = np.where(r.random(full.shape) < 0.4, r.uniform(0.5, 3, full.shape) if r.integers(2) else 10 ** r.uniform(-4, 1, full.shape), 0)
        if (W > 0).any():
            pos = W[W > 0].min()
            W = np.where((W > pos) & (r.random(W.shape) < 0.2), -W, W)  # their size counts
            k0 = W.copy()
            o4, f4 = call("filter_uv_uniform", filter_uv_uniform, img, None, weights=W)
            want4 = np.where(W != 0, 1 / np.where(W != 0, np.abs(W), 1), 0)
            close(f4, want4 / want4[W != 0].mean(), "uniform filter of a plane of weights")
            close(o4, img * f4, "plane filtered by its weights")
            equal(W, k0, "weights untouched")
        equal(img, i0, "plane untouched")
        if not c["fill"]:
            o2, f2 = call("filter_uv_uniform", filter_uv_uniform, img, None, obs=obs, psf=psf, params=par, logger=LOG, weights=w, fi_use=f, bi_use=b, mask_mirror_indices=c["mask"])
            if w.size != img.size:
                close(f2, fil, "uniform filter with the counts computed on the way")
    return n > 1, []


COMMON = dict(seed=st.integers(0, 99999), n_tile=st.integers(3, 9).map(lambda x: 11 - x if x > 5 else x + 3), n_time=st.integers(1, 3), n_freq=st.integers(1, 6), n_pol=st.just(1), dim=st.integers(8, 30).map(lambda x: 2 * x), elem=st.integers(8, 30).map(lambda x: 2 * x),
    kpix=st.sampled_from([0.5, 1.0, 0.3]), psf_dim=st.sampled_from([2, 4, 6]), res=st.sampled_from([1, 2, 5, 8]), df=st.sampled_from([80000.0, 1.28e6, 5e6]), spread=st.sampled_from([0.2, 0.1, 0.3, 0.6]), flag=st.sampled_from([0.0, 0.1, 0.3, 0.6]), cut=st.sampled_from([0.0, 0.2, 0.0, 0.2, 0.0, 0.2, 0.0, 0.2, 0.0, 1.0]),
    whole=st.sampled_from([0.0, 0.3, 0.0, 0.3, 0.0, 0.3, 0.0, 0.3, 0.0, 1.0]), same=st.sampled_from([0, 3, 10]), shuffle=st.booleans(), qmin=st.sampled_from([0.0, 0.1, 0.3]), qmax=st.sampled_from([1.0, 0.95, 1.0, 0.8]), bi=st.sampled_from(["none", "some"]), fi=st.sampled_from(["none", "some"]),
    mask=st.sampled_from([False, False, True]), h5=st.booleans())
SUBS = [
    Sub("locations", st.fixed_dictionaries(dict(COMMON, fill=st.sampled_from([False, False, True]), interp=st.booleans())), f_locate, 250, 4000, rule="non-square grids, flags, subsets, mirrored baselines; non-trivial: some visibilities gridded and some not"),
    Sub("counts", st.fixed_dictionaries(dict(COMMON, fill=st.sampled_from([False, False, True]))), f_count, 200, 3000, rule="counts, mirror and uniform filter; non-trivial: more than one visibility counted"),
]
SUBS.append(large(SUBS[0], 6, 80, n_tile=st.integers(30, 70), n_time=st.integers(1, 4), dim=st.integers(150, 500).map(lambda x: 2 * x), elem=st.integers(150, 500).map(lambda x: 2 * x)))
SUBS.append(large(SUBS[1], 6, 80, n_tile=st.integers(30, 70), n_time=st.integers(1, 4), dim=st.integers(150, 500).map(lambda x: 2 * x), elem=st.integers(150, 500).map(lambda x: 2 * x)))
