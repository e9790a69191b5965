"""P20 calibration from auto-correlations."""
from copy import deepcopy
from core import *
import synth
from p03 import ref_rm
from PyFHD.calibration.calibration_utils import vis_extract_autocorr, vis_cal_auto_init, vis_cal_auto_fit, cal_auto_ratio_divide, cal_auto_ratio_remultiply


def scene(c, r):
    nf, nt, npol, n = c["n_freq"], c["n_time"], c["n_pol"], c["n_tile"]
    obs, par, vis, w = synth.toy(r, n, nt, nf, npol, autos=True)
    bi = obs["baseline_info"]
    a, b = bi["tile_a"], bi["tile_b"]
    has = r.random(n) >= c["missing"]
    if c["missing"] < 1:
        has[r.integers(n)] = True
    keep = (a != b) | has[a - 1]
    if c["shuffle"]:
        k = np.flatnonzero(keep[: obs["n_baselines"]])
        k = r.permutation(k)
        idx = (k[None] + obs["n_baselines"] * np.arange(nt)[:, None]).ravel()
    else:
        idx = np.flatnonzero(keep)
    bi["tile_a"], bi["tile_b"], vis = a[idx], b[idx], vis[..., idx]
    obs["n_baselines"] = idx.size // nt
    au = bi["tile_a"] == bi["tile_b"]
    vis[:2, :, au] = r.uniform(0.5, 2, vis[:2, :, au].shape) + 1e-3j * r.normal(size=vis[:2, :, au].shape)
    bi["time_use"] = (r.random(nt) >= c["f_time"]).astype(np.int8)
    bi["time_use"][r.integers(nt)] = 1
    bi["freq_use"] = (r.random(nf) >= c["f_freq"]).astype(np.int64)
    bi["freq_use"][r.integers(nf)] = 1
    return obs, par, vis, has


def means(obs, vis, tiles):
    bi, nt = obs["baseline_info"], obs["n_time"]
    nb = obs["n_baselines"]
    out = np.zeros((obs["n_pol"], obs["n_freq"], len(tiles)))
    for j, t in enumerate(tiles):
        s = [q * nb + i for q in range(nt) if bi["time_use"][q] for i in range(nb) if bi["tile_a"][q * nb + i] == t + 1 == bi["tile_b"][q * nb + i]]
        out[:, :, j] = np.real(vis[:, :, s]).mean(-1)
    return out


def f_extract(c):
    r = rng(c["seed"])
    obs, par, vis, has = scene(c, r)
    v0 = vis.copy()
    avg = c["average"]
    au, ti = call("vis_extract_autocorr", vis_extract_autocorr, obs, vis, dict(cal_time_average=avg))
    equal(vis, v0, "data untouched")
    check(np.asarray(ti).dtype.kind in "iu", f"tile indices are {np.asarray(ti).dtype}")
    if not has.any():
        check(np.size(ti) == 0, "no auto-correlations")
        return True, ["none"]
    if avg:
        equal(ti, np.flatnonzero(has), "tiles with auto-correlations")
        close(au, means(obs, vis, np.flatnonzero(has)), "auto-correlations averaged over the used times", rtol=1e-12)
    else:
        bi = obs["baseline_info"]
        s = np.flatnonzero(bi["tile_a"] == bi["tile_b"])
        equal(ti, bi["tile_a"][s] - 1, "tile of every auto-correlation")
        close(au, np.real(vis[:, :, s]), "every auto-correlation", rtol=1e-14)
    return True, (["some missing"] if not has.all() else []) + (["flagged times"] if (obs["baseline_info"]["time_use"] == 0).any() else [])


BASE = dict(seed=st.integers(0, 2**32 - 1), n_tile=st.integers(2, 7), n_time=st.integers(1, 4), n_freq=st.integers(2, 10), n_pol=st.sampled_from([1, 2, 4]), missing=st.sampled_from([0, 0, 0.3, 0.6]), shuffle=st.booleans(),
    f_time=st.sampled_from([0, 0.3, 0.6]), f_freq=st.sampled_from([0, 0.2, 0.4]), average=st.just(True))
C_EX = st.fixed_dictionaries(dict(BASE, missing=st.sampled_from([0, 0.3, 0.6, 1]), average=st.booleans()))


def f_init(c):
    r = rng(c["seed"])
    obs, par, vis, has = scene(c, r)
    nc = min(c["n_pol"], 2)
    model = vis * np.exp(0.3 * r.normal(size=vis.shape))
    cal = dict(n_pol=nc)
    tiles = np.flatnonzero(has)
    A, M = means(obs, vis, tiles), means(obs, model, tiles)
    if not has.any():
        A, tiles = call("vis_extract_autocorr", vis_extract_autocorr, obs, vis, dict(cal_time_average=True))
        M = A
    for X in (A, M):
        X[r.random(X.shape) < c["zero"]] = 0  # no power there
    got = call("vis_cal_auto_init", vis_cal_auto_init, obs, cal, vis, model, A.copy(), M.copy(), tiles)
    F = obs["baseline_info"]["freq_use"] > 0
    want = np.ones((nc, c["n_freq"], c["n_tile"]))
    for p in range(nc):
        d, m1, _ = ref_rm(list(np.abs(vis[p][F]).ravel()), 2)
        m, m2, _ = ref_rm(list(np.abs(model[p][F]).ravel()), 2)
        if min(m1, m2) < 1e-9:
            return False
        for j, t in enumerate(tiles):
            want[p, :, t] = np.sqrt(np.divide(A[p, :, j], M[p, :, j], out=np.zeros(c["n_freq"]), where=M[p, :, j] > 0))
        if want[p].any():
            want[p] *= np.sqrt(d / m) / want[p].mean()
        want[p][want[p] == 0] = 1  # nothing to start from
    close(got, want, "initial gains", rtol=1e-9)
    check(np.iscomplexobj(got), "complex gains")
    return tiles.size > 0, (["some missing"] if not has.all() else ["all"]) + (["no power"] if (A == 0).any() else [])


def gains(c, r, nc):
    return np.exp(0.3 * r.normal(size=(nc, c["n_freq"], c["n_tile"])) + 2j * np.pi * r.random((nc, c["n_freq"], c["n_tile"])))


def f_fit(c):
    r = rng(c["seed"])
    obs, par, vis, has = scene(c, r)
    nc, nf, n = min(c["n_pol"], 2), c["n_freq"], c["n_tile"]
    g = gains(c, r, nc)
    dead = r.random(n) < c["dead"]
    g[:, :, dead] = np.nan
    tiles = np.flatnonzero(has)
    A = r.uniform(0.5, 2, (c["n_pol"], nf, tiles.size))
    M = r.uniform(0.5, 2, (c["n_pol"], nf, tiles.size))
    if not c["linear"]:
        A[r.random(A.shape) < c["zero"]] = 0  # no power there
    if c["linear"]:  # the cross gains are a linear function of the auto gains
        sl, of = r.uniform(0.5, 2, (nc, tiles.size)), r.uniform(-0.2, 0.2, (nc, tiles.size))
        for p in range(nc):
            for j, t in enumerate(tiles):
                if not dead[t]:
                    g[p, :, t] = (np.sqrt(A[p, :, j] / M[p, :, j]) * sl[p, j] + of[p, j]) * np.exp(1j * np.angle(g[p, :, t]))
    use = obs["baseline_info"]["freq_use"] > 0
    F = np.array([f for f in range(nf) if all(use[q] for q in (f - 1, f, f + 1) if 0 <= q < nf)], int)
    if F.size < 3:
        return False
    if c["linear"]:  # nothing next to a flagged channel matters
        out = np.setdiff1d(np.arange(nf), F)
        g[:, out] *= 3
    cal = dict(n_pol=nc, gain=g.copy())
    got = call("vis_cal_auto_fit", vis_cal_auto_fit, obs, cal, A.copy(), M.copy(), tiles)
    slope, off = np.zeros((nc, n)), np.zeros((nc, n))
    want = g.copy()
    for p in range(nc):
        for j, t in enumerate(tiles):
            x, y = np.sqrt(A[p, :, j] / M[p, :, j]), np.abs(g[p, :, t])
            if dead[t]:
                want[p, :, t] = np.nan
                continue
            xm, ym = x[F].mean(), y[F].mean()
            s = ((x[F] - xm) * (y[F] - ym)).sum() / ((x[F] - xm) ** 2).sum()
            if ((x[F] - xm) ** 2).sum() < 1e-3:
                return False
            slope[p, t], off[p, t] = s, ym - s * xm
            want[p, :, t] = (x * s + off[p, t]) * np.exp(1j * np.angle(g[p, :, t]))
            if c["linear"]:
                close([s, off[p, t]], [sl[p, j], of[p, j]], "oracle", rtol=1e-6)
    close(got["gain"], want, "gains from the auto-correlations", rtol=1e-8)
    live = [t for t in tiles if not dead[t]]
    idx = np.array(live + [t for t in range(n) if not has[t]], int)
    if idx.size:
        close(got["auto_params"][0][:, idx], off[:, idx], "offsets", rtol=1e-7, atol=1e-9)
        close(got["auto_params"][1][:, idx], slope[:, idx], "slopes", rtol=1e-7, atol=1e-9)
    if not dead[tiles].any():
        close(got["auto_scale"], slope.sum(1) / tiles.size, "mean slope", rtol=1e-7)
    return True, (["some missing"] if not has.all() else []) + (["linear"] if c["linear"] else []) + (["flagged channels"] if not use.all() else [])


C_FIT = st.fixed_dictionaries(dict(BASE, n_freq=st.integers(5, 16), f_freq=st.sampled_from([0, 0.1, 0.2]), dead=st.sampled_from([0, 0, 0.3]), linear=st.booleans(), zero=st.sampled_from([0, 0, 0.1])))


def f_ratio(c):
    r = rng(c["seed"])
    obs, par, vis, has = scene(c, r)
    nc, nf, n = min(c["n_pol"], 2), c["n_freq"], c["n_tile"]
    g = gains(c, r, nc)
    tiles = np.flatnonzero(has)
    A = r.uniform(0.5, 2, (c["n_pol"], nf, tiles.size))
    A[r.random(A.shape) < c["zero"]] = 0  # no power there
    ref = int(c["ref"] % n)
    cal = dict(n_pol=nc, gain=g.copy(), ref_antenna=ref)
    A0 = A.copy()
    cal1, ratio = call("cal_auto_ratio_divide", cal_auto_ratio_divide, obs, cal, A, tiles)
    equal(A, A0, "auto-correlations untouched")
    same_shape(ratio, g, "auto ratio")
    if has[ref]:
        k = int(np.flatnonzero(tiles == ref)[0])
        want = np.ones((nc, nf, n))
        ok = np.broadcast_to(A[:nc, :, k : k + 1] > 0, A[:nc].shape)
        want[:, :, tiles] = np.sqrt(np.divide(A[:nc], A[:nc, :, k : k + 1], out=np.zeros(A[:nc].shape), where=ok))
        close(ratio[:, :, tiles], want[:, :, tiles], "ratio to the reference tile", rtol=1e-12)
        close(cal1["gain"], np.divide(g, want, out=np.zeros(g.shape, complex), where=want > 0), "gains divided by the ratio", rtol=1e-12)
    elif A.all():
        rel = ratio[:, :, tiles] / np.sqrt(A[:nc])
        close(rel, np.repeat(rel[:, :, :1], tiles.size, 2), "one reference for all tiles", rtol=1e-12)
    rest = ~has
    if rest.any():
        equal(cal1["gain"][:, :, rest], g[:, :, rest], "gains of tiles without auto-correlations")
    cal2 = call("cal_auto_ratio_remultiply", cal_auto_ratio_remultiply, deepcopy(cal1), ratio.copy(), tiles)
    close(cal2["gain"], np.where(ratio > 0, g, 0), "multiplying the ratio back restores the gains", rtol=1e-12)
    return True, (["some missing"] if rest.any() else []) + (["reference missing"] if not has[ref] else [])


C_IN = st.fixed_dictionaries(dict(BASE, missing=st.sampled_from([0, 0.3, 0.6, 1]), zero=st.sampled_from([0, 0, 0.1])))
C_RA = st.fixed_dictionaries(dict(BASE, zero=st.sampled_from([0, 0, 0.1]), ref=st.integers(0, 6)))

SUBS = [
    Sub("extract", C_EX, f_extract, 300, 8000, rule="always"),
    Sub("init", C_IN, f_init, 250, 5000, rule="some tile with auto-correlations"),
    Sub("fit", C_FIT, f_fit, 300, 8000, rule="at least three channels away from flags"),
    Sub("ratio", C_RA, f_ratio, 250, 8000, rule="always"),
]
SUBS.append(large(SUBS[0], 4, 60, n_tile=st.integers(60, 130), n_time=st.integers(2, 4), n_freq=st.integers(20, 60)))
SUBS.append(large(SUBS[1], 4, 60, n_tile=st.integers(60, 130), n_time=st.integers(2, 4), n_freq=st.integers(20, 60)))
SUBS.append(large(SUBS[2], 4, 60, n_tile=st.integers(60, 130), n_time=st.integers(2, 4), n_freq=st.integers(20, 60)))
SUBS.append(large(SUBS[3], 4, 60, n_tile=st.integers(60, 130), n_time=st.integers(2, 4), n_freq=st.integers(20, 60)))
SUBS.append(large(SUBS[0], 20, 200, name="times", n_time=st.integers(100, 400)))
