"""P23 gridding against a direct sum over visibilities."""
from copy import deepcopy
from core import *
from gridlib import *
from p22 import choose, expect_lists, COMMON
from PyFHD.gridding.visibility_grid import visibility_grid
from PyFHD.gridding.gridding_utils import interpolate_kernel, grid_beam_per_baseline

CFG = dict(interpolate_kernel=False, mask_mirror_indices=False, beam_per_baseline=False, grid_uniform=False, grid_spectral=False, grid_weights=True, grid_variance=True, beam_clip_floor=False, image_filter="filter_uv_uniform")


def mir(a):
    return np.conj(np.roll(a[::-1, ::-1], 1, (0, 1)))


def planes(c, model, kernel, vis, mod):
    """Direct sum: n_vis and the half planes."""
    sh = (c["elem"], c["dim"])
    img, mo, wt, var, cnt = (np.zeros(sh, t) for t in (complex, complex, complex, float, float))
    spec = [np.zeros(sh, complex) for _ in range(4)]  # sums of f*data, f, f^2, f*model
    pd, n = c["psf_dim"], 0
    for (i, j), m in model.items():
        if not m["ok"]:
            continue
        n += 1
        k = np.conj(kernel(i, j, m)).reshape(pd, pd)
        s = (slice(m["ym"], m["ym"] + pd), slice(m["xm"], m["xm"] + pd))
        v, q = vis[i, j], mod[i, j]
        if m["flip"]:
            v, q = np.conj(v), np.conj(q)
        img[s] += k * v
        mo[s] += k * q
        wt[s] += k
        var[s] += np.abs(k) ** 2
        cnt[s] += 1
        for a, z in zip(spec, (i * v, i, i**2, i * q)):
            a[s] += k * z
    return n, img, mo, wt, var, cnt, spec


def uniform(cnt):
    """Filter of the uniform option: as many times the mean filter as there are visibilities."""
    fil = np.where(cnt >= 1, 1 / np.where(cnt >= 1, cnt, 1), 0)
    fil = fil / fil[fil > 0].mean() if (fil > 0).any() else fil
    return np.where(fil > 0, 1 / np.where(fil > 0, fil, 1), 0)


def compare(got, c, cfg, n, img, mo, wt, var, cnt, spec, noconj, uniform_flag, use_model, what=""):
    half = (lambda a, d=2: a) if noconj else (lambda a, d=2: (a + mir(a)) / d)
    if cfg["grid_spectral"]:
        B, D = spec[1].real / n, spec[2].real / n
        z = D - B**2
        ok = np.abs(z) > 1e-6 * np.abs(D).max()  # elsewhere the division decides between rounding errors
        if not noconj:
            ok &= mir(ok).real > 0
        z = np.where(ok, z, 1)
        for key, a, g in (("spectral_uv", spec[0], img), ("spectral_model_uv", spec[3], mo)):
            if key == "spectral_uv" or use_model:
                close(got[key][ok], half(np.where(ok, (a / n - B * g) / z, 0))[ok], what + key, rtol=1e-6)
    if cfg["grid_uniform"]:
        uniform_flag = True
        u = uniform(cnt)
        img, mo, wt, var = img * u, mo * u, wt * u, var * u
    check(got["n_vis"] == n, f"{what}n_vis {got['n_vis']}, expected {n}")
    close(got["image_uv"], half(img) / n, what + "image plane", rtol=1e-8)
    if use_model:
        close(got["model_return"], half(mo) / n, what + "model plane", rtol=1e-8)
    else:
        check("model_return" not in got, "no model plane without a model")
    close(got["weights"], half(wt) / n if cfg["grid_weights"] else np.zeros_like(wt), what + "weights plane", rtol=1e-8)
    close(got["variance"], half(var, 4) / n if cfg["grid_variance"] else np.zeros_like(var), what + "variance plane", rtol=1e-8)
    close(got["uniform_filter"], half(cnt) if uniform_flag else np.zeros_like(cnt), what + "visibility counts", rtol=1e-8)


def f_grid(c):
    r = rng(c["seed"])
    obs, par, vis, w = scene(c, r)
    pol = c["pol"]
    psf, beam = psf_dict(r, c, obs, 4, c["h5"])
    w, vis = w[0], vis[0]
    mod = r.normal(size=vis.shape) + 1j * r.normal(size=vis.shape)
    b, f = choose(c, r, obs, w)
    be, fe = expect_lists(obs, w, b, f, False)
    pd, res = c["psf_dim"], c["res"]
    model = locate(obs, par, w, pd, res, fe, be, False, c["mask"])
    if model is None:
        return False
    fb = obs["baseline_info"]["fbin_i"][fe]
    cfg = dict(CFG, interpolate_kernel=c["interp"], mask_mirror_indices=c["mask"], grid_weights=c["gw"], grid_variance=c["gv"], grid_spectral=c["spectral"], grid_uniform=c["unif"])

    def kernel(i, j, m):
        k = beam[pol, fb[i]]
        x, y = m["xo"], m["yo"]
        if not c["interp"]:
            return k[y, x]
        dx, dy = m["dx"], m["dy"]
        return k[y, x] * (1 - dx) * (1 - dy) + k[y, x + 1] * dx * (1 - dy) + k[y + 1, x] * (1 - dx) * dy + k[y + 1, x + 1] * dx * dy

    V, M = vis[np.ix_(fe, be)], mod[np.ix_(fe, be)]
    n, *pl = planes(c, model, kernel, V, M)
    keep = [x.copy() for x in (vis, w, mod)]
    p0 = deepcopy(par)
    nf0 = obs["nf_vis"] = r.integers(0, 9, obs["n_freq"])
    nf0 = nf0.copy()
    got = call("visibility_grid", visibility_grid, vis, w, deepcopy(obs), psf, par, pol, cfg, LOG, uniform_flag=c["uni"], no_conjugate=c["noconj"], model=mod if c["model"] else None, fi_use=f, bi_use=b)
    for q in ("uu", "vv", "ww"):
        equal(par[q], p0[q], f"params {q} untouched")
    for x, y, t in zip((vis, w, mod), keep, ("visibilities", "weights", "model")):
        equal(x, y, t + " untouched")
    if n == 0:
        check(got == {}, "nothing to grid gives an empty result")
        return False, ["nothing"]
    compare(got, c, cfg, n, *pl, c["noconj"], c["uni"], c["model"])
    want = nf0.copy()
    for i, k in enumerate(fe):
        want[k] = sum(m["ok"] for (ii, _), m in model.items() if ii == i)
    equal(got["obs"]["nf_vis"], want, "visibilities gridded per channel")
    merged = len({(m["xm"], m["ym"], m["xo"], m["yo"], int(fb[i])) for (i, j), m in model.items() if m["ok"]}) < n
    return n > 1 and len(set(fb)) > 1, [k for k, v in dict(merged=merged, interp=c["interp"], spectral=c["spectral"], uniform=c["unif"]).items() if v]


def f_relations(c):
    """Metamorphic: linear in the data, additive over disjoint sets of visibilities, independent of baseline order and of flagged data."""
    r = rng(c["seed"])
    obs, par, vis, w = scene(c, r)
    psf, beam = psf_dict(r, c, obs, 1)
    w, vis = w[0], vis[0]
    cfg = dict(CFG, interpolate_kernel=c["interp"])
    nb = w.shape[-1]
    f = np.arange(obs["n_freq"])

    def grid(v, wt, b=None, fi=f, p=par, o=obs):
        g = call("visibility_grid", visibility_grid, v.copy(), wt.copy(), deepcopy(o), psf, deepcopy(p), 0, cfg, LOG, uniform_flag=True, fi_use=fi, bi_use=b)
        return g or None

    a = grid(vis, w)
    if a is None:
        return False, ["nothing"]
    other = r.normal(size=vis.shape) + 1j * r.normal(size=vis.shape)
    g1 = grid(other, w)
    g2 = grid(2.5 * vis - 0.5 * other, w)
    close(g2["image_uv"], 2.5 * a["image_uv"] - 0.5 * g1["image_uv"], "linear in the visibilities", rtol=1e-8)
    for k in ("weights", "variance", "uniform_filter"):
        close(g1[k], a[k], f"{k} do not depend on the data", rtol=1e-12)
    junk = np.where(w > 0, vis, 1e6 + 1e5j * other)
    close(grid(junk, w)["image_uv"], a["image_uv"], "flagged data have no influence", rtol=1e-9)
    close(grid(vis, np.where(w > 0, 7.0, w))["image_uv"], a["image_uv"], "a positive weight counts as one", rtol=1e-12)
    # disjoint sets of baselines and of channels
    sel = r.random(nb) < 0.5
    for name, parts in (("baselines", [dict(b=np.nonzero(sel)[0]), dict(b=np.nonzero(~sel)[0])]), ("channels", [dict(fi=f[::2]), dict(fi=f[1::2])])):
        tot = dict(image_uv=0, weights=0, uniform_filter=0)
        n = 0
        for q in parts:
            if any(x.size == 0 for x in q.values()):
                continue
            g = grid(vis, w, **q)
            if g:
                n += g["n_vis"]
                for k in tot:
                    tot[k] = tot[k] + g[k] * (1 if k == "uniform_filter" else g["n_vis"])
        check(n == a["n_vis"], f"disjoint {name} hold all visibilities")
        for k in tot:
            close(tot[k], a[k] * (1 if k == "uniform_filter" else n), f"{k} add up over disjoint {name}", rtol=1e-8)
    # negated baselines with conjugate data
    p2 = deepcopy(par)
    neg = (r.random(nb) < 0.5) & (par["vv"] != 0)
    v2 = vis.copy()
    for q in ("uu", "vv", "ww"):
        p2[q][neg] *= -1
    v2[:, neg] = np.conj(v2[:, neg])
    close(grid(v2, w, p=p2)["image_uv"], a["image_uv"], "a baseline and its reverse grid alike", rtol=1e-8)
    return a["n_vis"] > 2, []


def f_perbase(c):
    r = rng(c["seed"])
    obs, par, vis, w = scene(c, r)
    pd, res = c["psf_dim"], c["res"]
    pid = c["pid"] * 2 * ((pd * res + 1) // 2 + 2)
    ires = min(np.ceil(np.sqrt(res) / 2) * 2, res)
    bot = int(-(pd / 2) * ires + pid / 2)
    if bot < 0 or bot + pd * res > pid:
        return False
    obs.update(obsra=10.0, obsdec=-30.0)
    lm = (np.arange(pid) - pid / 2) * (1.2 / pid)
    dec = -30.0 + np.degrees(lm)[:, None] + 0 * lm[None]
    ra = 10.0 + np.degrees(lm)[None] + 0 * lm[:, None]
    dec[np.hypot(lm[:, None], lm[None]) > 0.55] = np.nan
    ra[np.isnan(dec)] = np.nan
    ib = r.normal(size=(2, pid, pid)) + 1j * r.normal(size=(2, pid, pid))
    psf, _ = psf_dict(r, dict(c, h5=False), obs, 2)
    psf.update(image_info=dict(psf_image_dim=pid, image_power_beam_arr=ib, ra_arr=ra, dec_arr=dec), beam_mask_threshold=100.0)
    if c["h5"]:
        psf = h5psf(psf)
    w, vis = w[0], vis[0]
    mod = r.normal(size=vis.shape) + 1j * r.normal(size=vis.shape)
    b, f = choose(c, r, obs, w)
    be, fe = expect_lists(obs, w, b, f, False)
    model = locate(obs, par, w, pd, res, fe, be)
    if model is None:
        return False
    a, d, d0 = np.radians(ra), np.radians(dec), np.radians(-30.0)
    l = np.cos(d) * np.sin(a - np.radians(10.0))
    m_ = np.cos(d0) * np.sin(d) - np.cos(d) * np.sin(d0) * np.cos(a - np.radians(10.0))
    l, m_ = np.nan_to_num(l), np.nan_to_num(m_)
    pol = c["pol"] % 2
    fr = obs["baseline_info"]["freq"][fe]
    x = (np.arange(c["dim"]) - c["dim"] / 2) * obs["kpix"]
    y = (np.arange(c["elem"]) - c["elem"] / 2) * obs["kpix"]

    def kernel(i, j, m):
        s = -1 if m["flip"] else 1
        du = s * par["uu"][be[j]] * fr[i] - x[m["xm"] + pd // 2]
        dv = s * par["vv"][be[j]] * fr[i] - y[m["ym"] + pd // 2]
        k = np.fft.fftshift(np.fft.fftn(np.fft.fftshift(ib[pol] * np.exp(2j * np.pi * (l * du + m_ * dv))))) / pid**2
        k = k[bot : bot + pd * res, bot : bot + pd * res]
        return k.reshape(pd, res, pd, res).sum((1, 3)).ravel()

    if c["clip"]:  # amplitudes lowered by a hundredth of the highest of all kernels at this place, sums kept
        raw = {(i, j): kernel(i, j, m) for (i, j), m in model.items() if m["ok"]}
        top = {}
        for q, k in raw.items():
            at = (model[q]["xm"], model[q]["ym"])
            top[at] = max(top.get(at, 0), np.abs(k).max())

        def kernel(i, j, m):
            k = raw[i, j]
            amp = np.abs(k)
            low = np.maximum(amp - top[m["xm"], m["ym"]] / 100, 0) * k / amp
            return low * k.sum() / low.sum()

    V, M = vis[np.ix_(fe, be)], mod[np.ix_(fe, be)]
    n, *pl = planes(c, model, kernel, V, M)
    cfg = dict(CFG, beam_per_baseline=True, beam_clip_floor=c["clip"])
    p0 = deepcopy(par)
    got = call("visibility_grid", visibility_grid, vis, w, deepcopy(obs), psf, par, pol, cfg, LOG, uniform_flag=True, no_conjugate=c["noconj"], model=mod, fi_use=f, bi_use=b)
    for q in ("uu", "vv", "ww"):
        equal(par[q], p0[q], f"params {q} untouched")
    if n == 0:
        check(got == {}, "nothing to grid gives an empty result")
        return False, ["nothing"]
    compare(got, c, cfg, n, *pl, c["noconj"], True, True, "per baseline: ")
    return n > 1, ["clipped"] if c["clip"] else []


def f_kernel(c):
    """One kernel per visibility, with the phase of its w coordinate as well."""
    r = rng(c["seed"])
    pd, res, n, nf = c["psf_dim"], c["res"], c["n"], c["n_freq"]
    pid = c["pid"] * 2 * ((pd * res + 1) // 2 + 2)
    bot = int(r.integers(0, pid - pd * res + 1))
    ib = r.normal(size=(2, pid, pid)) + 1j * r.normal(size=(2, pid, pid))
    psf = dict(dim=pd, resolution=res, image_info=dict(psf_image_dim=pid, image_power_beam_arr=ib), beam_mask_threshold=100.0)
    if c["h5"]:
        psf = h5psf(psf)
    l, m = r.uniform(-1, 1, (2, pid, pid))
    nt = r.uniform(-1, 0, (pid, pid)) * r.integers(0, 2)
    fr = r.uniform(1e8, 2e8, nf)
    nb = c["n_base"]
    uu, vv, ww = r.uniform(-3e-7, 3e-7, (3, nb))
    x, y = (np.arange(c["dim"]) - c["dim"] / 2) * c["kpix"], (np.arange(c["elem"]) - c["elem"] / 2) * c["kpix"]
    xm, ym = int(r.integers(0, c["dim"] - pd)), int(r.integers(0, c["elem"] - pd))
    fi, bt = r.integers(0, nf, n), r.integers(0, nb, n)
    pol = int(r.integers(2))
    keep = [v.copy() for v in (uu, vv, ww, l, m, nt, fr, x, y, fi, bt)]
    box = np.zeros((n, pd**2), complex)
    got = call("grid_beam_per_baseline", grid_beam_per_baseline, psf, dict(CFG), LOG, uu, vv, ww, l, m, nt, fr, x, y, xm, ym, fi, bt, pol, bot, bot + pd * res - 1, pd**2, box, n)
    for a, b in zip((uu, vv, ww, l, m, nt, fr, x, y, fi, bt), keep):
        equal(a, b, "arguments untouched")
    same_shape(got, box, "kernels")
    j = np.arange(pid) - pid // 2
    F = np.exp(-2j * np.pi * np.outer(j, j) / pid)
    for q in range(n):
        ph = l * (uu[bt[q]] * fr[fi[q]] - x[xm + pd // 2]) + m * (vv[bt[q]] * fr[fi[q]] - y[ym + pd // 2]) - nt * ww[bt[q]] * fr[fi[q]]
        k = (F @ (ib[pol] * np.exp(2j * np.pi * ph)) @ F.T / pid**2)[bot : bot + pd * res, bot : bot + pd * res]
        close(got[q], k.reshape(pd, res, pd, res).sum((1, 3)).ravel(), f"kernel of visibility {q}", rtol=1e-7)
    return n > 1 and nt.any(), []


def f_interp(c):
    """Bilinear kernel: exact on kernels that are bilinear in the offsets, and equal to the samples at the corners."""
    r = rng(c["seed"])
    n, m = c["res"], c["m"]
    co = r.normal(size=(4, m)) + 1j * r.normal(size=(4, m))
    yy, xx = np.meshgrid(np.arange(n + 1), np.arange(n + 1), indexing="ij")
    k = co[0] + xx[..., None] * co[1] + yy[..., None] * co[2] + (xx * yy)[..., None] * co[3]
    x, y = r.integers(0, n), r.integers(0, n)
    dx, dy = r.random(2) if c["edge"] else r.integers(0, 2, 2)
    k0 = k.copy()
    got = call("interpolate_kernel", interpolate_kernel, k, x, y, (1 - dx) * (1 - dy), dx * (1 - dy), (1 - dx) * dy, dx * dy)
    equal(k, k0, "kernel untouched")
    X, Y = x + dx, y + dy
    close(got, co[0] + X * co[1] + Y * co[2] + X * Y * co[3], "bilinear kernel", rtol=1e-9)
    return n > 1


C = dict(COMMON, h5=st.sampled_from([False, False, True]), n_freq=st.integers(1, 6).map(lambda k: 7 - k), cut=st.sampled_from([0.0, 0.2]), whole=st.sampled_from([0.0, 0.3]), n_tile=st.integers(4, 9), spread=st.sampled_from([0.2, 0.1, 0.3]),
    dim=st.integers(0, 20).map(lambda k: 60 - 2 * k), elem=st.integers(0, 20).map(lambda k: 60 - 2 * k), flag=st.sampled_from([0.0, 0.1, 0.3]), qmax=st.sampled_from([1.0, 0.95, 1.0]), mask=st.sampled_from([False, False, False, True]))
SUBS = [
    Sub("grid", st.fixed_dictionaries(dict(C, pol=st.integers(0, 3), interp=st.sampled_from([False, False, True]), navg=st.integers(1, 3), groups=st.sampled_from([0, 0, 3]), gw=st.sampled_from([True, True, False]), gv=st.sampled_from([True, True, False]), spectral=st.booleans(),
        uni=st.booleans(), unif=st.sampled_from([False, False, True]), noconj=st.booleans(), model=st.booleans())), f_grid, 350, 5000, rule="random planes, kernels, flags and subsets against a direct sum; non-trivial: several visibilities with several kernels"),
    Sub("relations", st.fixed_dictionaries(dict(C, interp=st.booleans(), h5=st.just(False))), f_relations, 120, 1500, rule="linearity, additivity and symmetry of gridding; non-trivial: more than two visibilities gridded"),
    Sub("perbase", st.fixed_dictionaries(dict(C, res=st.sampled_from([1, 2, 4, 5]), pol=st.integers(0, 1), pid=st.integers(1, 2), clip=st.booleans(), noconj=st.booleans(), n_tile=st.integers(3, 4), mask=st.just(False))), f_perbase, 120, 1200, rule="kernels computed per baseline; non-trivial: more than one visibility gridded"),
    Sub("kernel", st.fixed_dictionaries(dict(seed=st.integers(0, 99999), psf_dim=st.sampled_from([2, 4, 6]), res=st.sampled_from([1, 2, 3, 4, 5]), n=st.integers(1, 6), n_freq=st.integers(1, 4), n_base=st.integers(1, 9), pid=st.integers(1, 2), h5=st.sampled_from([False, False, True]),
        dim=st.integers(8, 30).map(lambda x: 2 * x), elem=st.integers(8, 30).map(lambda x: 2 * x), kpix=st.sampled_from([0.5, 1.0, 0.3]))), f_kernel, 80, 1000, rule="kernels of single visibilities, with w; non-trivial: several visibilities and a w term"),
    Sub("interp", st.fixed_dictionaries(dict(seed=st.integers(0, 99999), res=st.integers(1, 8), m=st.integers(1, 9), edge=st.booleans())), f_interp, 100, 1000, rule="bilinear kernels; non-trivial: hyperresolved"),
]
SUBS.append(large(SUBS[0], 5, 60, cut=0.0, whole=0.0, mask=False, n_tile=st.integers(12, 25), n_time=st.integers(1, 3), dim=st.integers(130, 260).map(lambda x: 2 * x), elem=st.integers(130, 260).map(lambda x: 2 * x)))
SUBS.append(large(SUBS[0], 6, 60, "dense", cut=0.0, whole=0.0, flag=0.0, qmin=0.0, mask=False, shuffle=False, n_tile=st.integers(14, 20), n_time=st.integers(2, 3), n_freq=st.integers(3, 6), spread=st.sampled_from([0.01, 0.03]), res=st.sampled_from([5, 8]), same=st.sampled_from([150, 400]), interp=st.sampled_from([False, False, True]), dim=st.just(40), elem=st.just(36)))
