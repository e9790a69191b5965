"""P28 the cube of frequency bins and its HEALPix export."""
import os
import shutil
import tempfile
from copy import deepcopy
from pathlib import Path
from core import *
from gridlib import *
import p04, p14, p15, p26, p27
from p06 import astr_of, sep, sin_pixel
from p22 import COMMON
from p23 import CFG, mir, planes
from p24 import dft
import healpy as hp
from PyFHD.healpix.export import healpix_snapshot_cube_generate
from PyFHD.healpix.healpix_utils import phase_shift_uv_image, vis_model_freq_split
from PyFHD.io.pyfhd_io import load

FILES = dict(dirty_uv="dirty_uv_arr_gridded_uvf", weights_uv="weights_uv_gridded_uvf", variance_uv="variance_uv_arr_gridded_uvf", model_uv="model_uv_arr_gridded_uvf")


def prepare(c, r):
    c = dict(c, elem=c["dim"])
    obs, par, vis, w = scene(c, r)
    sky, alt = p27.scene(dict(c, site="mwa", jd=2456528.0, freq=1.5e8, xi=0.0, eta=0.0), r)
    obs.update({k: sky[k] for k in ("obsra", "obsdec", "astr", "instrument", "jd0", "healpix")})
    a = obs["astr"]
    obs.update(phasera=sky["obsra"], phasedec=sky["obsdec"], orig_phasera=sky["obsra"], orig_phasedec=sky["obsdec"], residual=c["residual"])
    if c["moved"]:
        x, y = r.uniform(-0.2, 0.2, 2) * obs["dimension"] * [(1, 1), (1, 1), (0, 1), (1, 0)][rng(c["seed"] + 5).integers(4)]
        obs["orig_phasera"] = float(obs["obsra"] + x * a["cdelt"][0])
        obs["orig_phasedec"] = float(obs["obsdec"] + y * a["cdelt"][1])
    psf, beam = psf_dict(r, c, obs, c["n_pol"])
    mod = r.normal(size=vis.shape) + 1j * r.normal(size=vis.shape)
    return obs, par, vis, w, mod, psf, beam, alt


def rephasing(obs, cfg):
    if not cfg["rephase_weights"]:
        return 1
    n = obs["dimension"]
    x, y, _ = sin_pixel(np.array([obs["orig_phasera"]]), np.array([obs["orig_phasedec"]]), obs["astr"])
    k = np.arange(n) - n / 2
    return np.exp(2j * np.pi / n * (k[None, :] * (x[0] - n / 2) + k[:, None] * (y[0] - n / 2)))


def reference(c, obs, par, vis, w, mod, beam, pol, cfg, bi):
    """Half planes of each frequency bin, counts, counts per channel."""
    nf, navg, n = obs["n_freq"], cfg["n_avg"], obs["dimension"]
    nb = (nf - 1) // navg + 1
    out = {k: np.zeros((nb, n, n), complex) for k in FILES}
    counts, nf_vis = np.zeros(nb, int), np.zeros(nf, int)
    ph = rephasing(obs, cfg)
    if bi is None:
        f = np.maximum(w[0], 0) if obs["n_pol"] == 1 else np.maximum(np.maximum(w[0], w[1]), 0)
        bi = np.nonzero(f.sum(0) > 0)[0]
    for q in range(nb):
        fi = np.array([f for f in range(q * navg, min(nf, (q + 1) * navg)) if obs["baseline_info"]["freq_use"][f] > 0], int)
        if not fi.size:
            continue
        m = locate(obs, par, w[pol], c["psf_dim"], c["res"], fi, bi)
        if m is None:
            return None
        fb = obs["baseline_info"]["fbin_i"][fi]
        cc = dict(c, elem=n, dim=n)
        k, img, mo, wt, var, *_ = planes(cc, m, lambda i, j, z: beam[pol, fb[i]][z["yo"], z["xo"]], vis[pol][np.ix_(fi, bi)], mod[pol][np.ix_(fi, bi)])
        counts[q] = k
        for (i, j), z in m.items():
            nf_vis[fi[i]] += z["ok"]
        out["dirty_uv"][q], out["model_uv"][q] = (img + mir(img)) / 2, (mo + mir(mo)) / 2
        out["weights_uv"][q], out["variance_uv"][q] = (wt + mir(wt)) / 2 * ph, (var + mir(var)) / 4 * ph
    return out, counts, nf_vis


def config(c, d):
    return dict(CFG, n_avg=c["n_avg"], rephase_weights=c["rephase"], output_dir=d, obs_id="obs1", split_ps_export=c.get("split", False), ps_kbinsize=None, ps_fov=None, ps_kspan=0, ps_dimension=None, ps_degpix=None, ps_nfreq_avg=None, ps_beam_threshold=c.get("thr", 0), ps_tile_flag_list=[], restrict_healpix_inds=False, healpix_inds=None)


def same_images(got, uv, scale, what):
    for k, key in (("residual_arr", "dirty_uv"), ("weights_arr", "weights_uv"), ("variance_arr", "variance_uv"), ("model_arr", "model_uv")):
        want = np.array([dft(p).real for p in uv[key]]) * scale
        close(got[k], want, f"{what}{k}", rtol=1e-8)


def f_split(c):
    r = rng(c["seed"])
    obs, par, vis, w, mod, psf, beam, _ = prepare(c, r)
    pol = c["pol"] % c["n_pol"]
    bi = None if c["bi"] == "none" else np.sort(r.choice(w.shape[-1], max(1, int(w.shape[-1] * 0.6)), replace=False))
    with tempfile.TemporaryDirectory(prefix="p28-") as d:
        cfg = config(c, d)
        ref = reference(c, obs, par, vis, w, mod, beam, pol, cfg, bi)
        if ref is None:
            return False
        uv, counts, nf_vis = ref
        keep = deepcopy((par, vis, w, mod))
        obs["nf_vis"] = np.where(obs["baseline_info"]["freq_use"] > 0, 99, 0)
        got = call("vis_model_freq_split", vis_model_freq_split, obs, h5psf(psf) if c["h5"] else psf, par, w, mod, vis, pol, cfg, LOG, fft=c["fft"], save_uvf=c["save"], uvf_name=c["name"], bi_use=bi)
        for a, b, t in zip((par, vis, w, mod), keep, ("params", "visibilities", "weights", "model")):
            for q in a if isinstance(a, dict) else [Ellipsis]:
                equal(a[q], b[q], f"{t} untouched")
        if c["fft"]:
            same_images(got, uv, 1 / np.radians(obs["degpix"]) ** 2, "image ")
        else:
            for k, key in (("residual_arr", "dirty_uv"), ("weights_arr", "weights_uv"), ("variance_arr", "variance_uv"), ("model_arr", "model_uv")):
                close(got[k], uv[key], f"uv plane {k}", rtol=1e-8)
        equal(got["obs"]["nf_vis"], nf_vis, "visibilities of each channel")
        check(got["obs"]["n_vis"] == counts.sum(), f"n_vis {got['obs']['n_vis']}, expected {counts.sum()}")
        if c["save"]:
            for k, f in FILES.items():
                p = Path(d, "healpix", "uvf_grid", f"obs1_{c['name']}_{obs['pol_names'][pol]}_{f}.h5")
                check(p.exists(), f"{p.name} is written, there are {os.listdir(p.parent) if p.parent.exists() else None}")
                close(np.asarray(load(p)[k]), uv[k], f"{k} in the file", rtol=1e-8)
        else:
            check(not os.listdir(d), "nothing is written")
    return (counts > 0).sum() > 1, (["empty bins"] if (counts == 0).any() else []) + (["rephased"] if c["rephase"] and c["moved"] else [])


def f_export(c):
    r = rng(c["seed"])
    obs, par, vis, w, mod, psf, beam, alt = prepare(c, r)
    bi = obs["baseline_info"]
    nt, nf, npol, navg = c["n_time"], c["n_freq"], c["n_pol"], c["n_avg"]
    bi["tile_use"] = (r.random(obs["n_tile"]) >= c["tcut"]).astype(np.int64)
    bi["time_use"] = (r.random(nt) >= c["tcut"]).astype(np.int8)
    if not bi["time_use"].any():
        bi["time_use"][0] = 1  # an observation without any time has nothing to export
    nfb = psf["beam_ptr"].shape[1]
    pd = c["psf_dim"]
    # the central kernel has to look like a beam
    y, x = np.mgrid[:pd, :pd] - (pd // 2 - 1)
    g = np.exp(-(x**2 + y**2) / 2.0)
    psf["beam_ptr"][:] = 0.1 * psf["beam_ptr"] * g.ravel() + g.ravel() / g.sum()
    psf.update(fbin_i=bi["fbin_i"].copy(), fnorm=r.uniform(0.7, 1.3, nfb), pix_horizon=20.0)
    d = tempfile.mkdtemp(prefix="p28-")
    try:
        cfg = config(c, d)
        # plane of the power spectrum
        n = c["n"] * 2
        more = n + [0.4, 0.6, 0.9][c["seed"] % 3] + c["seed"] // 3 % 2  # planes are even
        kb = obs["kpix"]
        if c["size"] == "kbinsize":
            kb = cfg["ps_kbinsize"] = c["kb"]
            cfg["ps_fov"] = 33.0  # overridden
        elif c["size"] == "fov":
            cfg["ps_fov"] = np.degrees(1) / c["kb"]
            kb = np.degrees(1) / cfg["ps_fov"]
        fov = np.degrees(1) / kb
        if c["by"] == "kspan":
            cfg["ps_kspan"] = more * kb
            cfg["ps_dimension"] = 6
        elif c["by"] == "dimension":
            cfg["ps_dimension"] = n + c["seed"] // 3 % 2
            cfg["ps_degpix"] = 0.9
        elif c["by"] == "degpix":
            cfg["ps_degpix"] = fov / more
        else:
            obs["degpix"] = fov / more
        if c["flag"]:
            cfg["ps_tile_flag_list"] = [str(t) for t in r.choice(bi["tile_names"], 2, replace=False)]
        for v in (cfg["ps_kspan"] / kb,) if cfg["ps_kspan"] else ():
            if int(v) // 2 * 2 != n:
                return False
        degpix = fov / n
        want = deepcopy(obs)
        a = want["astr"]
        a.update(naxis=np.array([n, n]), cdelt=np.full(2, degpix), crpix=np.array([n / 2 + 1, n / 2 + 1]))
        want.update(dimension=n, elements=n, obsx=n / 2, obsy=n / 2, kpix=kb, degpix=degpix, max_baseline=min(obs["max_baseline"], n * kb / np.sqrt(2)))
        # beams and HEALPix pixels
        nu = nf // navg
        chans = [int(np.floor(i * (nf / nu))) for i in range(nu)]
        low = c["thr"] ** 2
        seed = np.array([n // 2 * (n + 1)])
        B, mask = np.zeros((npol, nu, n, n)), np.ones((n, n), bool)
        for p in range(npol):
            for i, f in enumerate(chans):
                B[p, i] = p26.model(psf, want, p, [f], True)
                if np.any(np.abs(B[p, i] - low) < 1e-9):
                    return False
                m = np.zeros(n * n, bool)
                m[p04.reference(B[p, i], seed, low, np.inf)] = True
                mask &= m.reshape(n, n)
        nside = 2 ** int(np.ceil(np.log2(np.sqrt(4 * np.pi * np.degrees(1) ** 2 / degpix**2 / 12)) - 1e-9))
        ra, dec = hp.pix2ang(nside, np.arange(12 * nside**2), lonlat=True)
        dist = sep(ra, dec, np.full_like(ra, obs["obsra"]), np.full_like(ra, obs["obsdec"]))
        rad = fov / np.sqrt(2)
        if np.any(np.abs(dist - rad) < 1e-7):
            return False
        inds = np.nonzero(dist < rad)[0]
        x, y, nn = sin_pixel(ra[inds], dec[inds], a)
        up = alt(ra[inds], dec[inds]) if inds.size else np.zeros(0)
        keep = (x > 0) & (x < n - 1) & (y > 0) & (y < n - 1)
        near = lambda q: np.abs(q - np.round(q)) < 1e-6
        if np.any(np.abs(up) < 1e-4) or np.any(nn < 0.1) or np.any(near(x) | near(y)):
            return False
        for k in np.nonzero(keep)[0]:
            i, j = int(np.floor(x[k])), int(np.floor(y[k]))
            keep[k] = mask[j : j + 2, i : i + 2].all()
        keep &= up > 0
        if not keep.any():
            return False, ["no pixels"]
        inds, x, y = inds[keep], x[keep], y[keep]
        to_map = lambda img: p27.bilinear(img, x, y)
        # weights
        ws = w.copy()
        flagged = {int(t) for t in cfg["ps_tile_flag_list"]}
        fl = np.array([t in flagged for t in bi["tile_names"]])
        ws[..., fl[bi["tile_a"] - 1] | fl[bi["tile_b"] - 1]] = 0
        bad = p14.flags(want, par, pd)
        if bad is None:
            return False
        ws = np.where(bad, 0, ws)
        even, odd, matched = p15.model(want, ws)
        noise = p15.noise(want, vis, even, odd, matched)
        if not c["split"]:
            halves = [("healpix_cube", "", None, ws)]
        else:
            halves = [("hpx_even", "even", even, matched), ("hpx_odd", "odd", odd, matched)]
        refs = {}
        for cube, name, b, u in halves:
            for p in range(npol):
                refs[cube, p] = reference(c, want, par, vis, u, mod, psf["beam_ptr"], p, cfg, b)
                if refs[cube, p] is None:
                    return False
        before = deepcopy((obs, par, vis, mod))
        psf_arg = h5psf(psf) if c["h5"] else psf
        call("healpix_snapshot_cube_generate", healpix_snapshot_cube_generate, obs, psf_arg, {}, par, vis, mod, w.copy(), cfg, LOG)
        for q in ("vis", "mod"):
            equal(dict(vis=vis, mod=mod)[q], dict(vis=before[2], mod=before[3])[q], f"{q} untouched")
        for q in ("uu", "vv", "ww"):
            equal(par[q], before[1][q], f"params {q} untouched")
        for q in ("dimension", "elements", "kpix", "degpix", "obsx", "obsy", "max_baseline", "n_vis"):
            check(obs[q] == before[0][q], f"the observation of the caller is untouched ({q})")
        for q in ("tile_use", "freq_use", "time_use", "fbin_i"):
            equal(bi[q], before[0]["baseline_info"][q], f"the observation of the caller is untouched ({q})")
        files = sorted(f for f in os.listdir(Path(d, "healpix")) if f.endswith(".h5"))
        expected = sorted(f"obs1_{cube}_{obs['pol_names'][p]}.h5" for cube, *_ in halves for p in range(npol))
        check(files == expected, f"files {files}, expected {expected}")
        total = 0
        for cube, name, b, u in halves:
            for p in range(npol):
                got = load(Path(d, "healpix", f"obs1_{cube}_{obs['pol_names'][p]}.h5"))
                uv, counts, nf_vis = refs[cube, p]
                total += counts.sum()
                what = f"{cube} {obs['pol_names'][p]}: "
                equal(got["hpx_inds"], inds, what + "pixels")
                check(got["n_avg"] == navg, "n_avg")
                s = 1 / np.radians(degpix) ** 2
                key = "res_cube" if c["residual"] else "dirty_cube"
                check((key in got) and ("dirty_cube" if c["residual"] else "res_cube") not in got, f"{what}{key} is written, got {sorted(got)}")
                for k, t in ((key, "dirty_uv"), ("weights_cube", "weights_uv"), ("variance_cube", "variance_uv"), ("model_cube", "model_uv")):
                    img = [dft(q).real * s for q in uv[t][:nu]]
                    top = max(np.abs(i).max() for i in img)
                    close(got[k], np.array([to_map(i) for i in img]), what + k, rtol=0, atol=1e-5 * top)
                per = np.array([nf_vis[i * navg : (i + 1) * navg].sum() for i in range(nu)])
                img = [B[p, i] * per[i] for i in range(nu)]
                close(got["beam_squared_cube"], np.array([to_map(i) for i in img]), what + "squared beams times visibilities", rtol=0, atol=1e-5 * max(np.abs(i).max() for i in img) + 1e-12)
                o = got["obs"]
                check(o["dimension"] == n and o["elements"] == n and o["kpix"] == kb or abs(o["kpix"] / kb - 1) < 1e-12, what + "dimensions in obs")
                close(o["degpix"], degpix, what + "degpix", rtol=1e-12)
                check(o["n_vis"] == counts.sum(), f"{what}n_vis {o['n_vis']}, expected {counts.sum()}")
                equal(o["nf_vis"], nf_vis, what + "nf_vis")
                close(o["vis_noise"], noise, what + "noise", rtol=1e-9)
                for q in ("tile", "time", "freq"):
                    left = int((np.asarray(o["baseline_info"][q + "_use"]) == 0).sum())
                    check(o[f"n_{q}_flag"] == left, f"{what}n_{q}_flag {o[f'n_{q}_flag']}, expected {left}")
                check(o["healpix"]["nside"] == nside and o["healpix"]["n_pix"] == inds.size, what + "healpix metadata")
    finally:
        shutil.rmtree(d)
    return total > 0 and inds.size > 3, ([c["by"]] if c["by"] else []) + (["split"] if c["split"] else []) + (["nothing"] if not total else [])


def f_phase(c):
    """Planes of any shape are moved from one phase centre to the other, in one or both coordinates."""
    d, e = c["dim"], c["elem"]
    astr = astr_of(dict(c, xi=0.0, eta=0.0))
    to = [float(v + k * u) for v, k, u in zip(astr["crval"], c["shift"], astr["cdelt"])]
    obs = dict(dimension=d, elements=e, astr=astr, phasera=c["ra"], phasedec=c["dec"], orig_phasera=to[0], orig_phasedec=to[1])
    o0 = deepcopy(obs)
    got = call("phase_shift_uv_image", phase_shift_uv_image, obs)
    x, y, up = sin_pixel(np.array(to[:1]), np.array(to[1:]), astr)
    if up[0] < 0.1:
        return False
    X, Y = np.arange(d) - d / 2, np.arange(e) - e / 2
    want = np.exp(2j * np.pi * (X[None, :] * (x[0] - d / 2) / d + Y[:, None] * (y[0] - e / 2) / e))
    close(got, want, "phases of the shift", rtol=1e-6)
    check(set(obs) == set(o0) and all(np.array_equal(obs[k], o0[k]) for k in obs if k != "astr"), "obs untouched")
    return d != e and any(c["shift"]), ["one coordinate"] if not all(c["shift"]) else []


C = dict(COMMON, n_pol=st.sampled_from([1, 2, 2]), n_avg=st.integers(1, 3), rephase=st.booleans(), moved=st.booleans(), residual=st.booleans(), h5=st.sampled_from([False, False, True]), groups=st.sampled_from([0, 0, 3]), navg=st.integers(1, 2), mask=st.just(False), res=st.sampled_from([1, 2, 5]),
    za=st.sampled_from([0.5, 10.0, 30.0]), pa=st.floats(0, 360), n_tile=st.integers(3, 6), cut=st.sampled_from([0.0, 0.2, 0.4]), whole=st.sampled_from([0.0, 0.2]), flag=st.sampled_from([0.0, 0.1, 0.3]), same=st.sampled_from([0, 3]))
SUBS = [
    Sub("split", st.fixed_dictionaries(dict(C, pol=st.integers(0, 1), fft=st.sampled_from([True, True, False]), save=st.booleans(), name=st.sampled_from(["", "even", "odd"]), thr=st.just(0))), f_split, 150, 3000, rule="frequency bins with flags, subsets, rephasing; non-trivial: several bins with visibilities"),
    Sub("export", st.fixed_dictionaries(dict(C, size=st.sampled_from(["kbinsize", "fov", "obs"]), by=st.sampled_from(["kspan", "dimension", "degpix", ""]), kb=st.sampled_from([1, 2, 3]), n=st.integers(6, 14), split=st.sampled_from([True, False, True]), thr=st.sampled_from([0, 0.05, 0.2]), tcut=st.sampled_from([0.0, 0.0, 0.2]), n_time=st.integers(2, 5), n_tile=st.integers(5, 9), spread=st.sampled_from([0.1, 0.2, 0.3]), kpix=st.sampled_from([1.0, 2.0]), fa=st.sampled_from([(3, 2), (4, 3), (2, 1), (4, 2), (5, 2), (6, 3), (3, 1), (1, 1), (6, 1), (5, 3)]))).map(lambda c: dict(c, n_freq=c["fa"][0], n_avg=c["fa"][1], navg=c["navg"] if c["fa"][0] % c["navg"] == 0 else 1)), f_export, 70, 1500, rule="cubes written, read back and compared with a direct calculation; non-trivial: visibilities and more than 3 pixels"),
    Sub("phase", st.fixed_dictionaries(dict(dim=st.integers(4, 40).map(lambda x: 2 * x), elem=st.integers(4, 40).map(lambda x: 2 * x), kpix=st.sampled_from([1.0, 2.0, 4.0]), ra=st.floats(0, 359), dec=st.floats(-70, 70), shift=st.tuples(*[st.sampled_from([0.0, 0.0, 0.5, 1.0, -2.25, 3.5])] * 2))), f_phase, 100, 1500, rule="shifts of the phase centre on planes of any shape; non-trivial: oblong and moved"),
]
