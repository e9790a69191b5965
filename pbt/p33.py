"""P33 the images written for viewing."""
import os
from copy import deepcopy
from pathlib import Path
from core import *
from astropy.io import fits
from astropy.wcs import WCS
import p26
from p06 import astr_of, offset, sin_pixel
from p24 import dft
from PyFHD.io.pyfhd_io import load
from PyFHD.io.pyfhd_quickview import get_image_renormalization, quickview


def grow(a, k):
    for axis in (0, 1):
        n = a.shape[axis]
        p = np.arange(n * k) / k
        i = np.floor(p).astype(int)
        sh = [1, 1]
        sh[axis] = -1
        t = (p - i).reshape(sh)
        a = np.take(a, i, axis) * (1 - t) + np.take(a, np.minimum(i + 1, n - 1), axis) * t
    return a


def padded(uv, k):
    e, d = uv.shape
    big = np.zeros((e * k, d * k), complex)
    y, x = (e * k - e) // 2, (d * k - d) // 2
    big[y : y + e, x : x + d] = uv
    return big * k * k


def f_quick(c):
    r = rng(c["seed"])
    obs, psf = p26.scene(dict(c, n_freq=c["n_freq"]), r)
    n, npol, k = obs["dimension"], c["n_pol"], c["pad"]
    astr = astr_of(dict(dim=n, elem=n, kpix=c["kpix"], ra=c["ra"], dec=c["dec"], xi=c["xi"], eta=c["eta"]))
    astr.update(cd=np.identity(2), longpole=180, latpole=0)
    names = ["XX", "YY", "XY", "YX", "I", "Q", "U", "V"]
    obs.update(astr=astr, degpix=float(astr["cdelt"][0]), freq_res=80000.0 * c["df"], max_baseline=1e9, pol_names=list(names), n_vis=int(r.integers(1, 999)), obsra=c["ra"])
    cx = lambda: r.normal(size=(npol, n, n)) + 1j * r.normal(size=(npol, n, n))
    img, mod = cx(), cx()
    if c["seed"] % 4 == 0:
        # no model for some of the polarisations: what is left over is then the whole of the data
        mod[r.random(npol) < 0.7] = 0
    elif c["seed"] % 4 == 1:
        # nothing gridded for some of the polarisations: the model is still left over, with its sign
        img[r.random(npol) < 0.7] = 0
    wt = r.random((npol, n, n)) * (r.random((npol, n, n)) < 0.8) + 0.1j * cx()
    wt[:, n // 2, n // 2] += n * n / 2
    cnt = r.choice([0, 0.5, 1, 2, 7], size=(n, n))
    cnt[0, 0] = 3
    var = r.random((npol, n, n))
    vis = cx()[:, :2, :3]
    w = r.random(vis.shape)
    par = dict(uu=r.random(4), vv=r.random(4))
    cal = dict(gain=vis.copy(), n_pol=npol)
    deg2 = np.degrees(1) / (c["kpix"] * n * k)
    # expectation
    m = n * k
    q = (np.arange(m) - m / 2) * np.radians(deg2)
    X, Y = q[None, :], q[:, None]
    disc = (1 + c["xi"] * X + c["eta"] * Y) ** 2 - (1 + c["xi"] ** 2 + c["eta"] ** 2) * (X**2 + Y**2)
    if np.any(np.abs(disc) < 1e-6):
        return False
    up = disc > 0
    bi = obs["baseline_info"]
    use = np.nonzero(bi["freq_use"])[0]
    want = {}
    cen = (m // 2, m // 2)
    D, M, B = [], [], []
    for p in range(npol):
        beam = grow(p26.model(psf, obs, p, use, False), k) * up
        if np.any(np.abs(beam - 1e-3) < 1e-9):
            return False
        fil = np.where(cnt >= 1, 1 / np.where(cnt >= 1, cnt, 1), 0)
        fil = fil / fil[wt[p] != 0].mean()
        s = 1 / np.radians(deg2) ** 2
        num = (dft(padded(wt[p] * fil, k)) * s).real[cen]
        if abs(beam[cen]) < 1e-3:
            return False
        lean = beam if c["filt"] == "optimal" else 1  # images weighted by the beam once more
        num = num * (beam[cen] if c["filt"] == "optimal" else 1)
        ren = 1 / num * beam[cen] ** 2 / np.radians(deg2) ** 2
        D.append(dft(padded(img[p] * fil, k)) * s * ren * lean)
        M.append(dft(padded(mod[p] * fil, k)) * s * ren * lean)
        B.append(beam)
    out_names = list(names)
    W = [np.array(x) for x in wt]
    D, M = [[x.real if p < 2 else x for p, x in enumerate(a)] for a in (D, M)]
    if npol == 4:
        out_names[2:4] = ["XY_real", "XY_imag"]
        D, M = [[a[0], a[1], a[2].real, a[2].imag] for a in (D, M)]
        W = [W[0], W[1], W[2].real, W[2].imag]
    o0 = deepcopy(obs)
    kind = c["filt"].split("_")[-1]
    keep = deepcopy(dict(img=img, mod=mod, cnt=cnt, var=var, vis=vis, w=w, wt=wt))
    with scratch() as d:
        out = Path(d)
        cfg = dict(obs_id="obs1", output_dir=out, save_obs=c["s"] & 1 > 0, save_params=c["s"] & 2 > 0, save_visibilities=c["s"] & 4 > 0, recalculate_grid=c["s"] & 8 > 0, save_cal=c["s"] & 16 > 0, calibrate_visibilities=c["s"] & 32 > 0, save_weights=c["s"] & 64 > 0, pad_uv_image=float(k) if c["fl"] else k, image_filter="filter_uv_" + c["filt"])
        call("quickview", quickview, obs, p26.h5psf(psf) if c["h5"] else psf, par, cal, vis, w, img, wt, var, cnt, mod, cfg, LOG)
        for a, b in (("img", img), ("mod", mod), ("cnt", cnt), ("var", var), ("vis", vis), ("w", w)):
            equal(b, keep[a], f"{a} untouched")
        for key in ("dimension", "kpix", "degpix", "pol_names", "obsx", "max_baseline"):
            check(obs[key] == o0[key], f"obs {key} untouched")
        for key in ("cdelt", "cd", "crpix", "naxis"):
            equal(obs["astr"][key], o0["astr"][key], f"astr {key} untouched")
        files = sorted(str(p.relative_to(out)) for p in out.rglob("*") if p.is_file())
        want = []
        for p in range(npol):
            want += [f"fits/obs1_{t}_{out_names[p]}.fits" for t in (kind + "_dirty", kind + "_model", kind + "_residual", "beam", "uv_weights")]
        saved = {}
        if cfg["save_obs"]:
            saved["metadata/obs1_obs.h5"] = dict(n_pol=npol, dimension=n, n_vis=obs["n_vis"])
        if cfg["save_params"]:
            saved["metadata/obs1_params.h5"] = par
        if cfg["save_visibilities"]:
            saved["visibilities/obs1_calibrated_vis_arr.h5"] = vis
            if cfg["recalculate_grid"]:
                saved.update({f"gridding/obs1_{t}.h5": a for t, a in (("image_uv", keep["img"]), ("weights_uv", keep["wt"]), ("variance_uv", var), ("uniform_filter_uv", cnt), ("model_uv", mod))})
        if cfg["save_cal"] and cfg["calibrate_visibilities"]:
            saved["calibration/obs1_cal.h5"] = cal
        if cfg["save_weights"]:
            saved["visibilities/obs1_calibrated_vis_weights.h5"] = w
        check(files == sorted(want + list(saved)), f"files {files}, expected {sorted(want + list(saved))}")
        for f, v in saved.items():
            got = load(out / f)
            for key in v if isinstance(v, dict) else [None]:
                equal(got[key] if key else got, v[key] if key else v, f"{f} {key or ''}")
        r2 = rng(c["seed"], 1)
        ra, dec = offset(c["ra"], c["dec"], r2.uniform(0, 20, 4), r2.uniform(0, 360, 4))
        px = np.array(sin_pixel(ra, dec, dict(astr, cdelt=np.full(2, deg2), crpix=np.full(2, m / 2 + 1)))[:2])
        with warnings_off():
            for p in range(npol):
                cor = np.where(B[p] >= 1e-3, 1 / np.where(B[p] >= 1e-3, B[p], 1), 0)
                for t, a in ((kind + "_dirty", D[p] * cor), (kind + "_model", M[p] * cor), (kind + "_residual", (D[p] - M[p]) * cor), ("beam", B[p])):
                    with fits.open(out / f"fits/obs1_{t}_{out_names[p]}.fits") as h:
                        tol = 1e-8 * (1 if t == "beam" else max(np.abs(D[p] * cor).max(), np.abs(M[p] * cor).max()) * 10)
                        close(h[0].data, a, f"{t} {out_names[p]}", rtol=1e-7, atol=tol)
                        head = h[0].header
                        check(t == "beam" or head["BUNIT"] == "Jy/sr (apparent)", "unit")
                        wcs = WCS(head)
                        close(np.array(wcs.wcs_world2pix(ra, dec, 0)), px, f"positions by the coordinate system of {t}", rtol=1e-6, atol=1e-6)
                with fits.open(out / f"fits/obs1_uv_weights_{out_names[p]}.fits") as h:
                    close(h[0].data, np.abs(W[p]) * obs["n_vis"], f"weights {out_names[p]}", rtol=1e-9)
                    H = h[0].header
                    u0 = [(n // 2 + 1 - H[f"CRPIX{i}"]) * H[f"CD{i}_{i}"] + H[f"CRVAL{i}"] for i in (1, 2)]
                    check(u0 == [0, 0] and H["CD1_1"] == c["kpix"] == H["CD2_2"], f"the uv plane is centred on (0, 0), header says {u0}")
    return npol > 1 or k > 1, (["padded"] if k > 1 else []) + (["4 pols"] if npol == 4 else []) + (["horizon"] if not up.all() else [])


def warnings_off():
    import warnings

    w = warnings.catch_warnings()
    return w


def f_renorm(c):
    """A plane of weights images, after renormalisation, to the squared beam in the direction the telescope points to."""
    r = rng(c["seed"])
    e, d, npol = 2 * c["e"], 2 * c["d"], c["n_pol"]
    k = c["pad"] if e == d else 1
    m, l = e * k, d * k
    wt = r.random((npol, e, d)) + 0.1j * r.normal(size=(npol, e, d))
    beam = r.uniform(0.2, 1, (npol, m, l))
    fil = r.uniform(0.1, 2, (npol, e, d))
    obs = dict(n_pol=npol, dimension=l, elements=m, obsx=int(r.integers(0, l)), obsy=int(r.integers(0, m)), degpix=c["deg"])
    keep = deepcopy((wt, beam, fil))
    got = call("get_image_renormalization", get_image_renormalization, obs, wt, beam, fil, dict(pad_uv_image=k, image_filter="filter_uv_" + c["filt"]), LOG)
    for a, b, t in zip((wt, beam, fil), keep, ("weights", "beam", "filter")):
        equal(a, b, f"{t} untouched")
    want = []
    for p in range(npol):
        centre = (wt[p] * fil[p]).sum().real / (e * d) / np.radians(c["deg"]) ** 2
        if c["filt"] == "optimal":
            centre *= beam[p, m // 2, l // 2]
        want.append(beam[p, obs["obsy"], obs["obsx"]] ** 2 / centre / np.radians(c["deg"]) ** 2)
    close(got, np.array(want), "renormalisation", rtol=1e-9)
    return npol > 1


SUBS = [
    Sub("quickview", st.fixed_dictionaries(dict(seed=st.integers(0, 99999), n=st.integers(3, 10), pd=st.sampled_from([2, 4, 6]), n_freq=st.integers(1, 4), navg=st.integers(1, 2), n_pol=st.sampled_from([1, 2, 4]), cut=st.sampled_from([0.0, 0.2]), kpix=st.sampled_from([0.5, 1.0, 0.6, 0.3, 0.4]), df=st.sampled_from([1, 16]), groups=st.just(1), gauss=st.booleans(), lobes=st.integers(1, 3), peaked=st.sampled_from([True, True, True, False]), h5=st.sampled_from([False, False, True]),
        pad=st.integers(1, 3), filt=st.sampled_from(["uniform", "optimal", "uniform", "optimal", "natural", "radial", "tapered_uniform", "hanning"]), fl=st.booleans(), s=st.integers(0, 127), ra=st.floats(0, 359), dec=st.floats(-70, 40), xi=st.sampled_from([0.0, 0.1, -0.2]), eta=st.sampled_from([0.0, -0.15, 0.1]))), f_quick, 100, 1500, rule="uv planes, beams, pads, polarisations, options; non-trivial: several polarisations or padded"),
    Sub("renorm", st.fixed_dictionaries(dict(seed=st.integers(0, 99999), e=st.integers(1, 6), d=st.integers(1, 6), n_pol=st.sampled_from([1, 2, 4]), pad=st.integers(1, 3), deg=st.sampled_from([0.1, 1.3]), filt=st.sampled_from(["uniform", "optimal", "uniform", "optimal", "natural", "radial", "tapered_uniform", "hanning"]))), f_renorm, 150, 1500, rule="weights, beams, filters; non-trivial: several polarisations"),
]
SUBS.append(large(SUBS[0], 3, 40, n=st.integers(60, 130), pad=st.integers(1, 2)))
