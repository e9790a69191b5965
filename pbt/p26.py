"""P26 beam images from the psf."""
from core import *
import idlsav
from gridlib import h5psf
from p04 import reference
from PyFHD.beam_setup.beam_utils import beam_image
from PyFHD.healpix.healpix_utils import beam_image_cube


def scene(c, r):
    n, nf = 2 * c["n"], c["n_freq"]
    pd = min(c["pd"], n - 2)
    nfb = (nf - 1) // c["navg"] + 1
    npol = c["n_pol"]
    fbin = (np.arange(nf) // c["navg"]).astype(np.int64)
    freq = 1.4e8 + np.arange(nf) * 80000.0 * c["df"]
    use = (r.random(nf) >= c["cut"]).astype(np.int64)
    if not use.any():
        use[r.integers(0, nf)] = 1
    obs = dict(dimension=n, elements=n, kpix=c["kpix"], n_pol=npol, n_freq=nf, obsx=n / 2, obsy=n / 2, baseline_info=dict(fbin_i=fbin, freq=freq, freq_use=use))
    ids = np.zeros((npol, nfb, 7), np.int64)
    if c["groups"] > 1:
        ids[:] = r.integers(0, c["groups"], ids.shape) * 2
    y, x = np.mgrid[:pd, :pd] - (pd // 2 - 1)
    k = r.normal(size=(npol, nfb, 2, 2, pd, pd)) + 1j * r.normal(size=(npol, nfb, 2, 2, pd, pd))
    k *= np.exp(-(x**2 + y**2) / 2.0)
    if c["peaked"]:  # close to a real beam: main lobe in the centre of the image
        k = 0.05 * k + np.exp(-(x**2 + y**2) / 2.0) / 6.2
    psf = dict(dim=pd, fnorm=r.uniform(0.5, 2, nfb), pix_horizon=float(r.integers(4, 40)), id=ids, beam_ptr=k.reshape(npol, nfb, 2, 2, pd * pd), resolution=1)
    if c["gauss"]:
        nl = c["lobes"]
        P = psf["pix_horizon"] * 1.3
        g = np.stack([r.uniform(-1, 1, (npol, nfb, nl)), r.uniform(0.3, 0.7, (npol, nfb, nl)) * P, r.uniform(0.05, 0.3, (npol, nfb, nl)) * P, r.uniform(0.3, 0.7, (npol, nfb, nl)) * P, r.uniform(0.05, 0.3, (npol, nfb, nl)) * P], -1)
        if c["peaked"]:
            g[..., 0] = np.abs(g[..., 0])
        psf["beam_gaussian_params"] = g.reshape(npol, nfb, nl * 5)
    return obs, psf


def single(psf, obs, pol, b):
    """The beam of one frequency bin in the image, before any normalisation."""
    n = obs["dimension"]
    a = np.arange(n)
    if "beam_gaussian_params" in psf:
        P, h = psf["pix_horizon"] * 1.3, psf["pix_horizon"]
        s = n / h  # (2 kpix n / horizon) (0.5 / kpix)
        out = np.zeros((n, n))
        for amp, x0, sx, y0, sy in psf["beam_gaussian_params"][pol, b].reshape(-1, 5):
            X, Y = (x0 - P / 2) * s + n / 2, (y0 - P / 2) * s + n / 2
            out += amp * np.exp(-((a[None, :] - X) ** 2) / (2 * (sx * s) ** 2) - ((a[:, None] - Y) ** 2) / (2 * (sy * s) ** 2))
        return out
    pd = psf["dim"]
    k = psf["beam_ptr"][pol, b, 0, 0].reshape(pd, pd)
    q = np.arange(pd) - (pd // 2 - 1)
    E = np.exp(2j * np.pi * np.outer(a - n // 2, q) / n)
    return E @ k @ E.T


def model(psf, obs, pol, chans, square):
    B = [single(psf, obs, pol, obs["baseline_info"]["fbin_i"][f]) for f in chans]
    norm = sum(psf["fnorm"][obs["baseline_info"]["fbin_i"][f]] for f in chans)
    tot = sum(np.abs(b) ** 2 for b in B) if square else sum(np.real(b) for b in B)
    return tot / norm


def f_image(c):
    r = rng(c["seed"])
    obs, psf = scene(c, r)
    pol = c["pol"] % c["n_pol"]
    bi = obs["baseline_info"]
    keep = {k: np.array(v, copy=True) for k, v in psf.items()}
    use = np.nonzero(bi["freq_use"])[0]
    fi = None if c["fi"] is None else c["fi"] % c["n_freq"]
    chans = use if fi is None else [fi]
    given = h5psf(psf) if c["h5"] else psf
    fi_arg = fi if fi is None or not c["npint"] else np.int64(fi)
    got = call("beam_image", beam_image, given, obs, pol, freq_i=fi_arg, square=c["square"])
    close(got, model(psf, obs, pol, chans, c["square"]), "beam image", rtol=1e-8)
    check(np.isrealobj(got), "beam images are real")
    if c["square"]:
        check(got.min() >= 0, "squared beams are not negative")
    for k, v in keep.items():
        equal(np.ravel(given[k][()] if c["h5"] else given[k]), np.ravel(v), f"psf {k} untouched")
    if fi is None and c["square"]:
        one = [call("beam_image", beam_image, given, obs, pol, freq_i=f, square=True) * psf["fnorm"][bi["fbin_i"][f]] for f in use]
        close(got, sum(one) / sum(psf["fnorm"][bi["fbin_i"][f]] for f in use), "mean of the single channels", rtol=1e-8)
    nbin = len(set(bi["fbin_i"][chans]))
    return nbin > 1 or fi is not None, (["gauss"] if c["gauss"] else ["uv"]) + (["bins"] if nbin > 1 else []) + (["square"] if c["square"] else [])


def f_cube(c):
    r = rng(c["seed"])
    obs, psf = scene(c, r)
    bi = obs["baseline_info"]
    n, nf = obs["dimension"], c["n_freq"]
    kw = {}
    if c["sel"] == "bins":
        kw["n_freq_bin"] = m = max(1, nf // c["navg2"]) if r.integers(2) else int(r.integers(1, nf + 1))
        chans = [int(np.floor(i * (nf / m))) for i in range(m)]
    else:
        chans = r.integers(0, nf, c["m"])
        if c["sel"] == "sorted":
            chans = np.sort(chans)
        kw["freq_i_arr"] = bi["freq"][chans] + r.uniform(-0.3, 0.3, chans.size) * 80000 * c["df"] if c["hz"] else chans
        if c["hz"] and nf == 1:
            kw["freq_i_arr"] = bi["freq"][chans]
    if c["thr"] is not None:
        kw["beam_threshold"] = c["thr"]
    if not c["square"]:
        kw["square"] = False
    given = h5psf(psf) if c["h5"] else psf
    arr, mask = call("beam_image_cube", beam_image_cube, obs, given, LOG, **kw)
    check(arr.shape == (c["n_pol"], len(chans), n, n), f"cube shape {arr.shape}")
    low = (0.05 if c["thr"] is None else c["thr"]) ** (2 if c["square"] else 1)
    want_mask = np.ones((n, n), bool)
    amb = False
    for p in range(c["n_pol"]):
        for i, f in enumerate(chans):
            b = model(psf, obs, p, [f], c["square"])
            close(arr[p, i], b, f"beam of polarisation {p}, entry {i} (channel {f})", rtol=1e-8)
            if np.any((np.abs(b - low) < 1e-9 * max(1, np.abs(b).max())) & (b != 0)):
                amb = True
            m = np.zeros(n * n, bool)
            # the highest value counts whatever its rounding
            m[reference(b, np.array([int(obs["obsx"] + obs["obsy"] * n)]), low, np.inf)] = True
            want_mask &= m.reshape(n, n)
    if not amb:
        equal(np.asarray(mask, bool), want_mask, "pixels connected to the centre above the threshold in every beam")
        check(set(np.unique(mask)) <= {0, 1}, "mask of zeros and ones")
    return len(set(chans)) > 1 and want_mask.any(), ["empty mask"] if not want_mask.any() else []


def f_load(c):
    """A beam from an IDL save file, and from the HDF5 file that is written next to it."""
    import os, tempfile
    from pathlib import Path
    import PyFHD.beam_setup.beam as B

    r = rng(c["seed"])
    npol, nf, nb, res, pd = c["n_pol"], c["n_freq"], c["nb"], c["res"], c["pd"]
    K = r.normal(size=(npol, nf, res + 1, res + 1, pd * pd)) + 1j * r.normal(size=(npol, nf, res + 1, res + 1, pd * pd))
    ptr = np.empty((nb, nf, npol), object)  # IDL's order of axes
    for p in range(npol):
        for f in range(nf):
            o = np.empty((res + 1, res + 1), object)
            for i in range(res + 1):
                for j in range(res + 1):
                    o[i, j] = K[p, f, i, j]
            other = np.empty((res + 1, res + 1), object)
            for i in range((res + 1) ** 2):
                other.flat[i] = np.zeros(pd * pd, complex)
            ptr[0, f, p] = o
            for b in range(1, nb):  # only the first baseline is used
                ptr[b, f, p] = o if c["same"] else other
    ids = r.integers(0, 3, (nb, nf, npol))
    fnorm, gauss = r.random(nf) + 0.5, r.normal(size=(5 * 2, nf, npol))
    P = idlsav.Ptr
    rec = dict(dim=np.int32(pd), resolution=np.int16(res), pix_horizon=np.float32(12.5), beam_ptr=P(ptr), id=P(ids), fnorm=P(fnorm), pnorm=P(None))
    d = tempfile.mkdtemp(prefix="p26-")
    try:
        path = Path(d, "beam.sav")
        idlsav.write(path, dict(psf=rec))
        psf = call("create_psf", B.create_psf, dict(beam_file_path=path, lazy_load_beam=c["lazy"]), LOG)
        check(sorted(os.listdir(d)) == ["beam.h5", "beam.sav"], f"the HDF5 file next to the save file, got {os.listdir(d)}")
        cfg = dict(beam_file_path=Path(d, "beam.h5"), lazy_load_beam=False)
        if c["suffix"] != ".h5":
            cfg["beam_file_path"] = cfg["beam_file_path"].rename(Path(d, "beam" + c["suffix"]))
        full = call("create_psf", B.create_psf, dict(cfg), LOG)
        lazy = call("create_psf", B.create_psf, dict(cfg, lazy_load_beam=True), LOG)
        want = dict(beam_ptr=K, id=ids.T, fnorm=fnorm, dim=pd, resolution=res, pix_horizon=12.5)
        for name, p in (("sav", psf), ("HDF5", full), ("lazy", lazy)):
            for k, v in want.items():
                equal(np.ravel(p[k][()] if name == "lazy" else p[k]), np.ravel(v), f"{k} from {name}")
                check(np.shape(p[k]) in (np.shape(v), (1,)), f"shape of {k} from {name}: {np.shape(p[k])}")
        check(psf["pnorm"] is None and full["pnorm"] is None, "a null pointer stays undefined")
        n = 2 * pd + 4
        obs = dict(dimension=n, elements=n, kpix=0.5, baseline_info=dict(fbin_i=np.arange(nf), freq_use=np.ones(nf)))
        img = [call("beam_image", beam_image, p, obs, npol - 1, square=True) for p in (psf, full, lazy)]
        for i in img:
            close(i, model(dict(dim=pd, beam_ptr=K, fnorm=fnorm), obs, npol - 1, range(nf), True), "beam image after loading", rtol=1e-8)
        lazy.close()
    finally:
        import shutil

        shutil.rmtree(d)
    return npol > 1 and nf > 1 and nb > 1


C = dict(seed=st.integers(0, 99999), n=st.integers(2, 12), pd=st.sampled_from([2, 4, 6, 8]), n_freq=st.integers(1, 8), navg=st.integers(1, 3), n_pol=st.sampled_from([1, 2, 4]), cut=st.sampled_from([0.0, 0.2, 0.5]), kpix=st.sampled_from([0.5, 1.0, 0.3]), df=st.sampled_from([1, 16]), groups=st.sampled_from([1, 1, 3]), gauss=st.booleans(), lobes=st.integers(1, 4), peaked=st.booleans(), h5=st.sampled_from([False, False, True]), square=st.booleans())
SUBS = [
    Sub("image", st.fixed_dictionaries(dict(C, pol=st.integers(0, 3), fi=st.one_of(st.none(), st.integers(0, 7)), npint=st.booleans())), f_image, 300, 5000, rule="uv kernels and Gaussian decompositions in dictionaries and lazily loaded files; non-trivial: several frequency bins or one chosen channel"),
    Sub("cube", st.fixed_dictionaries(dict(C, sel=st.sampled_from(["bins", "bins", "sorted", "any"]), m=st.integers(1, 6), navg2=st.integers(1, 3), hz=st.booleans(), thr=st.sampled_from([None, 0.0, 0.05, 0.2, 0.5]), peaked=st.sampled_from([True, True, False]))), f_cube, 200, 3000, rule="cubes with masks; non-trivial: several channels and a mask that is not empty"),
    Sub("load", st.fixed_dictionaries(dict(seed=st.integers(0, 99999), n_pol=st.integers(1, 4), n_freq=st.integers(1, 4), nb=st.integers(1, 5), res=st.integers(1, 3), pd=st.sampled_from([2, 4]), same=st.booleans(), lazy=st.booleans(), suffix=st.sampled_from([".h5", ".h5", ".hdf5"]))), f_load, 60, 600, rule="beams of save files (written in IDL's format) and the HDF5 files made of them; non-trivial: several of each axis"),
]
SUBS.append(large(SUBS[0], 4, 60, n=st.integers(60, 130)))
SUBS.append(large(SUBS[1], 4, 60, n=st.integers(60, 130)))
