"""P27 HEALPix maps of images."""
import os
import tempfile
from pathlib import Path
from unittest import mock
from core import *
import synth
import healpy as hp
from astropy import units as u
from astropy.coordinates import AltAz, EarthLocation, SkyCoord
from astropy.time import Time
from p06 import astr_of, offset, sep, sin_pixel
from PyFHD.healpix import healpix_utils as H
from PyFHD.io.pyfhd_io import save

synth.no_network()


def scene(c, r):
    lon, lat, h = synth.SITES[c["site"]]
    el = EarthLocation.from_geodetic(lon * u.deg, lat * u.deg, h * u.m)
    t = Time(c["jd"], format="jd")
    z = SkyCoord(AltAz(alt=90 * u.deg, az=0 * u.deg, location=el, obstime=t)).icrs
    ra, dec = offset(z.ra.deg, z.dec.deg, c["za"], c["pa"])
    ra, dec = float(ra), float(dec)
    astr = astr_of(dict(dim=c["dim"], elem=c["elem"], kpix=c["kpix"], ra=ra, dec=dec, xi=c["xi"], eta=c["eta"]))
    obs = dict(dimension=c["dim"], elements=c["elem"], obsra=ra, obsdec=dec, astr=astr, instrument=c["site"], jd0=c["jd"], freq_center=c["freq"], healpix=dict(nside=0, n_pix=0, ind_list=None, n_zero=-1))
    alt = lambda a, d: SkyCoord(ra=a * u.deg, dec=d * u.deg).transform_to(AltAz(location=el, obstime=t)).alt.deg
    return obs, alt


def bilinear(img, x, y):
    out = np.zeros(x.size, img.dtype)
    for k in range(x.size):
        i, j = int(np.floor(x[k])), int(np.floor(y[k]))
        a, b = x[k] - i, y[k] - j
        i1, j1 = min(i + 1, img.shape[1] - 1), min(j + 1, img.shape[0] - 1)
        out[k] = img[j, i] * (1 - a) * (1 - b) + img[j, i1] * a * (1 - b) + img[j1, i] * (1 - a) * b + img[j1, i1] * a * b
    return out


def f_map(c):
    r = rng(c["seed"])
    obs, alt = scene(c, r)
    dim, elem = c["dim"], c["elem"]
    astr = obs["astr"]
    yy, xx = np.mgrid[:elem, :dim]
    if c["mask"] == "random":
        mask = (r.random((elem, dim)) < 0.9).astype(float)
    elif c["mask"] == "disc":
        mask = (np.hypot(xx - dim * 0.45, (yy - elem * 0.5) * 1.5) < 0.3 * dim).astype(float)
    else:
        mask = np.ones((elem, dim))
    nside = c["nside"]
    auto = nside is None
    if auto:
        pix = (np.degrees(1) ** 2 * 4 * np.pi) / abs(np.prod(astr["cdelt"])) / 12
        nside = 1
        while nside * nside < pix * (1 - 1e-12):
            nside *= 2
        if abs(nside * nside / pix - 1) < 1e-9 or nside > 128:
            return False
    ra, dec = hp.pix2ang(nside, np.arange(12 * nside**2), lonlat=True)
    d = sep(ra, dec, np.full_like(ra, obs["obsra"]), np.full_like(ra, obs["obsdec"]))
    if np.any(np.abs(d - c["radius"]) < 1e-7):
        return False
    inds = np.nonzero(d < c["radius"])[0]
    cfg = dict(restrict_healpix_inds=c["restrict"] != "no", healpix_inds=None)
    tmp = tempfile.mkdtemp(prefix="p27-")
    try:
        if c["restrict"] != "no":
            inds = r.permutation(inds)[: c["n"]]
            if inds.size < 2:
                return False
            cfg["healpix_inds"] = Path(tmp, "inds.h5")
            save(cfg["healpix_inds"], dict(hpx_inds=inds, nside=nside) if c["restrict"] == "dict" else inds, "hpx_inds")
        x, y, n = sin_pixel(ra[inds], dec[inds], astr)
        up = alt(ra[inds], dec[inds])
        if np.any(np.abs(up) < 1e-4) or np.any(n < 0.1):
            return False
        edge = lambda v, top: np.any((np.abs(v) < 1e-5) | (np.abs(v - top) < 1e-5))
        if edge(x, dim - 1) or edge(y, elem - 1):
            return False
        inside = (x > 0) & (x < dim - 1) & (y > 0) & (y < elem - 1)
        keep = up > 0
        if c["restrict"] == "no":
            m = inside.copy()
            for k in np.nonzero(inside)[0]:
                i, j = int(np.floor(x[k])), int(np.floor(y[k]))
                near = min(x[k] - i, 1 - x[k] + i, y[k] - j, 1 - y[k] + j)
                m[k] = np.all(mask[j : j + 2, i : i + 2] != 0)
                if near < 1e-6 and c["mask"] != "ones":
                    return False
            keep &= m
        if not keep.any():
            return False
        mask0 = mask.copy()
        given = None if auto or c["restrict"] == "dict" else (float(nside) if c["fl"] else nside)
        cnv, obs2 = call("healpix_cnv_generate", H.healpix_cnv_generate, obs, mask, c["radius"], cfg, LOG, nside=given)
    finally:
        for f in os.listdir(tmp):
            os.remove(os.path.join(tmp, f))
        os.rmdir(tmp)
    equal(mask, mask0, "mask untouched")
    equal(cnv["inds"], inds[keep], "HEALPix pixels of the map")
    check(cnv["nside"] == nside and obs2["healpix"]["nside"] == nside, f"nside {cnv['nside']}, expected {nside}")
    check(obs2["healpix"]["n_pix"] == keep.sum(), "number of HEALPix pixels")
    if c["restrict"] == "no":
        equal(obs2["healpix"]["ind_list"], inds[keep], "list of indices")
    else:
        check(obs2["healpix"]["ind_list"] is None, "no list of indices when it comes from a file")
    iu = np.asarray(cnv["i_use"])
    check(np.all(np.diff(iu) > 0) and (iu.size == 0 or (iu[0] >= 0 and iu[-1] < dim * elem)), "image pixels are listed once, in order")
    xk, yk, ok = x[keep], y[keep], inside[keep]
    img = r.normal(size=(elem, dim))
    if c["int"]:
        img = r.integers(-5, 6, (elem, dim))
    got = call("healpix_cnv_apply", H.healpix_cnv_apply, img, cnv)
    want = np.zeros(xk.size)
    want[ok] = bilinear(img.astype(float), xk[ok], yk[ok])
    check(got.shape == want.shape, "one value for each HEALPix pixel")
    close(got, want, "map values are the image interpolated at the pixel (zero outside of the image)", rtol=1e-6, atol=1e-5)
    wm = np.zeros(xk.size)
    wm[ok] = bilinear(mask, xk[ok], yk[ok])
    check(obs2["healpix"]["n_zero"] == (wm < 1e-9).sum() or np.any((wm > 0) & (wm < 1e-5)), f"{obs2['healpix']['n_zero']} pixels without any mask, expected {(wm < 1e-9).sum()}")
    # a plane is reproduced exactly
    plane = 0.7 + 0.3 * xx - 0.2 * yy
    close(H.healpix_cnv_apply(plane, cnv)[ok], 0.7 + 0.3 * xk[ok] - 0.2 * yk[ok], "a linear image", rtol=1e-6, atol=1e-5)
    return ok.sum() > 3, ([c["restrict"]] if c["restrict"] != "no" else []) + (["horizon"] if (up <= 0).any() else []) + (["outside"] if (~ok).any() else []) + (["auto nside"] if auto else [])


def f_apply(c):
    r = rng(c["seed"])
    e, d, n = c["e"], c["d"], c["n"]
    img = r.normal(size=(e, d))
    M = np.zeros((n, e * d))
    use = np.sort(r.choice(e * d, min(c["m"], e * d), replace=False))
    sa, ija = np.full(use.size, None, object), np.full(use.size, None, object)
    for i, p in enumerate(use):
        k = r.integers(0, 5)
        ija[i] = r.integers(0, n, k)
        sa[i] = r.normal(size=k)
        for a, b in zip(ija[i], sa[i]):
            M[a, p] += b
    cnv = dict(inds=np.arange(n), ija=ija, sa=sa, i_use=use, nside=4)
    i0 = img.copy()
    got = call("healpix_cnv_apply", H.healpix_cnv_apply, img, cnv)
    close(got, M @ img.ravel(), "sparse product", rtol=1e-9, atol=1e-12)
    equal(img, i0, "image untouched")
    return use.size > 1


FIELDS = [("EoR0_high", 0, -30, 182), ("EoR0_low", 0, -30, 151), ("EoR1_high", 60, -30, 182), ("EoR1_low", 60, -30, 151)]


def f_select(c):
    """Without a file of indices the one of the closest field and frequency is taken."""
    obs = dict(obsra=c["ra"], obsdec=c["dec"], freq_center=c["freq"] * 1e6)
    ds = [float(sep(c["ra"], c["dec"], f[1], f[2])) for f in FIELDS]
    if abs(ds[0] - ds[2]) < 1.001 or abs(c["freq"] - 166.5) < 1e-6:
        return False
    best = min(range(4), key=lambda k: (round(ds[k], 6), abs(FIELDS[k][3] - c["freq"])))

    class Stop(Exception):
        pass

    seen = []

    def load(path, **k):
        seen.append(Path(str(path)).name)
        raise Stop()

    cfg = dict(restrict_healpix_inds=True, healpix_inds=None)
    with mock.patch.object(H, "load", load):
        try:
            H.healpix_cnv_generate(obs, None, 1.0, cfg, LOG)
        except Stop:
            pass
    check(seen == [FIELDS[best][0] + "_healpix_inds.h5"], f"reads {seen}, closest is {FIELDS[best]}")
    return True


SUBS = [
    Sub("map", st.fixed_dictionaries(dict(seed=st.integers(0, 99999), dim=st.integers(4, 30).map(lambda x: 2 * x), elem=st.one_of(st.none(), st.integers(4, 30).map(lambda x: 2 * x)), kpix=st.sampled_from([0.5, 1.0, 2.0, 0.7]), site=st.sampled_from(["mwa", "mwa", "hera"]), jd=st.floats(2456000, 2458800), za=st.sampled_from([0.5, 10.0, 30.0, 50.0, 75.0]), pa=st.floats(0, 360),
        slant=st.booleans(), nside=st.sampled_from([None, 8, 16, 32, 32, 64]), radius=st.floats(10, 55), mask=st.sampled_from(["ones", "disc", "random", "disc"]), restrict=st.sampled_from(["no", "no", "array", "dict"]), n=st.sampled_from([50, 500]), fl=st.booleans(), int=st.booleans(), freq=st.just(1.8e8))).map(
            lambda c: dict(c, elem=c["elem"] or c["dim"], xi=0.1 if c["slant"] and c["radius"] < 45 else 0.0, eta=-0.15 if c["slant"] and c["radius"] < 45 else 0.0)),
        f_map, 150, 2500, rule="fields, sites, times, slants, masks, image shapes, lists of pixels; non-trivial: more than 3 pixels in the image"),
    Sub("apply", st.fixed_dictionaries(dict(seed=st.integers(0, 99999), e=st.integers(1, 8), d=st.integers(1, 8), n=st.integers(1, 12), m=st.integers(0, 40))), f_apply, 200, 2000, rule="sparse maps, repeated pixels; non-trivial: more than one image pixel used"),
    Sub("select", st.fixed_dictionaries(dict(ra=st.floats(0, 359.9), dec=st.floats(-80, 30), freq=st.one_of(st.floats(80, 300), st.floats(160, 173)))), f_select, 100, 1000, rule="pointings and frequencies"),
]
SUBS.append(large(SUBS[0], 5, 60, dim=st.integers(130, 256).map(lambda x: 2 * x), elem=st.integers(130, 256).map(lambda x: 2 * x), nside=st.sampled_from([None, 128, 512, 1024]), radius=st.floats(2, 12)))
