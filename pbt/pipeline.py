"""Whole runs of the pipeline in this process: made up inputs on disk, the command line, and the products read back."""
import io
import logging
import os
import sys
from pathlib import Path
from core import *
import idlsav
import synth
from astropy import units as u
from astropy.coordinates import AltAz, EarthLocation, SkyCoord
from astropy.io import fits
from astropy.time import Time
from astropy.utils import iers
from p06 import offset, unit
from PyFHD.io.pyfhd_io import load, save
import PyFHD.pyfhd as M

synth.no_network()
iers.conf.auto_download = False
iers.conf.auto_max_age = None
iers.conf.iers_degraded_accuracy = "warn"
_ZEN = {}


def zenith(jd):
    if jd not in _ZEN:
        lon, lat, h = synth.MWA
        el = EarthLocation.from_geodetic(lon * u.deg, lat * u.deg, h * u.m)
        z = SkyCoord(AltAz(alt=90 * u.deg, az=0 * u.deg, location=el, obstime=Time(jd, format="jd"))).icrs
        _ZEN[jd] = z.ra.deg, z.dec.deg
    return _ZEN[jd]


def axes(ra, dec):
    """East, north and towards the direction itself."""
    a, d = np.radians(ra), np.radians(dec)
    e, n = np.array([-np.sin(a), np.cos(a), 0]), unit(ra, dec)
    return np.array([e, np.cross(n, e), n])


def elements(c):
    return c["dim"] + c.get("wide", 0)


def inputs(c, r, d, scale=1.0, order=None, own=False):
    """The files of one observation in directory d; the truth. The data may be scaled, and their rows in another order within each time."""
    n, nt, nf, npol = c["n_tile"], c["n_time"], c["n_freq"], c["n_pol"]
    a, b = synth.baselines(n, c["autos"])
    nb = a.size
    A, B = np.tile(a + 1, nt), np.tile(b + 1, nt)
    jd = 2456528.0
    step = 2.0**-14
    date = np.repeat(np.arange(nt) * np.float32(step), nb).astype("f4")
    ext = c["dim"] * c["kpix"] * c["spread"]
    ant = r.uniform(-0.5, 0.5, (n, 3)) * ext / 1.5e8
    uvw = ant[a] - ant[b]
    rot = 1 + 1e-3 * np.repeat(np.arange(nt), nb)
    df, f0 = 8e4, 1.5e8
    freq = f0 + np.arange(nf) * df
    ra, dec = offset(*zenith(jd), c["za"], c["pa"])
    ra, dec = float(ra), float(dec)
    if c.get("sky"):  # a flat array
        frame, z = axes(ra, dec), unit(*zenith(jd))
        ant -= np.outer(ant @ frame @ z, z @ frame.T)
        uvw, rot = (ant[a] - ant[b]) * 10 ** np.array([0, 0, 1]), 1
    uu, vv, ww = [(np.tile(uvw[:, k], nt) * rot * (0.1 if k == 2 else 1)).astype("f4") for k in range(3)]
    # a sky of a few point sources
    ns = 3
    l, m = r.uniform(-0.15, 0.15, (2, ns))
    flux = r.uniform(1, 5, ns)
    ph = np.einsum("sb,f->sbf", l[:, None] * uu + m[:, None] * vv, freq)
    if c.get("sky"):  # sources in given directions: distance and position angle from the phase centre, flux
        off, ang, flux = np.array(c["sky"]).T
        lmn = (np.array(unit(*offset(ra, dec, off, ang))).T - unit(ra, dec)) @ frame.T
        ph = np.einsum("sk,kb,f->sbf", lmn, np.array([uu, vv, ww], float), freq)
    base = np.einsum("s,sbf->bf", flux, np.exp(2j * np.pi * ph))
    mod = np.stack([base * s for s in (1.0, 0.9, 0.2 + 0.1j, 0.2 - 0.1j)[:npol]], -1)
    model = mod
    g = 1 + 0.1 * (r.normal(size=(npol, n, nf)) + 1j * r.normal(size=(npol, n, nf)))
    if c.get("wild") is not None:  # one strange tile
        g[:, c["wild"] % n] *= 4
    pq = [(0, 0), (1, 1), (0, 1), (1, 0)][:npol]  # XX YY XY YX
    gg = np.stack([g[p][A - 1] * np.conj(g[q][B - 1]) for p, q in pq], -1)
    vis = mod * gg + c["noise"] * (r.normal(size=mod.shape) + 1j * r.normal(size=mod.shape))
    if c.get("spike"):  # a channel of interference
        k = int(r.integers(nf))
        vis[:, k] += np.abs(vis).max() * (r.normal(size=vis[:, k].shape) + 1j * r.normal(size=vis[:, k].shape))
    au = A == B
    vis[au] = np.where(np.arange(npol) < 2, np.abs(vis[au]), vis[au])
    wts = np.where(r.random(vis.shape[:2])[..., None] < c["flag"], r.choice([0.0, -1.0], size=vis.shape), 1.0)
    common = dict(uu=uu, vv=vv, ww=ww, date=date, jd0=jd, freq0=f0, df=df, crpix=1, order=["UU", "VV", "WW", "BASELINE", "DATE", "ANTENNA1", "ANTENNA2"], ant1=A, ant2=B, baseline=A * 256 + B,
        keys=dict(OBSRA=ra, OBSDEC=dec, LON=synth.MWA[0], LAT=synth.MWA[1], ALT=synth.MWA[2], **{"DATE-OBS": "2013-08-23T12:00:00"}), table=synth.default_table(n))
    o = np.arange(uu.size) if order is None else (np.arange(nt)[:, None] * nb + np.random.default_rng(order).permutation(nb)).ravel()
    data = dict(common, **{k: common[k][o] for k in ("uu", "vv", "ww", "date", "ant1", "ant2", "baseline")})
    synth.write_uvfits(d / "obs1.uvfits", dict(data, vis=(vis * scale).astype("c8")[o], wts=wts.astype("f4")[o]))
    if not own:  # the rows of the model are in the order of the data
        common, mod = data, mod[o]
    synth.write_uvfits(d / "model.uvfits", dict(common, vis=(mod * scale).astype("c8"), wts=np.ones(vis.shape, "f4"), table=synth.default_table(n)))
    if c.get("sav"):  # the same model as IDL leaves it
        (d / "sav").mkdir()
        idlsav.write(str(d / "sav" / "obs1_params.sav"), dict(params=dict(uu=common["uu"].astype(float), vv=common["vv"].astype(float), ww=common["ww"].astype(float), time=jd + common["date"].astype(float), antenna1=common["ant1"].astype("i4"), antenna2=common["ant2"].astype("i4"))))
        for i in range(npol):
            v = (mod[..., i] * scale).astype("c8")
            idlsav.write(str(d / "sav" / f"obs1_vis_model_{['XX', 'YY', 'XY', 'YX'][i]}.sav"), dict(vis_model_ptr=v if c["sav"] == 1 else idlsav.Ptr(v)))
    flag = np.zeros(n, int)
    if c["tflag"]:
        flag[r.integers(0, n)] = 1
    synth.write_metafits(d / "obs1.metafits", dict(seed=c["seed"], tile=np.arange(n) + 11, flag=flag, height=r.uniform(300, 400, n), keys=dict(RA=ra, DEC=dec, RAPHASE=ra, DECPHASE=dec, INTTIME=5.25, DELAYS=",".join(["0"] * 16)), history=[]))
    # beam
    pd, res, navg = c["psf_dim"], c["res"], c["navg"]
    nfb = int((freq[-1] - freq[0]) // (navg * df)) + 1
    nbp = max(npol, 2)
    y, x = np.mgrid[:pd, :pd] - (pd // 2 - 1)
    k = np.exp(-(x**2 + y**2) / 2.0) * (1 + 0.1 * (r.normal(size=(nbp, nfb, res + 1, res + 1, pd, pd)) + 1j * r.normal(size=(nbp, nfb, res + 1, res + 1, pd, pd))))
    if c.get("sky"):  # the same smooth beam everywhere, at the place of the visibility within its pixel
        o = np.arange(res + 1) / res
        g = np.exp(-((np.arange(pd) - (pd // 2 - 1))[None] - o[:, None]) ** 2 / (2 * 0.7**2))
        k[:] = np.einsum("iy,jx->ijyx", g, g)
    k /= np.sum(np.exp(-(x**2 + y**2) / 2.0))
    q = np.arange(c["dim"])
    psf = dict(dim=pd, resolution=res, id=np.zeros((nbp, nfb, nb), np.int64), beam_ptr=k.reshape(nbp, nfb, res + 1, res + 1, pd * pd), fnorm=r.uniform(0.7, 1.3, nfb), pix_horizon=float(c["dim"]), n_pol=nbp, n_freq=nfb,
        fbin_i=np.arange(nf) // navg, image_info=dict(image_power_beam_arr=np.ones((nbp, 4, 4)), ra_arr=np.full((elements(c), c["dim"]), ra), dec_arr=np.full((elements(c), c["dim"]), dec)))
    if c.get("per") == "one":
        psf["image_info"]["image_power_beam_arr"] = np.array([1.0])
    elif c.get("per"):  # a beam image whose transform is cut at the kernel
        ires = min(np.ceil(np.sqrt(res) / 2) * 2, res)
        pid = next(n for n in range(2, 400, 2) if 0 <= int(n / 2 - pd / 2 * ires) <= n - pd * res)
        lm = (np.arange(pid) - pid / 2) * (1.2 / pid)
        image = np.exp(-8 * (lm[:, None] ** 2 + lm[None] ** 2)) * (1 + 0.1 * (r.normal(size=(nbp, pid, pid)) + 1j * r.normal(size=(nbp, pid, pid))))
        psf["image_info"] = dict(psf_image_dim=pid, image_power_beam_arr=image, ra_arr=ra + np.degrees(lm)[None] + 0 * lm[:, None], dec_arr=dec + np.degrees(lm)[:, None] + 0 * lm[None])
        psf["beam_mask_threshold"] = 100.0
    save(d / "beam.h5", psf, "psf")
    return dict(vis=vis.astype("c8"), mod=model.astype("c8"), wts=wts, gain=g, flag=flag, uu=uu, vv=vv, ww=ww, freq=freq, A=A, B=B, ra=ra, dec=dec, psf=psf, jd=jd, order=o)


class Starved(Exception):
    """Nothing was left to grid."""


def run(argv, cwd, expect=0):
    """main() with these arguments; returns the log text and the warnings and errors of it."""
    root = logging.getLogger()
    handlers, level = root.handlers[:], root.level
    old, here = sys.argv, os.getcwd()
    out = sys.stdout, sys.stderr
    for h in handlers:
        root.removeHandler(h)
    code = None
    try:
        os.chdir(cwd)
        sys.argv = ["pyfhd"] + [str(a) for a in argv]
        sys.stdout = sys.stderr = text = io.StringIO()
        M.main()
        code = 0
    except SystemExit as e:
        code = 0 if e.code is None else e.code
    except Exception as e:
        raise Violation(f"pyfhd {' '.join(map(str, argv))}: {type(e).__name__}: {e} at {traceback.extract_tb(e.__traceback__)[-1]}")
    finally:
        sys.stdout, sys.stderr = out
        sys.argv = old
        os.chdir(here)
        for h in root.handlers[:]:
            h.close()
            root.removeHandler(h)
        for h in handlers:
            root.addHandler(h)
        root.setLevel(level)
    if code == 1 and expect == 0 and "All data was flagged during gridding, exiting" in text.getvalue():
        raise Starved
    check(code == expect, f"pyfhd {' '.join(map(str, argv))} ends with status {code}, expected {expect}: {text.getvalue()[-300:]}")
    return text.getvalue()


def tree(d):
    """Everything a run wrote below its output directory, read back: relative name -> contents."""
    out = {}
    for p in sorted(Path(d).rglob("*")):
        if not p.is_file():
            continue
        rel = str(p.relative_to(d))
        if p.suffix == ".h5":
            out[rel] = load(p)
        elif p.suffix == ".fits":
            with fits.open(p) as h:
                out[rel] = dict(data=np.array(h[0].data), header={k: v for k, v in h[0].header.items() if k not in ("HISTORY", "COMMENT", "")})
        else:
            out[rel] = None
    return out


def flat(x, pre=""):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from flat(v, f"{pre}/{k}")
    else:
        yield pre, x
