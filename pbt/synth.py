"""Synthetic UVFITS / METAFITS files and the small dictionaries PyFHD builds from them."""

import numpy as np
from astropy.coordinates import EarthLocation
from astropy.coordinates.errors import UnknownSiteException
from astropy.io import fits
import astropy.units as u

MWA = (116.67081524, -26.703319, 377.827)
SITES = dict(mwa=MWA, hera=(21.42831, -30.72152, 1073.0))


def _of_site(cls, name, **k):
    if name.lower() not in SITES:
        raise UnknownSiteException(name, "")
    lon, lat, h = SITES[name.lower()]
    return EarthLocation.from_geodetic(lon * u.deg, lat * u.deg, h * u.m)


def no_network():
    EarthLocation.of_site = classmethod(_of_site)


def baselines(n_ant, autos=True):
    a, b = np.triu_indices(n_ant, 0 if autos else 1)
    return a, b


def write_uvfits(path, d):
    """d: uu vv ww time(offset days) ant1 ant2 vis(n_b,n_f,n_p) wts jd0 freq0 df and layout flags."""
    n_b, n_f, n_p = d["vis"].shape
    mid = (1,) * d.get("n_mid", 2)
    data = np.zeros((n_b,) + mid + (n_f, n_p, 3), np.float32)
    flat = data.reshape(n_b, n_f, n_p, 3)
    flat[..., 0], flat[..., 1], flat[..., 2] = d["vis"].real, d["vis"].imag, d["wts"]
    cols = dict(UU=d["uu"], VV=d["vv"], WW=d["ww"], DATE=d["date"])
    if "baseline" in d:
        cols["BASELINE"] = d["baseline"]
    if "ant1" in d:
        cols["ANTENNA1"], cols["ANTENNA2"] = d["ant1"], d["ant2"]
    for k in d.get("drop", ()):
        cols.pop(k, None)
    order = [k for k in d["order"] if k in cols]
    names, arrs, zeros = [], [], []
    for k in order:
        names.append(k)
        arrs.append(np.asarray(cols[k], np.float32))
        zeros.append(d["jd0"] if k == "DATE" else 0.0)
    if d.get("date2") is not None:
        names.append("DATE")
        arrs.append(np.asarray(d["date2"], np.float32))
        zeros.append(0.0)
    g = fits.GroupData(data, bitpix=-32, parnames=names, pardata=arrs, parbscales=[1] * len(arrs), parbzeros=[0] * len(arrs))
    hdu = fits.GroupsHDU(g)
    h = hdu.header
    for i, z in enumerate(zeros):
        h[f"PZERO{i + 1}"] = z
        h[f"PSCAL{i + 1}"] = 1.0
    h["CTYPE2"], h["CTYPE3"], h["CTYPE4"] = "COMPLEX", "STOKES", "FREQ"
    h["CRVAL4"], h["CDELT4"], h["CRPIX4"] = d["freq0"], d["df"], d["crpix"]
    for k, v in d["keys"].items():
        h[k] = v
    ant = d["table"]
    hdul = fits.HDUList([hdu, ant])
    hdul.writeto(path, overwrite=True, output_verify="silentfix")


def antenna_table(n, cols, keys):
    out = [fits.Column(name=k, format=f, array=v) for k, (f, v) in cols.items()]
    t = fits.BinTableHDU.from_columns(out)
    t.name = "AIPS AN"
    for k, v in keys.items():
        t.header[k] = v
    return t


def default_table(n, numbers=None):
    numbers = np.arange(1, n + 1) if numbers is None else numbers
    return antenna_table(n, dict(ANNAME=("8A", np.array([f"Tile{i:03d}" for i in numbers])), STABXYZ=("3D", np.zeros((n, 3))), NOSTA=("1J", numbers)), {})


def write_metafits(path, m):
    n = len(m["tile"])
    rows = [(i, p) for p in ("X", "Y") for i in range(n)]
    r = np.random.default_rng(m["seed"])
    perm = r.permutation(len(rows))
    rows = [rows[i] for i in perm]
    ti = np.array([x[0] for x in rows])
    t = fits.BinTableHDU.from_columns([
        fits.Column(name="Input", format="1J", array=np.arange(len(rows))),
        fits.Column(name="Antenna", format="1J", array=ti),
        fits.Column(name="Tile", format="1J", array=np.asarray(m["tile"])[ti]),
        fits.Column(name="Pol", format="1A", array=np.array([x[1] for x in rows])),
        fits.Column(name="Flag", format="1J", array=np.asarray(m["flag"])[ti]),
        fits.Column(name="Height", format="1D", array=np.asarray(m["height"], float)[ti]),
    ])
    p = fits.PrimaryHDU()
    for k, v in m["keys"].items():
        p.header[k] = v
    for c in m.get("history", ()):
        p.header["HISTORY"] = c
    fits.HDUList([p, t]).writeto(path, overwrite=True)


def toy(r, n_tile=6, n_time=2, n_freq=8, n_pol=2, autos=True, df=80000.0, f0=1.5e8, scale=3e-7, dim=64, kpix=0.5, w=True):
    """A small consistent observation: (obs, params, vis_arr, vis_weights); tile indices start at 1."""
    a, b = baselines(n_tile, autos)
    nb = a.size
    A, B = np.tile(a + 1, n_time), np.tile(b + 1, n_time)
    ant = r.normal(size=(n_tile, 3)) * scale / np.sqrt(2)
    uvw = ant[a] - ant[b]
    rot = 1 + 1e-3 * np.repeat(np.arange(n_time), nb)
    uu, vv = np.tile(uvw[:, 0], n_time) * rot, np.tile(uvw[:, 1], n_time) * rot
    ww = np.tile(uvw[:, 2], n_time) * 0.1
    freq = f0 + np.arange(n_freq) * df
    obs = dict(n_pol=n_pol, n_tile=n_tile, n_freq=n_freq, n_time=n_time, n_baselines=nb, n_vis=nb * n_time * n_freq, n_vis_raw=nb * n_time * n_freq, freq_res=df, freq_center=float(np.median(freq)),
        dimension=dim, elements=dim, kpix=kpix, degpix=float(np.degrees(1) / (kpix * dim)), min_baseline=1e-9, max_baseline=1e9, n_time_flag=0, n_tile_flag=0, n_freq_flag=0, nf_vis=np.zeros(n_freq, np.int64),
        pol_names=["XX", "YY", "XY", "YX", "I", "Q", "U", "V"], obsx=dim // 2, obsy=dim // 2, instrument="mwa", obsname="o", time_res=2.0,
        baseline_info=dict(tile_a=A.astype(np.int64), tile_b=B.astype(np.int64), bin_offset=np.arange(n_time) * nb, freq=freq, fbin_i=np.arange(n_freq) // 2, freq_use=np.ones(n_freq, np.int64), time_use=np.ones(n_time, np.int8),
            tile_use=np.ones(n_tile, np.int64), tile_names=np.arange(n_tile) + 11, tile_flag=np.zeros(n_tile, np.int64), jdate=2456528.0 + np.arange(n_time) * 2 / 86400.0))
    params = dict(uu=uu, vv=vv, ww=ww, antenna1=obs["baseline_info"]["tile_a"], antenna2=obs["baseline_info"]["tile_b"], time=np.repeat(obs["baseline_info"]["jdate"], nb))
    shape = (n_pol, n_freq, nb * n_time)
    vis = r.normal(size=shape) + 1j * r.normal(size=shape)
    return obs, params, vis, np.ones(shape)
