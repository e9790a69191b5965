"""P34 what whole runs of the pipeline make of data whose truth is known."""
import re
from core import *
import pipeline as P
from p31 import ALL, FILTERS, FLAG, base, bits, cal_opts, draw, go, grid_opts, image_opts, scene, start
from pathlib import Path
from astropy.io import fits
from astropy.wcs import WCS
import healpy
from p06 import offset, unit


def planes(x):
    return np.moveaxis(x, (0, 1, 2), (2, 1, 0))


SKY = dict(n_tile=30, n_time=2, cfg_pol=0, psf_dim=6, res=8, navg=8, spread=0.9, noise=0.0, flag=0.0, tflag=0, autos=False, lazy=False, tcut=None, sav=0, wide=0, per=None, minb=0, wild=None)


def f_recover(c):
    """Data that are the model times gains: what comes out is the model."""
    c = dict(c, noise=0.0, snap=False)
    with scratch() as td:
        d = Path(td)
        truth = start(c, d)
        o = draw(c)
        try:
            a = go(d, "a", base(c, d) + bits(FLAG, o["k1"]["flag"] & 5) + (["--calibrate-visibilities", "--max-cal-iter", 100] + ["--flag-calibration"] * (c["wild"] is not None) if c["cal"] else []) + grid_opts(o["g1"] | 1) + image_opts(o["m1"] & 7, c) + ALL)
        except P.Starved:
            return False, ["nothing to grid"]
        T = P.tree(a)
    vis = {k: T[f"visibilities/obs1_{k}_vis_arr.h5"] for k in ("raw", "calibrated", "model")}
    wts = {k: T[f"visibilities/obs1_{k}_vis_weights.h5"] for k in ("raw", "calibrated")}
    npol = c["cfg_pol"] if 0 < c["cfg_pol"] <= c["n_pol"] else c["n_pol"]
    equal(vis["raw"], planes(truth["vis"])[:npol].astype(complex), "raw visibilities are those of the file")
    equal(wts["raw"], planes(truth["wts"])[:npol].astype("f4").astype(float), "raw weights are those of the file")
    obs = T["metadata/obs1_obs.h5"]
    use = wts["calibrated"] > 0
    check(not c["cal"] or not (use & ~(wts["raw"] > 0)).any() or o["k1"]["flag"] & 1, "a flagged visibility has a weight")
    tile = obs["baseline_info"]["tile_use"] > 0
    pair = tile[truth["A"] - 1] & tile[truth["B"] - 1]
    check(not use[:, :, ~pair].any(), "a visibility of an unused tile has a weight")
    check(not truth["flag"].any() or not tile[truth["flag"] > 0].any(), "a tile flagged in the METAFITS is used")
    params = T["metadata/obs1_params.h5"]
    for k in ("uu", "vv", "ww"):
        equal(params[k], truth[k].astype(float), f"coordinates {k} of the file")
    if not c["cal"]:
        equal(vis["calibrated"], vis["raw"], "visibilities without calibration")
    equal(np.where(use, vis["model"], 0), np.where(use, planes(truth["mod"])[:npol].astype(complex), 0), "the model is that of the file")
    cross = use & (truth["A"] != truth["B"])
    n = 0
    if c["cal"]:
        gain = T["calibration/obs1_cal.h5"]["gain"]
        for p in range(min(npol, 2)):
            ok = cross[p] & (gain[p][:, truth["A"] - 1] != 0) & (gain[p][:, truth["B"] - 1] != 0)  # a tile with too few equations has no gain
            x, y = vis["calibrated"][p][ok], vis["model"][p][ok]
            n += y.size
            check(np.isfinite(x).all(), "a calibrated visibility with a weight is not finite")
            far = np.abs(x - y) > 1e-3 * np.abs(vis["model"][p]).max()
            if far.size > 50 and c["wild"] is None:  # with a very strange tile the solver may stop early
                check(far.mean() < 0.1, f"calibrated visibilities differ from the model in {far.mean():.0%} of {y.size} (polarisation {p}): {x[far][:3]} {y[far][:3]}")
    s = {}
    for name in sorted(T):
        m = re.match(r"fits/obs1_\w+_(dirty|model|residual)_(\w+)\.fits", name)
        if m:
            s[m[1], m[2]] = T[name]["data"]
    for k, p in list(s):
        if k == "residual":
            close(s[k, p], s["dirty", p] - s["model", p], f"residual {p} is dirty minus model", rtol=1e-6, atol=1e-6 * np.nanmax(np.abs(s["dirty", p])))
    return n > 50 or not c["cal"], ["calibrated"] * c["cal"] + ["IDL model"] * (c["sav"] > 0) + [f"pols {npol}"] + ["strange tile flagged"] * (c["wild"] is not None and c["cal"] and not tile[c["wild"] % c["n_tile"]])


def f_relation(c):
    """Scaled data give scaled products; the order of the rows within a time is of no consequence."""
    c = dict(c, snap=c["snap"] and c["n_freq"] < 24)
    with scratch() as td:
        d = Path(td)
        o = draw(c)
        scale = 2.0 ** c["power"] if c["how"] == "scale" else 1.0
        out = []
        for k, kw in (("x", {}), ("y", dict(scale=scale) if c["how"] == "scale" else dict(order=c["seed"], own="--flag-model" in base(c, d)))):
            t = start(c, d / k, **kw)
            argv = base(c, d / k) + cal_opts(c, o["k1"]) + grid_opts(o["g1"] | 1) + image_opts(o["m1"] & ~16, c)
            try:
                out.append(P.tree(go(d / k, "a", argv + ALL)))
            except P.Starved:
                out.append(None)
        if out[0] is None or out[1] is None:
            check(out[0] is out[1], "only one of the runs has nothing to grid")
            return False, ["nothing to grid"]
        x, y = [{k: v for k, v in t.items() if not k.startswith("config/") and not k.endswith(".log")} for t in out]
    check(x.keys() == y.keys(), f"files of one run only {sorted(set(x) ^ set(y))}")
    n = 0
    if c["how"] == "scale":
        # exact: powers of two
        linear = lambda k, q: re.match(r"visibilities/.*_arr", k) or re.match(r"fits/.*_(dirty|model|residual)_", k) and q == "/data" or re.match(r"gridding/.*_(image|model)_uv", k)
        for k in sorted(x):
            if re.match("layout|metadata", k) or "healpix" in k or k == "calibration/obs1_cal.h5":
                continue
            a, b = dict(P.flat(y[k])), dict(P.flat(x[k]))
            for q in b:
                if isinstance(b[q], np.ndarray):
                    equal(a[q], b[q] * scale if linear(k, q) else b[q], f"data times {scale}: {k}{q}")
                    n += b[q].size
        if c["cal"]:
            equal(y["calibration/obs1_cal.h5"]["gain"], x["calibration/obs1_cal.h5"]["gain"], "gains of scaled data")
    else:
        for k in ("raw_vis_arr", "calibrated_vis_arr", "raw_vis_weights", "calibrated_vis_weights", "model_vis_arr"):
            k = f"visibilities/obs1_{k}.h5"
            close(y[k], x[k][:, :, t["order"]], f"rows in another order: {k}", rtol=1e-6, atol=1e-6)
            n += x[k].size
        if c["cal"]:
            close(y["calibration/obs1_cal.h5"]["gain"], x["calibration/obs1_cal.h5"]["gain"], "gains of rows in another order", rtol=1e-6, atol=1e-8)
        for k in sorted(x):
            if k.startswith("fits"):
                a, b = y[k]["data"], x[k]["data"]
                close(a, b, f"rows in another order: {k}", rtol=1e-5, atol=1e-5 * np.nanmax(np.abs(b)))
                n += b.size
    return n > 100, ["calibrated"] * c["cal"] + ["IDL model"] * (c["sav"] > 0) + [c["how"]] + ["maps"] * c["snap"] + ["model in another order"] * (c["how"] == "order" and "--flag-model" in argv)


def place(m, y, x, what, tol=0.8):
    """The map has its source at the pixel (y, x)."""
    m = np.where(np.isfinite(m), m, 0.0)
    iy, ix = int(round(y)), int(round(x))
    if min(iy, ix) < 6 or max(iy - m.shape[0], ix - m.shape[1]) > -7:
        return False
    w = m[iy - 5 : iy + 6, ix - 5 : ix + 6]
    check(w.max() > 0.5 * np.abs(m).max(), f"{what}: no source near pixel {y:.2f}, {x:.2f}: {w.max()} there, {np.abs(m).max()} at {np.unravel_index(np.argmax(np.abs(m)), m.shape)}")
    v = np.maximum(w - 0.4 * w.max(), 0)
    py, px = np.unravel_index(np.argmax(w), w.shape)
    q, Y, X = np.s_[max(py - 2, 0) : py + 3, max(px - 2, 0) : px + 3], *np.mgrid[-5:6, -5:6]
    gy, gx = [(v * k)[q].sum() / v[q].sum() + o for k, o in ((Y, iy), (X, ix))]
    check(np.hypot(gy - y, gx - x) < tol, f"{what}: source at pixel {gy:.2f}, {gx:.2f}, expected {y:.2f}, {x:.2f}")
    return True


def f_sky(c):
    """A point source comes out where it is in the sky."""
    c = dict(c, **SKY, za=c["za"] if not c["snap"] else min(c["za"], 25.0))
    c["sky"] = [(c["dist"], c["ang"], 1.0)]
    with scratch() as td:
        d = Path(td)
        t = start(c, d)
        argv = base(c, d) + (["--calibrate-visibilities", "--max-cal-iter", 100] if c["cal"] else []) + ["--recalculate-grid", "--grid-weights", "--grid-variance"] + image_opts(c["opt"] & 7, c) + (["--ps-kspan", int(c["dim"] * c["kpix"]), "--n-avg", 2] if c["snap"] else []) + ALL
        a = go(d, "a", argv)
        T = P.tree(a)
        head = {f.name: fits.getheader(f) for f in a.rglob("*_model_*.fits")}
    ra, dec = map(float, offset(t["ra"], t["dec"], c["dist"], c["ang"]))
    n = 0
    for k in sorted(T):
        m = re.match(r"fits/(obs1_\w*)_(model|dirty)_(\w+)\.fits", k)
        if m and (m[2] == "model" or c["cal"]) and m[3] in ("XX", "YY", "XY_real"):
            x, y = WCS(head[f"{m[1]}_model_{m[3]}.fits"]).wcs_world2pix(ra, dec, 0)
            n += place(T[k]["data"] * T[f"fits/obs1_beam_{m[3]}.fits"]["data"], float(y), float(x), f"{m[2]} {m[3]} image", 0.8 * (1 + (c["opt"] >> 2 & 1)))
    for f in FILTERS:
        for q, ratio in (("YY", 0.9), ("XY_real", 0.2)):
            x, y = [T.get(f"fits/obs1_{f}_model_{k}.fits") for k in ("XX", q)]
            if x and y:
                close(y["data"], ratio * x["data"], f"model {q} in proportion to XX", rtol=1e-4, atol=1e-4 * np.nanmax(np.abs(x["data"])))
    z, pix = 0, np.degrees(1 / (c["kpix"] * c["dim"]))
    for k in sorted(T):
        if re.match(r"healpix/obs1_(?:hpx_even|hpx_odd|healpix_cube)_(XX|YY)\.h5", k):
            h = T[k]
            lon, lat = healpy.pix2ang(int(h["obs"]["healpix"]["nside"]), np.asarray(h["hpx_inds"]), lonlat=True)
            u = unit(lon, lat)
            s = h["model_cube"].sum(0)
            far = np.degrees(np.arccos(np.clip(unit(ra, dec) @ np.array(u), -1, 1)))
            if far.min() > 2 or not (s > 0).any():
                continue
            i = int(np.argmax(s))
            check(far[i] < 1.6 * pix, f"{k}: brightest pixel {far[i]:.2f} degrees from the source (pixels of {pix:.2f})")
            z += 1
    return n > 0, ["maps"] * (z > 0) + ["calibrated"] * c["cal"] + ["cross polarised"] * any(k.endswith("model_XY_real.fits") for k in T)


SUBS = [
    Sub("sky", st.fixed_dictionaries(dict(seed=st.integers(0, 99999), opt=st.integers(0, 7), n_freq=st.sampled_from([4, 8]), dim=st.sampled_from([56, 64, 72]), kpix=st.sampled_from([0.8, 1.0]), za=st.floats(0, 35), pa=st.floats(0, 360), dist=st.floats(6, 18), ang=st.floats(0, 360), cal=st.booleans(), snap=st.sampled_from([False, False, True]), n_pol=st.sampled_from([2, 4]))), f_sky, 16, 200, rule="one source, a flat array; non-trivial: the source is in an image"),
    Sub("recover", st.fixed_dictionaries(dict(scene, cal=st.sampled_from([True, True, True, False]), wild=st.sampled_from([None, 0, 1, 2, 3, 7]))), f_recover, 20, 300, rule="noise-free data; non-trivial: more than 50 unflagged cross-correlations, or no calibration"),
    Sub("scale", st.fixed_dictionaries(dict(scene, how=st.just("scale"), power=st.integers(-8, 8))), f_relation, 8, 120, rule="data and model times a power of two; non-trivial: more than 100 values compared"),
    Sub("order", st.fixed_dictionaries(dict(scene, how=st.just("order"))), f_relation, 8, 120, rule="rows of each time in another order; non-trivial: more than 100 values compared"),
]
