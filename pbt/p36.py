"""P36 a whole run against its stages called one by one."""
import io
import logging
import os
import sys
from copy import deepcopy
from core import *
import pipeline as P
from p31 import ALL, base, cal_opts, draw, go, grid_opts, image_opts, scene, start
from pathlib import Path
from PyFHD.pyfhd_tools.pyfhd_setup import pyfhd_parser, pyfhd_setup
from PyFHD.pyfhd_tools.pyfhd_utils import simple_deproject_w_term, vis_noise_calc, vis_weights_update
from PyFHD.data_setup.obs import create_obs
from PyFHD.data_setup.uvfits import create_layout, create_params, extract_header, extract_visibilities
from PyFHD.beam_setup.beam import create_psf
from PyFHD.source_modeling.vis_model_transfer import flag_model_visibilities, vis_model_transfer
from PyFHD.flagging.flagging import vis_flag, vis_flag_basic
from PyFHD.calibration.calibrate import calibrate, calibrate_qu_mixing
from PyFHD.gridding.gridding_utils import crosspol_reformat
from PyFHD.gridding.visibility_grid import visibility_grid
from PyFHD.io.pyfhd_quickview import quickview
from PyFHD.healpix.export import healpix_snapshot_cube_generate


def settings(argv, cwd):
    """The configuration these arguments make, without a run."""
    root = logging.getLogger()
    handlers, level = root.handlers[:], root.level
    old, here, out = sys.argv, os.getcwd(), (sys.stdout, sys.stderr)
    try:
        os.chdir(cwd)
        sys.argv = ["pyfhd"] + [str(a) for a in argv]
        sys.stdout = sys.stderr = io.StringIO()
        return pyfhd_setup(pyfhd_parser().parse_args())[0]
    finally:
        sys.stdout, sys.stderr = out
        sys.argv = old
        os.chdir(here)
        for h in root.handlers[:]:
            if h not in handlers:
                h.close()
                root.removeHandler(h)
        root.setLevel(level)


def stages(cfg):
    """The order of the documentation: read, flag, calibrate, flag again, grid each polarisation, make images, map."""
    head, data, ah, ad = extract_header(cfg, LOG)
    par = create_params(head, data, LOG)
    vis, wts = extract_visibilities(head, data, cfg, LOG)
    out = dict(raw=(vis.copy(), wts.copy()))
    obs = create_obs(head, par, create_layout(ah, ad, cfg, LOG), cfg, LOG)
    psf = create_psf(cfg, LOG)
    if np.size(psf["image_info"]["image_power_beam_arr"]) == 1:
        cfg["beam_per_baseline"] = False  # there is no image to make kernels of
    if cfg["deproject_w_term"] is not None:
        vis = simple_deproject_w_term(obs, par, vis, cfg["deproject_w_term"], LOG)
    if cfg["flag_basic"]:
        wts, obs = vis_flag_basic(wts, vis, obs, cfg, LOG)
    wts, obs = vis_weights_update(wts, obs, psf, par)
    model, mpar = vis_model_transfer(cfg, obs, LOG)
    if cfg["flag_model"]:
        model = flag_model_visibilities(model, par, mpar, obs, cfg, LOG)
    out["model"] = model.copy()
    cal = {}
    if cfg["calibrate_visibilities"]:
        vis, cal, obs = calibrate(obs, par, vis, wts, model, cfg, LOG)
        if obs["n_pol"] >= 4:
            cal["stokes_mix_phase"] = calibrate_qu_mixing(vis, model, wts, obs)
        wts, obs = vis_weights_update(wts, obs, psf, par)
        if cfg["flag_visibilities"]:
            wts, obs = vis_flag(vis, wts, obs, par, LOG)
        obs["vis_noise"] = vis_noise_calc(obs, vis, wts)
    out["calibrated"] = vis.copy(), wts.copy()
    out["cal"] = deepcopy(cal)
    out["grid"] = None
    if cfg["recalculate_grid"]:
        n = obs["n_pol"]
        shape = n, obs["elements"], obs["dimension"]
        image, weight, mod = np.zeros(shape, complex), np.zeros(shape, complex), np.zeros(shape, complex)
        var = np.zeros(shape)
        for p in range(n):
            g = visibility_grid(vis[p], wts[p], obs, psf, par, p, cfg, LOG, uniform_flag=p == 0, no_conjugate=p > 1, model=model[p])
            if not g:
                out["grid"] = "starved"
                return out
            image[p], weight[p], var[p], mod[p] = g["image_uv"], g["weights"], g["variance"], g["model_return"]
            if p == 0:
                uni = g["uniform_filter"]
            obs["nf_vis"] = g["obs"]["nf_vis"]
        if n == 4:
            image, weight, mod = crosspol_reformat(image), crosspol_reformat(weight), crosspol_reformat(mod)
        out["grid"] = dict(image_uv=image.copy(), weights_uv=weight.copy(), variance_uv=var.copy(), uniform_filter_uv=uni.copy(), model_uv=mod.copy())
    out["obs"] = deepcopy(obs)
    out["params"] = deepcopy(par)
    if cfg["export_images"] and out["grid"]:
        quickview(obs, psf, par, cal, vis, wts, image, weight, var, uni, mod, cfg, LOG)
    if cfg["snapshot_healpix_export"]:
        healpix_snapshot_cube_generate(obs, psf, cal, par, vis, model, wts, cfg, LOG)
    return out


def same(a, b, what):
    a, b = dict(P.flat(a)), dict(P.flat(b))
    check(a.keys() == b.keys(), f"{what} has {sorted(set(a) ^ set(b))} on one side only")
    for q in b:
        if b[q] is None or isinstance(b[q], str):
            check(a[q] == b[q], f"{what}{q} {a[q]!r}, expected {b[q]!r}")
        else:
            equal(a[q], b[q], f"{what}{q}")
    return len(b)


def f_stages(c):
    c = dict(c, snap=c["snap"] and c["n_freq"] < 24 and not c["wide"])
    if c["spike"]:
        c = dict(c, n_freq=96, n_time=2, snap=False)
    with scratch() as td:
        d = Path(td)
        start(c, d)
        o = draw(c)
        if c["spike"]:
            o["k1"]["flag"] |= 2
        argv = base(c, d) + cal_opts(c, o["k1"]) + grid_opts(o["g1"] | (c["opt"] % 8 > 0)) + image_opts(o["m1"] | 16 * bool(c["wide"]), c) + ALL + (["--beam-per-baseline"] + ["--beam-clip-floor"] * (c["opt"] % 2) if c["per"] else [])
        try:
            a = go(d, "a", argv + ["--save-checkpoints"])
            starved = False
        except P.Starved:
            starved = True
        cfg = settings(argv + ["-o", d / "s"], d)
        here = os.getcwd()
        try:
            os.chdir(d)
            w = stages(cfg)
        finally:
            os.chdir(here)
        check(starved == (w["grid"] == "starved"), "only one of the run and its stages has nothing to grid")
        if starved:
            return False, ["nothing to grid"]
        T, S = P.tree(a), P.tree(Path(cfg["output_dir"]))
    n = 0
    for k, what in ((0, "vis_arr"), (1, "vis_weights")):
        for s in ("raw", "calibrated"):
            n += same(T[f"visibilities/obs1_{s}_{what}.h5"], w[s][k], f"{s} {what}")
    n += same(T["visibilities/obs1_model_vis_arr.h5"], w["model"], "model visibilities")
    n += same(T["metadata/obs1_params.h5"], w["params"], "params")
    obs = lambda x: {k: v for k, v in P.flat(x) if isinstance(v, (np.ndarray, float, int)) and not isinstance(v, bool)}
    x, y = obs(T["metadata/obs1_obs.h5"]), obs(w["obs"])
    for k in sorted(set(x) & set(y)):
        if np.asarray(y[k]).dtype.kind in "fiuc":
            equal(np.asarray(x[k]), np.asarray(y[k]), f"obs {k}")
            n += 1
    check(("/vis_noise" in x) == c["cal"] and "/baseline_info/tile_use" in x, "the noise is part of the observation once calibrated")
    if c["cal"]:
        n += same(T["calibration/obs1_cal.h5"]["gain"], w["cal"]["gain"], "gains")
        if "stokes_mix_phase" in w["cal"]:
            n += same(T["calibration/obs1_cal.h5"]["stokes_mix_phase"], w["cal"]["stokes_mix_phase"], "QU mixing")
    names = [k for k in T if k.endswith("gridding_checkpoint.h5")]
    check(bool(names) == bool(w["grid"]), "a checkpoint of the gridding is there if there was gridding")
    if names:
        ck = T[names[0]]
        for k, v in w["grid"].items():
            n += same(ck[k], v, f"gridded {k}")
    for k in sorted(S):
        if k.startswith(("fits", "healpix", "gridding")):
            check(k in T, f"{k} was not written")
            n += same(T[k], S[k], k)
    check(not [k for k in T if k.startswith(("fits", "healpix", "gridding")) and k not in S], "files the stages do not write")
    return n > 30, ["calibrated"] * c["cal"] + ["IDL model"] * (c["sav"] > 0) + ["images"] * any(k.startswith("fits") for k in S) + ["maps"] * c["snap"] + ["gridded"] * bool(names) + ["not square"] * bool(c["wide"]) + ["interference"] * c["spike"] + [f"{w['raw'][0].shape[0]} pols"]


def kf_oblong():
    """Images of a plane with other elements than dimension."""
    c = dict(seed=2, opt=1, desc=None, n_tile=9, n_time=2, n_freq=8, n_pol=2, cfg_pol=2, autos=True, dim=32, kpix=1.0, spread=0.3, za=0.0, pa=0.0, noise=0.01, flag=0.0, tflag=False, psf_dim=4, res=2, navg=4, minb=0, lazy=False, tcut=None, cal=False, snap=False, wide=8)
    with scratch() as td:
        d = Path(td)
        start(c, d)
        try:
            go(d, "a", base(c, d) + ["--recalculate-grid"])
        except Violation as e:
            return str(e).split(": ", 1)[1][:160]


KNOWN = dict(oblong=kf_oblong)
EXTRA = dict(scene, wide=st.sampled_from([0, 0, 0, -8, 8]), per=st.sampled_from([None, None, None, "image", "one"]), spike=st.just(False))
rule = "a run against its stages called one by one; non-trivial: more than 30 values compared"
SUBS = [
    Sub("calibrated", st.fixed_dictionaries(dict(EXTRA, cal=st.just(True), n_pol=st.just(2))), f_stages, 10, 250, rule=rule),
    Sub("interference", st.fixed_dictionaries(dict(EXTRA, cal=st.just(True), per=st.just(None), spike=st.just(True))), f_stages, 5, 80, rule=rule),
    Sub("crosspols", st.fixed_dictionaries(dict(EXTRA, n_pol=st.just(4), cfg_pol=st.sampled_from([0, 4]))), f_stages, 12, 250, rule=rule),
    Sub("uncalibrated", st.fixed_dictionaries(dict(EXTRA, cal=st.just(False))), f_stages, 10, 200, rule=rule),
    Sub("perbase", st.fixed_dictionaries(dict(EXTRA, per=st.sampled_from(["image", "image", "one"]), n_freq=st.sampled_from([6, 8]), n_time=st.just(2), n_tile=st.just(8))), f_stages, 8, 200, rule=rule),
    Sub("maps", st.fixed_dictionaries(dict(EXTRA, snap=st.just(True), wide=st.just(0), n_freq=st.sampled_from([6, 8, 12]))), f_stages, 6, 100, rule=rule),
]
