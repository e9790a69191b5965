"""P25 calibrating a snapshot is exactly the configured sequence of its stages."""
from copy import deepcopy
from core import *
import synth
from p03 import ref_rm
from p16 import CFG, scene, apply_gains, flags, equations
from p35 import write
from PyFHD.calibration.calibrate import calibrate
from PyFHD.calibration.vis_calibrate_subroutine import vis_calibrate_subroutine
from PyFHD.calibration import calibration_utils as cu

OPTS = ["auto_init", "flag", "flag_freq", "band", "ratio", "poly", "auto_fit", "tavg", "adaptive", "jump", "transfer"]


OFF = dict(cable_bandpass_fit=False, digital_gain_jump_polyfit=False, cal_reflection_mode_theory=None, cal_reflection_mode_file=False, cal_reflection_mode_delay=False, cal_reflection_hyperresolve=False)


def options(c, r):
    o = {k: bool(r.random() < c["p"]) for k in OPTS}
    for k, v in (c.get("force") or {}).items():
        o[k] = v
    return o


def config(c, o, r):
    return dict(CFG, **OFF) | dict(calibration_auto_initialize=o["auto_init"], flag_calibration=o["flag"], flag_calibration_frequencies=o["flag_freq"], bandpass_calibrate=o["band"], auto_ratio_calibration=o["ratio"],
        calibration_polyfit=o["poly"], calibration_auto_fit=o["auto_fit"], calibration_plots=False, cal_bp_transfer=None, cal_amp_degree_fit=int(r.integers(1, 3)), cal_phase_degree_fit=1,
        instrument="mwa", cal_adaptive_calibration_gain=o["adaptive"], cal_time_average=o["tavg"], max_cal_iter=c["iters"], cal_gain_init=c["init"],
        **(dict(cable_bandpass_fit=bool(r.integers(2)), digital_gain_jump_polyfit=bool(r.integers(2)), **MODES[c["how"]]) if c.get("how") else {}))


MODES = dict(none={}, theory=dict(cal_reflection_mode_theory=1), cable=dict(cal_reflection_mode_theory=150, cal_reflection_hyperresolve=True), file=dict(cal_reflection_mode_file=True),
    delay=dict(cal_reflection_mode_delay=True), hyper=dict(cal_reflection_mode_theory=1, cal_reflection_hyperresolve=True))


def build(c):
    r = rng(c["seed"])
    o = options(c, r)
    obs, par, model, w, g, a, b = scene(c, r, c["autos"])
    nf, n = c["n_freq"], c["n_tile"]
    x = np.arange(nf) / nf
    nc = g.shape[0]
    ph = r.uniform(-0.5, 0.5, (nc, 1, n)) + r.uniform(-0.5, 0.5, (nc, 1, n)) * x[None, :, None]
    g = np.exp(r.normal(0, 0.1, (nc, 1, n)) + 1j * ph) * (1 + r.normal(0, 0.05, (nc, nf, 1))) * (1 + r.normal(0, 0.02, (nc, nf, n)))
    if c["wild"]:  # outliers for the flagging
        g[:, :, r.integers(n)] *= 4
        g[:, r.integers(nf)] *= np.exp(r.normal(0, 2, (nc, n)))
    vis = apply_gains(model, g, a, b)
    vis = vis * (1 + c["noise"] * r.normal(size=vis.shape))
    vis = np.where((a != b)[None, None], vis * np.exp(1j * c["noise"] * r.normal(size=vis.shape)), vis)
    bad, ff, ft = flags(c, r, obs, w)
    eq = equations(bad, a, b, n)
    if c["lost"] and (~ff).sum() > 5:  # a channel whose reference tile has no data
        ref = 1 if not ft[1] else int(np.flatnonzero(~ft)[0])
        w[:, int(r.choice(np.flatnonzero(~ff))), (a == ref) | (b == ref)] = 0
    ok = not (eq[~ff][:, ~ft] < 5).any() and (~ff).sum() >= 4
    return r, o, obs, par, model, w, vis, a, b, bad, ff, ft, ok


def reference(o, cfg, obs, par, vis, w, model):
    """Each stage on its own copies, in the documented order."""
    cal = dict(n_pol=min(obs["n_pol"], 2), conv_thresh=cfg["cal_convergence_threshold"], ref_antenna=1, ref_antenna_name=obs["baseline_info"]["tile_names"][1])
    K = lambda *v: [deepcopy(q) for q in v]
    au, ti = cu.vis_extract_autocorr(*K(obs, vis), cfg)
    aum, tim = cu.vis_extract_autocorr(*K(obs, model), cfg)
    if o["auto_init"]:
        cal["gain"] = cu.vis_cal_auto_init(*K(obs, cal, vis, model, au, aum, tim))
    else:
        cal["gain"] = np.full((cal["n_pol"], obs["n_freq"], obs["n_tile"]), cfg["cal_gain_init"], complex)
    v2, m2, w2, o2, c2, p2 = K(vis, model, w, obs, cal, par)
    cal = vis_calibrate_subroutine(v2, m2, w2, o2, c2, p2, cfg, LOG)
    obs = o2
    if o["flag"]:
        obs = cu.vis_calibration_flag(*K(obs, cal), cfg, LOG)
    base = cal["gain"].copy()
    g = deepcopy(cal)
    extra = {}
    if o["band"]:
        ratio = None
        if o["ratio"]:
            g, ratio = cu.cal_auto_ratio_divide(*K(obs, g, au, ti))
        bp, rem = cu.vis_cal_bandpass(*K(obs, g), cfg, LOG)
        if o["poly"]:
            pf = cu.vis_cal_polyfit(*K(obs, rem, ratio), cfg, LOG)
            g = dict(g, gain=pf["gain"] * bp["gain"])
            extra = {k: v for k, v in pf.items() if k not in g}
        else:
            g = dict(g, gain=bp["gain"])
        if o["ratio"]:
            g = cu.cal_auto_ratio_remultiply(*K(g, ratio, ti))
    elif o["poly"]:
        pf = cu.vis_cal_polyfit(*K(obs, g, None), cfg, LOG)
        g = dict(g, gain=pf["gain"])
        extra = {k: v for k, v in pf.items() if k not in g}
    before_auto = g["gain"].copy()
    if o["auto_fit"]:
        g = cu.vis_cal_auto_fit(*K(obs, g, au, aum, ti))
        extra.update({k: g[k] for k in ("auto_scale", "auto_params")})
    return obs, base, before_auto, g, extra, w2


def f_stages(c):
    with scratch() as d:
        return _stages(c, d)


def transferred(path, r, obs):
    """A calibration FITS file with a bandpass for these channels, tiles and polarisations."""
    shape = (obs["n_tile"], obs["n_freq"], 1, obs["n_pol"])
    G = np.exp(0.1 * r.normal(size=shape) + 0.3j * r.normal(size=shape))
    write(path, dict(window=bool(r.integers(2)), double=True), np.stack([G.real, G.imag, np.zeros(shape)], axis=-1), dict(CALTYPE="gain", CHWIDTH=obs["freq_res"], XORIENT="east",
        CRVAL4=float(obs["baseline_info"]["freq"][0]), INTTIME=112.0))


def _stages(c, tmp):
    r, o, obs, par, model, w, vis, a, b, bad, ff, ft, ok = build(c)
    cfg = config(c, o, r)
    if not ok:
        return False
    if o["transfer"] and o["band"]:
        cfg["cal_bp_transfer"], cfg["input_path"] = os.path.join(tmp, "bp.fits"), "/nonexistent"
        transferred(cfg["cal_bp_transfer"], r, obs)
    cfg0 = deepcopy(cfg)
    m0, p0, v0, w0 = model.copy(), deepcopy(par), vis.copy(), w.copy()
    with np.errstate(all="ignore"):
        obs_r, base, pre, g, extra, w_r = reference(o, cfg, deepcopy(obs), par, vis, w, model)
    use0 = deepcopy(obs["baseline_info"])
    got, cal, obs2 = call("calibrate", calibrate, obs, par, vis, w, model, cfg, LOG)
    equal(model, m0, "model untouched")
    for k in par:
        equal(par[k], p0[k], f"{k} untouched")
    check(cfg == cfg0, "configuration untouched")
    equal(w, w_r, "weights as the solver leaves them")
    same_shape(got, v0, "calibrated data")
    bi, br = obs2["baseline_info"], obs_r["baseline_info"]
    equal(bi["tile_use"], br["tile_use"], "tiles in use")
    equal(bi["freq_use"], br["freq_use"], "channels in use")
    if not o["flag"]:
        equal(bi["tile_use"], use0["tile_use"], "tiles in use without flagging")
    if not (o["flag"] and o["flag_freq"]):
        equal(bi["freq_use"], use0["freq_use"], "channels in use without flagging")
    same_shape(cal["gain"], g["gain"], "gain")
    close(cal["gain"], g["gain"], "final gains", rtol=1e-9)
    close(cal["gain_residual"], base - g["gain"], "residual gains", rtol=1e-9, scale=max(1.0, np.nanmax(np.abs(base))))
    if c["lost"] and not np.isnan(base[:, :, bi["tile_use"] > 0]).any() and not o["ratio"]:
        check(np.isfinite(cal["gain"][:, :, bi["tile_use"] > 0]).all(), "gains of used tiles are numbers, also next to a channel without a solution")
    for k in extra:
        if isinstance(extra[k], np.ndarray) and extra[k].dtype.kind in "fc":
            close(cal[k], extra[k], k, rtol=1e-9)
    for k in ("conv_iter", "convergence", "n_converged", "ref_antenna", "ref_antenna_name", "n_pol"):
        check(k in cal, f"{k} is lost")
    # the data are divided by the pair of gains
    p1, p2 = [0, 1, 0, 1], [0, 1, 1, 0]
    for p in range(obs["n_pol"]):
        gg = g["gain"][p1[p]][:, a] * np.conj(g["gain"][p2[p]][:, b])
        with np.errstate(all="ignore"):
            want = np.where(np.isfinite(gg) & (gg != 0), v0[p] / np.where(gg == 0, 1, gg), 0)
        close(got[p], want, f"calibrated data of pol {p}", rtol=1e-8)
    # summary numbers over what is in use in the end
    t, f = np.flatnonzero(bi["tile_use"]), np.flatnonzero(bi["freq_use"])
    nc = cal["n_pol"]
    for k in ("mean_gain", "mean_gain_residual", "mean_gain_restrict", "stddev_gain_residual"):
        same_shape(cal[k], np.zeros(nc), k)
    for p in range(nc):
        if not t.size or not f.size:
            continue
        gu, ru = np.abs(g["gain"][p][np.ix_(f, t)]), np.abs((base - g["gain"])[p][np.ix_(f, t)])
        if not (np.isfinite(gu).all() and np.isfinite(ru).all()):
            continue
        close(cal["mean_gain"][p], gu.mean(), "mean gain", rtol=1e-9)
        close(cal["mean_gain_residual"][p], ru.mean(), "mean residual gain", rtol=1e-8, atol=1e-12)
        close(cal["stddev_gain_residual"][p], ru.std(), "spread of the residual gains", rtol=1e-8, atol=1e-12)
        want, marg, _ = ref_rm(ru.ravel(), 2)
        if ru.max() > 1e-9 and marg > 1e-9 * ru.max() and np.isfinite(want):
            close(cal["mean_gain_restrict"][p], want.real, "robust mean of the residual gains", rtol=1e-6)
    h = call("vis_baseline_hist", cu.vis_baseline_hist, obs2, par, got, model)
    for k in h:
        close(cal["vis_baseline_hist"][k], h[k], f"baseline histogram {k}", rtol=1e-9)
    tags = [k for k in ("auto_init", "flag", "band", "poly", "auto_fit") if o[k]] + (["ratio"] if o["ratio"] and o["band"] else []) + (["transferred"] if cfg["cal_bp_transfer"] else [])
    if o["flag"] and ((bi["tile_use"] != use0["tile_use"]).any() or (bi["freq_use"] != use0["freq_use"]).any()):
        tags.append("newly flagged")
    if c["lost"]:
        tags.append("lost channel")
    if o["auto_fit"] and (pre != g["gain"]).any():
        tags.append("auto amplitudes")
    if c.get("how"):
        tags += [k for k in OFF if cfg[k] and k in ("cable_bandpass_fit", "digital_gain_jump_polyfit")] + [c["how"]]
    return bool(tags), tags


BASE = dict(seed=st.integers(0, 2**32 - 1), n_tile=st.integers(9, 13), n_time=st.integers(1, 2), n_freq=st.integers(7, 12), n_pol=st.sampled_from([1, 2, 2, 4]), amp=st.just(0.0), phase=st.just(0.0),
    f_freq=st.sampled_from([0, 0.2]), f_tile=st.sampled_from([0, 0, 1, 2]), f_one=st.sampled_from([0, 0, 0.05]), by_flag=st.sampled_from(["both", "both", "use"]), wvals=st.just(False),
    autos=st.sampled_from([True, True, False]), noise=st.sampled_from([0.0, 0.02]), wild=st.booleans(), lost=st.sampled_from([False, False, True]), p=st.sampled_from([0.3, 0.5, 0.8]), iters=st.sampled_from([20, 60]), init=st.sampled_from([1, 1, 2]))
C = st.fixed_dictionaries(BASE)
SUBS = [Sub("stages", C, f_stages, 80, 4000, rule="at least one optional stage runs and every used tile has enough equations"),
    Sub("full", st.fixed_dictionaries(dict(BASE, n_tile=st.just(128), n_time=st.just(1), n_freq=st.integers(16, 24), n_pol=st.just(2), how=st.sampled_from(list(MODES)), iters=st.just(6), f_tile=st.sampled_from([0, 10]),
        force=st.sampled_from([dict(poly=True), dict(poly=True, band=True)]), wild=st.just(False), p=st.just(0.4))), f_stages, 6, 200, rule="a polynomial fit with reflections of 128 tiles")]
