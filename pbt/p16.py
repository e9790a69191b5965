"""P16 the calibration solver recovers the gains behind the data."""
from copy import deepcopy
from core import *
import synth
from PyFHD.calibration.calibration_utils import calculate_adaptive_gain
from PyFHD.calibration.vis_calibrate_subroutine import vis_calibrate_subroutine
from PyFHD.calibration.calibrate import calibrate

CFG = dict(min_cal_baseline=None, max_cal_baseline=None, cal_time_average=False, max_cal_iter=200, cal_convergence_threshold=1e-9, cal_adaptive_calibration_gain=False,
    cal_base_gain=1.0, cal_phase_fit_iter=None, cal_gain_init=1)


def scene(c, r, autos=True):
    nf, nt, npol, n = c["n_freq"], c["n_time"], c["n_pol"], c["n_tile"]
    obs, par, model, w = synth.toy(r, n, nt, nf, npol, autos=autos, scale=1e-6)
    obs["min_baseline"], obs["max_baseline"] = 1e-6, 3000.0
    obs["dimension"] = obs["elements"] = 4096
    bi = obs["baseline_info"]
    a, b = bi["tile_a"] - 1, bi["tile_b"] - 1
    nc = min(npol, 2)
    g = np.exp(r.uniform(-c["amp"], c["amp"], (nc, nf, n))) * np.exp(1j * r.uniform(-c["phase"], c["phase"], (nc, nf, n)))
    model = model / np.abs(model) * r.uniform(0.5, 2, model.shape)
    nb = obs["n_baselines"]
    # autos are real and positive
    au = a == b
    model[..., au] = np.abs(model[..., au])
    return obs, par, model, w, g, a, b


def apply_gains(model, g, a, b):
    p1, p2 = [0, 1, 0, 1], [0, 1, 1, 0]
    return np.stack([model[p] * g[p1[p]][:, a] * np.conj(g[p2[p]][:, b]) for p in range(model.shape[0])])


def flags(c, r, obs, w):
    bi, n, nf, nt = obs["baseline_info"], c["n_tile"], c["n_freq"], c["n_time"]
    ff = r.random(nf) < c["f_freq"]
    ff[r.integers(nf)] = False
    ft = np.zeros(n, bool)
    k = r.permutation(n)[: c["f_tile"]]
    ft[k] = True
    bi["freq_use"] = (~ff).astype(np.int64)
    bi["tile_use"] = (~ft).astype(np.int64)
    one = r.random(w.shape[1:]) < c["f_one"]
    bt = (ft[bi["tile_a"] - 1] | ft[bi["tile_b"] - 1])[None]
    bad = one | ff[:, None] | bt
    by = c.get("by_flag", "both")
    if by == "both":
        w[:, bad] = 0
    elif by == "use":  # only marked unused, the weights are still there
        w[:, one] = 0
    else:  # only without weights
        w[:, bad] = 0
        bi["freq_use"][:] = 1
        bi["tile_use"][:] = 1
    if c.get("wvals"):
        w *= r.choice([0.5, 1.0, 4.0], size=w.shape)
        w[w == 0] = -r.choice([0, 1], size=(w == 0).sum())
    return bad, ff, ft


def equations(bad, a, b, n):
    """How many baselines constrain each tile, per frequency."""
    ok = ~bad & (a != b)[None]
    out = np.zeros((bad.shape[0], n), int)
    for k in range(n):
        out[:, k] = (ok & ((a == k) | (b == k))[None]).sum(1)
    return out


def solve(c, obs, par, model, w, vis, init=1.0, **kw):
    cal = dict(n_pol=min(c["n_pol"], 2), ref_antenna=1, ref_antenna_name="x")
    cal["gain"] = np.full((cal["n_pol"], c["n_freq"], c["n_tile"]), init, complex)
    cfg = dict(CFG, cal_time_average=c.get("tavg", False), cal_adaptive_calibration_gain=c.get("adaptive", False), max_cal_iter=c.get("iters", 200), **c.get("cfg", {}))
    return call("vis_calibrate_subroutine", vis_calibrate_subroutine, vis, model, w, obs, cal, par, cfg, LOG, **kw)


def referenced(g, ft):
    ref = 1 if not ft[1] else int(np.flatnonzero(~ft)[0])
    return g * np.exp(-1j * np.angle(g[..., ref : ref + 1])), ref


def f_recover(c):
    r = rng(c["seed"])
    obs, par, model, w, g, a, b = scene(c, r, c["autos"])
    if c["tavg"]:  # the gains must explain the averaged data too
        pass
    vis = apply_gains(model, g, a, b)
    bad, ff, ft = flags(c, r, obs, w)
    vis = np.where(w > 0, vis, 1e3 * r.normal(size=vis.shape)) if not c["tavg"] else np.where(w > 0, vis, 7.0)
    n = c["n_tile"]
    if c["tavg"]:
        nt, nb = c["n_time"], obs["n_baselines"]
        tb = bad.reshape(bad.shape[0], nt, nb).all(1)
        eq = equations(tb, a[:nb], b[:nb], n)
    else:
        eq = equations(bad, a, b, n)
    use = ~ft
    by = c["by_flag"]
    v0, m0, w0 = vis.copy(), model.copy(), w.copy()
    if (eq[~ff][:, use] < 5).any():  # too few equations somewhere: only the flags are decided
        return False
    # phases left free
    kw = dict(no_ref_tile=bool(r.integers(8) == 0))
    cal = solve(c, obs, par, model, w, vis, **kw)
    equal(vis, v0, "data untouched")
    equal(model, m0, "model untouched")
    equal(w, w0, "weights untouched")
    want, ref = referenced(g, ft)
    check(cal["ref_antenna"] == ref and cal["ref_antenna_name"] == ("x" if ref == 1 else obs["baseline_info"]["tile_names"][ref]), f"reference tile {cal['ref_antenna']} {cal['ref_antenna_name']}, expected {ref}")
    got = cal["gain"]
    same_shape(got, want, "gain")
    nt_ = 0
    for p in range(got.shape[0]):
        for f in np.flatnonzero(~ff):
            done = cal["conv_iter"][p, f, ref] < 199 and cal["convergence"][p, f, use].max() <= 1e-9
            if not done:
                continue
            nt_ += 1
            free = np.exp(1j * np.angle(got[p, f, ref])) if kw["no_ref_tile"] else 1
            close(got[p, f, use], want[p, f, use] * free, f"gains of pol {p} channel {f}", rtol=1e-5)
        if ft.any():
            if by != "weights":
                check(np.isnan(got[p][:, ft]).all(), "gains of flagged tiles are NaN")
            else:
                equal(got[p][:, ft], np.ones((c["n_freq"], ft.sum())), "gains of tiles without data stay at the initial value")
        if ff.any():
            equal(got[p][ff][:, use], np.ones((ff.sum(), use.sum())), "gains of unused channels stay at the initial value")
    total = got.shape[0] * (~ff).sum()
    check(nt_ >= 0.5 * total or total < 4 or c["adaptive"], f"only {nt_}/{total} solutions converged on noise free data")
    check(0 <= cal["n_converged"].min() and cal["n_converged"].max() <= (~ff).sum(), f"n_converged {cal['n_converged']}")
    return nt_ > 0, (["flagged channels"] if ff.any() else []) + (["flagged tiles"] if ft.any() else []) + (["flagged samples"] if c["f_one"] else []) + (["time averaged"] if c["tavg"] else [])


BASE = dict(seed=st.integers(0, 2**32 - 1), n_tile=st.integers(7, 12), n_time=st.integers(1, 3), n_freq=st.integers(1, 6), n_pol=st.sampled_from([1, 2, 2, 4]), amp=st.sampled_from([0.0, 0.3, 0.6]),
    phase=st.sampled_from([0.0, 0.5, 1.5]), autos=st.booleans(), f_freq=st.sampled_from([0, 0.3]), f_tile=st.sampled_from([0, 0, 1, 2]), f_one=st.sampled_from([0, 0, 0.1]),
    tavg=st.booleans(), adaptive=st.booleans(), by_flag=st.sampled_from(["both", "both", "use", "weights"]), wvals=st.booleans())
C_REC = st.fixed_dictionaries(BASE)


def f_isolated(c):
    """What is flagged, out of range, or in another channel has no influence on a solution."""
    r = rng(c["seed"])
    obs, par, model, w, g, a, b = scene(c, r, c["autos"])
    bad, ff, ft = flags(c, r, obs, w)
    vis = apply_gains(model, g, a, b)
    vis = vis + 0.05 * (r.normal(size=vis.shape) + 1j * r.normal(size=vis.shape))
    fr = obs["baseline_info"]["freq"]
    kx, ky = np.abs(np.outer(fr, par["uu"])) / obs["kpix"], np.abs(np.outer(fr, par["vv"])) / obs["kpix"]
    if c["grid"]:
        obs["dimension"], obs["elements"] = 2 * int(np.quantile(kx, c["grid"])), 2 * int(np.quantile(ky, 1.9 - c["grid"]))
    kr = np.outer(fr, np.hypot(par["uu"], par["vv"]))
    nz = kr[kr > 1e-6]
    lo, hi = np.quantile(nz, c["qlo"]) * 1.00001, np.quantile(nz, c["qhi"]) * 1.00001
    if c["by"] == "cal":
        c = dict(c, cfg=dict(min_cal_baseline=float(lo), max_cal_baseline=float(hi)))
    else:
        obs["min_baseline"], obs["max_baseline"] = float(lo), float(hi)
    if c["tavg"]:  # the range test uses the baselines of the first time
        nb = obs["n_baselines"]
        kr, kx, ky = (np.tile(v[:, :nb], (1, c["n_time"])) for v in (kr, kx, ky))
    out = (kr < lo) | (kr > hi) | (kx > obs["dimension"] / 2) | (ky > obs["elements"] / 2)
    free = bad | out
    eq = equations(free, a, b, c["n_tile"])
    if (eq[~ff].sum(1) < 20).any():
        return False
    first = solve(dict(c, iters=30), deepcopy(obs), par, model.copy(), w.copy(), vis.copy())
    vis2, model2 = vis.copy(), model.copy()
    j = r.normal(size=vis.shape) + 1j * r.normal(size=vis.shape)
    vis2[:, free] = (3 * j)[:, free]
    model2[:, free] = (2 * j)[:, free]
    second = solve(dict(c, iters=30), deepcopy(obs), par, model2, w.copy(), vis2)
    close(second["gain"], first["gain"], "gains do not depend on flagged or out of range data", rtol=1e-9)
    equal(second["conv_iter"], first["conv_iter"], "iterations do not depend on flagged or out of range data")
    # another channel and another polarisation change: the rest stays
    f = int(r.choice(np.flatnonzero(~ff)))
    vis3 = vis.copy()
    vis3[:, f] *= 1.5 * np.exp(0.3j)
    third = solve(dict(c, iters=30), deepcopy(obs), par, model.copy(), w.copy(), vis3)
    rest = np.arange(c["n_freq"]) != f
    close(third["gain"][:, rest], first["gain"][:, rest], "gains of the other channels", rtol=1e-9)
    if first["gain"].shape[0] == 2:
        vis4 = vis.copy()
        vis4[1] *= 1.5
        fourth = solve(dict(c, iters=30), deepcopy(obs), par, model.copy(), w.copy(), vis4)
        close(fourth["gain"][0], first["gain"][0], "gains of the other polarisation", rtol=1e-9)
    # order of the baselines
    nt, nb = c["n_time"], obs["n_baselines"]
    pm = r.permutation(nb)
    pm = (pm[None] + nb * np.arange(nt)[:, None]).ravel()
    o5 = deepcopy(obs)
    o5["baseline_info"]["tile_a"] = o5["baseline_info"]["tile_a"][pm]
    o5["baseline_info"]["tile_b"] = o5["baseline_info"]["tile_b"][pm]
    p5 = {k: v[pm] for k, v in par.items()}
    fifth = solve(dict(c, iters=30), o5, p5, model[..., pm].copy(), w[..., pm].copy(), vis[..., pm].copy())
    close(fifth["gain"], first["gain"], "gains do not depend on the order of the baselines", rtol=1e-6)
    return True, [c["by"]] + (["out of range"] if (out & ~bad & (a != b)).any() else [])


C_ISO = st.fixed_dictionaries(dict(BASE, n_tile=st.integers(9, 12), n_time=st.integers(1, 2), n_freq=st.integers(2, 4), amp=st.just(0.2), phase=st.just(0.4), adaptive=st.just(False),
    qlo=st.sampled_from([0, 0.05, 0.15]), qhi=st.sampled_from([0.9, 0.97, 1.0]), by=st.sampled_from(["cal", "obs"]), grid=st.sampled_from([0, 0, 0.95, 1.0])))


def f_starved(c):
    """Some tiles keep only a few baselines in some channels."""
    r = rng(c["seed"])
    obs, par, model, w, g, a, b = scene(c, r, c["autos"])
    vis = apply_gains(model, g, a, b)
    n, nc = c["n_tile"], g.shape[0]
    dead = {(k % c["n_freq"]) for k in c["dead"]} if c["n_freq"] > 1 else set()
    for p in range(w.shape[0]):
        for f, t, k in c["starve"]:
            f, t = f % c["n_freq"], t % n
            if c["pol"] in (p, 2):
                j = r.permutation(np.flatnonzero(((a == t) | (b == t)) & (a != b)))
                w[p, f, j[k:]] = 0
        for f in dead:
            w[p, f] = 0
    vis[w <= 0] = 9.0
    w0 = w.copy()
    cal = solve(c, obs, par, model, w, vis)
    got = cal["gain"]
    seen = set()
    for p in range(nc):
        alive = equations(w0[p] <= 0, a, b, n).sum(0) > 0
        if not alive.any():
            seen.add("polarization without data")
            equal(got[p], np.ones((c["n_freq"], n)), "gains of a polarization without data stay at the initial value")
            continue
        ref = 1 if alive[1] else int(np.flatnonzero(alive)[0])
        if not alive.all():
            seen.add("tile without data")
            keep = [f for f in range(c["n_freq"]) if (w[p, f] > 0).any()]
            equal(got[p, keep][:, ~alive], np.ones((len(keep), (~alive).sum())), "gains of a tile without data stay at the initial value")
        for f in range(c["n_freq"]):
            if f in dead or (w0[p, f][a != b] <= 0).all():
                equal(got[p, f], np.ones(n), "gains of a channel without data stay at the initial value")
                continue
            eq = equations(w0[p] <= 0, a, b, n)[f]
            if eq[ref] < 5:
                seen.add("reference tile starved")
                equal(got[p, f], np.zeros(n), "no gains without the reference tile")
                check((w[p, f] <= 0).all(), "a channel without the reference tile is flagged")
                w[p, f] = w0[p, f]
                continue
            ok = (eq >= 5) & alive
            if (eq == 5).any():
                seen.add("exactly five baselines")
            few = alive & ~ok
            equal(got[p, f][few], np.zeros(few.sum()), "gains of tiles with fewer than five baselines in a channel")
            link = np.array([(~np.isin(np.where(a == t, b, a)[((a == t) | (b == t)) & (a != b) & (w0[p, f] > 0)], np.flatnonzero(~ok))).sum() for t in range(n)])
            if (~ok).any():
                seen.add("starved tile")
            if ok.sum() < 6 or (link[ok] < 3).any() or cal["conv_iter"][p, f, ref] >= 199 or cal["convergence"][p, f][ok].max() > 1e-9:
                continue
            close(got[p, f, ok], (g * np.exp(-1j * np.angle(g[..., ref : ref + 1])))[p, f, ok], f"gains of pol {p} channel {f}", rtol=1e-5)
    equal(w, w0, "other weights untouched")
    return bool(seen), sorted(seen)


C_ST = st.fixed_dictionaries(dict(BASE, n_time=st.just(1), tavg=st.booleans(), adaptive=st.just(False), amp=st.sampled_from([0.0, 0.3]), phase=st.just(0.5), n_tile=st.integers(8, 11), n_freq=st.integers(1, 5), pol=st.integers(0, 2), dead=st.sampled_from([[], [], [1]]),
    starve=st.lists(st.tuples(st.integers(0, 4), st.sampled_from([0, 1, 1, 2, 4, 6]), st.sampled_from([0, 3, 4, 5, 5, 5, 6])), min_size=1, max_size=3)))


def f_adaptive(c):
    r = rng(c["seed"])
    N = 40
    it, base = c["iter"], c["base"]
    gl, cl = np.zeros(N), np.zeros(N)
    gl[:it] = r.uniform(0.2, 2, it)
    cl[:it] = np.sort(r.uniform(1e-3, 1, it))[::-1] if c["mono"] else r.uniform(1e-3, 1, it)
    g0 = gl.copy()
    est = c["est"]
    got = float(call("calculate_adaptive_gain", calculate_adaptive_gain, gl, cl, it, base, est))
    if it <= 2:
        want = base
    else:
        if est is None:
            e = [max(0.0, ((1 + g0[i]) * cl[i + 1] - cl[i]) / g0[i]) for i in range(it - 1)]
            est = float(np.median(e[max(it - 5, 0) :]))
        last = g0[it - 1]
        pred = (est * last + cl[it - 2]) / (base + last)
        unit = (cl[it - 2] - est) / (base + last)
        if abs(unit) < 1e-9:
            return False
        want = max(base / 2, ((1 - abs((pred - cl[it - 1]) / unit)) + last) / 2)
    close(got, want, "adaptive gain", rtol=1e-10)
    g0[it] = got
    equal(gl, g0, "only this iteration is recorded in the gain list")
    check(got >= base / 2, "at least half the base gain")
    return it > 2


C_ADA = st.fixed_dictionaries(dict(seed=st.integers(0, 2**32 - 1), iter=st.integers(0, 30), base=st.sampled_from([0.5, 1.0, 0.75, 2]), est=st.sampled_from([0, None, 0.001]), mono=st.booleans()))


def f_whole(c):
    """calibrate() on noise free data gives the model back."""
    r = rng(c["seed"])
    obs, par, model, w, g, a, b = scene(c, r, c["autos"])
    nf, n = c["n_freq"], c["n_tile"]
    x = np.arange(nf)
    nc = g.shape[0]
    kind = c["kind"]
    if kind != "plain":
        amp = np.exp(r.uniform(-0.2, 0.2, (nc, 1, n)))
        ph = r.uniform(-0.5, 0.5, (nc, 1, n)) + r.uniform(-0.5, 0.5, (nc, 1, n)) * (x / nf)[None, :, None]
        if kind in ("poly", "both"):
            amp = amp * (1 + r.uniform(-0.2, 0.2, (nc, 1, n)) * (x / nf)[None, :, None] + r.uniform(-0.1, 0.1, (nc, 1, n)) * ((x / nf) ** 2)[None, :, None])
        if kind == "band":
            amp = amp * np.exp(r.uniform(-0.1, 0.1, (nc, nf, 1)))
        g = amp * np.exp(1j * ph)
    vis = apply_gains(model, g, a, b)
    bad, ff, ft = flags(c, r, obs, w)
    if kind in ("poly", "both") and (~ff).sum() < 4:
        return False
    vis[:, bad] = 5.0
    eq = equations(bad, a, b, n)
    if (eq[~ff][:, ~ft] < 6).any():
        return False
    cfg = dict(CFG, calibration_auto_initialize=c["auto_init"], flag_calibration=False, bandpass_calibrate=kind == "band", auto_ratio_calibration=False, calibration_polyfit=kind in ("poly",),
        calibration_auto_fit=False, calibration_plots=False, cal_bp_transfer=None, cable_bandpass_fit=False, cal_reflection_mode_theory=None, cal_reflection_mode_file=False,
        cal_reflection_mode_delay=False, cal_reflection_hyperresolve=False, cal_amp_degree_fit=2, cal_phase_degree_fit=1, digital_gain_jump_polyfit=False, instrument="mwa",
        cal_adaptive_calibration_gain=c["adaptive"], cal_time_average=c["tavg"])
    bad_in = bad.copy()
    m0, w0 = model.copy(), w.copy()
    out, cal, obs2 = call("calibrate", calibrate, obs, par, vis.copy(), w, model, cfg, LOG)
    equal(model, m0, "model untouched")
    equal(w, w0, "weights untouched")
    same_shape(out, vis, "calibrated visibilities")
    want, ref = referenced(g, ft)
    use = np.flatnonzero(~ft)
    if (cal["conv_iter"][:, ~ff, ref] >= 199).any() or (cal["convergence"][:, ~ff][:, :, use] > 1e-9).any():
        return False
    if kind != "band":
        close(cal["gain"][:, ~ff][:, :, use], want[:, ~ff][:, :, use], "calibration gains", rtol=1e-5)
        good = ~bad_in
        for p in range(min(c["n_pol"], 2)):
            close(out[p][good], model[p][good], f"calibrated data of pol {p} equal the model", rtol=1e-5)
        amp_mean = [np.abs(want[p][~ff][:, use]).mean() for p in range(nc)]
        close(cal["mean_gain"], amp_mean, "mean gain", rtol=1e-5)
    else:  # the bandpass alone: amplitudes are normalised per tile
        nrm = np.abs(want[:, ~ff][:, :, use])
        nrm = nrm / np.take(nrm, [0], axis=1)
        got = np.abs(cal["gain"][:, ~ff][:, :, use])
        close(got / np.take(got, [0], axis=1), nrm, "shape of the bandpass", rtol=1e-4)
    if kind == "plain":
        close(cal["gain_residual"][:, ~ff][:, :, use], np.zeros((nc, (~ff).sum(), use.size)), "residual gain", atol=1e-12)
    return True, [kind] + (["auto init"] if c["auto_init"] and c["autos"] else [])


C_WH = st.fixed_dictionaries(dict(BASE, n_freq=st.integers(2, 8), n_tile=st.integers(8, 11), n_time=st.integers(1, 2), kind=st.sampled_from(["plain", "poly", "band", "plain"]), auto_init=st.booleans(), tavg=st.just(False), amp=st.sampled_from([0.0, 0.4]), by_flag=st.sampled_from(["both", "use"])))


def f_iters(c):
    r = rng(c["seed"])
    obs, par, model, w, g, a, b = scene(c, r)
    vis = apply_gains(model, g, a, b)
    try:
        solve(dict(c, iters=c["iters"]), obs, par, model, w, vis)
    except Violation as e:
        check(c["iters"] < 1 and "ValueError" in str(e), f"max_cal_iter={c['iters']}: {e}")
        return True
    check(c["iters"] >= 1, f"max_cal_iter={c['iters']} accepted")
    return True


C_IT = st.fixed_dictionaries(dict(BASE, n_freq=st.just(1), n_tile=st.just(7), iters=st.integers(-2, 6), tavg=st.just(False), adaptive=st.just(False)))

def f_noisy(c):
    """No gains explain noisy data: every converged gain is the best one for its tile given those of the others."""
    r = rng(c["seed"])
    obs, par, model, w, g, a, b = scene(c, r, c["autos"])
    n, nf, nt, nb = c["n_tile"], c["n_freq"], c["n_time"], obs["n_baselines"]
    vis = apply_gains(model, g, a, b)
    vis = vis + c["noise"] * (r.normal(size=vis.shape) + 1j * r.normal(size=vis.shape))
    bad, ff, ft = flags(c, r, obs, w)
    w0 = w.copy()
    cfg = dict(cal_phase_fit_iter=c["phase_iter"], cal_base_gain=c["base"], cal_convergence_threshold=1e-10)
    run = lambda k: solve(dict(c, iters=k, cfg=cfg), deepcopy(obs), par, model.copy(), w0.copy(), vis.copy())
    cal = run(c["iters"])
    got, ref = cal["gain"], 1 if not ft[1] else int(np.flatnonzero(~ft)[0])
    done, tags = 0, set()
    for p in range(got.shape[0]):
        W = np.clip(w0[p], 0, 1)
        V, M, A, B = vis[p] * W, model[p] * W, a, b
        if c["tavg"]:
            V, M, W = (q.reshape(nf, nt, nb).sum(1) for q in (V, M, W))
            A, B = a[:nb], b[:nb]
        pairs = (W > 0) & (~ft[A] & ~ft[B] & (A != B))[None]
        for f in np.flatnonzero(~ff):
            k = np.flatnonzero(pairs[f])
            x, y = (np.divide(q[f, k], W[f, k]) for q in (M, V))
            t1, t2 = np.r_[A[k], B[k]], np.r_[B[k], A[k]]
            m, d = np.r_[x, x.conj()], np.r_[y, y.conj()]
            if min((t1 == t).sum() for t in np.flatnonzero(~ft)) < 5 or not cal["convergence"][p, f, ref] + cal["convergence"][p, f].max() <= 1e-9 or cal["conv_iter"][p, f, ref] >= c["iters"] - 1:
                continue
            for t in np.flatnonzero(~ft):
                e = m[t1 == t] * np.conj(got[p, f, t2[t1 == t]])
                best = (e.conj() * d[t1 == t]).sum() / (np.abs(e) ** 2).sum()
                close(got[p, f, t], best * np.exp(-1j * np.angle(best)) if t == ref else best, f"gain of tile {t} against its equations", rtol=1e-7, scale=np.abs(got[p, f][~ft]).max())
            done += 1
    # the gains reported for an iteration are those of that iteration
    p, f = int(r.integers(got.shape[0])), int(r.choice(np.flatnonzero(~ff)))
    gone = np.argwhere((cal["convergence"][:, :, ref] > 1e-9) & (cal["conv_iter"][:, :, ref] < c["iters"] - 1) & (cal["conv_iter"][:, :, ref] > 0))
    if len(gone):  # prefer one that diverged
        p, f = (int(q) for q in gone[r.integers(len(gone))])
    V = (np.clip(w0[got.shape[0] - 1], 0, 1) * (a != b)[None]).reshape(nf, nt, nb)
    near = (((a == ref) & ~ft[b]) | ((b == ref) & ~ft[a]))[None] & (V.reshape(nf, -1) > 0)
    near = (near.reshape(nf, nt, nb).any(1) if c["tavg"] else near).sum(1)
    V[~got[-1][:, ~ft].any(1) & (near < 5)] = 0  # channels without a solution, for want of their reference
    if not np.isnan(got[:, :, ~ft]).any():
        equal(cal["n_vis_cal"], int((V.sum(1) > 0).sum() if c["tavg"] else (V > 0).sum()), "number of visibilities in the fit")
    k = int(cal["conv_iter"][p, f, ref])
    back = not cal["convergence"][p, f].any()  # went back to the solution before
    if k + 1 - back >= 1 and np.isfinite(got[p, f, ref]):
        short = run(k + 1 - back)["gain"]
        close(np.nan_to_num(got[p, f]), np.nan_to_num(short[p, f]), f"gains of iteration {k}", rtol=1e-9)
        if k < c["iters"] - 1:
            tags.add("stopped early")
        if cal["convergence"][p, f].max() > 1e-9 and k < c["iters"] - 1:
            tags.add("diverged")
    return done > 0, sorted(tags) + (["time averaged"] if c["tavg"] else []) + (["weights"] if c["wvals"] else []) + (["nothing converged"] if not done else [])


C_NO = st.fixed_dictionaries(dict(BASE, amp=st.sampled_from([0.0, 0.3]), phase=st.just(0.5), noise=st.sampled_from([0.02, 0.1, 0.3, 3.0]), adaptive=st.sampled_from([False, False, True]), phase_iter=st.sampled_from([2, 4]), base=st.sampled_from([1.0, 1.0, 0.75, 0.5]), iters=st.sampled_from([12, 100, 300])))

SUBS = [
    Sub("recover", C_REC, f_recover, 220, 2500, rule="at least one converged solution"),
    Sub("isolated", C_ISO, f_isolated, 60, 600, rule="every used tile has enough equations"),
    Sub("starved", C_ST, f_starved, 90, 1200, rule="some tile has too few or exactly enough baselines"),
    Sub("adaptive", C_ADA, f_adaptive, 400, 20000, rule="beyond the second iteration"),
    Sub("whole", C_WH, f_whole, 120, 1500, rule="solver converged in every channel"),
    Sub("noisy", C_NO, f_noisy, 80, 1500, rule="at least one converged solution"),
    Sub("iters", C_IT, f_iters, 12, 60, rule="always"),
]
SUBS.append(large(SUBS[0], 3, 60, n_tile=st.integers(100, 140), n_time=st.integers(1, 2), n_freq=st.integers(1, 3)))
SUBS.append(large(SUBS[0], 4, 60, name="times", n_time=st.integers(100, 300), n_freq=st.integers(1, 3)))
