"""P17 applying gains, and the baseline statistics of calibrated data."""
from copy import deepcopy
from core import *
import synth
from PyFHD.calibration.calibration_utils import vis_calibration_apply, vis_baseline_hist

P1, P2 = [0, 1, 0, 1], [0, 1, 1, 0]


def f_apply(c):
    r = rng(c["seed"])
    nf, nt, npol, n = c["n_freq"], c["n_time"], c["n_pol"], c["n_tile"]
    obs, par, vis, w = synth.toy(r, n, nt, nf, npol, autos=c["autos"])
    bi = obs["baseline_info"]
    if c["shuffle"]:
        pm = r.permutation(bi["tile_a"].size // nt)
        pm = (pm[None] + pm.size * np.arange(nt)[:, None]).ravel()
        bi["tile_a"], bi["tile_b"] = bi["tile_a"][pm], bi["tile_b"][pm]
    a, b = bi["tile_a"], bi["tile_b"]
    nc = min(npol, 2)
    g = np.exp(r.normal(size=(nc, nf, n)) * 0.5) * np.exp(2j * np.pi * r.random((nc, nf, n)))
    g *= r.choice([1, 1, 1e-5, 1e4], n)  # a tile in other units
    dead = r.random(n) < c["dead"]
    g[:, :, dead] = c["deadval"]
    cal = dict(gain=g.copy(), n_pol=nc)
    model = r.normal(size=vis.shape) + 1j * r.normal(size=vis.shape)
    w = r.choice([1.0, 0.5, 3.0, 0.0, -1.0], p=[0.6, 0.1, 0.1, 0.1, 0.1], size=w.shape)
    m0, w0, v0 = model.copy(), w.copy(), vis.copy()
    none = c["nomodel"] and npol == 4
    log = RecLogger()
    out, cal2 = call("vis_calibration_apply", vis_calibration_apply, vis.copy(), obs, cal, None if none else model, None if none else w, log)
    want = np.zeros_like(v0)
    for p in range(npol):
        for f in range(nf):
            for k in range(a.size):
                gg = g[P1[p], f, a[k] - 1] * np.conj(g[P2[p], f, b[k] - 1])
                want[p, f, k] = v0[p, f, k] / gg if np.isfinite(gg) and gg != 0 else 0
    close(out[:2] / np.where(want[:2] == 0, 1, want[:2]), want[:2] != 0, "calibrated visibilities", rtol=1e-12)
    equal(cal2["gain"], g, "gains untouched")
    equal(model, m0, "model untouched")
    equal(w, w0, "weights untouched")
    if npol == 4:
        # a single overall phase between the cross polarisations at most
        close(out[2:] / np.where(want[2:] == 0, 1, want[2:]), want[2:] != 0, "calibrated cross polarisations", rtol=1e-12)
        if not none:
            ww = np.clip(w[0], 0, 1)
            nb = a.size // nt
            num, den = 0, 0
            for f in range(nf):
                for q in range(nb):
                    s = [q + nb * t for t in range(nt)]
                    if ww[f, s].sum() > 0:
                        sm = lambda z: (z[f, s] * ww[f, s]).sum()
                        den += abs(sm(want[2]) * sm(model[2])) + abs(sm(want[3]) * sm(model[3]))
                        num += np.conj(sm(want[2])) * sm(model[2]) + sm(want[3]) * np.conj(sm(model[3]))
            if abs(num) > 1e-9 * den:
                d = np.angle(np.exp(1j * (cal2["cross_phase"] - np.angle(num))))
                check(abs(d) < 1e-8, f"cross phase {cal2['cross_phase']} expected {np.angle(num)}")
    return True, [f"{npol} pol"] + (["dead tiles"] if dead.any() else [])


C_AP = st.fixed_dictionaries(dict(seed=st.integers(0, 2**32 - 1), n_tile=st.integers(2, 6), n_time=st.integers(1, 3), n_freq=st.integers(1, 6), n_pol=st.sampled_from([1, 2, 4]), autos=st.booleans(), shuffle=st.booleans(),
    dead=st.sampled_from([0, 0, 0.3]), deadval=st.sampled_from([0.0, float("nan")]), nomodel=st.booleans()))


def f_metamorphic(c):
    """gains g1*g2 applied at once = one after the other; applying to g g* model gives the model."""
    r = rng(c["seed"])
    nf, nt, npol, n = c["n_freq"], c["n_time"], c["n_pol"], c["n_tile"]
    obs, par, model, w = synth.toy(r, n, nt, nf, npol, autos=c["autos"])
    a, b = obs["baseline_info"]["tile_a"] - 1, obs["baseline_info"]["tile_b"] - 1
    nc = min(npol, 2)
    mk = lambda: np.exp(r.normal(size=(nc, nf, n)) * 0.3) * np.exp(2j * np.pi * r.random((nc, nf, n)))
    g1, g2 = mk(), mk()
    put = lambda v, g: np.stack([v[p] * g[P1[p]][:, a] * np.conj(g[P2[p]][:, b]) for p in range(npol)])
    ap = lambda v, g: call("vis_calibration_apply", vis_calibration_apply, v.copy(), obs, dict(gain=g.copy(), n_pol=nc), None, None, LOG)[0]
    close(ap(put(model, g1), g1), model, "calibrating the corrupted model gives the model", rtol=1e-11)
    close(ap(ap(model, g1), g2), ap(model, g1 * g2), "two calibrations compose", rtol=1e-10)
    ph = np.exp(2j * np.pi * r.random((1, nf, 1)))
    close(ap(model, g1 * ph), ap(model, g1), "an overall phase changes nothing", rtol=1e-10)
    return True


C_ME = st.fixed_dictionaries(dict(seed=st.integers(0, 2**32 - 1), n_tile=st.integers(2, 7), n_time=st.integers(1, 3), n_freq=st.integers(1, 6), n_pol=st.sampled_from([1, 2, 4]), autos=st.booleans()))


def f_hist(c):
    r = rng(c["seed"])
    nf, nt, npol, n = c["n_freq"], c["n_time"], c["n_pol"], c["n_tile"]
    obs, par, vis, w = synth.toy(r, n, nt, nf, npol, scale=c["scale"], kpix=c["kpix"])
    obs["min_baseline"], obs["max_baseline"] = c["lo"], c["hi"]
    model = r.normal(size=vis.shape) + 1j * r.normal(size=vis.shape)
    model[:, r.random(model.shape[1:]) < c["gone"]] = 0
    side = r.random(model.shape)
    model = np.where(side < 0.05, 1j * model.imag, np.where(side < 0.1, model.real, model))
    L = np.outer(obs["baseline_info"]["freq"], np.hypot(par["uu"], par["vv"]))
    if c["cut"]:  # an upper limit within the baselines
        obs["max_baseline"] = hi = float(np.quantile(L, c["cut"])) + 0.123
    else:
        hi = c["hi"]
    if hi <= c["lo"]:
        return False
    edge = (L - c["lo"]) / 5
    if (np.abs(edge - np.round(edge)) < 1e-7).any() or (np.abs(L - hi) < 1e-6).any():
        return False
    v0, m0 = vis.copy(), model.copy()
    got = call("vis_baseline_hist", vis_baseline_hist, obs, par, vis, model)
    equal(vis, v0, "data untouched")
    equal(model, m0, "model untouched")
    nb = got["vis_res_ratio_mean"].shape[1]
    check(got["baseline_length"] == nb, "number of bins")
    check(nb == int((hi - c["lo"]) // 5) + 1, f"{nb} bins of 5 wavelengths between {c['lo']} and {hi}")
    mean, sig = np.zeros((npol, nb)), np.zeros((npol, nb))
    some = 0
    for p in range(npol):
        for k in range(nb):
            s = (L >= c["lo"] + 5 * k) & (L < c["lo"] + 5 * (k + 1)) & (L <= hi)
            s &= np.abs(model[p]) > 0
            if s.any():
                some += 1
                d = np.abs(vis[p][s] - model[p][s])
                mean[p, k] = d.mean() / np.abs(model[p][s]).mean()
                sig[p, k] = d.std() / np.abs(model[p][s]).mean()
    close(got["vis_res_ratio_mean"], mean, "mean residual ratio", rtol=1e-10)
    close(got["vis_res_sigma"], sig, "sigma of the residual", rtol=1e-9, atol=1e-12)
    return some > 2, ["flagged model"] if c["gone"] else []


C_HI = st.fixed_dictionaries(dict(seed=st.integers(0, 2**32 - 1), n_tile=st.integers(2, 6), n_time=st.integers(1, 2), n_freq=st.integers(1, 6), n_pol=st.sampled_from([1, 2, 4]), scale=st.sampled_from([1e-7, 3e-7, 1e-6]),
    kpix=st.sampled_from([0.5, 1.0, 0.3]), lo=st.sampled_from([0.0, 1.0, 12.5]), hi=st.sampled_from([60.0, 101.0, 233.3]), gone=st.sampled_from([0, 0.2]), cut=st.sampled_from([0, 0.6, 0.9])))

SUBS = [
    Sub("apply", C_AP, f_apply, 250, 6000, rule="always"),
    Sub("metamorphic", C_ME, f_metamorphic, 200, 6000, rule="always"),
    Sub("hist", C_HI, f_hist, 200, 5000, rule="at least three occupied bins"),
]
SUBS.append(large(SUBS[0], 4, 60, n_tile=st.integers(100, 140), n_time=st.integers(1, 3), n_freq=st.integers(1, 4)))
SUBS.append(large(SUBS[2], 4, 60, n_tile=st.integers(100, 140), n_time=st.integers(1, 3)))
SUBS.append(large(SUBS[0], 20, 200, name="times", n_time=st.integers(100, 400)))
