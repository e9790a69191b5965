"""P19 polynomial gains and cable reflections."""
from copy import deepcopy
from core import *
import synth
from PyFHD.calibration.calibration_utils import vis_cal_polyfit

T = os.path.join(REPO, "PyFHD/templates")
LEN = np.array([[float(x) for x in l.split()] for l in open(os.path.join(T, "mwa_cable_length.txt")).read().splitlines()[1:]])
REF = np.array([[float(x) for x in l.split()] for l in open(os.path.join(T, "mwa_cable_reflection_coefficients.txt")).read().splitlines()[1:]])
JUMP = 187.515e6
CFG = dict(cal_reflection_mode_theory=None, cal_reflection_mode_file=False, cal_reflection_mode_delay=False, cal_reflection_hyperresolve=False, cal_amp_degree_fit=2, cal_phase_degree_fit=1, digital_gain_jump_polyfit=False, instrument="mwa")


def obs_for(r, c, n_tile, df=80000.0, f0=None):
    nf = c["n_freq"]
    if f0 is None:
        f0 = {"low": 100e6, "high": 190e6, "across": JUMP - df * (c["at"] + 0.5)}[c["side"]]
    obs, par, vis, w = synth.toy(r, 2, 1, nf, 2, df=df, f0=f0)
    obs["n_tile"] = n_tile
    bi = obs["baseline_info"]
    ff = r.random(nf) < c["f_freq"]
    ft = r.random(n_tile) < c["f_tile"]
    ft[r.integers(n_tile)] = False
    bi["freq_use"], bi["tile_use"] = (~ff).astype(np.int64), (~ft).astype(np.int64)
    return obs, ff, ft


def lsq(x, y, deg):
    """least squares polynomial: values at any channel, and coefficients of channel number."""
    c0, s0 = x.mean(), max(np.ptp(x) / 2, 1)
    z = (x - c0) / s0
    V = np.vander(z, deg + 1, increasing=True)
    co = np.linalg.lstsq(V, y, rcond=None)[0]
    return lambda q: np.vander((np.asarray(q, float) - c0) / s0, deg + 1, increasing=True) @ co


def unwrap(p):
    out = [p[0]]
    for v in p[1:]:
        k = np.round((v - out[-1]) / (2 * np.pi))
        out.append(v - 2 * np.pi * k)
    return np.array(out)


def f_poly(c):
    r = rng(c["seed"])
    n, nc, da, dp = c["n_tile"], c["n_pol"], c["da"], c["dp"]
    obs, ff, ft = obs_for(r, c, n)
    nf = c["n_freq"]
    F = np.flatnonzero(~ff)
    freq = obs["baseline_info"]["freq"]
    pre, post = F[freq[F] < JUMP], F[freq[F] >= JUMP]
    jump = c["jump"] and pre.size > 0 and post.size > 0
    deg = da - 1 if jump else da
    parts = [pre, post] if jump else [F]
    if any(q.size < deg + 2 for q in parts) or F.size < dp + 2:
        return False
    x = np.arange(nf) / nf
    amp = 1 + sum(r.uniform(-0.2, 0.2, (nc, 1, n)) * x[None, :, None] ** d for d in range(1, deg + 1)) if deg else np.ones((nc, nf, n))
    amp = amp * np.exp(r.normal(size=(nc, 1, n)) * 0.3)
    if jump:
        amp[:, freq >= JUMP] *= 1.3
    ph = sum(r.uniform(-c["turns"], c["turns"], (nc, 1, n)) * x[None, :, None] ** d for d in range(dp + 1))
    if np.abs(np.diff(ph[:, F], axis=1)).max(initial=0) + 6 * c["noise"] > 3:
        return False
    g = amp * np.exp(1j * ph)
    g = g * (1 + c["noise"] * r.uniform(-0.5, 0.5, (nc, nf, n)) + 1j * c["noise"] * r.uniform(-0.5, 0.5, (nc, nf, n)))
    g[:, ff] = 1e3 * (r.normal(size=(nc, ff.sum(), n)) + 0.1j)
    g[:, :, ft] = np.nan
    zero = r.integers(n) if c["zero"] and n > 1 else -1
    if zero >= 0:
        g[:, :, zero] = 0
    cal = dict(gain=g.copy(), n_pol=nc, ref_antenna=1)
    cfg = dict(CFG, cal_amp_degree_fit=da, cal_phase_degree_fit=dp, digital_gain_jump_polyfit=c["jump"])
    out = call("vis_cal_polyfit", vis_cal_polyfit, obs, cal, None, cfg, LOG)
    got = out["gain"]
    same_shape(got, g, "gain")
    ch = np.arange(nf)
    rows = [np.arange(q[0], q[-1] + 1) for q in parts] if jump else [ch]
    for p in range(nc):
        for k in range(n):
            if ft[k]:
                continue
            if k == zero:
                close(got[p, :, k], np.zeros(nf), "tile without gain", atol=1e-12)
                continue
            a, h = np.abs(g[p, F, k]), unwrap(np.angle(g[p, F, k]))
            want = np.zeros(nf)
            for q, rr in zip(parts, rows):
                want[rr] = lsq(q, np.abs(g[p, q, k]), deg)(rr)
            phase = lsq(F, h, dp)(ch)
            # extrapolation beyond the used channels amplifies rounding
            sel = np.concatenate(rows)
            sel = sel[(sel >= F[0] - 1) & (sel <= F[-1] + 1)]
            close(got[p, sel, k], (want * np.exp(1j * phase))[sel], f"fitted gain of pol {p} tile {k}", rtol=1e-6)
            if c["noise"] == 0:
                sel = np.intersect1d(sel, np.concatenate([np.arange(q[0], q[-1] + 1) for q in parts]))
                close(got[p, sel, k], (amp * np.exp(1j * ph))[p, sel, k], "a polynomial gain is its own fit", rtol=1e-6)
            # the stored parameters give the same polynomial
            co = out["phase_params"][p, k]
            close(np.polyval(co[::-1], F), phase[F], "phase parameters", rtol=1e-6, atol=1e-6)
            co = out["amp_params"][p, k]
            for i, q in enumerate(parts):
                close(np.polyval((co[i] if jump else co)[::-1], q), want[q], "amplitude parameters", rtol=1e-6)
    return True, (["digital gain jump"] if jump else []) + (["one side of the jump"] if c["jump"] and not jump else []) + (["exact"] if c["noise"] == 0 else ["noisy"]) + (["zero tile"] if zero >= 0 else [])


C_P = st.fixed_dictionaries(dict(seed=st.integers(0, 2**32 - 1), n_tile=st.integers(1, 5), n_pol=st.sampled_from([1, 2]), n_freq=st.integers(6, 40), da=st.integers(1, 4), dp=st.integers(1, 3), jump=st.booleans(), side=st.sampled_from(["low", "high", "across", "across"]),
    at=st.integers(2, 20), f_freq=st.sampled_from([0, 0.15, 0.3]), f_tile=st.sampled_from([0, 0.2]), noise=st.sampled_from([0.0, 0.0, 0.05]), turns=st.sampled_from([0.0, 0.5, 3.0, 20.0]), zero=st.sampled_from([False, False, True])))


def f_reflect(c):
    r = rng(c["seed"])
    nf, nc, n = c["n_freq"], c["n_pol"], 128
    df = c["band"] * 1e6 / nf
    obs, ff, ft = obs_for(r, dict(c, side="low"), n, df=df, f0=167e6)
    F = np.flatnonzero(~ff)
    ch = np.arange(nf)
    freq = obs["baseline_info"]["freq"]
    bw = (freq[-1] - freq[0]) * nf / (nf - 1)
    nominal = bw * 2 * LEN[:, 2] / (299792458.0 * LEN[:, 3])
    x = ch / nf
    g0 = (1 + 0.1 * r.normal(size=(nc, 1, n)) * x[None, :, None]) * np.exp(0.2 * r.normal(size=(nc, 1, n)) + 1j * r.normal(size=(nc, 1, n)) * (1 + x[None, :, None]))
    off = 0.05 * r.integers(-20, 21, (nc, n))
    mode, A, phi = nominal + off, r.uniform(0.01, 0.05, (nc, n)), r.uniform(-np.pi, np.pi, (nc, n))
    refl = A[:, None] * np.exp(-2j * np.pi * mode[:, None] * ch[None, :, None] / nf + 1j * phi[:, None])
    g = g0 * (1 + refl)
    g[:, ff] = 1.0
    g[:, :, ft] = np.nan
    how = c["how"]
    cfg = dict(CFG, cal_reflection_hyperresolve=c["hyper"])
    if how == "file":
        cfg["cal_reflection_mode_file"] = True
    elif how == "delay":
        cfg["cal_reflection_mode_delay"] = True
    else:
        cfg["cal_reflection_mode_theory"] = c["cable"]
    ratio = None
    if c["ratio"] and how == "theory":
        ratio = np.abs(g0[..., :]) * (1 + 0.05 * r.random(g0.shape)) * np.abs(1 + refl)
    base = call("vis_cal_polyfit", vis_cal_polyfit, obs, dict(gain=g.copy(), n_pol=nc), None, dict(CFG), LOG)["gain"]
    cal = dict(gain=g.copy(), n_pol=nc)
    out = call("vis_cal_polyfit", vis_cal_polyfit, obs, cal, ratio, cfg, LOG)
    got, mp = out["gain"], out["mode_params"]
    # nominal modes
    if how == "file":
        modes = np.stack([REF[:, 5], REF[:, 8]])[:nc] * np.clip(REF[:, 4], 0, 1)
        length = REF[:, 2]
    elif how == "theory":
        modes = np.repeat((nominal * np.clip(LEN[:, 4], 0, 1))[None], nc, 0)
        length = LEN[:, 2]
        cc = c["cable"]
        if ratio is None and abs(cc) > 1:
            keep = length == cc if cc > 0 else length != -cc
            modes = modes * keep
    else:
        res = np.zeros((nc, nf, n))
        for p in range(nc):
            for k in np.flatnonzero(~ft):
                res[p, :, k] = np.abs(g[p, :, k]) - lsq(F, np.abs(g[p, F, k]), 2)(ch)
        spec = np.zeros(nf // 2)
        dft = np.exp(-2j * np.pi * np.outer(ch, ch) / nf)[: nf // 2]
        for p in range(nc):
            for k in np.flatnonzero(~ft):
                spec += np.abs(dft @ res[p, :, k])
        if ff.any():
            psf = np.abs(dft @ (~ff).astype(float)) / nf
            m = psf > psf.max() / 1000
            if (np.abs(psf - psf.max() / 1000) < 1e-9).any():
                return False
            wide = np.array([m[[min(max(i + d, 0), m.size - 1) for d in range(-2, 3)]].any() for i in range(m.size)])
            spec[wide] = 0
        s = np.sort(spec)
        if s[-1] - s[-2] < 1e-6 * s[-1]:
            return False
        modes = np.full((nc, n), float(np.argmax(spec)))
    some, skip = 0, 0
    for p in range(nc):
        for k in np.flatnonzero(~ft):
            if modes[p, k] == 0:
                equal(got[p, :, k], base[p, :, k], f"tile {k} has no reflection to fit")
                continue
            resid = g[p, :, k] / base[p, :, k]
            m0 = modes[p, k]
            if c["hyper"]:
                if ratio is None:
                    y = resid[F] - resid[F].mean()
                else:
                    other = np.flatnonzero(~ft & (modes[p] > 0) & (np.abs(modes[p] - m0) > 0.01))
                    if other.size == 0:
                        return False
                    nr = ratio[p] / ratio[p].mean(0)
                    z = nr[:, k] / nr[:, other].mean(1)
                    y = (z - z.mean())[F]
                tests = m0 + 0.05 * np.arange(-50, 51)
                ft_ = np.array([(np.exp(2j * np.pi / nf * m * F) * y).sum() for m in tests])
                best = np.abs(ft_)
                order = np.sort(best)
                if order[-1] - order[-2] < 1e-9 * order[-1]:
                    skip += 1
                    continue
                i = int(best.argmax())
                m, a, h = tests[i], best[i] / F.size, np.angle(ft_[i])
                if ratio is not None:
                    other = np.flatnonzero(~ft & (modes[p] > 0) & (np.abs(modes[p] - m) > 0.01))
                    ph = np.angle(g[p][F] / base[p][F])
                    z = ph[:, k] - ph[:, other].mean(1)
                    t = (np.exp(2j * np.pi / nf * m * F) * z).sum()
                    a, h = 2 * abs(t) / F.size, np.angle(t) + np.pi / 2
                elif how == "theory" and c["band"] > 30 and abs(off[p, k]) <= 2 and F.size > 0.8 * nf and nf >= 64 and 4 < mode[p, k] % nf < nf - 4:
                    check(abs(m - mode[p, k]) < 0.6, f"tile {k}: mode {m} but the reflection is at {mode[p, k]}")
            elif how == "file":
                m, a, h = m0, REF[k, [6, 9][p]], REF[k, [7, 10][p]]
            else:
                t = (np.exp(2j * np.pi / nf * m0 * F) * resid[F]).sum()
                m, a, h = m0, abs(t) / F.size, np.angle(t)
            some += 1
            close(mp[p, k, :2], [m, a], f"mode and amplitude of tile {k}", rtol=1e-7)
            if a > 1e-8:
                check(abs(np.angle(np.exp(1j * (mp[p, k, 2] - h)))) < 1e-5, f"reflection phase {mp[p, k, 2]} expected {h}")
            fit = a * np.exp(-2j * np.pi * m * ch / nf + 1j * h)
            want = base[p, :, k] * (np.exp(1j * fit.imag) if ratio is not None else 1 + fit)
            close(got[p, :, k], want, f"gain with reflection of tile {k}", rtol=1e-6)
    return some > 0, [how + (" hyper" if c["hyper"] else "")] + (["auto ratio"] if ratio is not None else [])


C_R = st.fixed_dictionaries(dict(seed=st.integers(0, 2**32 - 1), n_pol=st.sampled_from([1, 2]), n_freq=st.sampled_from([24, 48, 96]), how=st.sampled_from(["theory", "theory", "file", "delay"]), band=st.sampled_from([30.72, 30.72, 10.0, 0.64]), cable=st.sampled_from([1, -150, 150, -524, 90, 524]), hyper=st.booleans(), ratio=st.booleans(),
    f_freq=st.sampled_from([0, 0.1, 0.3]), f_tile=st.sampled_from([0.0, 0.5, 0.8]), at=st.just(3)))

SUBS = [
    Sub("poly", C_P, f_poly, 300, 8000, rule="enough used channels for the degrees"),
    Sub("reflect", C_R, f_reflect, 100, 1500, rule="at least one tile with a fitted reflection"),
]
SUBS.append(large(SUBS[0], 5, 60, n_tile=st.integers(60, 130), n_freq=st.integers(300, 768)))
