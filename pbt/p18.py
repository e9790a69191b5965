"""P18 bandpass: averaged amplitudes and what remains."""
from copy import deepcopy
from core import *
import synth
from p03 import ref_rm
from PyFHD.calibration.calibration_utils import vis_cal_bandpass

CABLE = [l.split() for l in open(os.path.join(REPO, "PyFHD/templates/mwa_cable_length.txt")).read().splitlines()[1:]]
CABLE = np.array([float(l[2]) for l in CABLE])


def rm(x):
    want, marg, kept = ref_rm([float(v) for v in x], 2)
    scale = max(abs(float(v)) for v in x)
    spread = max(x) - min(x)
    if spread > 1e-12 * scale and marg < 1e-9 * scale:
        raise Tie
    return want


class Tie(Exception):
    pass


def band(g, T, F):
    """(n_used_freq) normalised amplitude over the tiles T."""
    amp = np.abs(g[np.ix_(F, T)])
    nrm = np.zeros_like(amp)
    for k in range(len(T)):
        m = rm(amp[:, k])
        nrm[:, k] = amp[:, k] / m if m != 0 else 0
    return np.array([rm(nrm[f]) for f in range(len(F))])


def f_band(c):
    r = rng(c["seed"])
    n = 128 if c["cable"] else c["n_tile"]
    nf, nc = c["n_freq"], c["n_pol"]
    obs, par, vis, w = synth.toy(r, 2, 1, nf, nc)
    bi = obs["baseline_info"]
    obs["n_tile"] = n
    ff = r.random(nf) < c["f_freq"]
    ff[r.permutation(nf)[:2]] = False
    ft = r.random(n) < c["f_tile"]
    if c["lost"] and c["cable"]:
        ft |= CABLE == r.choice(np.unique(CABLE))
    ft[r.permutation(n)[:2]] = False
    bi["freq_use"], bi["tile_use"] = (~ff).astype(np.int64), (~ft).astype(np.int64)
    b0 = np.exp(0.3 * r.normal(size=(nc, nf, 1)))
    tile = np.exp(0.5 * r.normal(size=(nc, 1, n))) * np.exp(2j * np.pi * r.random((nc, 1, n)))
    noise = np.exp(c["noise"] * (r.normal(size=(nc, nf, n)) + 1j * r.normal(size=(nc, nf, n))))
    g = b0 * tile * noise
    if c["zeros"] and n > 2:  # tiles without a solution in some channels, or in all
        some = r.permutation(np.flatnonzero(~ft))[: max(1, n // 4)]
        for t in some[2:] if some.size > 2 else some[:0]:
            g[r.integers(nc), :, t] *= r.random(nf) > r.choice([0.3, 1.0])
        g[:, :, some[:2]] *= r.random((nc, nf, some[:2].size)) > 0.15
    g[:, :, ft] = np.nan
    g[:, ff] *= 10
    cal = dict(gain=g.copy(), n_pol=nc, extra=np.arange(3), ref_antenna=1)
    cfg = dict(cal_bp_transfer=None, cable_bandpass_fit=c["cable"], auto_ratio_calibration=c["ratio"], instrument="mwa")
    bp, rem = call("vis_cal_bandpass", vis_cal_bandpass, obs, cal, cfg, LOG)
    equal(cal["gain"], g, "the calibration itself is left alone")
    check(bp is not cal and rem is not cal and bp["gain"] is not rem["gain"], "separate results")
    F, T = np.flatnonzero(~ff), np.flatnonzero(~ft)
    if c["cable"]:
        groups = [np.flatnonzero(~ft & (CABLE == L)) for L in np.unique(CABLE)]
        if c["ratio"] or any(q.size == 0 for q in groups):
            groups, glob = [T], True
        else:
            glob = False
    else:
        groups, glob = [T], True
    try:
        for p in range(nc):
            for q in groups:
                want = band(g[p], q, F)
                got = bp["gain"][p][np.ix_(F, q)]
                close(got, np.repeat(want[:, None], q.size, 1), f"bandpass of pol {p}", rtol=1e-9)
    except Tie:
        return False
    used = np.ix_(range(nc), F, T)
    check(not np.isnan(bp["gain"][used]).any(), "bandpass is a number")
    close(np.where(bp["gain"][used] == 0, 0, g[used]), bp["gain"][used] * rem["gain"][used], "bandpass times remainder is the gain", rtol=1e-10)
    equal(rem["gain"][:, ff][:, :, T], g[:, ff][:, :, T], "unused channels stay in the remainder")
    for k in ("extra", "ref_antenna", "n_pol"):
        equal(bp[k], cal[k], f"{k} carried over")
        equal(rem[k], cal[k], f"{k} carried over")
    # one amplitude and phase per tile has no influence on the bandpass
    s = np.exp(r.normal(size=(nc, 1, n))) * np.exp(2j * np.pi * r.random((nc, 1, n)))
    bp2, rem2 = call("vis_cal_bandpass", vis_cal_bandpass, obs, dict(cal, gain=g * s), cfg, LOG)
    close(bp2["gain"][used], bp["gain"][used], "bandpass does not depend on the level of the tiles", rtol=1e-8)
    close(rem2["gain"][used], (rem["gain"] * s)[used], "the level of the tiles is in the remainder", rtol=1e-8)
    if c["noise"] == 0 and not c["zeros"]:
        a = np.abs(rem["gain"][used])
        close(a, np.repeat(a[:, :1], a.shape[1], 1), "a common band leaves flat remainders", rtol=1e-9)
    return ft.any() or ff.any() or not glob, (["cable groups"] if not glob else ["global"]) + (["lost group"] if c["lost"] and c["cable"] else []) + (["flags"] if ff.any() or ft.any() else [])


C = dict(seed=st.integers(0, 2**32 - 1), n_pol=st.sampled_from([1, 2]), f_freq=st.sampled_from([0, 0.2, 0.4]), f_tile=st.sampled_from([0, 0.2, 0.4]), noise=st.sampled_from([0.0, 0.02, 0.2]), zeros=st.sampled_from([False, False, True]), ratio=st.booleans(), lost=st.booleans())
SUBS = [
    Sub("global", st.fixed_dictionaries(dict(C, cable=st.just(False), n_tile=st.integers(2, 12), n_freq=st.integers(2, 24))), f_band, 250, 6000, rule="something flagged"),
    Sub("cable", st.fixed_dictionaries(dict(C, cable=st.just(True), n_tile=st.just(128), n_freq=st.integers(3, 8))), f_band, 50, 1200, rule="something flagged or cable groups used"),
]
SUBS.append(large(SUBS[0], 6, 80, n_tile=st.integers(200, 300), n_freq=st.integers(100, 400)))
