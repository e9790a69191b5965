"""P14 visibility weight update before gridding."""
from copy import deepcopy
from core import *
import synth
from gridlib import h5psf
from PyFHD.pyfhd_tools.pyfhd_utils import vis_weights_update


def flags(obs, par, pd):
    """(channels, visibilities) that cannot be gridded; None when too close to a pixel edge."""
    bi = obs["baseline_info"]
    dim, elem, kpix, nt = obs["dimension"], obs["elements"], obs["kpix"], bi["time_use"].size
    kr = np.outer(bi["freq"], np.hypot(par["uu"], par["vv"]))
    sgn = np.where(par["vv"] > 0, -1, 1)
    bad = (kr < obs["min_baseline"]) | (kr > obs["max_baseline"])
    for k, size in ((par["uu"] * sgn, dim), (par["vv"] * sgn, elem)):
        x = np.outer(bi["freq"], k) / kpix
        if (np.abs(x - np.round(x)) < 1e-9)[kr > 1e-6].any():
            return None
        lo = np.floor(x) + size / 2 - (pd / 2 - 1)
        bad |= (lo <= 0) | (lo + pd - 1 >= size - 1)
    bad |= (bi["freq_use"] == 0)[:, None]
    bad |= (bi["tile_use"][bi["tile_a"] - 1] == 0) | (bi["tile_use"][bi["tile_b"] - 1] == 0)
    bad |= np.repeat(bi["time_use"] == 0, par["uu"].size // nt)
    return bad


def f_update(c):
    r = rng(c["seed"])
    nf, nt, npol = c["n_freq"], c["n_time"], c["n_pol"]
    dim, elem, kpix, pd = c["dim"], c["elem"], c["kpix"], c["psf_dim"]
    obs, par, _, w = synth.toy(r, c["n_tile"], nt, nf, npol, dim=dim, kpix=kpix, scale=c["spread"] * dim * kpix / 1.5e8, df=c["df"])
    obs["elements"] = elem
    bi = obs["baseline_info"]
    n = obs["n_tile"]
    w = r.choice([1.0, 0.5, 0.0, -1.0], p=[0.6, 0.2, 0.1, 0.1], size=w.shape)
    gone = r.random(n) < c["gone"]
    if c["gone"]:  # tiles without baselines
        k = ~(gone[bi["tile_a"] - 1] | gone[bi["tile_b"] - 1])
        nb = k.sum() // nt
        if nb == 0:
            return False
        for q in ("uu", "vv", "ww"):
            par[q] = par[q][k]
        bi["tile_a"], bi["tile_b"], w = bi["tile_a"][k], bi["tile_b"][k], w[..., k]
        bi["bin_offset"] = np.arange(nt) * nb
    bi["tile_use"] = (r.random(n) >= c["cut"]).astype(np.int64)
    bi["freq_use"] = (r.random(nf) >= c["cut"]).astype(np.int64)
    bi["time_use"] = (r.random(nt) >= c["cut"]).astype(np.int8)
    kr = np.outer(bi["freq"], np.hypot(par["uu"], par["vv"]))
    obs["min_baseline"] = float(np.quantile(kr, c["qmin"])) * 1.0001 + 1e-9
    obs["max_baseline"] = float(np.quantile(kr, c["qmax"])) * 1.0001 + 1e-9
    p0, w0, o0 = deepcopy(par), w.copy(), deepcopy(obs)
    psf = h5psf(dict(dim=pd)) if c["seed"] % 4 == 0 else dict(dim=pd)
    got, obs2 = call("vis_weights_update", vis_weights_update, w, obs, psf, par)
    for q in ("uu", "vv", "ww"):
        equal(par[q], p0[q], f"params {q} untouched")
    bad = flags(o0, par, pd)
    if bad is None:
        return False
    want = np.where(bad, 0, w0)
    equal(got, want, "weights after update")
    check(obs2["n_vis"] == (want[0] > 0).sum(), f"n_vis {obs2['n_vis']} expected {(want[0] > 0).sum()}")
    check((obs2["n_tile_flag"], obs2["n_freq_flag"], obs2["n_time_flag"]) == ((bi["tile_use"] == 0).sum(), (bi["freq_use"] == 0).sum(), (bi["time_use"] == 0).sum()), "flag counts")
    again, obs3 = call("vis_weights_update", vis_weights_update, got.copy(), deepcopy(obs2), dict(dim=pd), par)
    equal(again, want, "a second update changes nothing")
    check(obs3["n_vis"] == obs2["n_vis"], "n_vis is stable")
    fr = bad.mean()
    return 0 < fr < 1, ["all flagged"] if fr == 1 else (["footprint"] if c["spread"] > 0.3 else [])


SUBS = [
    Sub("update", st.fixed_dictionaries(dict(seed=st.integers(0, 99999), n_tile=st.integers(4, 8), n_time=st.integers(1, 4), n_freq=st.integers(1, 8), n_pol=st.sampled_from([1, 2, 4]), dim=st.integers(10, 60).map(lambda x: 2 * x), elem=st.integers(10, 60).map(lambda x: 2 * x),
        kpix=st.sampled_from([0.5, 1.0, 0.3]), psf_dim=st.sampled_from([2, 4, 8, 14]), df=st.sampled_from([80000.0, 1.28e6]), spread=st.sampled_from([0.1, 0.4, 1.0]), gone=st.sampled_from([0.0, 0.0, 0.3]), cut=st.sampled_from([0.1, 0.0, 0.2, 0.0, 0.1, 0.1, 0.0, 0.2, 0.1, 1.0]),
        qmin=st.sampled_from([0.0, 0.1, 0.4]), qmax=st.sampled_from([1.0, 0.9, 0.5]))), f_update, 400, 5000, rule="baselines, grid, kernel size, flags; non-trivial: some but not all visibilities excluded"),
]
SUBS.append(large(SUBS[0], 6, 80, n_tile=st.integers(60, 140), n_time=st.integers(1, 5), n_freq=st.integers(1, 4), dim=st.integers(100, 600).map(lambda x: 2 * x), elem=st.integers(100, 600).map(lambda x: 2 * x), n_pol=st.sampled_from([1, 2])))
SUBS.append(large(SUBS[0], 6, 60, name="times", n_tile=st.integers(4, 6), n_time=st.integers(100, 400)))
