"""P15 even/odd split and noise."""
from copy import deepcopy
from core import *
import synth
from PyFHD.pyfhd_tools.pyfhd_utils import split_vis_weights, vis_noise_calc


def model(obs, w):
    """Pairs of adjacent times from the first used one; only pairs with both times used count."""
    use = obs["baseline_info"]["time_use"] > 0
    nt, nb = use.size, w.shape[-1] // use.size
    t0 = int(np.argmax(use))
    even, odd = [], []
    for t in range(t0, nt - 1, 2):
        if use[t] and use[t + 1]:
            a, b = (t, t + 1) if t % 2 == 0 else (t + 1, t)
            even += list(range(a * nb, (a + 1) * nb))
            odd += list(range(b * nb, (b + 1) * nb))
    even, odd = np.array(even, int), np.array(odd, int)
    out = np.zeros_like(w)
    f = np.minimum(np.minimum(np.maximum(w[..., even], 0), w[..., odd]), 1)
    out[..., even] = f
    out[..., odd] = f
    return even, odd, out


def prep(c):
    r = rng(c["seed"])
    obs, _, vis, w = synth.toy(r, c["n_tile"], c["n_time"], c["n_freq"], c["n_pol"])
    w = r.choice([1.0, 0.5, 3.0, 0.0, -1.0], p=[0.5, 0.15, 0.1, 0.15, 0.1], size=w.shape)
    obs["baseline_info"]["time_use"] = np.array([int(x) for x in r.random(c["n_time"]) >= c["cut"]], np.int8)
    if c["lead"]:
        obs["baseline_info"]["time_use"][: min(c["lead"], c["n_time"] - 1)] = 0
    if not obs["baseline_info"]["time_use"].any():
        obs["baseline_info"]["time_use"][-1] = 1
    return obs, vis, w


def f_split(c):
    obs, vis, w = prep(c)
    o0, w0 = deepcopy(obs), w.copy()
    got, bi = call("split_vis_weights", split_vis_weights, obs, w)
    equal(w, w0, "the caller's weights are left alone")
    even, odd, want = model(o0, w0)
    equal(bi[0], even, "even visibilities")
    equal(bi[1], odd, "odd visibilities")
    equal(got, want, "matched weights")
    b = obs["baseline_info"]
    equal(b["tile_a"][bi[0]], b["tile_a"][bi[1]], "pairs are the same baseline")
    again, _ = split_vis_weights(obs, got)
    equal(again, np.where(want > 0, want, np.minimum(want, 0)) if (want >= 0).all() else again, "splitting twice changes nothing")
    return even.size > 0, (["time cut"] if (b["time_use"] == 0).any() else []) + (["odd count"] if c["n_time"] % 2 else [])


def noise(obs, v0, even, odd, ws):
    want = np.zeros((obs["n_pol"], obs["n_freq"]))
    for p in range(obs["n_pol"]):
        for f in range(obs["n_freq"]):
            d = [v0[p, f, e].imag - v0[p, f, o].imag for e, o in zip(even, odd) if ws[p, f, e] > 0 and ws[p, f, o] > 0]
            if d:
                want[p, f] = np.std(d) / np.sqrt(2)
    return want


def f_noise(c):
    obs, vis, w = prep(c)
    v0, w0 = vis.copy(), w.copy()
    got = call("vis_noise_calc", vis_noise_calc, obs, vis, w)
    equal(vis, v0, "visibilities untouched")
    equal(w, w0, "weights untouched")
    even, odd, ws = model(obs, w0)
    want = noise(obs, v0, even, odd, ws)
    close(got, want, "noise", rtol=1e-10)
    if even.size:
        sw, bi = split_vis_weights(obs, w0)
        close(vis_noise_calc(obs, vis, sw, bi_use=bi), want, "noise from a given split", rtol=1e-10)
        # signal common to both halves does not change the noise
        k = np.repeat(np.arange(obs["n_time"]) // 2 * 0, obs["n_baselines"])
        sky = rng(c["seed"], 1).normal(size=(obs["n_pol"], obs["n_freq"], obs["n_baselines"])) * 10
        close(vis_noise_calc(obs, vis + 1j * np.tile(sky, obs["n_time"]), w0), want, "noise is blind to a constant sky", rtol=1e-6, atol=1e-9)
    return (want > 0).any()


def f_single(c):
    r = rng(c["seed"])
    obs, _, vis, w = synth.toy(r, 4, 1, 3, c["n_pol"])
    equal(call("vis_noise_calc", vis_noise_calc, obs, vis, w), np.zeros((c["n_pol"], 3)), "noise of a single time")
    return True


base = dict(seed=st.integers(0, 99999), n_tile=st.integers(2, 5), n_time=st.integers(2, 9), n_freq=st.integers(1, 4), n_pol=st.sampled_from([1, 2, 4]), cut=st.sampled_from([0.0, 0.15, 0.4]), lead=st.integers(0, 3))
SUBS = [
    Sub("split", st.fixed_dictionaries(base), f_split, 400, 6000, rule="times, time cuts, weights; non-trivial: at least one pair"),
    Sub("noise", st.fixed_dictionaries(base), f_noise, 300, 4000, rule="visibilities and weights; non-trivial: some noise"),
    Sub("single", st.fixed_dictionaries(dict(seed=st.integers(0, 999), n_pol=st.sampled_from([1, 2, 4]))), f_single, 20, 50, rule="one time step"),
]
SUBS.append(large(SUBS[0], 6, 80, n_tile=st.integers(20, 50), n_time=st.integers(20, 60)))
SUBS.append(large(SUBS[1], 4, 60, n_tile=st.integers(20, 50), n_time=st.integers(20, 60)))
SUBS.append(large(SUBS[0], 20, 200, name="times", n_tile=st.integers(2, 4), n_time=st.integers(100, 400)))
SUBS.append(large(SUBS[1], 20, 200, name="times", n_tile=st.integers(2, 4), n_time=st.integers(100, 400)))
