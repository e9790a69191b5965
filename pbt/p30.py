"""P30 w-term deprojection, time averaging and Q/U mixing."""
from copy import deepcopy
from core import *
import synth
from PyFHD.calibration.calibrate import calibrate_qu_mixing
from PyFHD.pyfhd_tools.pyfhd_utils import reshape_and_average_in_time, simple_deproject_w_term


def f_wterm(c):
    r = rng(c["seed"])
    obs, par, vis, w = synth.toy(r, c["n_tile"], c["n_time"], c["n_freq"], c["n_pol"], df=c["df"])
    par["ww"] = r.normal(size=par["ww"].size) * c["wscale"]
    v0, p0 = vis.copy(), par["ww"].copy()
    d = c["dir"]
    got = call("simple_deproject_w_term", simple_deproject_w_term, obs, par, vis.copy(), d, LOG)
    want = v0.copy()
    for f in range(c["n_freq"]):
        for b in range(par["ww"].size):
            want[:, f, b] = v0[:, f, b] * np.exp(1j * d * obs["baseline_info"]["freq"][f] * p0[b])
    close(got, want, "deprojected visibilities", rtol=1e-9)
    equal(par["ww"], p0, "ww untouched")
    back = simple_deproject_w_term(obs, par, got.copy(), -d, LOG)
    close(back, v0, "projecting back", rtol=1e-9)
    return c["n_freq"] > 1 and par["ww"].size > 1


def f_average(c):
    r = rng(c["seed"])
    nf, nt, nb = c["n_freq"], c["n_time"], c["n_base"]
    v = r.normal(size=(nf, nt * nb)) + 1j * r.normal(size=(nf, nt * nb))
    w = r.choice([0.0, 0.5, 1.0], size=(nf, nt, nb))
    got = call("reshape_and_average_in_time", reshape_and_average_in_time, v.copy(), nf, nt, nb, w.copy())
    want = np.zeros((nf, nb), complex)
    for t in range(nt):
        want += v[:, t * nb : (t + 1) * nb] * w[:, t]
    close(got, want, "weighted time sum")
    return nt > 1 and nb > 1


def f_qu(c):
    r = rng(c["seed"])
    obs, _, _, w = synth.toy(r, c["n_tile"], c["n_time"], c["n_freq"], 4)
    nt, nb, nf = c["n_time"], obs["n_baselines"], c["n_freq"]
    w = r.choice([1.0, 0.7, 3.0, 0.0, -1.0], p=[0.6, 0.1, 0.1, 0.1, 0.1], size=w.shape)

    def field():
        return r.normal(size=(nf, nt * nb)) + 1j * r.normal(size=(nf, nt * nb))

    def build(phase, noise):
        u, i, v = field(), field(), field()
        q = c["amp"] * np.exp(1j * phase) * u + noise * field() + c["off"]
        return np.stack([i - q / 2, i + q / 2, u / 2 + v, u / 2 - v])

    pd, pm = c["pd"], c["pm"]
    data, model = build(pd, c["noise"]), build(pm, c["noise"])
    d0, m0, w0 = data.copy(), model.copy(), w.copy()
    got = call("calibrate_qu_mixing", calibrate_qu_mixing, data, model, w, obs)
    equal(data, d0, "data untouched")
    equal(model, m0, "model untouched")
    equal(w, w0, "weights untouched")
    wu = np.clip(w0[0], 0, 1)
    ph = []
    for a in (d0, m0):
        q, u = (a[1] - a[0]) * wu, (a[3] + a[2]) * wu
        s = lambda x: x.reshape(nf, nt, nb).sum(1)
        k = s(wu) > 0
        q, u = s(q)[k], s(u)[k]
        if u.size < 6:
            return False
        uc = u - u.mean()
        ph.append(np.angle((uc.conj() @ (q - q.mean())) / (uc.conj() @ uc)))
    check(abs(got - (ph[1] - ph[0])) < 1e-6, f"mixing angle {got}, expected {ph[1] - ph[0]}")
    if c["noise"] == 0 and c["off"] == 0:
        e = (got - (pm - pd) + np.pi) % (2 * np.pi) - np.pi
        check(abs(e) < 1e-6, f"mixing angle {got} for an injected rotation of {pm - pd}")
    return True, ["exact"] if c["noise"] == 0 and c["off"] == 0 else []


SUBS = [
    Sub("w_term", st.fixed_dictionaries(dict(seed=st.integers(0, 99999), n_tile=st.integers(2, 5), n_time=st.integers(1, 3), n_freq=st.integers(1, 6), n_pol=st.sampled_from([1, 2, 4]), df=st.sampled_from([8e4, 1.28e6]), wscale=st.sampled_from([1e-9, 1e-7]),
        dir=st.sampled_from([1.0, -1.0, 0.5, -2.5])), ), f_wterm, 150, 2000, rule="w coordinates and direction; non-trivial: >1 channel and baseline"),
    Sub("time_average", st.fixed_dictionaries(dict(seed=st.integers(0, 99999), n_time=st.integers(1, 6), n_freq=st.integers(1, 6), n_base=st.integers(1, 9))), f_average, 200, 3000, rule="non-trivial: >1 time and baseline"),
    Sub("qu_mixing", st.fixed_dictionaries(dict(seed=st.integers(0, 99999), n_tile=st.integers(3, 6), n_time=st.integers(1, 4), n_freq=st.integers(2, 6), amp=st.sampled_from([0.3, 1.0, 4.0]), off=st.sampled_from([0.0, 0.5]), noise=st.sampled_from([0.0, 0.1]),
        pd=st.floats(-1.4, 1.4), pm=st.floats(-1.4, 1.4))), f_qu, 200, 3000, rule="correlated Q and U fields; non-trivial: enough unflagged samples"),
]
SUBS.append(large(SUBS[0], 4, 60, n_tile=st.integers(60, 130)))
SUBS.append(large(SUBS[1], 4, 60, n_base=st.integers(5000, 9000), n_time=st.integers(5, 14)))
SUBS.append(large(SUBS[2], 4, 60, n_tile=st.integers(60, 110)))
SUBS.append(large(SUBS[0], 20, 200, name="times", n_time=st.integers(100, 300)))
SUBS.append(large(SUBS[1], 20, 200, name="times", n_time=st.integers(100, 400)))
SUBS.append(large(SUBS[2], 20, 200, name="times", n_time=st.integers(100, 300)))
