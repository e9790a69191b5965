"""P21 flagging on the calibration solutions."""
from copy import deepcopy
from core import *
import synth
from PyFHD.calibration.calibration_utils import vis_calibration_flag
from p19 import lsq, unwrap



def f_flag(c):
    r = rng(c["seed"])
    n, nf, nc = c["n_tile"], c["n_freq"], c["n_pol"]
    obs, par, vis, w = synth.toy(r, 2, 1, nf, nc)
    obs["n_tile"] = n
    bi = obs["baseline_info"]
    ff, ft = r.random(nf) < c["f_freq"], r.random(n) < c["f_tile"]
    bi["freq_use"], bi["tile_use"] = (~ff).astype(np.int64), (~ft).astype(np.int64)
    x = np.arange(nf) / nf
    amp = np.exp(0.05 * r.uniform(-1, 1, (nc, 1, n))) * (1 + 0.1 * r.uniform(-1, 1, (nc, 1, n)) * x[None, :, None])
    amp = amp * (1 + 0.01 * r.uniform(-1, 1, (nc, nf, n)))
    ph = r.uniform(-3, 3, (nc, 1, n)) + r.uniform(-1, 1, (nc, 1, n)) * x[None, :, None] + 0.02 * r.uniform(-1, 1, (nc, nf, n))
    ph *= np.where(r.random((1, 1, n)) < 0.5, 1, -1)
    T, F = np.flatnonzero(~ft), np.flatnonzero(~ff)
    if T.size < 4 or F.size < max(c["deg"]) + 3:
        return False
    planted_t, planted_f = set(), set()
    pick = lambda s, k: [int(v) for v in r.permutation(s)[:k]]
    bad = pick(T, 6)
    p0 = int(r.integers(nc))
    for kind, t in zip(c["plant"], bad):
        planted_t.add(t)
        if kind == "loud":
            amp[p0, :, t] *= r.uniform(3, 6)
        elif kind == "faint":
            amp[p0, :, t] /= r.uniform(3, 6)
        elif kind == "noisy":
            amp[p0, :, t] *= 1 + r.choice([-0.3, 0.3], nf)
        elif kind == "violent":
            amp[p0, :, t] *= 1 + r.choice([-0.9, 0.9], nf)
        elif kind == "mild":
            amp[p0, :, t] *= 1 + r.choice([-0.05, 0.05], nf)
        elif kind == "slope":
            ph[p0, :, t] += r.choice([-1, 1]) * 0.5 * nf * x  # 0.5 rad per channel
        elif kind == "jitter":
            ph[p0, :, t] += 0.9 * r.choice([-1, 1], nf)
        elif kind == "constant":
            amp[p0, :, t] = 0.0
    for a, f in zip(c["bad_freq"], r.permutation(F)):
        planted_f.add(int(f))
        amp[p0, f] *= np.exp(r.choice([-a, a], n))
    dead = r.permutation(F)[: c["dead"]]
    amp[p0, dead] = 0  # no solution of these channels
    if c["shoulder"]:  # many tiles about a factor of two off
        some = r.permutation(T)[: max(2, T.size // 3)]
        amp[p0][:, some] *= r.choice([2, 0.5]) * np.exp(r.uniform(-0.1, 0.1, some.size))
    g = amp * np.exp(1j * ph)
    g[:, :, ft] = np.nan
    cal = dict(gain=g.copy(), n_pol=nc)
    cfg = dict(cal_amp_degree_fit=c["deg"][0], cal_phase_degree_fit=c["deg"][1], flag_calibration_frequencies=c["freqs"])
    o0 = deepcopy(obs)
    out = call("vis_calibration_flag", vis_calibration_flag, obs, cal, cfg, LOG)
    equal(cal["gain"], g, "the gains are left alone")
    tile, freq = out["baseline_info"]["tile_use"], out["baseline_info"]["freq_use"]
    check(not ((tile > 0) & ft).any(), "a flagged tile came back")
    check(not ((freq > 0) & ff).any(), "a flagged channel came back")
    if not c["freqs"]:
        equal(freq, o0["baseline_info"]["freq_use"], "channels are left alone without flag_calibration_frequencies")
    want_t, want_f, sure = oracle(g, o0["baseline_info"]["tile_use"] > 0, o0["baseline_info"]["freq_use"] > 0, *c["deg"])
    if not sure:
        return False
    equal(tile > 0, want_t, "tiles used after calibration flagging")
    if c["freqs"]:
        equal(freq > 0, want_f, "channels used after calibration flagging")
        check(not freq[dead].any(), "a channel without gains is still used")
    # the obvious outliers are among them
    for kind, t in zip(c["plant"], bad):
        if kind in ("loud", "faint", "constant") and not c["shoulder"] and T.size >= 5 * len(c["plant"]):
            check(tile[t] == 0, f"a {kind} tile is still used")
    quiet = not c["shoulder"] and not planted_t and not planted_f and not dead.size
    if quiet:
        check((tile > 0).sum() >= T.size - 1, f"{T.size - (tile > 0).sum()} tiles flagged without outliers")
    same = {k: v for k, v in out["baseline_info"].items() if k not in ("tile_use", "freq_use")}
    for k, v in same.items():
        equal(v, o0["baseline_info"][k], f"baseline_info {k} untouched")
    return bool(planted_t or planted_f or dead.size or T.size >= 34), (["few"] if min(T.size, F.size) < 27 else []) + list(c["plant"]) + (["channel"] if planted_f else []) + (["several channels"] if len(planted_f) > 1 else []) + (["quiet"] if quiet else []) + (["dead channels"] if dead.size else [])


def oracle(g, tile, freq, da=2, dp=1):
    """Straight reading of the documented tests; `sure` is False when a threshold is met within rounding."""
    tile, freq = tile.copy(), freq.copy()
    sure = True

    def far(v):
        nonlocal sure
        v = np.asarray(v)
        v = v[np.isfinite(v)]
        if v.size and np.abs(v).min() < 1e-9:
            sure = False

    for p in range(g.shape[0]):
        T, F = np.flatnonzero(tile), np.flatnonzero(freq)
        if F.size < max(da, dp) + 2:  # the fits go through all that is left
            return tile, freq, False
        sub = np.abs(g[p])[np.ix_(F, T)]
        ffom = np.array([np.sqrt(np.mean((row - row.mean()) ** 2)) for row in sub])
        tfom, tavg = np.zeros(T.size), np.median(sub, 0)
        for k in range(T.size):
            res = sub[:, k] - lsq(F, sub[:, k], da)(F)
            tfom[k] = np.sqrt(np.mean((res - res.mean()) ** 2))
        dead_t = tfom < 1e-13
        tile[T[dead_t]] = False
        dead_f = ffom < 1e-13
        freq[F[dead_f]] = False
        okf, okt = ~dead_f, ~dead_t
        ncut, more, it = int(dead_f.sum() + dead_t.sum()), 1, 0
        while more > 0 and it < 3:
            lf = ffom - np.median(ffom[okf]) - 5 * ffom[okf].std()
            lt = tfom - np.median(tfom[okt]) - 5 * tfom[okt].std()
            m = np.median(tavg)
            far(lf), far(lt), far((tavg - m / 2) / m), far((tavg - 2 * m) / m)
            cf, ct = lf > 0, (lt > 0) | (tavg < m / 2) | (tavg > 2 * m)
            okf, okt = okf & ~cf, okt & ~ct
            more = int(cf.sum() + ct.sum()) - ncut
            ncut = int(cf.sum() + ct.sum())
            it += 1
        freq[F[cf]] = False
        tile[T[ct]] = False
        T, F = np.flatnonzero(tile), np.flatnonzero(freq)
        if not T.size or not F.size:
            continue
        if F.size < dp + 2:
            return tile, freq, False
        sl, sg = np.zeros(T.size), np.zeros(T.size)
        for k, t in enumerate(T):
            raw = np.angle(g[p, F, t])
            d = np.abs(np.abs(np.diff(raw)) - np.pi)
            if d.size and d.min() < 1e-9:
                sure = False
            h = unwrap(raw)
            fit = lsq(F, h, dp)
            sl[k] = np.polynomial.Polynomial.fit(F, h, dp).convert(domain=[-1, 1], window=[-1, 1]).deriv()(0.0) if dp > 1 else fit([1.0])[0] - fit([0.0])[0]
            res = h - fit(F)
            sg[k] = np.sqrt(np.mean((res - res.mean()) ** 2))
        t1 = np.abs(sl) - np.median(np.abs(sl)) - 5 * sl.std()
        t2 = sg - np.median(sg) - 5 * sg.std()
        far(t1), far(t2)
        tile[T[(t1 > 0) | (t2 > 0)]] = False
    return tile, freq, sure


def f_nothing(c):
    """Gains, tiles or channels of which nothing is left."""
    r = rng(c["seed"])
    n, nf, nc = c["n_tile"], c["n_freq"], c["n_pol"]
    obs, par, vis, w = synth.toy(r, 2, 1, nf, nc)
    obs["n_tile"] = n
    bi = obs["baseline_info"]
    bi["freq_use"], bi["tile_use"] = r.integers(0, 2, nf), r.integers(0, 2, n)
    g = r.uniform(0.5, 2, (nc, nf, n)) * np.exp(1j * r.uniform(-3, 3, (nc, nf, n)))
    if c["what"] == "tiles":
        bi["tile_use"][:] = 0
    elif c["what"] == "channels":
        bi["freq_use"][:] = 0
    elif c["what"] == "one tile":
        bi["tile_use"][:] = 0
        bi["tile_use"][r.integers(n)] = 1
    else:
        g[r.integers(nc) if c["part"] else slice(None)] = dict(zero=0.0, same=1.0, undefined=np.nan)[c["what"]]
    o0 = deepcopy(obs)
    out = call("vis_calibration_flag", vis_calibration_flag, obs, dict(gain=g.copy(), n_pol=nc), dict(cal_amp_degree_fit=2, cal_phase_degree_fit=1, flag_calibration_frequencies=c["freqs"]), LOG)["baseline_info"]
    for k in ("tile_use", "freq_use"):
        check(not ((out[k] > 0) & (o0["baseline_info"][k] == 0)).any(), f"{k}: something flagged came back")
    if c["what"] in ("zero", "undefined") and not c["part"] and o0["baseline_info"]["freq_use"].any():
        check(not out["tile_use"].any(), "a tile without gains is still used")
    if not c["freqs"]:
        equal(out["freq_use"], o0["baseline_info"]["freq_use"], "channels are left alone without flag_calibration_frequencies")
    return True, [c["what"]]


def f_edge(c):
    """One tile or channel strays further and further: it is dropped exactly where the tests say, not before and not after."""
    r = rng(c["seed"])
    n, nf, nc = c["n_tile"], c["n_freq"], c["n_pol"]
    obs, par, vis, w = synth.toy(r, 2, 1, nf, nc)
    obs["n_tile"] = n
    bi = obs["baseline_info"]
    ff, ft = r.random(nf) < c["f"], r.random(n) < c["f"]
    bi["freq_use"], bi["tile_use"] = (~ff).astype(np.int64), (~ft).astype(np.int64)
    T, F = np.flatnonzero(~ft), np.flatnonzero(~ff)
    if min(T.size, F.size) < 8:
        return False
    x = np.arange(nf) / nf
    amp0 = np.exp(0.1 * r.uniform(-1, 1, (nc, 1, n))) * (1 + 0.01 * r.uniform(-1, 1, (nc, nf, n)) * np.exp(0.5 * r.normal(size=(1, 1, n))))
    sign = np.where(r.random(n) < c["up"], 1, -1)
    ph0 = r.uniform(-3, 3, (nc, 1, n)) + sign * r.uniform(*c["slopes"], (nc, 1, n)) * x[None, :, None] + 0.02 * r.uniform(-1, 1, (nc, nf, n))
    for t, k in zip(r.permutation(T), c["others"]):  # what the first round drops changes what the next one compares with
        amp0[:, :, t] *= 1 + k * r.choice([-1, 1], nf)
    t, f, p = int(r.choice(T)), int(r.choice(F)), int(r.integers(nc))
    way, wave = r.choice([-1, 1]), r.choice([-1, 1], nf)
    many = r.choice([-1, 1], n)

    def gains(s):
        amp, ph = amp0.copy(), ph0.copy()
        if c["knob"] == "level":
            amp[p, :, t] *= np.exp(way * 2 * s)
        elif c["knob"] == "noise":
            amp[p, :, t] *= 1 + 0.6 * s * wave
        elif c["knob"] == "slope":
            ph[p, :, t] += way * 10 * s * x
        elif c["knob"] == "jitter":
            ph[p, :, t] += s * wave
        else:
            amp[p, f] *= np.exp(s * many)
        g = amp * np.exp(1j * ph)
        g[:, :, ft] = np.nan
        return g

    ref = lambda s: oracle(gains(s), ~ft, ~ff, *c["deg"])
    lo, hi = 0.0, 1.0
    a, b = ref(lo), ref(hi)
    same = lambda u, v: np.array_equal(u[0], v[0]) and np.array_equal(u[1], v[1])
    if same(a, b):
        return False
    for _ in range(c["depth"]):
        m = (lo + hi) / 2
        q = ref(m)
        if same(q, a):
            lo = m
        else:
            hi, b = m, q
    done = 0
    for s, (want_t, want_f, sure) in ((lo, ref(lo)), (hi, ref(hi))):
        if not sure:
            continue
        g = gains(s)
        cfg = dict(cal_amp_degree_fit=c["deg"][0], cal_phase_degree_fit=c["deg"][1], flag_calibration_frequencies=True)
        out = call("vis_calibration_flag", vis_calibration_flag, deepcopy(obs), dict(gain=g, n_pol=nc), cfg, LOG)["baseline_info"]
        equal(out["tile_use"] > 0, want_t, f"tiles used, {c['knob']} of tile {t} at {s:.4f}")
        equal(out["freq_use"] > 0, want_f, f"channels used, {c['knob']} at {s:.4f}")
        done += 1
    return done == 2, [c["knob"]]


size = st.sampled_from([40, 40, 40, 8]).flatmap(lambda n: st.integers(n - 4, n * 3 // 2))
C = st.fixed_dictionaries(dict(seed=st.integers(0, 2**32 - 1), n_tile=size, n_freq=size, deg=st.sampled_from([(2, 1), (2, 1), (1, 1), (3, 1), (2, 2), (1, 3)]), n_pol=st.sampled_from([1, 2]), f_freq=st.sampled_from([0, 0.1, 0.2]), f_tile=st.sampled_from([0, 0.1, 0.2]),
    plant=st.lists(st.sampled_from(["loud", "faint", "noisy", "violent", "mild", "slope", "jitter", "constant"]), max_size=3) | st.sampled_from([["violent", "noisy", "mild"], ["mild", "violent", "noisy", "mild"], ["noisy", "mild"]]),
    bad_freq=st.lists(st.sampled_from([0.05, 0.1, 0.2, 1.0]), max_size=3) | st.just([0.05, 0.2, 1.0]), freqs=st.booleans(), dead=st.sampled_from([0, 0, 0, 1, 2]), shoulder=st.sampled_from([False, False, True])))

SUBS = [
    Sub("flag", C, f_flag, 200, 4000, rule="no test met within rounding"),
    Sub("nothing", st.fixed_dictionaries(dict(seed=st.integers(0, 2**32 - 1), n_tile=st.integers(1, 8), n_freq=st.integers(4, 12), n_pol=st.sampled_from([1, 2]), what=st.sampled_from(["tiles", "channels", "one tile", "zero", "same", "undefined"]), part=st.booleans(), freqs=st.booleans())), f_nothing, 200, 4000, rule="gains, tiles or channels of which nothing is left to compare"),
]
def edge_case(k):
    r = rng(k)
    some = lambda v: v[int(r.integers(len(v)))]
    return dict(seed=k, n_tile=int(r.integers(30, 60)), n_freq=int(r.integers(30, 50)), deg=some([(2, 1), (2, 1), (1, 1), (3, 2)]), n_pol=some([1, 2]), f=some([0, 0.1]), up=some([0.5, 0.9, 1]), slopes=some([(-1, 1), (0.5, 1), (0.9, 1)]),
        others=some([[], [0.3], [0.5, 0.2], [0.05, 0.2], [0.1, 0.1], [0.6], [0.8, 0.3]]), knob=some(["level", "noise", "slope", "slope", "jitter", "channel"]), depth=int(r.integers(6, 16)))


SUBS.append(Sub("edge", st.integers(0, 10**6).map(edge_case), f_edge, 80, 1500,
    rule="one tile or channel on either side of the threshold at which the reference first drops something else"))
SUBS.append(large(SUBS[0], 4, 60, n_tile=st.integers(100, 140), n_freq=st.integers(100, 400)))
