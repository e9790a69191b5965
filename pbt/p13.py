"""P13 outlier flagging of tiles, channels and times."""
from copy import deepcopy
from core import *
import synth
from PyFHD.flagging.flagging import vis_flag
from PyFHD.pyfhd_tools.pyfhd_utils import idl_median


def umed(x):
    return np.sort(x)[len(x) // 2]


class Border(Exception):
    pass


def gt(a, b):
    d = np.abs(a) - b
    if (np.abs(d) < 1e-9 * (1 + np.abs(b))).any() and np.any(np.abs(a) > 1e-12):
        raise Border
    return d > 0


def outliers(fom, first, second, smooth=0):
    """Two pass cut around the median (or the running median over channels)."""
    nz = fom != 0
    mid = np.zeros(fom.size)
    mid[nz] = idl_median(fom[nz], width=smooth) if smooth is not None else umed(fom[nz])
    dev = np.std(fom[nz] - mid[nz])
    keep = nz & ~gt(mid - fom, first * dev)
    mid2 = idl_median(fom, width=smooth) if smooth is not None else umed(fom[keep])
    dev2 = np.std((fom - mid2)[keep])
    return np.where(~nz | gt(mid2 - fom, second * dev2))[0]


def reference(v0, w0, obs, uv, ta, tb, tt, n, nt):
    """Weights after flagging, and the tiles, channels and times that are cut."""
    npol, nf = v0.shape[:2]
    want = w0.copy()
    want[:, :, (uv < obs["min_baseline"]) | (uv > obs["max_baseline"])] = 0
    amp = np.sqrt(sum(np.abs(v0[p]) ** 2 for p in range(min(npol, 2))))

    def spread(sel, positive=True):
        s = 0.0
        for p in range(min(npol, 2)):
            use = sel & (want[p] > 0)
            if positive:
                use &= amp > 0
            if use.sum() > 10:
                s += np.std(amp[use])
        return s

    ones = np.ones_like(amp, bool)
    nmax = n
    # an auto-correlation is listed twice, once per end
    tf = np.zeros(nmax)
    for t in range(nmax):
        idx = np.concatenate([np.where(ta == t)[0], np.where(tb == t)[0]])
        for p in range(min(npol, 2)):
            d = amp[:, idx][(want[p][:, idx] > 0) & (amp[:, idx] > 0)]
            if d.size > 10:
                tf[t] += np.std(d)
    ff = np.array([spread(ones & (np.arange(nf) == f)[:, None]) for f in range(nf)])
    if tf.any() and ff.any():
        tcut = outliers(tf, 6, 3, None)
        fcut = outliers(ff, 6, 3, nf // 20)
    else:  # nothing to compare with, no visibility is usable
        tcut, fcut = np.where(tf == 0)[0], np.where(ff == 0)[0]
        want[:] = 0
    for t in tcut:
        want[:, :, (ta == t) | (tb == t)] = 0
    want[:, fcut] = 0
    mf = np.array([spread(ones & (tt == t), positive=False) for t in range(nt)])
    mcut = outliers(mf, 6, 6, None) if mf.any() else np.arange(nt)
    want[:, :, np.isin(tt, mcut)] = 0
    return want, tcut, fcut, mcut


def f_flag(c):
    r = rng(c["seed"])
    n, nt, nf, npol = c["n_tile"], c["n_time"], c["n_freq"], c["n_pol"]
    obs, par, vis, w = synth.toy(r, n, nt, nf, npol)
    bi = obs["baseline_info"]
    ta, tb = bi["tile_a"] - 1, bi["tile_b"] - 1
    tt = np.repeat(np.arange(nt), obs["n_baselines"])
    for k in c["bad_t"]:
        t = k % n
        vis[:, :, (ta == t) | (tb == t)] *= c["amp"]
    for k, a in c.get("auto", []):  # only this tile's own auto-correlations
        vis[:, :, (ta == k % n) & (tb == k % n)] *= a
    for k, a in c.get("chan", []):
        vis[:, k % nf] *= a
    for k, a in c.get("step", []):
        vis[:, :, tt == k % nt] *= a
    for k in c["bad_f"]:
        vis[:, k % nf] *= c["amp"]
    for k in c["bad_time"]:
        vis[:, :, tt == k % nt] *= c["amp"]
    w = r.choice([1.0, 0.5, 0.0, -1.0], p=[0.8, 0.1, 0.05, 0.05], size=w.shape)
    for k in c["dead_t"]:
        w[:, :, (ta == k % n) | (tb == k % n)] = 0
    for k in c["dead_f"]:
        w[:, k % nf] = 0
    for k in c["dead_time"]:
        if nt > 2:
            w[:, :, tt == k % nt] = 0
    vis[:, r.random(vis.shape[1:]) < 0.03] = 0
    if c["missing"] and n > 3:
        gone = np.array({1: [1], 2: [n - 1], 3: [0, n - 1]}[c["missing"]])  # tiles without any baseline
        if n - gone.size < 3:
            gone = gone[-1:]
        k = ~(np.isin(ta, gone) | np.isin(tb, gone))
        vis, w, ta, tb, tt = vis[..., k], w[..., k], ta[k], tb[k], tt[k]
        bi["tile_a"], bi["tile_b"] = bi["tile_a"][k], bi["tile_b"][k]
        bi["bin_offset"] = np.arange(nt) * (k.sum() // nt)
        for q in ("uu", "vv", "ww"):
            par[q] = par[q][k]
    bi["tile_use"] = (r.random(n) < 0.9).astype(np.int64)
    bi["freq_use"] = (r.random(nf) < 0.9).astype(np.int64)
    uv = np.hypot(par["uu"], par["vv"]) * umed(bi["freq"])
    obs["min_baseline"], obs["max_baseline"] = float(np.quantile(uv, c["qmin"])) * 1.0001 + 1e-9, float(np.quantile(uv, c["qmax"])) * 1.0001 + 1e-9
    if c.get("zero"):  # auto-correlations are within the limits
        obs["min_baseline"] = 0.0
    if c.get("exact"):  # a baseline exactly as long as a limit is kept
        j = np.arange(uv.size) % (uv.size // nt) == r.integers(0, uv.size // nt)
        q = 2.0 ** np.floor(np.log2(np.median(uv) / umed(bi["freq"]) / 5))
        par["uu"][j], par["vv"][j] = 3 * q, -4 * q
        uv = np.hypot(par["uu"], par["vv"]) * umed(bi["freq"])
        obs[c["exact"]] = 5 * q * umed(bi["freq"])
    v0, w0, o0 = vis.copy(), w.copy(), deepcopy(obs)

    try:
        want, tcut, fcut, mcut = reference(v0, w0, obs, uv, ta, tb, tt, n, nt)
    except Border:
        return False

    got, obs2 = call("vis_flag", vis_flag, vis, w, obs, par, LOG)
    equal(vis, v0, "flagging leaves visibilities alone")
    check((got[w0 <= 0] <= 0).all() and (np.abs(got) <= np.abs(w0)).all(), "flagging never brings weights back")
    what = f"(tiles {tcut.tolist()}, channels {fcut.tolist()}, times {mcut.tolist()})"
    equal(obs2["baseline_info"]["tile_use"], np.where(np.isin(np.arange(n), tcut), 0, o0["baseline_info"]["tile_use"]), "tile_use " + what)
    equal(obs2["baseline_info"]["freq_use"], np.where(np.isin(np.arange(nf), fcut), 0, o0["baseline_info"]["freq_use"]), "freq_use " + what)
    equal(got, want, "weights " + what)
    check(obs2["n_vis"] == (want[0] > 0).sum(), "n_vis")
    lb = (["exactly at the limit"] if c.get("exact") else [])
    lb += [x for x, y in (("tile outlier", tcut), ("channel outlier", fcut), ("time outlier", mcut)) if len(y)]
    lb += ["nothing left"] if not (want > 0).any() else []
    return bool(len(tcut) + len(fcut) + len(mcut)), lb


def f_edge(c):
    """One tile, channel or time strays further and further: it is cut exactly where the rule says, from above and from below."""
    r = rng(c["seed"])
    k = c["knob"]
    n, nt, nf = (int(r.integers(40, 60)) if k == "tile" else 5), (int(r.integers(40, 60)) if k == "time" else 1), (int(r.choice([45, 100, 140])) if k == "freq" else 5)
    obs, par, vis0, w0 = synth.toy(r, n, nt, nf, c["n_pol"])
    bi = obs["baseline_info"]
    ta, tb = bi["tile_a"] - 1, bi["tile_b"] - 1
    tt = np.repeat(np.arange(nt), obs["n_baselines"])
    w0 = r.choice([1.0, 0.5, 0.0, -1.0], p=[0.85, 0.05, 0.05, 0.05], size=w0.shape)
    size = dict(tile=n, time=nt, freq=nf)[k]
    pick = lambda i: (slice(None), slice(None), (ta == i) & (tb == i)) if k == "tile" else (slice(None), slice(None), tt == i) if k == "time" else (slice(None), i)
    whole = lambda i: (slice(None), slice(None), (ta == i) | (tb == i)) if k == "tile" else pick(i)
    order = r.permutation(size)
    for i, a in zip(order[1:], c["others"]):  # what the first pass drops changes the second
        vis0[pick(i)] *= a
    for i in order[4 : 4 + c["many"]]:  # these are cut or not by what the others left of the spread
        vis0[pick(i)] *= r.uniform(1, 6 if k == "tile" else 2)
    for i in order[-c["dead"] :] if c["dead"] else []:
        w0[whole(i)] = 0
    obs["min_baseline"], obs["max_baseline"] = 0.0, 1e9
    uv = np.hypot(par["uu"], par["vv"]) * umed(bi["freq"])

    def at(s):
        v = vis0.copy()
        v[whole(order[0]) if c["whole"] else pick(order[0])] *= 10 ** (c["way"] * 2 * s)
        return v

    def ref(s):
        try:
            return reference(at(s), w0, obs, uv, ta, tb, tt, n, nt)
        except Border:
            return None

    same = lambda u, v: all(np.array_equal(x, y) for x, y in zip(u[1:], v[1:]))
    grid = [i / 12 for i in range(13)]
    at12 = [ref(q) for q in grid]
    steps = [i for i in range(12) if at12[i] and at12[i + 1] and not same(at12[i], at12[i + 1])]
    if not steps:
        return False
    i = steps[r.integers(len(steps))]
    (lo, hi), (a, b) = grid[i : i + 2], at12[i : i + 2]
    for _ in range(c["depth"]):
        m = (lo + hi) / 2
        q = ref(m)
        if q is None:
            break
        if same(q, a):
            lo = m
        else:
            hi, b = m, q
    for s, (want, tcut, fcut, mcut) in ((lo, a), (hi, b)):
        got, obs2 = call("vis_flag", vis_flag, at(s), w0.copy(), deepcopy(obs), par, LOG)
        side = "above" if s == hi else "below"
        want = ref(s)[0]
        equal(obs2["baseline_info"]["tile_use"], (~np.isin(np.arange(n), tcut)).astype(int), f"tile_use just {side} the threshold")
        equal(obs2["baseline_info"]["freq_use"], (~np.isin(np.arange(nf), fcut)).astype(int), f"freq_use just {side} the threshold")
        equal(got, want, f"weights just {side} the threshold")
    return True, [k, "from below" if c["way"] < 0 else "from above"]


none = st.just([])
amps = st.lists(st.tuples(st.integers(0, 199), st.sampled_from([2.0, 3.0, 5.0, 10.0, 30.0, 300.0, 3000.0])), min_size=1, max_size=3)
small = st.lists(st.integers(0, 99), max_size=2)
SUBS = [
    Sub("outliers", st.fixed_dictionaries(dict(seed=st.integers(0, 99999), n_tile=st.integers(3, 16), n_time=st.integers(1, 5), n_freq=st.sampled_from([4, 12, 24, 45, 70, 100]), n_pol=st.sampled_from([1, 2, 4]), amp=st.sampled_from([2.0, 5.0, 40.0]),
        bad_t=small, bad_f=small, bad_time=small, dead_t=small, dead_f=small, dead_time=small, missing=st.sampled_from([0, 0, 1, 2, 3]), qmin=st.sampled_from([0.0, 0.2]), qmax=st.sampled_from([1.0, 0.8]), zero=st.booleans(), exact=st.sampled_from(["", "", "min_baseline", "max_baseline"]))),
        f_flag, 400, 4000, rule="data with outlying/dead tiles, channels, times; non-trivial: something is flagged"),
    Sub("many", st.sampled_from(["tile", "time", "freq"]).flatmap(lambda k: st.fixed_dictionaries(dict(seed=st.integers(0, 99999), n_tile=st.integers(40, 60) if k == "tile" else st.integers(4, 6), n_time=st.integers(40, 60) if k == "time" else st.just(1),
        n_freq=st.sampled_from([100, 140, 200]) if k == "freq" else st.integers(4, 6), n_pol=st.sampled_from([1, 2, 4]), auto=amps if k == "tile" else st.just([]), step=amps if k == "time" else st.just([]), chan=amps if k == "freq" else st.just([]),
        bad_t=none, bad_f=none, bad_time=none, dead_t=none, dead_f=none, dead_time=small if k == "time" else none, missing=st.just(0), zero=st.just(True), qmin=st.just(0.0), qmax=st.just(1.0)))),
        f_flag, 300, 3000, rule="enough tiles, times or channels that a violent outlier hides moderate ones in the first pass; non-trivial: something is flagged"),
]
SUBS.append(large(SUBS[0], 4, 60, n_tile=st.integers(100, 140), n_time=st.integers(1, 4), n_freq=st.sampled_from([12, 24])))
SUBS.append(large(SUBS[0], 20, 200, name="times", n_tile=st.integers(4, 7), n_time=st.integers(100, 400), n_freq=st.sampled_from([4, 12])))
SUBS.append(Sub("edge", st.fixed_dictionaries(dict(seed=st.integers(0, 99999), knob=st.sampled_from(["tile", "tile", "time", "freq"]), n_pol=st.sampled_from([1, 2, 4]), others=st.lists(st.sampled_from([3.0, 10.0, 100.0, 0.1, 0.01]), max_size=3), dead=st.sampled_from([0, 0, 1, 3]), many=st.sampled_from([0, 4, 12]), whole=st.booleans(),
    way=st.sampled_from([-1, 1]), depth=st.integers(8, 20))), f_edge, 160, 1000, rule="the strength of one outlier bisected to where the reference's decision changes; non-trivial: both sides of a threshold were run"))
