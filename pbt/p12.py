"""P12 basic and manual tile flagging."""
from copy import deepcopy
from core import *
import synth
from PyFHD.flagging.flagging import vis_flag_basic, vis_flag_tiles


def f_tiles(c):
    r = rng(c["seed"])
    obs, _, _, w = synth.toy(r, c["n_tile"], c["n_time"], c["n_freq"], c["n_pol"])
    bi = obs["baseline_info"]
    n = c["n_tile"]
    names = r.permutation(900)[:n] + 1
    kind = c["kind"]
    if kind == "int":
        bi["tile_names"] = names
    elif kind == "str":
        bi["tile_names"] = np.array([f"Tile{i:03d}" for i in names])
    else:
        bi["tile_names"] = np.array([f"{i}  " for i in names])
    drop = r.random(n) < c["gone"]  # tiles that have no baselines
    keep = ~(drop[bi["tile_a"] - 1] | drop[bi["tile_b"] - 1])
    if not keep.any():
        return False
    bi["tile_a"], bi["tile_b"], w = bi["tile_a"][keep], bi["tile_b"][keep], w[..., keep]
    w = r.uniform(-1, 2, w.shape)
    sel = [int(i) % n for i in c["sel"]]
    flags = []
    for i in sel:
        t = bi["tile_names"][i]
        s = str(t)
        flags.append({0: s, 1: " " + s.strip() + " ", 2: t if kind == "int" else s}[c["form"]])
    flags += ["nope", "Tile", "0"][: c["unknown"]]
    orig = w.copy()
    got = call("vis_flag_tiles", vis_flag_tiles, obs, w.copy(), flags, LOG)
    cut = np.isin(bi["tile_a"] - 1, sel) | np.isin(bi["tile_b"] - 1, sel)
    want = orig.copy()
    want[:, :, cut] = 0
    equal(got, want, f"weights with tiles {flags} flagged")
    return cut.any() and not cut.all(), [kind] + (["tile without baselines"] if drop[sel].any() else [])


def f_basic(c):
    r = rng(c["seed"])
    nf = c["n_freq"]
    obs, _, vis, w = synth.toy(r, c["n_tile"], c["n_time"], nf, c["n_pol"], df=1.28e6 * 24 / nf)
    bi = obs["baseline_info"]
    npol, nt, n = c["n_pol"], c["n_time"], c["n_tile"]
    w *= r.choice([1.0, 8.0], size=w.shape)
    if c["neg"]:
        w[:, r.random(w.shape[1:]) < 0.2] *= -1
    dead_f = np.where(r.random(nf) < c["deadf"])[0]
    w[:, dead_f] = 0
    dead_t = r.random(n) < c["deadt"]
    w[:, :, dead_t[bi["tile_a"] - 1] | dead_t[bi["tile_b"] - 1]] *= -1 if c["neg"] else 0
    if c["polonly"] and npol > 1:  # without data in one polarization only
        p, t = r.integers(0, npol), r.integers(0, n)
        if c["polonly"] in (1, 3):
            w[p, r.integers(0, nf)] = 0
        if c["polonly"] in (2, 3):
            w[p][:, (bi["tile_a"] - 1 == t) | (bi["tile_b"] - 1 == t)] = 0
    if c["few"]:  # one usable channel, or one usable baseline
        if c["few"] in (1, 3):
            i = r.integers(1, nf - 1)
            w[:, np.arange(nf) != i] = 0
        if c["few"] in (2, 3):
            w[:, :, np.arange(w.shape[-1]) != r.integers(0, w.shape[-1])] = 0
    vis[:, r.random(vis.shape[1:]) < c["zerodata"]] = 0
    bi["tile_use"] = (r.random(n) < 0.8).astype(np.int64)
    bi["freq_use"] = (r.random(nf) < 0.8).astype(np.int64)
    bi["time_use"] = (r.random(nt) >= c["cutt"]).astype(np.int8)
    f = bi["freq"] / 1e6
    pick = lambda x: float(f[x]) if isinstance(x, int) else float(f[int(x * (nf - 1))])
    cfg = dict(flag_freq_start=None, flag_freq_end=None, flag_tiles=[], flag_frequencies=c["ff"])
    if c["start"] is not None:
        cfg["flag_freq_start"] = pick(c["start"]) + c["nudge"]
    if c["end"] is not None:
        cfg["flag_freq_end"] = pick(c["end"]) + c["nudge"]
    man = [int(i) % n for i in c["man"]]
    cfg["flag_tiles"] = [str(bi["tile_names"][i]) for i in man]
    o0, w0, v0 = deepcopy(obs), w.copy(), vis.copy()
    got, obs2 = call("vis_flag_basic", vis_flag_basic, w, vis, obs, cfg, LOG)
    equal(vis, v0, "visibilities untouched by flagging")
    want = w0.copy()
    if cfg["flag_freq_start"]:
        want[:, f < cfg["flag_freq_start"]] = 0
    if cfg["flag_freq_end"]:
        want[:, f > cfg["flag_freq_end"]] = 0
    ta, tb = bi["tile_a"] - 1, bi["tile_b"] - 1
    want[:, :, np.isin(ta, man) | np.isin(tb, man)] = 0
    if c["ff"]:
        cw = max(nf // 24, 1)
        e = -(-2 * nf // 768)
        for i in range(nf):
            if min(i % cw, cw - 1 - i % cw) < e:
                want[:, i] = 0
    ok_f, ok_t = np.ones(nf, bool), np.ones(n, bool)
    for p in range(npol):
        ok_f &= (want[p] > 0).any(axis=1)
        used = (want[p] > 0).any(axis=0)
        ok_t &= np.array([used[(ta == t) | (tb == t)].any() for t in range(n)])
    if not c["ff"]:
        if not ok_f.all():
            for p in range(npol):
                used = (want[p] > 0).any(axis=0)
                dead = ~(want[p] > 0).any(axis=1)
                want[p][np.outer(dead, used) & (np.abs(v0[p]) > 0)] = 1
        ok_f[:] = True
    tb_ = np.repeat(np.arange(nt), obs["n_baselines"])
    want[:, :, o0["baseline_info"]["time_use"][tb_] <= 0] = 0
    equal(got, want, "weights after basic flagging")
    b2 = obs2["baseline_info"]
    tu = ok_t & (o0["baseline_info"]["tile_use"] > 0)
    fu = ok_f & (o0["baseline_info"]["freq_use"] > 0)
    equal(b2["tile_use"], tu.astype(int), "tile_use")
    equal(b2["freq_use"], fu.astype(int), "freq_use")
    equal(b2["time_use"], o0["baseline_info"]["time_use"], "time_use")
    check((obs2["n_tile_flag"], obs2["n_freq_flag"], obs2["n_time_flag"]) == ((~tu).sum(), (~fu).sum(), (b2["time_use"] == 0).sum()), "flag counts")
    return not np.array_equal(want, w0), (["frequency flags"] if c["ff"] else ["unflag"] if dead_f.size else []) + (["time cut"] if (b2["time_use"] == 0).any() else []) + (["one polarization"] if c["polonly"] and npol > 1 else []) + (["almost nothing usable"] if c["few"] else [])


SUBS = [
    Sub("tiles", st.fixed_dictionaries(dict(seed=st.integers(0, 99999), n_tile=st.integers(2, 9), n_time=st.integers(1, 3), n_freq=st.integers(1, 4), n_pol=st.sampled_from([1, 2, 4]), kind=st.sampled_from(["int", "str", "pad"]),
        sel=st.lists(st.integers(0, 99), max_size=4), form=st.integers(0, 2), unknown=st.integers(0, 3), gone=st.sampled_from([0.0, 0.2]))), f_tiles, 300, 4000, rule="tile names and flag lists; non-trivial: some but not all baselines flagged"),
    Sub("basic", st.fixed_dictionaries(dict(seed=st.integers(0, 99999), n_tile=st.integers(2, 8), n_time=st.integers(1, 4), n_freq=st.one_of(st.sampled_from([24, 48, 96, 192, 384, 768, 1536]), st.integers(1, 64).map(lambda k: 24 * k)), n_pol=st.sampled_from([1, 2, 4]), neg=st.booleans(),
        deadf=st.sampled_from([0.0, 0.1]), deadt=st.sampled_from([0.0, 0.2]), polonly=st.integers(0, 3), few=st.sampled_from([0, 0, 0, 0, 0, 0, 1, 2, 3]), zerodata=st.sampled_from([0.0, 0.2]), cutt=st.sampled_from([0.0, 0.4]), start=st.none() | st.floats(0, 1) | st.integers(0, 2), end=st.none() | st.floats(0, 1) | st.integers(-3, -1),
        nudge=st.sampled_from([0.0, 0.003, -0.003, 1e-6, -1e-6]), man=st.lists(st.integers(0, 99), max_size=2), ff=st.booleans())), f_basic, 600, 5000, rule="weights, data zeros, config; non-trivial: some weight changes"),
]
SUBS.append(large(SUBS[0], 4, 60, n_tile=st.integers(100, 270), n_time=st.integers(1, 2), n_freq=st.integers(1, 2), n_pol=1))
SUBS.append(large(SUBS[1], 4, 60, n_tile=st.integers(40, 90), n_time=st.integers(2, 40), n_freq=st.sampled_from([24, 48]), n_pol=2))
SUBS.append(large(SUBS[1], 20, 200, name="times", n_tile=st.integers(2, 5), n_time=st.integers(100, 400), n_freq=st.sampled_from([24, 48]), n_pol=2))
