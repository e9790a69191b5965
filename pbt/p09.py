"""P09 observation metadata."""
import os
from copy import deepcopy
from core import *
import synth
from PyFHD.data_setup.obs import create_obs, update_obs
from PyFHD.pyfhd_tools.unit_conv import altaz_to_radec, radec_to_altaz
from PyFHD.data_setup.obs import project_slant_orthographic

D = np.degrees(1)


def make(c, td):
    r = rng(c["seed"])
    # with the default grid the longest baselines fall outside of it
    few = 2 if c["autos"] or c["dim"] or c["elem"] else 3
    n = max(c["n_ant"], few)
    nums = np.arange(1, n + 1)
    if c["numbers"] == "gaps":
        nums = np.sort(r.permutation(3 * n)[:n]) + 1
    elif c["numbers"] == "shuffled":
        nums = r.permutation(n) + 1
    elif c["numbers"] == "offset":
        nums = nums + int(r.integers(1, 5))
    elif c["numbers"] == "zero":
        nums = nums - 1
    alive = r.random(n) < c["alive"]
    keep = int(r.integers(0, n - few + 1))  # the tiles in use are not always the first ones
    alive[keep : keep + few] = True
    a, b = synth.baselines(n, c["autos"])
    k = alive[a] & alive[b]
    a, b = a[k], b[k]
    nt = c["n_time"]
    A, B = np.tile(a, nt), np.tile(b, nt)
    nb = A.size
    t0 = c["jd0"] + 0.25
    time = np.repeat(t0 + np.arange(nt) * (c["step"] / 86400.0), a.size)
    uu, vv = r.normal(size=(2, a.size)) * c["scale"]
    uu[a == b] = vv[a == b] = 0
    if not c["autos"]:
        # at least one baseline that the grid can hold
        uu[0] *= 0.004
        vv[0] *= 0.004
    uu, vv = np.tile(uu, nt), np.tile(vv, nt)
    params = dict(uu=uu, vv=vv, ww=uu * 0.1, time=time, antenna1=nums[A].astype("f4"), antenna2=nums[B].astype("f4"))
    f0 = int(c["freq0"])
    freq = (f0 + np.arange(c["n_freq"]) * int(c["df"])).astype(float)
    header = dict(n_tile=n, n_pol=c["n_pol"], n_freq=c["n_freq"], freq_res=float(c["df"]), frequency_array=freq, lat=synth.MWA[1], lon=synth.MWA[0], alt=synth.MWA[2],
        obsra=c["ra"], obsdec=c["dec"])
    cfg = dict(n_pol=c["cfg_pol"], instrument="mwa", obs_id="o", beam_nfreq_avg=c["navg"], FoV=c["fov"], kbinsize=c["kbin"], dimension=c["dim"], elements=c["elem"], min_baseline=c["minb"],
        time_cut=c["cut"], dft_threshold=c["dft"], healpix_inds=None, input_path=td, run_simulation=True, override_target_phasera=c["ora"], override_target_phasedec=c["odec"])
    m = None
    if c["meta"]:
        flag = (r.random(n) < 0.3).astype(int)
        if n > 2 and r.random() < 0.2:
            flag[:] = 1
            flag[r.permutation(n)[:2]] = 0  # only two are left
        if flag.sum() >= n - 1:
            flag[:] = 0
        m = dict(seed=c["seed"], tile=r.permutation(n * 4)[:n] + 11, flag=flag, height=r.uniform(300, 400, n),
            keys=dict(RA=c["ra"], DEC=c["dec"], RAPHASE=(c["ra"] + c["off"]) % 360, DECPHASE=c["dec"] - c["off"] / 2, INTTIME=c["inttime"], DELAYS=",".join(str(i) for i in r.integers(0, 9, 16))),
            history=["made up"] if c["hist"] else [])
        synth.write_metafits(os.path.join(td, "o.metafits"), m)
    return params, header, dict(antenna_numbers=nums), cfg, m, A, B, alive


def f_obs(c):
    with scratch() as td:
        params, header, layout, cfg, m, A, B, alive = make(c, td)
        orig = deepcopy(params)
        obs = call("create_obs", create_obs, header, params, layout, cfg, LOG)
    n, nt, nf = alive.size, c["n_time"], c["n_freq"]
    nb = A.size // nt
    bi = obs["baseline_info"]
    exp = dict(n_pol=c["cfg_pol"] or c["n_pol"], n_tile=n, n_freq=nf, n_time=nt, n_baselines=nb, n_vis=A.size * nf, n_vis_raw=A.size * nf, n_vis_in=A.size * nf, instrument="mwa", obsname="o")
    for k, v in exp.items():
        check(obs[k] == v, f"obs {k}: {obs[k]} expected {v}")
    equal(bi["bin_offset"], np.arange(nt) * nb, "bin_offset")
    for nm, w in (("tile_a", A + 1), ("tile_b", B + 1)):
        equal(bi[nm], w, nm)
        check(bi[nm].dtype.kind == "i", f"{nm} integer")
    equal(params["antenna1"], A + 1, "params antenna1 mapped to tile indices")
    equal(params["antenna2"], B + 1, "params antenna2 mapped to tile indices")
    for k in ("uu", "vv", "ww", "time"):
        equal(params[k], orig[k], f"params {k} untouched")
    freq = header["frequency_array"]
    equal(bi["freq"], freq, "freq")
    close(obs["freq_center"], np.median(freq), "freq_center", rtol=1e-14)
    fb = (c["navg"] or 1) * c["df"]
    equal(bi["fbin_i"], [int((int(f) - int(freq[0])) // int(fb)) for f in freq], "fbin_i")
    equal(bi["freq_use"], np.ones(nf), "freq_use")
    # imaging grid
    kpix = D / c["fov"] if c["fov"] else (0.5 if c["kbin"] is None else c["kbin"])
    close(obs["kpix"], kpix, "kpix", rtol=1e-13)
    kx, ky = np.outer(freq, orig["uu"]), np.outer(freq, orig["vv"])
    mx = max(np.abs(kx).max(), np.abs(ky).max())
    if c["dim"] is None and c["elem"] is None:
        q = np.log2(2 * mx / kpix)
        if abs(q - round(q)) > 1e-6:
            check(obs["dimension"] == 2 ** int(q) == obs["elements"], f"dimension {obs['dimension']} for 2^{q}")
    else:
        check(obs["dimension"] == (c["dim"] or c["elem"]) and obs["elements"] == (c["elem"] or c["dim"]), "dimension/elements")
    check(isinstance(obs["dimension"], int) and isinstance(obs["elements"], int), "integer grid")
    close(obs["degpix"], D / (kpix * obs["dimension"]), "degpix", rtol=1e-13)
    kr = np.hypot(kx, ky)
    ing = (np.abs(kx) / kpix < obs["dimension"] / 2) & (np.abs(ky) / kpix < obs["elements"] / 2)
    close(obs["max_baseline"], kr[ing].max(), "max_baseline", rtol=1e-12)
    mn = kr[kr > 0].min()
    close(obs["min_baseline"], max(mn, c["minb"] or 0), "min_baseline", rtol=1e-12)
    # metadata
    if m:
        equal(bi["tile_names"], m["tile"], "tile names")
        equal(bi["tile_flag"], m["flag"], "tile flags")
        close(bi["tile_height"], m["height"] - header["alt"], "tile heights")
        K = m["keys"]
        tres, pr, pd = K["INTTIME"], K["RAPHASE"], K["DECPHASE"]
        check([int(x) for x in obs["delays"]] == [int(x) for x in K["DELAYS"].split(",")], "delays")
        check(all(obs["meta_hdr"][k] == v for k, v in K.items()), "metafits header")
        check(len(obs["meta_data"]) == 2 * n, "metafits table")
        flag = m["flag"]
    else:
        tres = c["step"] if nt > 1 else 1
        pr, pd = c["ra"], c["dec"]
        flag = (~alive).astype(int)
        equal(bi["tile_names"], np.arange(1, n + 1), "tile names")
        equal(bi["tile_flag"], flag, "tiles without baselines flagged")
        equal(bi["tile_height"], np.zeros(n), "heights")
    equal(bi["tile_use"], 1 - flag, "tile_use")
    check(obs["n_tile_flag"] == flag.sum(), "n_tile_flag")
    check(abs(obs["time_res"] - tres) < 1e-3, f"time_res {obs['time_res']} expected {tres}")
    for k, v in dict(obsra=c["ra"], obsdec=c["dec"], phasera=pr, phasedec=pd, orig_phasera=pr if c["ora"] is None else c["ora"], orig_phasedec=pd if c["odec"] is None else c["odec"],
                     obsx=obs["dimension"] // 2, obsy=obs["elements"] // 2, jd0=orig["time"].min()).items():
        check(obs[k] == v, f"obs {k}: {obs[k]} expected {v}")
    equal(bi["jdate"], np.unique(orig["time"]), "jdate")
    z = altaz_to_radec(90, 0, header["lat"], header["lon"], header["alt"], obs["jd0"])
    close([obs["zenra"], obs["zendec"]], z, "zenith", rtol=1e-10)
    al = radec_to_altaz(c["ra"], c["dec"], header["lat"], header["lon"], header["alt"], obs["jd0"])
    close([obs["obsalt"], obs["obsaz"]], al, "pointing altitude/azimuth", rtol=1e-10)
    astr, zx, zy = project_slant_orthographic(dict(obs), obs)
    close([obs["zenx"], obs["zeny"]], [zx, zy], "zenith pixel", rtol=1e-9)
    equal(obs["astr"]["crval"], [pr, pd], "projection centre")
    # time cuts
    use = np.ones(nt, int)
    for cut in np.atleast_1d(c["cut"]) if c["cut"] is not None else []:
        k = int(np.ceil(abs(cut) / obs["time_res"] - 1e-9))
        if k:
            use[:k] = 0 if cut > 0 else use[:k]
            if cut < 0:
                use[max(nt - k, 0):] = 0
    equal(bi["time_use"], use, f"time_use for cut {c['cut']}")
    check(obs["n_time_flag"] == (use == 0).sum(), "n_time_flag")
    close(obs["dft_threshold"], obs["dimension"] / (2 * np.pi) ** 2 if c["dft"] else 0, "dft_threshold", rtol=1e-12)
    lb = ["metafits" if m else "no metafits", c["numbers"]] + (["cut"] if (use == 0).any() else []) + (["default grid"] if c["dim"] is None and c["elem"] is None else [])
    return nt > 1 or nf > 1, lb


def f_update(c):
    r = rng(c["seed"])
    nf, df = c["n_freq"], c["df"]
    freq = (int(1.5e8) + np.arange(nf) * df).astype(float)
    old = max(1, int(c["old_avg"]))
    obs = dict(n_freq=nf, freq_res=float(df), dimension=64, elements=64, kpix=0.5, degpix=1.0, max_baseline=c["maxb"], obsx=32, obsy=32, n_pol=2, phasera=1.0,
        astr=dict(naxis=np.array([64, 64]), cdelt=np.ones(2), crpix=np.array([33, 33]), crval=np.array([10.0, -20.0]), cd=np.identity(2)),
        baseline_info=dict(freq=freq, fbin_i=np.arange(nf) // old, tile_use=r.integers(0, 2, 5)))
    if c["avg"] is None and nf % old:
        return False
    before = deepcopy(obs)
    new = call("update_obs", update_obs, obs, c["dim"], c["kbin"], beam_nfreq_avg=c["avg"], fov=c["fov"])
    check(json.dumps(obs, default=lambda a: np.asarray(a).tolist()) == json.dumps(before, default=lambda a: np.asarray(a).tolist()), "update_obs must leave the given observation alone")
    kpix = c["kbin"] if c["fov"] is None else D / c["fov"]
    avg = c["avg"] or old
    equal(new["baseline_info"]["fbin_i"], np.arange(nf) // avg, "fbin_i")
    for k, v in dict(dimension=c["dim"], elements=c["dim"], obsx=c["dim"] / 2, obsy=c["dim"] / 2, kpix=kpix, degpix=D / (kpix * c["dim"]), max_baseline=min(c["maxb"], c["dim"] * kpix / np.sqrt(2)), n_pol=2, phasera=1.0).items():
        check(abs(new[k] - v) < 1e-9 * max(1, abs(v)), f"{k}: {new[k]} expected {v}")
    equal(new["astr"]["naxis"], [c["dim"]] * 2, "naxis")
    close(new["astr"]["cdelt"], [D / (kpix * c["dim"])] * 2, "cdelt")
    close(new["astr"]["crpix"], [c["dim"] / 2 + 1] * 2, "crpix")
    equal(new["astr"]["crval"], [10.0, -20.0], "crval")
    equal(new["baseline_info"]["tile_use"], before["baseline_info"]["tile_use"], "tile_use")
    return nf > 1, ["fov"] if c["fov"] else []


oint = st.none() | st.integers(8, 64).map(lambda x: 2 * x)
cutv = st.sampled_from([0.5, 1.0, 2.0, 3.0, 4.0, 7.0, 50.0])
cut = st.none() | st.lists(st.tuples(cutv, st.sampled_from([1, -1])).map(lambda t: t[0] * t[1]), min_size=1, max_size=2)
SUBS = [
    Sub("create", st.fixed_dictionaries(dict(seed=st.integers(0, 99999), n_ant=st.integers(2, 9), autos=st.sampled_from([True, True, False]), numbers=st.sampled_from(["plain", "gaps", "shuffled", "offset", "zero"]), alive=st.sampled_from([0.5, 1.0]),
        n_time=st.integers(1, 5), jd0=st.integers(2456100, 2458500), step=st.sampled_from([2.0, 8.0, 0.5]), scale=st.sampled_from([1e-7, 5e-7]), freq0=st.sampled_from([150000000, 182415000]),
        n_freq=st.integers(1, 12), df=st.sampled_from([80000, 10000, 1280000]), n_pol=st.sampled_from([1, 2, 4]), cfg_pol=st.sampled_from([0, 1, 2]), navg=st.none() | st.integers(1, 6),
        fov=st.sampled_from([None, 0, 60.0, 90.0, 33.333]), kbin=st.sampled_from([None, 0.5, 1.0, 0.25]), dim=oint, elem=oint, minb=st.sampled_from([None, 0, 5.0, 40.0]), cut=cut, dft=st.booleans(),
        ora=st.sampled_from([None, 12.5, 0.0, 0]), odec=st.sampled_from([None, -30.25, 0.0, 0]), ra=st.floats(0, 359).map(lambda x: round(x, 3)), dec=st.floats(-60, 10).map(lambda x: round(x, 3)), off=st.sampled_from([0.0, 2.0, -6.5]),
        meta=st.booleans(), inttime=st.sampled_from([2.0, 0.5, 8.0]), hist=st.booleans())), f_obs, 250, 3000, rule="observation parameters, antenna table, config, METAFITS; non-trivial: >1 time or channel"),
    Sub("update", st.fixed_dictionaries(dict(seed=st.integers(0, 999), n_freq=st.integers(1, 24), df=st.sampled_from([80000, 10000]), old_avg=st.integers(1, 6), avg=st.none() | st.integers(1, 8), dim=st.integers(4, 512),
        kbin=st.floats(0.2, 2), fov=st.none() | st.floats(5, 120), maxb=st.floats(10, 2000))), f_update, 300, 4000, rule="new grid of an observation; non-trivial: >1 channel"),
]
SUBS.append(large(SUBS[0], 6, 60, n_ant=st.integers(100, 300), n_time=st.integers(1, 3), n_freq=st.integers(1, 800)))
SUBS.append(large(SUBS[0], 5, 60, name="times", n_ant=st.integers(2, 5), n_time=st.integers(100, 400), n_freq=st.integers(1, 3)))
