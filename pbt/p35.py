"""P35 bandpass transferred from a calibration FITS file."""
from core import *
import synth
from astropy.io import fits
from PyFHD.calibration.calibration_utils import vis_cal_bandpass

# start of the pointings -5..4 of 2013-08-23 (fraction of a Julian day) and their delays
STARTS = [0.13611, 0.15157, 0.17565, 0.19963, 0.22222, 0.24342593, 0.26453705, 0.28574074, 0.30694, 0.33657407]
DELAYS = {-5: [0, 5, 10, 15, 1, 6, 11, 16, 2, 7, 12, 17, 3, 8, 13, 18], -4: [0, 4, 8, 12, 1, 5, 9, 13, 2, 6, 10, 14, 3, 7, 11, 15]}
DELAYS.update({p: [i * -p for i in range(4)] * 4 for p in (-3, -2, -1, 0)})
DELAYS.update({p: [(3 - i) * p for i in range(4)] * 4 for p in (1, 2, 3)})
DELAYS[4] = [12, 8, 4, 0, 13, 9, 5, 1, 14, 10, 6, 2, 15, 11, 7, 3]
DELAYS[5] = [15, 10, 5, 0, 16, 11, 6, 1, 17, 12, 7, 2, 18, 13, 8, 3]


def setup(c, r):
    nf, nt = c["n_freq"], c["n_tile"]
    npol = c["n_pol"]
    obs, par, vis, w = synth.toy(r, 2, 1, nf, npol)
    bi = obs["baseline_info"]
    obs["n_tile"] = nt
    obs["n_time"] = c["n_time"]
    bi["tile_use"] = (r.random(nt) > 0.2).astype(np.int64)
    bi["freq_use"] = (r.random(nf) > 0.2).astype(np.int64)
    bi["tile_use"][r.permutation(nt)[:2]] = 1
    bi["freq_use"][r.permutation(nf)[:2]] = 1
    ncal = min(npol, 2)
    g = np.exp(0.2 * r.normal(size=(ncal, nf, nt)) + 2j * np.pi * r.random((ncal, nf, nt)))
    return obs, dict(gain=g.copy(), n_pol=ncal, extra=np.arange(3), ref_antenna=1), g


def write(path, c, F, hdr):
    """F (n_tile, n_freq, n_time, n_jones, n_arrays) as calfits."""
    types = ["Narrays", "Jones", "TIME", "FREQS"] + (["IF"] if c["window"] else []) + ["ANTAXIS"]
    hdr = dict(hdr)
    two, swap = hdr.pop("WINDOWS", 1), hdr.pop("SWAPPED", False)
    data = np.repeat(F[:, None], two, axis=1) if c["window"] else F
    if swap:  # antennas and frequencies the other way round
        types[-1], types[3] = types[3], types[-1]
        data = np.swapaxes(data, 0, data.ndim - 4)
    h = fits.PrimaryHDU(data.astype(">f8" if c["double"] else ">f4"))
    for i, t in enumerate(types, 1):
        h.header[f"CTYPE{i}"] = t + "  " * (i % 2)
        h.header[f"CRVAL{i}"], h.header[f"CDELT{i}"] = 1.0, 1.0
    for k, v in hdr.items():
        h.header[k] = v
    h.header["CRVAL2"], h.header["CDELT2"] = -5.0, -1.0
    h.writeto(path)


def build(c, r):
    """-> obs, cal, gains, file array, header, want (n_tile, n_freq, n_jones complex gains of the obs), reference-free"""
    obs, cal, g = setup(c, r)
    nf, nt = c["n_freq"], c["n_tile"]
    k = c["factor"]  # channels of the file per channel of the observation (negative: the other way round)
    fnf = nf * k if k > 0 else nf // -k
    width = obs["freq_res"] / k if k > 0 else obs["freq_res"] * -k
    mode = c["times"]
    fnt = 1 if mode == "one" else c["f_time"]
    nj = c["n_jones"]
    G = np.exp(0.3 * r.normal(size=(nt, fnf, fnt, nj))) * np.exp(2j * np.pi * r.random((nt, fnf, fnt, nj)))
    if not c["double"]:
        G = G.astype(np.complex64).astype(complex)
    flag = r.random(G.shape) < c["flags"]
    F = np.stack([G.real, G.imag, flag.astype(float), r.random(G.shape)][: 3 + c["quality"]], axis=-1)
    hdr = dict(CALTYPE="gain", CHWIDTH=width, XORIENT=c["orient"], CRVAL4=obs["baseline_info"]["freq"][0], CDELT4=width, NJONES=nj)
    day = 2456528
    obs["astr"] = dict(mjdobs=day + 0.3 - 2400000.5)
    obs["delays"] = DELAYS[0]
    if mode == "one":
        hdr.update(INTTIME=112.0, CRVAL3=day + 0.2, CDELT3=112.0)
        pick = 0
    elif mode == "pointing":
        first = c["first"]
        i = first + 5
        w0 = STARTS[1] - STARTS[0]
        begin = STARTS[i] if i >= 0 else STARTS[0] - w0
        width = (STARTS[i + 1] if i < 9 else STARTS[9] + w0) - begin
        # sidereal: a pointing starts four minutes earlier every day; the observation may be of any day
        start = day + c["days"] + begin - (24 - 23.9344699) / 24 * c["days"] + width * (c["edge"] or 0.02 + 0.9 * c["frac"])
        obs["astr"]["mjdobs"] += c["later"]
        hdr.update(CRVAL3=start, **(dict(INTTIME=1800.0, CDELT3=0.02) if c["by_int"] else dict(INTTIME=112.0, CDELT3=1800.0)))
        pick = (-1 - c["pick"]) % fnt
        pick = min(max(pick, -5 - first), 5 - first)
        obs["delays"] = [str(v) if c["text"] else v for v in DELAYS[first + pick]]
    elif mode == "same":
        hdr.update(INTTIME=2.0, CRVAL3=day + 0.2, CDELT3=2.0 + 0.9 * c["frac"])
        obs["time_res"] = 2.0
        pick = slice(None)
    else:
        obs["time_res"] = c["res"]
        step = c["res"] / 2 if c["short"] else 112.0
        hdr.update(INTTIME=step, CRVAL3=day + 0.2, CDELT3=step)
        pick = (-1 - c["pick"]) % fnt
        mid = day + 0.2 + (pick + 0.8 * (c["frac"] - 0.5)) * step / 86400
        obs["astr"]["mjdobs"] = mid - obs["n_time"] * obs["time_res"] / 2 / 86400 - 2400000.5
    if k == 1:
        S = G
    elif k > 1:
        S = np.full((nt, nf, fnt, nj), np.nan, complex)
        for j in range(nf):
            lo, hi = max(j * k - k // 2, 0), min(j * k + k // 2, fnf - 1) + 1
            n = (~flag[:, lo:hi]).sum(1)
            with np.errstate(invalid="ignore", divide="ignore"):
                S[:, j] = np.where(n > 0, np.where(flag[:, lo:hi], 0, G[:, lo:hi]).sum(1) / n, np.nan)
    else:
        S = np.empty((nt, nf, fnt, nj), complex)
        for j in range(nf):
            i, f = divmod(j, -k)
            S[:, j] = G[:, i] + (G[:, min(i + 1, fnf - 1)] - G[:, i]) * f / -k
    S = S[:, :, pick].mean(2) if isinstance(pick, slice) else S[:, :, pick]
    if c["orient"].strip() in ("north", "south") and nj > 1:
        S = S[..., [1, 0, 3, 2][:nj]]
    return obs, cal, g, F, hdr, S


def run(c, obs, cal, F, hdr):
    with scratch() as d:
        write(os.path.join(d, "bp.fits"), c, F, hdr)
        cfg = dict(input_path="/nonexistent" if c["absolute"] else d, cal_bp_transfer=os.path.join(d, "bp.fits") if c["absolute"] else "bp.fits", cal_gain_init=1,
                   cable_bandpass_fit=False, auto_ratio_calibration=False, instrument="mwa")
        log = RecLogger()
        bp, rem = call("vis_cal_bandpass", vis_cal_bandpass, obs, cal, cfg, log)
    cfg["cal_bp_transfer"] = None
    return bp, rem, call("vis_cal_bandpass (no file)", vis_cal_bandpass, obs, cal, cfg, LOG), log


def legal(c):
    c = dict(c)
    c["n_jones"] = max(c["n_jones"], c["n_pol"])
    if c["factor"] < 0:
        c["n_freq"] = max(1, c["n_freq"] // -c["factor"]) * -c["factor"]
    return c


def f_transfer(c):
    c = legal(c)
    r = rng(c["seed"])
    obs, cal, g, F, hdr, S = build(c, r)
    bp, rem, own, log = run(c, obs, cal, F, hdr)
    equal(cal["gain"], g, "the calibration itself is left alone")
    want = np.moveaxis(S, (0, 1, 2), (2, 1, 0))[: cal["n_pol"]]
    tol = 1e-12 if c["double"] else 1e-6
    close(bp["gain"], want, "bandpass of the file", rtol=tol, atol=tol)
    ok = np.isfinite(want)
    close(np.where(ok, bp["gain"] * rem["gain"], g), g, "bandpass times remainder is the gain", rtol=1e-9)
    check(np.all(rem["gain"][~ok] == 0) or not np.any(np.isfinite(rem["gain"][~ok]) & (rem["gain"][~ok] != 0)), "no remainder without a bandpass")
    for k in ("extra", "ref_antenna", "n_pol"):
        equal(bp[k], cal[k], f"{k} carried over")
        equal(rem[k], cal[k], f"{k} carried over")
    check(bp["gain"].dtype == np.complex128 and bp["gain"] is not rem["gain"], "separate complex results")
    return F.shape[2] > 1 or c["factor"] != 1, [c["times"], f"factor {c['factor']}", "window" if c["window"] else "plain", c["orient"].strip(), f"{c['n_pol']} of {c['n_jones']} pols"]


def f_refuse(c):
    """A file that isn't of this observation: the bandpass is that of the gains, as without a file."""
    c = legal(c)
    r = rng(c["seed"])
    why = c["why"]
    if why == "pols":
        c["n_pol"], c["n_jones"] = 2, 1
    if why == "pointing":
        c["times"] = "pointing"
    if why == "time":
        c["times"] = "any"
    obs, cal, g, F, hdr, S = build(c, r)
    if why == "delay":
        hdr["CALTYPE"] = "delay"
    elif why == "tiles":
        F = F[:-1] if c["frac"] < 0.5 else np.concatenate([F, F[:1]])
    elif why == "windows":
        c["window"] = True
        hdr["WINDOWS"] = 2
    elif why == "axes":
        hdr["SWAPPED"] = True
    elif why == "band":
        hdr["CRVAL4"] += 1.28e6 * (1 if c["frac"] < 0.5 else -1)
    elif why == "width":
        hdr["CHWIDTH"] *= 1.5
    elif why == "channels":
        # by at least a channel of the observation
        k = max(c["factor"], 1)
        F = np.concatenate([F, F[:, :k]], axis=1) if c["frac"] < 0.5 or F.shape[1] <= k else F[:, :-k]
    elif why == "pointing":
        p = [q for q in range(-5, 6) if (q < c["first"] if c["text"] else q >= c["first"] + F.shape[2])] or [q for q in range(-5, 6) if not c["first"] <= q < c["first"] + F.shape[2]]
        obs["delays"] = DELAYS[p[c["pick"] % len(p)]] if c["frac"] < 0.8 else [3] * 16
    elif why == "time":
        obs["astr"]["mjdobs"] += (c["f_time"] + 4) * hdr["INTTIME"] / 86400 * (1 if c["frac"] < 0.5 else -1)
    bp, rem, (b0, r0), log = run(c, obs, cal, F, hdr)
    equal(bp["gain"], b0["gain"], f"{why}: bandpass as without a file")
    equal(rem["gain"], r0["gain"], f"{why}: remainder as without a file")
    equal(cal["gain"], g, "the calibration itself is left alone")
    return True, [why]


C = dict(seed=st.integers(0, 2**32 - 1), n_pol=st.sampled_from([1, 2, 4]), n_jones=st.sampled_from([1, 2, 4]), n_freq=st.integers(2, 12), n_tile=st.integers(2, 8), n_time=st.integers(1, 4), factor=st.sampled_from([1, 1, 2, 3, 4, -2, -3]),
    times=st.sampled_from(["one", "pointing", "same", "any"]), short=st.booleans(), f_time=st.sampled_from([2, 3, 4, 5, 6, 8, 10]), pick=st.integers(0, 20), first=st.integers(-6, 4), frac=st.floats(0, 1), by_int=st.booleans(), text=st.booleans(),
    window=st.booleans(), double=st.booleans(), quality=st.booleans(), absolute=st.booleans(), orient=st.sampled_from(["east", "north ", "south", "west"]), flags=st.sampled_from([0, 0.2, 0.7]),
    edge=st.just(0), days=st.sampled_from([0, 0, 1, 7, -10, 40, -40]), later=st.sampled_from([0, 0, 1, 30, -3]), res=st.sampled_from([2.0, 8.0, 30.0]))
SUBS = [
    Sub("transfer", st.fixed_dictionaries(C), f_transfer, 400, 8000, rule="generated calfits of the observation; non-trivial: several times or another channel width"),
    Sub("refused", st.fixed_dictionaries(dict(C, why=st.sampled_from(["delay", "tiles", "band", "width", "channels", "pols", "pointing", "time", "windows", "axes"]))), f_refuse, 200, 3000, rule="a calfits file of something else"),
]
E = dict(C, times=st.just("pointing"), factor=st.just(1), n_freq=st.integers(2, 4), n_tile=st.integers(2, 3))
SUBS += [
    Sub("pointings", st.fixed_dictionaries(dict(E, f_time=st.integers(2, 10), edge=st.sampled_from([1e-3, 2e-3, 0.01, 0.99, 0.998, 0.999]))), f_transfer, 120, 3000, rule="a file that starts just after or just before a pointing does"),
    Sub("elsewhere", st.fixed_dictionaries(dict(E, first=st.integers(-4, 3), f_time=st.integers(2, 8), frac=st.floats(0, 0.9), why=st.just("pointing"))), f_refuse, 60, 1500, rule="the observation's pointing is before or after those of the file"),
]
