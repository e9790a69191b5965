"""P08 UVFITS ingest."""
import os
from core import *
import synth
from astropy.time import Time
from PyFHD.data_setup.uvfits import create_params, extract_header, extract_visibilities

synth.no_network()


def build(c, path):
    r = rng(c["seed"])
    n = c["n_ant"]
    a, b = synth.baselines(n, c["autos"])
    keep = np.sort(r.permutation(a.size)[: max(1, int(a.size * c["keep"]))])
    if c["lead"] and a.size > 1:  # whichever baseline comes first
        keep = keep[keep >= min(c["lead"], keep[-1])]
    else:
        keep = np.union1d(keep, [0])
    a, b = a[keep] + 1 + c["shift"], b[keep] + 1 + c["shift"]
    nt = c["n_time"]
    A, B = np.tile(a, nt), np.tile(b, nt)
    nb = A.size
    date = np.repeat(np.arange(nt) * np.float32(c["dt"]), a.size).astype(np.float32)
    d = dict(uu=r.normal(size=nb).astype("f4") * 1e-6, vv=r.normal(size=nb).astype("f4") * 1e-6, ww=r.normal(size=nb).astype("f4") * 1e-7,
        date=date, jd0=c["jd0"] + 0.5, freq0=c["freq0"], df=c["df"], crpix=c["crpix"], order=r.permutation(["UU", "VV", "WW", "DATE", "BASELINE", "ANTENNA1", "ANTENNA2"]).tolist(),
        n_mid=c["n_mid"], keys=dict(c["keys"]))
    if c["which"] in ("ant", "both"):
        d["ant1"], d["ant2"] = A, B
    if c["which"] in ("bl", "both"):
        mod = c["mod"]
        off = c["off"] or A.min() > 31  # the number without 65536 is not a standard, and is read as one only for low tiles
        if B.max() > 255:
            mod = 2048
        elif mod == 2048 and not off and np.all((A * 2048 + B) // 256 <= (A * 2048 + B) % 256):
            mod = 256  # would be as good in the other encoding
        d["baseline"] = A * mod + B + (65536 if off and mod == 2048 else 0)
    if c["two_dates"]:
        d["date2"] = (r.integers(0, 64, nb) / 2.0**20).astype("f4")
    d["vis"] = (r.normal(size=(nb, c["n_freq"], c["n_pol"])) + 1j * r.normal(size=(nb, c["n_freq"], c["n_pol"]))).astype("c8")
    d["wts"] = r.choice([-1.0, 0.0, 1.0, 8.0], size=d["vis"].shape).astype("f4")
    d["table"] = synth.default_table(n)
    d["drop"] = c.get("drop", ())
    synth.write_uvfits(path, d)
    return d, A, B


def f_ingest(c):
    with scratch() as td:
        d, A, B = build(c, os.path.join(td, "o.uvfits"))
        cfg = dict(input_path="/nonexistent" if c["model"] else td, obs_id="x" if c["model"] else "o", instrument=c["instrument"], n_pol=min(c["cfg_pol"], c["n_pol"]), model_file_path=os.path.join(td, "o.uvfits") if c["model"] else None)
        hdr, data, _, tab = call("extract_header", extract_header, cfg, LOG, model_uvfits=c["model"])
        par = call("create_params", create_params, hdr, data, LOG)
        vis, wts = call("extract_visibilities", extract_visibilities, hdr, data, cfg, LOG)
    npol = cfg["n_pol"] or c["n_pol"]
    for k, w in dict(n_tile=c["n_ant"], n_baselines=A.size, n_pol=c["n_pol"], n_freq=c["n_freq"], freq_res=c["df"], freq_ref=c["freq0"], jd0=c["jd0"] + 0.5).items():
        if k == "jd0" and c["two_dates"]:
            continue
        check(hdr[k] == w, f"header {k}: {hdr[k]} expected {w}")
    if c["two_dates"]:
        close(hdr["jd0"], d["jd0"] + float(d["date"][0]), "date of the first row", rtol=0, atol=2e-9)
    check(hdr["dateobs"] == Time(hdr["jd0"], format="jd").fits, f"dateobs {hdr['dateobs']} at jd {hdr['jd0']}")
    close(hdr["frequency_array"], [c["freq0"] + (i + 1 - c["crpix"]) * c["df"] for i in range(c["n_freq"])], "frequencies", rtol=1e-14)
    K = c["keys"]
    site = synth.SITES.get(c["instrument"], synth.MWA)
    for i, k in enumerate(("lon", "lat", "alt")):
        w = K.get(k.upper(), site[i])
        check(abs(hdr[k] - w) < 1e-5, f"{k}: {hdr[k]} expected {w}")
    check(hdr["obsra"] == K.get("OBSRA", K.get("RA")) and hdr["obsdec"] == K.get("OBSDEC", K.get("DEC")), "pointing")
    check(len(tab) == c["n_ant"], "antenna table rows")
    for k in ("uu", "vv", "ww"):
        equal(par[k], d[k].astype(float), k)
        check(par[k].dtype == np.float64, f"{k} double precision")
    t = d["jd0"] + d["date"].astype(float) + (d["date2"].astype(float) if c["two_dates"] else 0)
    close(par["time"], t, "time", rtol=0, atol=2e-9)
    equal(par["antenna1"], A, "antenna1")
    equal(par["antenna2"], B, "antenna2")
    equal(vis, np.moveaxis(d["vis"][..., :npol], (0, 1, 2), (2, 1, 0)).astype(complex), "visibilities")
    equal(wts, np.moveaxis(d["wts"][..., :npol], (0, 1, 2), (2, 1, 0)).astype(float), "weights")
    check(vis.dtype == np.complex128 and wts.dtype == np.float64, "double precision expected")
    lb = [f"pols {npol}", c["which"], f"first pair {A[0]},{B[0]}" if A[0] < 3 else "first pair later"]
    if 1 in (c["n_freq"], c["n_pol"], A.size):
        lb.append("unit axis")
    return A.size > 1, lb


def f_missing(c):
    """A file without a required parameter is refused with a KeyError, never read with wrong columns."""
    with scratch() as td:
        c = dict(c, drop=[c["miss"]] if c["miss"] != "ANTENNA" else ["ANTENNA1", "ANTENNA2", "BASELINE"])
        build(c, os.path.join(td, "o.uvfits"))
        cfg = dict(input_path=td, obs_id="o", instrument="mwa", n_pol=0)
        try:
            extract_header(cfg, LOG)
        except KeyError:
            return True, [c["miss"]]
        fail(f"a file without {c['miss']} was accepted")


def keys_st():
    v = st.floats(-80, 80).map(lambda x: round(x, 4))
    point = st.one_of(st.fixed_dictionaries(dict(OBSRA=v, OBSDEC=v)), st.fixed_dictionaries(dict(OBSRA=v, OBSDEC=v, RA=v, DEC=v)), st.fixed_dictionaries(dict(RA=v, DEC=v)))
    loc = st.fixed_dictionaries({}, optional=dict(LON=v, LAT=v, ALT=st.floats(0, 3000).map(lambda x: round(x, 2))))
    dt = st.sampled_from([{"DATE-OBS": "2013-08-23T00:00:00"}, {"DATEOBS": "2013-08-23T00:00:00"}])
    return st.tuples(point, loc, dt).map(lambda t: {**t[0], **t[1], **t[2]})


base = dict(seed=st.integers(0, 99999), n_ant=st.integers(2, 9), autos=st.booleans(), lead=st.sampled_from([0, 0, 1, 2, 3, 5, 7, 11]), shift=st.sampled_from([0, 0, 0, 1, 2, 6, 40, 240, 300]), off=st.booleans(), keep=st.sampled_from([0.01, 0.5, 1.0]), n_time=st.integers(1, 4),
    dt=st.sampled_from([2.0**-15, 2.0**-13]), jd0=st.integers(2456000, 2458000), freq0=st.sampled_from([1.5e8, 1.8e8, 167.075e6]), df=st.sampled_from([8e4, 1e4, 1.28e6]), crpix=st.integers(1, 5),
    n_mid=st.integers(1, 3), keys=keys_st(), which=st.sampled_from(["ant", "bl", "both"]), mod=st.sampled_from([256, 2048]), two_dates=st.booleans(),
    n_freq=st.integers(1, 7), n_pol=st.sampled_from([1, 2, 4]), cfg_pol=st.sampled_from([0, 1, 2, 4]), instrument=st.sampled_from(["mwa", "hera", "nowhere"]), model=st.booleans())
SUBS = [
    Sub("ingest", st.fixed_dictionaries(base), f_ingest, 250, 3000, rule="generated UVFITS file (layout, parameter order, axes, keys); non-trivial: >1 baseline-time row"),
    Sub("missing", st.fixed_dictionaries(dict(base, two_dates=st.just(False), miss=st.sampled_from(["UU", "VV", "WW", "DATE", "ANTENNA"]))), f_missing, 60, 500, rule="required parameter left out"),
]
SUBS.append(large(SUBS[0], 5, 60, n_ant=st.integers(100, 140), n_time=st.integers(1, 4), n_freq=st.integers(1, 3), lead=st.sampled_from([0, 0, 3]), keep=st.sampled_from([0.5, 1.0])))
# the baseline numbers alone, in both encodings, drawn evenly
SUBS.append(Sub("encodings", st.integers(0, 99999).map(lambda k: (lambda r: dict(seed=k, n_ant=int(r.integers(2, 40)), autos=bool(r.random() < 0.5), lead=int(r.choice([0, 0, 1, 3])), shift=int(r.choice([0, 0, 1, 2, 6, 40, 240])),
    off=bool(r.random() < 0.3), keep=float(r.choice([0.1, 0.5, 1.0])), n_time=1, dt=2.0**-13, jd0=2456528, freq0=1.5e8, df=8e4, crpix=float(r.choice([1, 2, 1.5, 0.5])), n_mid=1, keys=dict(OBSRA=1.0, OBSDEC=2.0, **{"DATE-OBS": "2013-08-23T00:00:00"}),
    which="bl", mod=int(r.choice([256, 2048])), two_dates=False, n_freq=2, n_pol=1, cfg_pol=0, instrument="mwa", model=False))(rng(k))), f_ingest, 80, 1500, rule="antennas known from the baseline numbers only; non-trivial: >1 baseline"))
