"""P10 antenna layout."""
import os
from core import *
import synth
from astropy.io import fits
from PyFHD.data_setup.uvfits import create_layout
from PyFHD.io.pyfhd_io import load

HDR = dict(array_center=(("ARRAYX", "ARRAYY", "ARRAYZ"), [-2559454.07880307, 5095372.14368305, -2849057.18534633]), coordinate_frame=("FRAME", "IRTF"), gst0=("GSTIA0", -1), earth_degpd=("DEGPDY", 360.985),
    refdate=("RDATE", -1), dut1=("UT1UTC", 0), diff_utc=("DATUTC", 0), pol_type=("POLTYPE", "X-Y LIN"), n_pol_cal_params=("NOPCAL", 0))
COL = dict(antenna_names=("ANNAME", "8A"), antenna_numbers=("NOSTA", "1J"), antenna_coords=("STABXYZ", "3D"), mount_type=("MNTSTA", "1J"), axis_offset=("STAXOF", "1E"), pola=("POLTYA", "1A"),
    pola_orientation=("POLAA", "1E"), polb=("POLTYB", "1A"), polb_orientation=("POLAB", "1E"), pola_cal_params=("POLCALA", "3E"), polb_cal_params=("POLCALB", "3E"), diameters=("DIAMETER", "1E"), beam_fwhm=("BEAMFWHM", "1E"))
ONE = ("mount_type", "axis_offset", "pola_orientation", "polb_orientation")


def f_layout(c):
    r = rng(c["seed"])
    n = c["n"]
    keys, want = {}, {}
    for k, (kw, dflt) in HDR.items():
        if c["have"][k]:
            if k == "array_center":
                v = [round(float(x), 3) for x in r.normal(size=3) * 1e6]
                keys.update(dict(zip(kw, v)))
            else:
                v = {"coordinate_frame": "ITRF", "refdate": "2013-08-23", "pol_type": "LIN", "n_pol_cal_params": int(r.integers(0, 4))}.get(k, round(float(r.uniform(1, 100)), 4))
                keys[kw] = v
            want[k] = v
        else:
            want[k] = dflt
    ts = c["timesys"]
    if ts:
        keys[ts[0]] = ts[1] + "  "
    want["time_system"] = ts[1] if ts else "UTC"
    if c["iautc"] is not None:
        keys["IAUTC"] = c["iautc"]
        want["nleap_sec"] = c["iautc"]
    else:
        want["nleap_sec"] = want["diff_utc"] if want["time_system"] == "IAT" else -1
    cols = {}
    ncal = want["n_pol_cal_params"]
    zero = np.zeros(ncal) if ncal > 1 else 0
    dflt = dict(antenna_names=np.arange(n).astype(str), antenna_numbers=np.arange(1, n + 1), antenna_coords=np.zeros((n, 3)), mount_type=0, axis_offset=0, pola="X", polb="Y", pola_orientation=0, polb_orientation=90,
        pola_cal_params=zero, polb_cal_params=zero)
    for k, (nm, fm) in COL.items():
        if c["cols"][k]:
            if fm == "8A":
                v = np.array([f"T{i}" for i in r.permutation(999)[:n]])
            elif fm == "1A":
                v = r.choice(["X", "Y"], n)
            elif fm == "1J":
                v = np.sort(r.permutation(2000)[:n]) if k == "antenna_numbers" else r.integers(0, c["vary"] + 1, n)
            elif fm[0] == "3":
                v = r.normal(size=(n, 3)).astype("f4")
            else:
                v = (r.integers(0, c["vary"] + 1, n) * 1.5).astype("f4")
                if r.random() < 0.3:  # all but the same
                    v = (30 + r.integers(0, c["vary"] + 1, n) * 1e-5).astype("f4")
            cols[nm] = (fm, v)
            if k in ONE and np.min(v) == np.max(v):
                v = v[0]
            want[k] = v
        elif k in dflt:
            want[k] = dflt[k]
    cols["DUMMY"] = ("1J", np.arange(n))
    want["n_antenna"] = n
    with scratch() as td:
        p = os.path.join(td, "a.fits")
        fits.HDUList([fits.PrimaryHDU(), synth.antenna_table(n, cols, keys)]).writeto(p)
        with fits.open(p) as h:
            ah, ad = h[1].header, h[1].data
            lay = call("create_layout", create_layout, ah, ad, dict(output_dir=td), LOG)
        back = call("load", load, os.path.join(td, "layout.h5"), LOG)
    for k, w in want.items():
        check(k in lay, f"layout misses {k}")
        g = lay[k]
        check(np.shape(g) == np.shape(w) and np.array_equal(np.asarray(g), np.asarray(w)), f"layout {k}: {g!r} expected {w!r}")
        check(k in back, f"saved layout misses {k}")
        check(np.shape(back[k]) == np.shape(w) and np.array_equal(np.asarray(back[k]), np.asarray(w)), f"saved layout {k}: {back[k]!r} expected {w!r}")
    check(set(lay) == set(want), f"unexpected entries {set(lay) ^ set(want)}")
    miss = sum(not v for v in {**c["have"], **c["cols"]}.values())
    return n > 1, ["complete" if miss == 0 else "partial"]


SUBS = [
    Sub("layout", st.fixed_dictionaries(dict(seed=st.integers(0, 99999), n=st.integers(1, 140), vary=st.integers(0, 2), have=st.fixed_dictionaries({k: st.booleans() for k in HDR}), cols=st.fixed_dictionaries({k: st.booleans() for k in COL}),
        timesys=st.sampled_from([None, ("TIMESYS", "UTC"), ("TIMSYS", "IAT"), ("TIMESYS", "IAT"), ("TIMESYS", "TAI"), ("TIMSYS", "Utc"), ("TIMESYS", "Utc")]), iautc=st.none() | st.integers(0, 40))), f_layout, 250, 3000, rule="antenna table with any subset of keywords/columns; non-trivial: >1 antenna"),
]
SUBS.append(large(SUBS[0], 6, 60, n=st.integers(250, 700)))
