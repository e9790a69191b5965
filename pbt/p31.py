"""P31 whole runs of the pipeline."""
import re
from core import *
import p14
import pipeline as P
from pathlib import Path

SAVE = ["save-obs", "save-params", "save-cal", "save-visibilities", "save-weights"]


def base(c, d):
    return ["obs1", "-i", d / "in", "-b", d / "in" / "beam.h5", "-m", "sav" if c.get("sav") else "uvfits", "--model-file-path", d / "in" / ("sav" if c.get("sav") else "model.uvfits"), "--dimension", c["dim"], "--elements", P.elements(c), "--kbinsize", c["kpix"], "--min-baseline", c["minb"], "--min-cal-baseline", 0,
        "--beam-nfreq-avg", c["navg"], "--n-pol", c["cfg_pol"] if c["cfg_pol"] <= c["n_pol"] else 0, "-c", d / "pyfhd.yaml"] + (["--lazy-load-beam"] if c["lazy"] else []) + (["--time-cut", c["tcut"]] if c["tcut"] else [])


# the cable lengths known to PyFHD are the ones of 128 tiles
CAL = ["--calibration-polyfit", "--bandpass-calibrate", "--cal-time-average", "--flag-calibration", "--calibration-auto-initialize", "--calibration-auto-fit", "--vis-baseline-hist", "--cal-adaptive-calibration-gain"]
FLAG = ["--flag-basic", "--flag-visibilities", "--flag-model", "--flag-frequencies"]
GRID = ["--grid-weights", "--grid-variance", "--grid-uniform", "--interpolate-kernel", "--mask-mirror-indices", "--grid-spectral"]


def bits(names, b):
    return [o for i, o in enumerate(names) if b >> i & 1]


def cal_opts(c, k):
    out = bits(FLAG, k["flag"] if c["n_freq"] > 90 else k["flag"] & 7)  # the edges of coarse channels are everything there is in narrow bands
    if k["flag"] & 1 and k["tile"] is not None:
        out += ["--flag-tiles", str(11 + k["tile"] % c["n_tile"])]
    if k["wterm"]:
        out += ["--deproject-w-term", k["wterm"]]
    return out + (["--calibrate-visibilities"] + bits(CAL, k["opts"]) + ["--cal-reflection-mode-theory", 0] if c["cal"] else [])


def grid_opts(g):
    return (["--recalculate-grid"] if g & 1 else []) + bits(GRID, g >> 1)


FILTERS = ["uniform", "natural", "hanning"]


def image_opts(m, c):
    out = ["--image-filter", "filter_uv_" + FILTERS[m % 3]]
    if m & 4:
        out += ["--pad-uv-image", 2]
    if m & 16:
        out += ["--no-export-images"]
    if c["snap"]:
        out += ["--snapshot-healpix-export", "--ps-kspan", int(c["dim"] * c["kpix"] // 2), "--ps-kbinsize", c["kpix"]] + (["--rephase-weights"] if m & 8 else []) + (["--n-avg", 1] if m & 32 else []) + (["--split-ps-export"] if m & 64 else [])
    return out


def saves(s):
    return ["--" + o for i, o in enumerate(SAVE) if s >> i & 1]


def result(out, expect=0):
    dirs = [q for q in out.iterdir()]
    check(len(dirs) == 1 and dirs[0].name.startswith("pyfhd_"), f"one output directory, got {dirs}")
    return dirs[0]


def compare(got, want, only, what):
    """All products the same, except for those only the second run has to write again."""
    data = lambda t: {k for k in t if not re.match(r"config/|checkpoints/|.*\\.log$", k)}
    missing = data(want) - data(got) - only
    extra = data(got) - data(want)
    check(not missing and not extra, f"{what}: files missing {sorted(missing)}, not expected {sorted(extra)}")
    n = 0
    for k in sorted(data(want) & data(got)):
        a, b = dict(P.flat(got[k])), dict(P.flat(want[k]))
        check(a.keys() == b.keys(), f"{what}: {k} has {sorted(set(a) ^ set(b))} in one run only")
        for q in b:
            if b[q] is None or isinstance(b[q], str):
                check(a[q] == b[q], f"{what}: {k}{q} {a[q]!r}, expected {b[q]!r}")
            else:
                equal(a[q], b[q], f"{what}: {k}{q}")
            n += 1
    return n


def expected(c, s, g, m, npol, ck):
    """The files a run writes besides its configuration."""
    names = ["XX", "YY", "XY", "YX"][:npol]
    img = ["XX", "YY", "XY_real", "XY_imag"][:npol]
    out = {"layout.h5"}
    vis = bool(s & 8) or c["snap"]  # maps are not exported without the visibilities
    gridded, images = bool(g & 1), not m & 16
    if s & 1:
        out.add("metadata/obs1_obs.h5")
    if s & 2:
        out.add("metadata/obs1_params.h5")
    if s & 4 and c["cal"]:
        out.add("calibration/obs1_cal.h5")
    if vis:
        out |= {f"visibilities/obs1_{k}.h5" for k in ("raw_vis_arr", "model_vis_arr", "calibrated_vis_arr")}
        if gridded and images:
            out |= {f"gridding/obs1_{k}_uv.h5" for k in ("image", "weights", "variance", "uniform_filter", "model")}
    if s & 16:
        out |= {f"visibilities/obs1_{k}.h5" for k in ("raw_vis_weights", "calibrated_vis_weights")}
    if gridded and images:
        f = ["uniform", "natural", "hanning"][m % 3]
        out |= {f"fits/obs1_{k}_{p}.fits" for p in img for k in (f"{f}_dirty", f"{f}_model", f"{f}_residual", "beam", "uv_weights")}
    if c["snap"]:
        for h in ("even", "odd") if m & 64 else ("",):
            out |= {f"healpix/obs1_{'hpx_' + h if h else 'healpix_cube'}_{p}.h5" for p in names}
            if vis:
                out |= {f"healpix/uvf_grid/obs1_{h}_{p}_{k}_gridded_uvf.h5" for p in names for k in ("dirty_uv_arr", "weights_uv", "variance_uv_arr", "model_uv_arr")}
    if ck:
        out |= {f"checkpoints/{ck}_{k}_checkpoint.h5" for k in ["obs"] + (["calibration"] if c["cal"] else []) + (["gridding"] if gridded else [])}
    return out


def start(c, d, **kw):
    (d / "in").mkdir(parents=True)
    (d / "pyfhd.yaml").write_text("silent : true\n")
    return P.inputs(c, rng(c["seed"]), d / "in", **kw)


def go(d, name, argv, expect=0):
    o = d / name
    P.run(list(argv) + ["-o", o], d, expect)
    return result(o)


def draw(c):
    """The options of the runs, spread evenly."""
    r = rng(c["seed"], c["opt"])
    bit = lambda n, p=0.5: int(sum(1 << i for i in range(n) if r.random() < p))
    one = lambda *x: x[int(r.integers(len(x)))]
    o = {}
    for h in "12":
        o["k" + h] = dict(flag=bit(4), tile=one(None, 1, 3), wterm=one(None, None, 1, -1), opts=bit(8))
        o["g" + h] = int(r.random() < 0.85) | bit(6) << 1
        o["m" + h] = int(r.integers(3)) | bit(2) << 2 | (16 if r.random() < 0.15 else 0) | bit(2) << 5
        o["s" + h] = bit(5)
    return o


def f_resume(c):
    c = dict(c, snap=c["snap"] and c["n_freq"] < 24)  # many maps take too long
    with scratch() as td:
        d = Path(td)
        start(c, d)
        o = draw(c)
        pre = base(c, d)
        k, g1, g2, m1, m2, s1, s2 = o["k1"], o["g1"], o["g2"], o["m1"], o["m2"], o["s1"], o["s2"]
        k2 = o["k2"] if c["from"] == "obs" else k
        if "gridding" in c["from"]:
            g1 |= 1
            g2 = g1
        desc = ["--description", c["desc"]] if c["desc"] else []
        opts = cal_opts(c, k2) + grid_opts(g2) + image_opts(m2, c) + saves(s2)
        try:
            b = go(d, "b", pre + opts + ["--description", "all"])
            a = go(d, "a", pre + cal_opts(c, k) + grid_opts(g1) + image_opts(m1, c) + saves(s1) + desc + ["--save-checkpoints"])
        except P.Starved:
            return False, ["nothing to grid"]
        npol = c["cfg_pol"] if 0 < c["cfg_pol"] <= c["n_pol"] else c["n_pol"]
        have = {str(q.relative_to(a)) for q in a.rglob("*") if q.is_file() and not re.match("config/|.*log$", str(q.relative_to(a)))}
        want = expected(c, s1, g1, m1, npol, c["desc"] or "obs1")
        check(have == want, f"files missing {sorted(want - have)}, not expected {sorted(have - want)}")
        B = P.tree(b)
        ck = {t: a / "checkpoints" / f"{c['desc'] or 'obs1'}_{n}_checkpoint.h5" for t, n in (("obs", "obs"), ("calibrate", "calibration"), ("gridding", "gridding"))}
        extra = []
        for t in c["from"].split("+"):
            extra += [f"--{t}-checkpoint", ck[t]]
        # what the checkpoint holds is not read again: the files it came from may have changed
        if c["from"] != "gridding":
            for f in ["obs1.uvfits", "obs1.metafits"] + ["model.uvfits"] * ("calibrate" in c["from"]):
                (d / "in" / f).write_text("another file by now")
            if c["sav"] and "calibrate" in c["from"]:
                for f in (d / "in" / "sav").iterdir():
                    f.unlink()
        r = go(d, "c", pre + opts + extra + ["--description", "resumed"])
        first = {"layout.h5", "visibilities/obs1_raw_vis_arr.h5", "visibilities/obs1_raw_vis_weights.h5"} if c["from"] != "gridding" else set()
        n = compare(P.tree(r), B, first | ({"visibilities/obs1_model_vis_arr.h5"} if "calibrate" in c["from"] else set()), f"resumed from {c['from']}")
        finite = all(np.isfinite(x).all() for t in B for _, x in P.flat(B[t]) if t.startswith("fits") and isinstance(x, np.ndarray))
    return n > 20, [c["from"]] + ["IDL model"] * (c["sav"] > 0) + (["images"] if any(t.startswith("fits") for t in B) else []) + (["maps"] if c["snap"] else []) + (["calibrated"] if c["cal"] else []) + ([] if finite else ["image undefined where the beam is negative"])


def f_repeat(c):
    """The configuration a run leaves behind gives the same products again."""
    c = dict(c, snap=c["snap"] and c["n_freq"] < 24)  # many maps take too long
    with scratch() as td:
        d = Path(td)
        start(c, d)
        o = draw(c)
        try:
            b = go(d, "b", base(c, d) + cal_opts(c, o["k1"]) + grid_opts(o["g1"]) + image_opts(o["m1"], c) + saves(o["s1"] | 1 << c["keep"]) + ["--description", c["desc"] or "first"])
        except P.Starved:
            return False, ["nothing to grid"]
        conf = sorted((b / "config").glob("*-final.yaml"))
        check(len(conf) == 1, f"final configuration, got {conf}")
        B = P.tree(b)
        again = c["seed"] % 2 == 0
        if again:  # in place: every product is written anew, whatever was there
            argv = ["obs1", "-c", conf[0].rename(d / "final.yaml")]
            for f in b.rglob("*"):
                if f.suffix in (".h5", ".fits"):
                    f.write_bytes(b"left from another run")
            e = go(d, "b", argv)
        else:
            e = go(d, "e", ["obs1", "-c", conf[0]])
        n = compare(P.tree(e), B, set(), "repeated from its final configuration" + " in the same directory" * again)
    return n > 20, ["in place"] * again + ["images"] * any(t.startswith("fits") for t in B) + ["maps"] * c["snap"] + ["calibrated"] * c["cal"]


scene = dict(seed=st.integers(0, 99999), opt=st.integers(0, 2**32 - 1), desc=st.sampled_from([None, "first", "a b"]), n_tile=st.integers(8, 10), n_time=st.integers(2, 4), n_freq=st.sampled_from([6, 8, 12, 96]), n_pol=st.sampled_from([2, 2, 4]), cfg_pol=st.sampled_from([0, 2, 4]), autos=st.sampled_from([True, True, False]), dim=st.sampled_from([24, 32, 40]), kpix=st.sampled_from([1.0, 2.0]), spread=st.sampled_from([0.3, 0.5]),
    za=st.sampled_from([0.0, 10.0]), pa=st.floats(0, 360), noise=st.sampled_from([0.0, 0.01]), flag=st.sampled_from([0.0, 0.02, 0.1]), tflag=st.booleans(), psf_dim=st.sampled_from([4, 6]), res=st.sampled_from([2, 5]), navg=st.sampled_from([1, 4]), minb=st.sampled_from([0, 1, 3]), lazy=st.booleans(), tcut=st.sampled_from([None, None, 5, -5]),
    cal=st.sampled_from([True, True, False]), snap=st.sampled_from([False, False, True]), sav=st.sampled_from([0, 0, 0, 0, 1, 2]))
ALL = ["--" + x for x in SAVE]


def f_stop(c):
    """Stopping after the calibration leaves out the rest and alters nothing, and neither do the options that only save."""
    c = dict(c, snap=c["snap"] and c["n_freq"] < 24)
    with scratch() as td:
        d = Path(td)
        start(c, d)
        o = draw(c)
        argv = base(c, d) + cal_opts(c, o["k1"]) + grid_opts(o["g1"]) + image_opts(o["m1"], c)
        try:
            a = P.tree(go(d, "a", argv + ALL + ["--save-checkpoints"]))
        except P.Starved:
            return False, ["nothing to grid"]
        n = 0
        for what, b in (("stopped after calibration", go(d, "b", argv + saves(o["s1"]) + ["--cal-stop"])), ("saving something else", go(d, "e", argv + saves(o["s2"])))):
            b = P.tree(b)
            b = {k: v for k, v in b.items() if not k.startswith("config/") and not k.endswith(".log")}
            odd = [k for k in b if re.match("fits|healpix|gridding", k)]
            if "stopped" in what:
                check(not odd, f"a run stopped after calibration wrote {odd}")
                want = {f"metadata/obs1_{k}.h5" for i, k in enumerate(("obs", "params")) if o["s1"] >> i & 1} | ({"calibration/obs1_cal.h5"} if o["s1"] & 4 and c["cal"] else set())
                want |= {f"visibilities/obs1_{k}.h5" for i, g in ((3, ("raw_vis_arr", "model_vis_arr", "calibrated_vis_arr")), (4, ("raw_vis_weights", "calibrated_vis_weights"))) if o["s1"] >> i & 1 or i == 3 and c["snap"] for k in g} | {"layout.h5"}
                check(set(b) == want, f"{what}: files missing {sorted(want - set(b))}, not expected {sorted(set(b) - want)}")
                later = {"metadata/obs1_obs.h5"}
            else:
                later = set()
            check(set(b) <= set(a), f"{what}: files {sorted(set(b) - set(a))} not in the run that saves everything")
            n += compare({k: v for k, v in b.items() if k not in later}, {k: a[k] for k in b if k not in later}, set(), what)
    return n > 20, ["calibrated"] * c["cal"] + ["images"] * any(k.startswith("fits") for k in a) + ["maps"] * c["snap"]


def resume(name, how, **kw):
    return Sub(name, st.fixed_dictionaries(dict(scene, **{"from": how}, **kw)), f_resume, 10, 150, rule="a run resumed from a checkpoint of another run against the whole run; non-trivial: more than 20 values compared")


SUBS = [
    resume("from_obs", st.just("obs")),
    resume("from_cal", st.sampled_from(["calibrate", "calibrate", "obs+calibrate"]), cal=st.just(True)),
    resume("from_grid", st.just("gridding")),
    resume("from_both", st.just("calibrate+gridding"), cal=st.just(True)),
    Sub("repeat", st.fixed_dictionaries(dict(scene, keep=st.integers(0, 4))), f_repeat, 10, 200, rule="a run repeated from the configuration it left; non-trivial: more than 20 values compared"),
    Sub("stop", st.fixed_dictionaries(scene), f_stop, 8, 120, rule="runs that differ in where they stop and what they save; non-trivial: more than 20 values compared"),
]
