"""P11 the options of a run: their sources, their validation and the configuration file they leave behind."""
import contextlib, io, logging, os, sys
from pathlib import Path
from core import *
from PyFHD.pyfhd_tools.pyfhd_setup import pyfhd_parser, pyfhd_setup

# name in the configuration file, kind, default (~ is None, "" a flag that is off)
TABLE = """
input-path path ./input/
recalculate-all flag
silent flag
log-file flag
instrument mwa mwa
dimension int 2048
elements int 2048
kbinsize float 0.5
FoV float ~
deproject-w-term float ~
conserve-memory flag
memory-threshold int 100000000
min-baseline float 1.0
n-pol 0|2|4 2
save-checkpoints flag
obs-checkpoint path ~
calibrate-checkpoint path ~
gridding-checkpoint path ~
override-target-phasera float ~
override-target-phasedec float ~
calibrate-visibilities flag
diffuse-calibrate path ~
transfer-calibration path ~
calibration-catalog-file-path path ~
return-cal-visibilities flag
cal-stop flag
transfer-model-uv path ~
cal-convergence-threshold float 1e-07
cal-adaptive-calibration-gain flag
cal-base-gain float ~
min-cal-baseline float 50.0
max-cal-baseline float ~
allow-sidelobe-cal-sources flag
cable-bandpass-fit flag
cal-bp-transfer path ~
calibration-polyfit flag
cal-amp-degree-fit int 2
cal-phase-degree-fit int 1
cal-reflection-hyperresolve flag
cal-reflection-mode-theory float 150
cal-reflection-mode-delay flag
cal-reflection-mode-file flag
calibration-auto-fit flag
calibration-auto-initialize flag
cal-gain-init int 1
vis-baseline-hist flag
bandpass-calibrate flag
cal-time-average flag
auto-ratio-calibration flag
digital-gain-jump-polyfit flag
calibration-flag-iterate int 0
cal-phase-fit-iter int 4
max-cal-iter int 100
flag-model flag
flag-visibilities flag
flag-calibration flag
flag-calibration-frequencies flag
flag-basic flag
flag-tiles names []
flag-frequencies flag
flag-freq-start float ~
flag-freq-end float ~
transfer-weights path ~
time-cut floats ~
beam-file-path path ~
lazy-load-beam flag
recalculate-beam flag
beam-nfreq-avg int 16
psf-dim int 54
psf-resolution int 100
beam-mask-threshold int 100
beam-model-version int 2
beam-clip-floor flag
interpolate-kernel flag
beam-per-baseline flag
dipole-mutual-coupling-factor flag
beam-offset-time float 56
recalculate-grid flag
image-filter filter_uv_uniform|filter_uv_hanning|filter_uv_natural|filter_uv_radial|filter_uv_tapered_uniform|filter_uv_optimal filter_uv_uniform
mask-mirror-indices flag
grid-weights flag
grid-variance flag
grid-uniform flag
grid-spectral flag
grid_psf_file paths []
deconvolve flag
max-deconvolution-components int 20000
dft-threshold flag
return-decon-visibilities flag
deconvolution-filter filter_uv_uniform|filter_uv_hanning|filter_uv_natural|filter_uv_radial|filter_uv_tapered_uniform|filter_uv_optimal filter_uv_uniform
smooth-width int 32
filter-background flag
output-path path ./output/
description str ~
export-images onoff True
cleanup flag
snapshot-healpix-export flag
pad-uv-image float 1.0
ring-radius-multi float 10
save-obs flag
save-params flag
save-cal flag
save-visibilities flag
save-weights flag
save-healpix-fits flag
calibration-plots flag
model-file-type sav|uvfits sav
model-file-path path ./input
diffuse-model path ~
model-catalog-file-path path ~
allow-sidelobe-model-sources flag
run-simulation flag
in-situ-sim-input path ~
eor-vis-filepath path ~
enhance-eor float 1.0
sim-noise path ~
tile-flag-list names ~
remove-sim-flags flag
extra-vis-filepath path ~
ps-kbinsize float 0.5
ps-kspan int 0
ps-beam-threshold float 0
ps-fov float ~
ps-dimension int ~
ps-degpix float ~
ps-nfreq-avg float ~
ps-tile-flag-list names []
n-avg int 2
rephase-weights flag
restrict-healpix-inds flag
healpix-inds path ~
split-ps-export flag
IDL_calibrate flag
grid_IDL_outputs flag
IDL_healpix_gridded_outputs flag
IDL_output_dir text ~
IDL_dry_run flag
IDL_variables_file text ~
"""


def default(kind, text):
    if kind == "flag":
        return False
    if kind == "onoff":
        return text == "True"
    if text == "~":
        return None
    if kind in ("names", "paths"):
        return []
    if kind == "path":
        return Path(text)
    if kind in ("str", "text") or "filter" in text or kind in ("mwa", "sav|uvfits"):
        return text
    return float(text) if kind == "float" else int(text)


OPT = {}
for line in TABLE.strip().splitlines():
    n, k, *d = line.split(" ")
    OPT[n] = (k, default(k, " ".join(d)), n.replace("-", "_"))
NAMES = sorted(OPT)
MUST_EXIST = ["cal-bp-transfer", "diffuse-calibrate", "calibration-catalog-file-path", "transfer-calibration", "transfer-model-uv", "transfer-weights", "diffuse-model", "model-catalog-file-path", "model-file-path", "in-situ-sim-input", "eor-vis-filepath", "sim-noise", "IDL_variables_file"]


def value(r, kind, name, d):
    """A random value of an option; files of the scratch directory d for paths."""
    if kind in ("flag", "onoff"):
        return bool(r.integers(2))
    if kind == "int":
        return int(r.choice([0, 1, 2, 3, 7, 64, 1000, 2**31 + 5]))
    if kind == "float":
        if name == "beam-offset-time" and r.integers(3) == 0:
            return float(r.choice([-0.5, -1.0, -3.5]))
        v = r.choice([0.0, 1.0, 2.5, 1e-7, 123456.789, 1e16, r.normal(), -r.random() * 100, r.random() / 3])
        return float(v)
    if kind == "floats":
        return [float(x) for x in r.choice([2.0, -4.0, 0.5, 12.0], size=r.integers(1, 3))]
    if kind == "names":
        return [str(x) for x in r.choice(["Tile011", "Tile 12", "T'13", "14", "Tile\"15", "tile: 16", "true", "~", "#17"], size=r.integers(1, 4))]
    if kind == "path":
        return Path(d, str(r.choice(["a", "b c", "it's", "data"])))
    if kind == "paths":
        return [str(Path(d, x)) for x in r.permutation(["p.sav", "q.npz"])[: r.integers(1, 3)]]
    if kind == "text":
        return str(Path(d, str(r.choice(["a", "b c"]))))
    if kind == "str":
        return str(r.choice(["run", "a longer run", "it's", "2014", "true", "a: b", "c #d", "~", "{x}", "- y", "5e3"]))
    v = str(r.choice(kind.split("|")))
    return int(v) if name == "n-pol" else v


def quote(v):
    return "'" + str(v).replace("'", "''") + "'"


def yaml_line(name, v):
    if v is None:
        t = "~"
    elif isinstance(v, bool):
        t = "true" if v else "false"
    elif isinstance(v, (int, float)):
        t = repr(v)
    elif isinstance(v, list):
        t = "[" + ", ".join(repr(x) if isinstance(x, float) else quote(x) for x in v) + "]"
    else:
        t = quote(v)
    return f"{name} : {t}\n"


def cli(kind, name, v, eq):
    if kind == "flag":
        return [f"--{name}"] if v else []
    if kind == "onoff":
        return [f"--{name}" if v else f"--no-{name}"]
    if kind == "names":
        return [f"--{name}={x}" for x in v] if eq else [x for y in v for x in (f"--{name}", y)]
    if kind in ("floats", "paths"):
        return [f"--{name}"] + [str(x) for x in v]
    if eq or str(v).startswith("-"):
        return [f"--{name}={v}"]
    return [f"--{name}", str(v)]


def parse(args):
    err = io.StringIO()
    try:
        with contextlib.redirect_stderr(err):
            return vars(pyfhd_parser().parse_args(args))
    except SystemExit as e:
        raise Violation(f"options {args[:12]} refused ({e.code}): {err.getvalue()[-300:]}")


def compare(got, name, want, what):
    kind, _, dest = OPT[name]
    check(dest in got, f"{what}: option {name} missing")
    g = got[dest]
    if kind == "text" and isinstance(g, Path):  # made absolute where it is checked
        g = str(g)
    check(g == want and (isinstance(want, bool) <= isinstance(g, bool)) and (want is None or type(want) is float or isinstance(g, type(want))), f"{what}: option {name} is {g!r}, expected {want!r}")


def f_options(c):
    r = rng(c["seed"])
    with scratch() as d:
        conf, args, want, from_file = "", [], {n: v for n, (_, v, _) in OPT.items()}, 0
        for name in sorted(set(c["names"])):
            kind = OPT[name][0]
            where = r.choice(["cli", "file", "both", "none"], p=[0.35, 0.35, 0.2, 0.1])
            vf, vc = value(r, kind, name, d), value(r, kind, name, d)
            if where == "none":  # a null in the file leaves the default
                conf += yaml_line(name, None)
                continue
            if where in ("file", "both"):
                conf += yaml_line(name, vf)
                want[name] = vf
                from_file += 1
            if where in ("cli", "both") and not (kind == "flag" and not vc):
                args += cli(kind, name, vc, bool(r.integers(2)))
                want[name] = vc  # the command line comes first
        Path(d, "x.yaml").write_text(conf or "silent : false\n")
        got = parse(["obs1", "-c", str(Path(d, "x.yaml"))] + args)
        check(got["obs_id"] == "obs1", "observation id")
        for name in NAMES:
            compare(got, name, want[name], "command line and file")
        again = parse(["obs2", "-c", str(Path(d, "x.yaml"))])
        for name in set(NAMES) - set(c["names"]):
            compare(again, name, want[name], "a parse does not change the next")
    return bool(args) and from_file > 0


@contextlib.contextmanager
def quiet_root():
    root = logging.getLogger()
    old, level = list(root.handlers), root.level
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            yield root
    finally:
        for h in list(root.handlers):
            if h not in old:
                h.close()
                root.removeHandler(h)
        root.setLevel(level)
        logging.captureWarnings(False)


def setup(args, what):
    """(configuration, None) or (None, exit code); the root logger is put back."""
    import argparse

    opts = argparse.Namespace(**parse(args))
    with quiet_root() as root:
        n0 = len(root.handlers)
        try:
            cfg, logger = pyfhd_setup(opts)
        except SystemExit as e:
            return None, e.code, None
        except Exception as e:
            raise Violation(f"{what}: {type(e).__name__}: {e}\n" + traceback.format_exc(limit=-3))
        kinds = [type(h).__name__ for h in root.handlers[n0:]]
        return cfg, None, kinds


RUN = {"log_name", "log_time", "config"}


def f_setup(c):
    r = rng(c["seed"])
    with scratch() as d:
        d = Path(d)
        obs = "obs1"
        for x in ["a", "b c", "it's", "data", "p.sav", "q.npz"]:
            (d / x).touch()
        inp = d / "input"
        inp.mkdir()
        for s in ("uvfits", "metafits"):
            (inp / f"{obs}.{s}").touch()
        V = {}
        for name in sorted(set(c["names"]) - {"input-path", "output-path", "model-file-path"}):
            V[name] = value(r, OPT[name][0], name, d)
            if name == "description":
                V[name] = str(r.choice(["run", "a longer run", "it's", "2014", "true", "a: b", "c #d"]))
        V["input-path"] = inp
        V["output-path"] = d / ("out" if r.integers(2) else "made for it/this run")
        (d / "out").mkdir()
        for n in ("cal-reflection-mode-file", "cal-reflection-mode-delay"):
            if r.random() < 0.25:
                V[n] = True
        if r.random() < 0.3:
            V["cal-reflection-mode-theory"] = float(r.choice([0, 90, 230.5]))
        for n in ("beam-offset-time", "pad-uv-image", "ring-radius-multi", "enhance-eor"):
            if n in V and abs(V[n]) > 1e9:
                V[n] = 2.0
        if V.get("enhance-eor", 1) != 1:
            V.setdefault("eor-vis-filepath", d / "data")
        if any(n in V for n in ("eor-vis-filepath", "in-situ-sim-input", "sim-noise")):
            V["run-simulation"] = True
        V.pop("allow-sidelobe-model-sources", None)
        V["silent"] = True
        mtype = V.setdefault("model-file-type", "sav")
        if "sav pol" in c["wrong"]:
            V["n-pol"] = int(r.choice([0, 2, 4, 4]))
        npol = V.get("n-pol", 2)
        V["model-file-path"] = d / "model.uvfits" if mtype == "uvfits" else d / "models"
        if mtype == "uvfits":
            (d / "model.uvfits").touch()
        else:
            (d / "models").mkdir()
            (d / "models" / f"{obs}_params.sav").touch()
            for p in ["XX", "YY", "XY", "YX"][: 4 if r.random() < 0.2 and not c["wrong"] else npol or 2]:
                (d / "models" / f"{obs}_vis_model_{p}.sav").touch()
        # what is wrong with this run
        broken = set()
        for w in c["wrong"]:
            if w == "input":
                V["input-path"] = d / "nowhere"
            elif w in ("uvfits", "metafits"):
                (inp / f"{obs}.{w}").unlink(missing_ok=True)
            elif w in MUST_EXIST:
                V[w] = d / "missing" if OPT[w][0] == "path" else str(d / "missing")
                if w in ("eor-vis-filepath", "in-situ-sim-input", "sim-noise"):
                    V["run-simulation"] = True
            elif w == "sidelobe":
                V["allow-sidelobe-model-sources"] = True
            elif w == "simulation":
                V["run-simulation"] = False
                V[str(r.choice(["sim-noise", "eor-vis-filepath", "in-situ-sim-input"]))] = d / "data"
            elif w == "enhance":
                V["enhance-eor"] = float(r.choice([2.0, 0.5, 0.0, -1.0]))
                V.pop("eor-vis-filepath", None)
                if "in-situ-sim-input" not in V and "sim-noise" not in V:
                    V.pop("run-simulation", None)
            elif w == "inds":
                V["healpix-inds"], V["restrict-healpix-inds"] = d / "missing", True
            elif w == "psf":
                V["grid_psf_file"] = [str(d / "data")]
            elif w == "psf missing":
                V["grid_psf_file"] = [str(d / "missing.sav")]
            elif w in ("sav params", "sav pol"):
                if mtype != "sav":
                    continue
                (d / "models" / (f"{obs}_params.sav" if w == "sav params" else f"{obs}_vis_model_{r.choice(['XX', 'YY', 'XY', 'YX'][: npol or 2])}.sav")).unlink(missing_ok=True)
                if "calibrate-checkpoint" in V:  # the model is in the checkpoint
                    continue
            broken.add(w)
        if V.get("restrict-healpix-inds") and "healpix-inds" in V and not V["healpix-inds"].exists():
            broken.add("inds")
        infile = {n for n in V if r.integers(2) or n in c["infile"]}
        conf = "".join(yaml_line(n, v) for n, v in V.items() if n in infile)
        args = ["obs1", "-c", str(d / "x.yaml")]
        for n, v in V.items():
            if n not in infile or not yaml_line(n, v):
                args += cli(OPT[n][0], n, v, True)
                if OPT[n][0] == "flag" and not v:
                    V[n] = False
        (d / "x.yaml").write_text("# nothing\n" + (conf or "silent : true\n"))
        what = f"setup ({sorted(broken) or 'valid'})"
        cfg, code, kinds = setup(args, what)
        full = {n: v for n, (_, v, _) in OPT.items()}
        full.update(V)
        yamls = [p for p in V["output-path"].rglob("*.yaml")]
        if broken:
            check(cfg is None, f"{what}: accepted")
            check(code not in (0, None), f"{what}: ended with exit status {code}, as if it had succeeded")
            check(not yamls, f"{what}: left a configuration file")
            return True, ["refused"]
        check(cfg is not None, f"{what}: refused")
        # adjustments
        W = dict(full)
        if W["snapshot-healpix-export"]:
            W["save-visibilities"] = True
        W["beam-offset-time"] = max(W["beam-offset-time"], 0)
        if W["beam-per-baseline"]:
            W["interpolate-kernel"] = False
        if W["recalculate-all"]:
            W["recalculate-beam"] = W["recalculate-grid"] = True
        if W["cal-reflection-mode-file"]:
            W["cal-reflection-hyperresolve"] = False
        modes = [W[f"cal-reflection-mode-{k}"] for k in ("file", "delay", "theory")]
        if sum(map(bool, modes)) > 1:
            W["cal-reflection-mode-file"] = W["cal-reflection-mode-delay"] = False
            W["cal-reflection-mode-theory"] = modes[2] or cfg["cal_reflection_mode_theory"]
            check(cfg["cal_reflection_mode_theory"], f"{what}: no cable reflection mode left")
        if W["cal-base-gain"] is None:
            W["cal-base-gain"] = 0.75
        for n in NAMES:
            compare(cfg, n, W[n], what)
        check(abs(cfg["ring_radius"] - full["pad-uv-image"] * full["ring-radius-multi"]) <= 1e-9 * abs(cfg["ring_radius"]), f"{what}: ring radius {cfg['ring_radius']}")
        for s in ("sav", "npz"):
            f = [p for p in full["grid_psf_file"] if p.endswith(s)]
            check(str(cfg[f"grid_psf_file_{s}"]) == f[-1] if f else not cfg[f"grid_psf_file_{s}"], f"{what}: grid_psf_file_{s} {cfg[f'grid_psf_file_{s}']}")
        check(kinds == ["FileHandler"] * bool(full["log-file"]), f"{what}: log handlers {kinds}")
        name = "pyfhd_" + (full["description"].replace(" ", "_") if full["description"] else cfg["log_time"])
        check(cfg["output_dir"] == V["output-path"] / name and cfg["output_dir"].is_dir(), f"{what}: output directory {cfg['output_dir']}")
        check(cfg["top_level_dir"] == name, f"{what}: top level directory {cfg['top_level_dir']}")
        logs = sorted(p.name for p in cfg["output_dir"].glob("*.log"))
        check(logs == [cfg["log_name"] + ".log"] * bool(full["log-file"]), f"{what}: log files {logs}")
        check(yamls == [cfg["output_dir"] / "config" / (cfg["log_name"] + ".yaml")], f"{what}: configuration files {yamls}")
        # the configuration written for this run makes the same run
        again, code, _ = setup(["obs1", "-c", str(yamls[0])], what + " from its own configuration file")
        check(again is not None, f"{what}: refused its own configuration file")
        for k in sorted(set(cfg) - RUN):
            if full["description"] is None and k in ("output_dir", "top_level_dir"):
                continue
            check(k in again and (again[k] == cfg[k] or (isinstance(cfg[k], Path) and str(again[k]) == str(cfg[k]))), f"{what}: its own configuration file gives {k} = {again.get(k)!r}, the run had {cfg[k]!r}")
    return len(V) > 8, ["accepted"] + (["several modes"] if sum(map(bool, modes)) > 1 else [])


WRONG = ["input", "uvfits", "metafits", "sidelobe", "simulation", "enhance", "inds", "psf", "psf missing", "sav params", "sav pol"] + MUST_EXIST
ADJUST = ["snapshot-healpix-export", "save-visibilities", "beam-offset-time", "beam-per-baseline", "interpolate-kernel", "recalculate-all", "recalculate-beam", "recalculate-grid", "cal-reflection-mode-file", "cal-reflection-hyperresolve",
    "cal-reflection-mode-delay", "cal-base-gain", "description", "log-file", "grid_psf_file", "pad-uv-image", "ring-radius-multi", "calibration-polyfit", "filter-background", "smooth-width", "n-pol", "model-file-type"]
names = st.lists(st.sampled_from(NAMES), max_size=25, unique=True)
SUBS = [
    Sub("options", st.fixed_dictionaries(dict(seed=st.integers(0, 2**32 - 1), names=names)), f_options, 300, 3000, rule="options on the command line, in the file, in both or neither; non-trivial: both sources used"),
    Sub("setup", st.fixed_dictionaries(dict(seed=st.integers(0, 2**32 - 1), names=names, infile=st.just([]), wrong=st.one_of(st.just([]), st.lists(st.sampled_from(WRONG), min_size=1, max_size=2, unique=True)))), f_setup, 300, 3000, rule="random runs, some of them invalid; non-trivial: refused, or several options set"),
    Sub("refuse", st.fixed_dictionaries(dict(seed=st.integers(0, 2**32 - 1), names=st.lists(st.sampled_from(["model-file-type", "n-pol", "run-simulation", "silent", "calibrate-checkpoint", "recalculate-all"]), max_size=4, unique=True), infile=st.just([]), wrong=st.integers(0, 10**6).map(lambda i: [WRONG[i % len(WRONG)]]))), f_setup, 300, 2000, rule="runs with one thing wrong; non-trivial: refused"),
    Sub("adjust", st.fixed_dictionaries(dict(seed=st.integers(0, 2**32 - 1), names=st.lists(st.sampled_from(ADJUST), min_size=6, max_size=16, unique=True), infile=st.just([]), wrong=st.just([]))), f_setup, 150, 1500, rule="options that override each other; non-trivial: several options set"),
]


def kf_cv():
    """The short name of --calibrate-visibilities reads as -c with the file "v"."""
    with scratch() as d:
        Path(d, "o.yaml").write_text("silent : true\n")
        err = io.StringIO()
        with contextlib.redirect_stderr(err), contextlib.redirect_stdout(err):
            try:
                a = pyfhd_parser().parse_args(["x", "-c", str(Path(d, "o.yaml")), "-cv"])
            except SystemExit:
                return err.getvalue().strip().splitlines()[-1]
        return None if a.calibrate_visibilities else "-cv did not turn on calibrate_visibilities"


KNOWN = dict(cv=kf_cv)
