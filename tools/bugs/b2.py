U = "PyFHD/pyfhd_tools/pyfhd_utils.py"
F = "PyFHD/flagging/flagging.py"
O = "PyFHD/data_setup/obs.py"
D = "PyFHD/data_setup/uvfits.py"
H = ["synth.py"]
CU = "PyFHD/calibration/calibration_utils.py"
VC = "PyFHD/calibration/vis_calibrate_subroutine.py"
TOY = '''
import os, sys, logging
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import synth
log = logging.getLogger("x")
r = np.random.default_rng(1)
'''
PIPE = ["synth.py", "pipeline.py", "core.py", "p03.py", "p06.py", "p14.py", "p16.py", "p25.py", "p31.py", "gridlib.py"]
RUN = '''
import os, sys, logging
os.environ["VERIF_REPO"] = os.getcwd()
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
from pathlib import Path
import p31
import pipeline as P
log = logging.getLogger("x")
SCENE = dict(seed=2, opt=1, desc=None, n_tile=9, n_time=2, n_freq=8, n_pol=2, cfg_pol=2, autos=True, dim=32, kpix=1.0, spread=0.3, za=0.0, pa=0.0, noise=0.01, flag=0.0, tflag=False, psf_dim=4, res=2, navg=4, minb=0, lazy=False, tcut=None, cal=True, snap=False)
'''
P35RUN = '''
import os, sys
os.environ["VERIF_REPO"] = os.getcwd()
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import p35
C = dict(seed=3, n_pol=2, n_jones=2, n_freq=6, n_tile=5, n_time=2, factor=1, times="any", f_time=4, pick=1, first=-2, frac=0.4, by_int=False, text=False, window=False, double=True, quality=False, absolute=False, orient="east", flags=0, days=0, later=0, res=2.0)
def go(**k):
    p35.f_transfer(dict(C, **k))
'''
BUGS = [
dict(id="P04-last-label", prop="P04", file=U,
 edits=[("                if revInd[labels[i] + 1] <= revInd.size:", "                if revInd[labels[i] + 1] < revInd.size:")],
 demo='''
import numpy as np
from PyFHD.pyfhd_tools.pyfhd_utils import region_grow
a = np.zeros((6, 9)); a[2, 2] = a[3, 6] = 1; a[3, 2] = a[2, 6] = 1
got = region_grow(a.copy(), np.array([20, 33]), low=1, high=1)
assert sorted(got) == [20, 24, 29, 33], got
''', needs="seeds in two regions, one of them the last region of the image", breaks="the last region is left unset (garbage indices)"),
dict(id="P06-horizon-m", prop="P06", file=U,
 edits=[("        m_mode[nan_vals] = 0\n", "        m_mode[nan_vals] = m_mode[nan_vals[0]]\n".replace("nan_vals[0]]", "nan_vals]"))],
 demo='''
import numpy as np
from PyFHD.pyfhd_tools.pyfhd_utils import l_m_n
dec = np.array([[-27.0, np.nan], [np.nan, -26.0]]); ra = dec + 40
l, m, n = l_m_n(dict(obsra=13.0, obsdec=-27.0), dict(image_info=dict(dec_arr=dec, ra_arr=ra)))
assert np.all(m[np.isnan(dec)] == 0) and np.all(l[np.isnan(dec)] == 0) and np.all(n[np.isnan(dec)] == 0), m
''', needs="pixels beyond the horizon (NaN coordinates)", breaks="the m direction cosine stays NaN there"),
dict(id="P08-crpix", prop="P08", file=D,
 edits=[('''    freq_ref_i = params_header["crpix4"] - 1
''', '''    freq_ref_i = params_header["crpix4"] - (1 if params_header["crpix4"] > 1 else 0)
''')], helpers=H,
 demo=TOY + '''
import tempfile
from pathlib import Path
from PyFHD.data_setup.uvfits import extract_header
synth.no_network()
with tempfile.TemporaryDirectory() as t:
    n = 3
    for crpix in (1, 2, 4):
        synth.write_uvfits(t + "/a.uvfits", dict(uu=np.ones(n), vv=np.ones(n), ww=np.ones(n), date=np.zeros(n), baseline=np.array([257, 258, 514]), vis=np.ones((n, 5, 2), complex), wts=np.ones((n, 5, 2)),
            jd0=2456528.5, freq0=1.5e8, df=8e4, crpix=crpix, order=["UU", "VV", "WW", "BASELINE", "DATE"], keys={"DATE-OBS": "2013-08-23", "OBSRA": 10.0, "OBSDEC": -27.0}, table=synth.default_table(2)))
        h = extract_header(dict(input_path=t, obs_id="a", instrument="mwa"), log)[0]
        assert np.allclose(h["frequency_array"], 1.5e8 + (np.arange(5) + 1 - crpix) * 8e4), (crpix, h["frequency_array"])
''', needs="a file whose reference frequency is that of the first channel (CRPIX4 = 1)", breaks="every frequency is one channel too high"),
dict(id="P09-elements", prop="P09", file=O,
 edits=[('''(np.abs(ky_arr) / obs["kpix"] < obs["elements"] / 2)''', '''(np.abs(ky_arr) / obs["kpix"] < obs["dimension"] / 2)''')], helpers=H,
 demo=TOY + '''
from PyFHD.data_setup.obs import create_obs
synth.no_network()
f = np.array([1.5e8, 1.51e8])
uu = np.array([0, 10, 20, 30, 5.]) / 1.5e8; vv = np.array([0, 5, 9, 28, 2.]) / 1.5e8
hdr = dict(n_pol=2, n_tile=3, n_freq=2, freq_res=1e6, frequency_array=f, lat=-26.7, lon=116.67, alt=377.0, obsra=10.0, obsdec=-27.0)
par = dict(uu=uu, vv=vv, ww=uu * 0, time=np.full(5, 2456528.2), antenna1=np.array([1, 1, 1, 2, 2]), antenna2=np.array([1, 2, 3, 2, 3]))
cfg = dict(n_pol=2, instrument="mwa", obs_id="nofile", beam_nfreq_avg=1, FoV=None, kbinsize=1.0, dimension=64, elements=32, min_baseline=None, time_cut=None, dft_threshold=False, healpix_inds=None,
    input_path="/nonexistent", override_target_phasera=None, override_target_phasedec=None, run_simulation=False)
obs = create_obs(hdr, par, dict(antenna_numbers=np.array([1, 2, 3])), cfg, log)
assert np.isclose(obs["max_baseline"], 1.51e8 * np.hypot(uu[2], vv[2])), obs["max_baseline"]
''', needs="a grid with more columns than rows and a baseline beyond the rows only", breaks="the maximum baseline covers baselines outside the uv plane"),
dict(id="P10-iat", prop="P10", file=D,
 edits=[('''            layout["nleap_sec"] = layout["diff_utc"]''', '''            layout["nleap_sec"] = layout["dut1"]''')], helpers=H,
 demo=TOY + '''
import tempfile
from PyFHD.data_setup.uvfits import create_layout
t = synth.antenna_table(2, dict(ANNAME=("8A", np.array(["a", "b"])), STABXYZ=("3D", np.zeros((2, 3))), NOSTA=("1J", np.array([1, 2]))), {"TIMESYS": "IAT", "DATUTC": 35.0, "UT1UTC": 0.25})
with tempfile.TemporaryDirectory() as d:
    got = create_layout(t.header, t.data, dict(output_dir=d), log)
assert got["nleap_sec"] == 35.0, got["nleap_sec"]
''', needs="time system IAT, DATUTC given, IATUTC missing", breaks="the number of leap seconds is UT1-UTC instead of the difference to UTC"),
dict(id="P12-last-pol", prop="P12", file=F,
 edits=[("        tile_use *= tile_use_temp\n", "        tile_use = tile_use_temp if pol_i % 2 else tile_use * tile_use_temp\n")], helpers=H,
 demo=TOY + '''
from PyFHD.flagging.flagging import vis_flag_basic
obs, par, vis, w = synth.toy(r, n_tile=4, n_freq=384)
bi = obs["baseline_info"]
w[0][:, (bi["tile_a"] == 3) | (bi["tile_b"] == 3)] = 0
w, obs = vis_flag_basic(w, vis, obs, dict(flag_freq_start=None, flag_freq_end=None, flag_tiles=[], flag_frequencies=True), log)
assert list(obs["baseline_info"]["tile_use"]) == [1, 1, 0, 1], obs["baseline_info"]["tile_use"]
''', needs="a tile without data in the first polarization only", breaks="the tile is kept in use"),
dict(id="P13-second-pass", prop="P13", file=F,
 edits=[("    tile_mean2 = idl_median(tile_fom[tile_cut0])\n    tile_dev2 = np.std(tile_fom[tile_cut0])", "    tile_mean2 = idl_median(tile_fom[tile_cut0])\n    tile_dev2 = np.std(tile_fom[tile_nonzero])")], helpers=H,
 demo=TOY + '''
from PyFHD.flagging.flagging import vis_flag
obs, par, vis, w = synth.toy(r, n_tile=48, n_time=1, n_freq=20, n_pol=1)
bi = obs["baseline_info"]
obs["min_baseline"] = 0
g = np.ones(48); g[5] = 3000; g[9] = 30
vis = vis * np.where(bi["tile_a"] == bi["tile_b"], g[bi["tile_a"] - 1], 1)
w, obs = vis_flag(vis, w, obs, par, log)
assert list(np.flatnonzero(obs["baseline_info"]["tile_use"] == 0)) == [5, 9], obs["baseline_info"]["tile_use"]
''', needs="about forty tiles with a violent outlier and a moderate one", breaks="the moderate outlier survives: the first pass does not tighten the second"),
dict(id="P14-edge", prop="P14", file=U,
 edits=[('''        (xmin <= 0) | ((xmin + psf_dim - 1) >= obs["dimension"] - 1)''', '''        (xmin <= 0) | ((xmin + psf_dim - 1) > obs["dimension"] - 1)''')], helpers=H,
 demo=TOY + '''
from PyFHD.pyfhd_tools.pyfhd_utils import vis_weights_update
obs, par, vis, w = synth.toy(r, n_tile=3, n_time=1, n_freq=1, n_pol=1, dim=32, kpix=1.0)
n = par["uu"].size
par["uu"][:] = (np.arange(n) + 4.5) / 1.5e8
par["vv"][:] = -2.5 / 1.5e8
obs["min_baseline"] = 0
got, _ = vis_weights_update(w, obs, dict(dim=14), par)
xmin = np.arange(n) + 4 + 16 - 6
want = xmin + 13 < 31
assert np.array_equal(got[0, 0] > 0, want), (got, want)
''', needs="a kernel whose last row falls on the last row of the grid", breaks="a visibility that cannot be gridded keeps its weight"),
dict(id="P15-odd", prop="P15", file=U,
 edits=[("        vis_weights[pol_i] = 0\n        # No", "        vis_weights[pol_i] = np.minimum(vis_weights[pol_i], 1)\n        # No")], helpers=H,
 demo=TOY + '''
from PyFHD.pyfhd_tools.pyfhd_utils import split_vis_weights
obs, par, vis, w = synth.toy(r, n_tile=3, n_time=5, n_freq=2)
nb = obs["n_baselines"]
got, bi = split_vis_weights(obs, w)
assert np.all(got[..., 4 * nb:] == 0) and np.all(got[..., :4 * nb] == 1), got
''', needs="an odd number of times (or a cut time)", breaks="the visibilities of the unpaired time keep their weights"),
dict(id="P16-five-solutions", prop="P16", file=VC,
 edits=[("                    if n_arr[tile_i] >= min_cal_solutions:", "                    if n_arr[tile_i] > min_cal_solutions:")], helpers=H,
 demo=TOY + '''
from PyFHD.calibration.vis_calibrate_subroutine import vis_calibrate_subroutine
n = 9
obs, par, model, w = synth.toy(r, n_tile=n, n_time=1, n_freq=2, n_pol=2, autos=False, dim=1024)
bi = obs["baseline_info"]
model += 5
g = 1 + 0.1 * r.normal(size=(2, 2, n)) + 0.02j * r.normal(size=(2, 2, n))
a, b = bi["tile_a"] - 1, bi["tile_b"] - 1
vis = model * g[:, :, a] * np.conj(g[:, :, b])
j = np.flatnonzero((a == 4) | (b == 4))
w[:, :, j[5:]] = 0   # tile 4 keeps five baselines
cal = dict(n_pol=2, ref_antenna=1, ref_antenna_name="", gain=np.ones((2, 2, n), complex))
cfg = dict(min_cal_baseline=None, max_cal_baseline=None, cal_time_average=False, max_cal_iter=200, cal_convergence_threshold=1e-9, cal_adaptive_calibration_gain=False, cal_base_gain=1.0, cal_phase_fit_iter=4)
got = vis_calibrate_subroutine(vis, model, w, obs, cal, par, cfg, log)["gain"]
assert np.allclose(np.abs(got), np.abs(g), atol=1e-4), np.abs(got) / np.abs(g)
''', needs="a tile with exactly the minimum number (five) of usable baselines", breaks="its gain decays to zero"),
dict(id="P17-neg-weights", prop="P17", file=CU,
 edits=[('''            weights_use = np.maximum(weights_use, np.zeros_like(weights_use))
            weights_use = np.minimum(weights_use, np.ones_like(weights_use))
''', '''            weights_use = np.minimum(np.abs(weights_use), np.ones_like(weights_use))
''')], helpers=H,
 demo=TOY + '''
from PyFHD.calibration.calibration_utils import vis_calibration_apply
obs, par, model, w = synth.toy(r, n_tile=4, n_freq=3, n_pol=4)
vis = model.copy(); vis[2] *= np.exp(-0.7j); vis[3] *= np.exp(0.7j)
bad = np.arange(w.shape[-1]) % 3 == 0
vis[:, :, bad] *= 50 * np.exp(2j)
w[:, :, bad] = -1
cal = vis_calibration_apply(vis, obs, dict(gain=np.ones((2, 3, 4), complex)), model, w, log)[1]
assert np.isclose(cal["cross_phase"], 0.7), cal["cross_phase"]
''', needs="four polarizations and negative (flagged) weights", breaks="flagged data count in the phase between the X and Y feeds"),
dict(id="P18-cable-flagged", prop="P18", file=CU,
 edits=[('''                (obs["baseline_info"]["tile_use"])
                & (cable_len == cable_length_ref[cable_i])
''', '''                (np.isin(cable_len, cable_len[tile_use]))
                & (cable_len == cable_length_ref[cable_i])
''')], helpers=H,
 demo=TOY + '''
import importlib.resources as ir
from PyFHD.calibration.calibration_utils import vis_cal_bandpass
n, nf = 128, 8
length = np.loadtxt(ir.files("PyFHD.templates").joinpath("mwa_cable_reflection_coefficients.txt"), skiprows=1)[:, 2]
shape = 1 + 0.1 * np.arange(nf)
gain = np.ones((1, nf, n), complex) * shape[:, None]
use = np.ones(n, int)
k = np.flatnonzero(length == np.unique(length)[0])
bad = k[: len(k) // 2 + 1]
use[bad] = 0
gain[:, :, bad] = 1 + (np.arange(nf)[:, None] % 2)
obs = dict(n_pol=1, n_freq=nf, n_tile=n, baseline_info=dict(freq=1.8e8 + 8e4 * np.arange(nf), freq_use=np.ones(nf, int), tile_use=use))
cfg = dict(cal_bp_transfer=None, cable_bandpass_fit=True, instrument="mwa", auto_ratio_calibration=False)
bp, rest = vis_cal_bandpass(obs, dict(n_pol=1, gain=gain), cfg, log)
got = bp["gain"][0][:, k[-1]]
assert np.allclose(got, shape / shape.mean()), got
''', needs="a bandpass per cable length and flagged tiles", breaks="the flagged tiles take part in the average of their cable length"),
dict(id="P19-theory-pol", prop="P19", file=CU,
 edits=[("""            if cal_mode_fit > 0:
                cable_cut_i = np.where(cable_length != cal_mode_fit)""", """            if cal_mode_fit > 0:
                cable_cut_i = np.where(cable_length > cal_mode_fit)""")], helpers=H,
 demo=TOY + '''
import importlib.resources as ir
from PyFHD.calibration.calibration_utils import vis_cal_polyfit
nf, n = 60, 128
length = np.loadtxt(ir.files("PyFHD.templates").joinpath("mwa_cable_length.txt"), skiprows=1)[:, 2]
obs = dict(n_pol=1, n_freq=nf, n_tile=n, baseline_info=dict(freq=1.8e8 + 1e5 * np.arange(nf), freq_use=np.ones(nf, int), tile_use=np.ones(n, int)))
cfg = dict(cal_reflection_mode_theory=150, cal_reflection_mode_file=False, cal_reflection_mode_delay=False, cal_reflection_hyperresolve=False, cal_amp_degree_fit=2, cal_phase_degree_fit=1, digital_gain_jump_polyfit=False, instrument="mwa")
gain = 1 + 0.1 * r.normal(size=(1, nf, n)) + 0.1j * r.normal(size=(1, nf, n))
got = vis_cal_polyfit(obs, dict(n_pol=1, gain=gain.copy()), None, cfg, log)["mode_params"][0]
assert np.all(got[length != 150] == 0) and np.any(got[length == 150] != 0), set(length[got[:, 0] != 0])
''', needs="fitting a selected cable length longer than some others", breaks="tiles with shorter cables get a reflection too"),
dict(id="P20-flag-neighbour", prop="P20", file=CU,
 edits=[('''            maximum = min(obs["n_freq"], freq_i_flag[freq_i] + 2)''', '''            maximum = min(obs["n_freq"], freq_i_flag[freq_i] + 1)''')], helpers=H,
 demo=TOY + '''
from PyFHD.calibration.calibration_utils import vis_cal_auto_fit
nf, n = 24, 2
auto = 4 + np.sin(np.arange(nf * n).reshape(1, nf, n))
model = np.ones_like(auto)
gain = (0.5 * np.sqrt(auto) + 0.25) * np.exp(0.3j)
use = np.ones(nf, int); use[10] = 0
gain[:, 9:12] *= 3   # the edge channels leak
obs = dict(n_freq=nf, n_tile=n, n_pol=1, baseline_info=dict(freq_use=use))
got = vis_cal_auto_fit(obs, dict(n_pol=1, gain=gain.copy()), auto, model, np.array([0, 1]))
assert np.allclose(got["auto_params"][:, 0, 0], [0.25, 0.5]), got["auto_params"]
''', needs="a flagged channel whose upper neighbour deviates", breaks="the neighbour above takes part in the fit"),
dict(id="P21-one-pass", prop="P21", file=CU,
 edits=[('''        n_cut = freq_cut_i.size + tile_cut_i.size
        iter = 0
''', '''        n_cut = freq_cut_i.size + tile_cut_i.size
        iter = 2
''')], helpers=H,
 demo=TOY + '''
from PyFHD.calibration.calibration_utils import vis_calibration_flag
nf, n = 64, 60
gain = 1 + 0.001 * r.normal(size=(1, nf, n)) + 0j
gain[0, 10] += 0.5 * r.normal(size=n); gain[0, 30] += 0.03 * r.normal(size=n)
obs = dict(n_freq=nf, n_tile=n, n_pol=1, baseline_info=dict(freq_use=np.ones(nf, int), tile_use=np.ones(n, int)))
cfg = dict(cal_amp_degree_fit=2, cal_phase_degree_fit=1, flag_calibration_frequencies=True)
obs = vis_calibration_flag(obs, dict(n_pol=1, gain=gain), cfg, log)
fu = obs["baseline_info"]["freq_use"]
assert list(np.flatnonzero(fu == 0)) == [10, 30], np.flatnonzero(fu == 0)
''', needs="a violent outlying channel hiding a moderate one", breaks="the search for outliers stops after one pass"),
dict(id="P11-zero-null", prop="P11", file="PyFHD/pyfhd_tools/pyfhd_setup.py",
 edits=[('''                if pyfhd_config[key] == None:
''', '''                if pyfhd_config[key] is not False and not pyfhd_config[key]:
''')],
 demo=TOY.replace("import synth\n", "") + '''
import tempfile
from pathlib import Path
from PyFHD.pyfhd_tools.pyfhd_setup import pyfhd_parser, write_collated_yaml_config
with tempfile.TemporaryDirectory() as t:
    p = Path(t, "a.yaml"); p.write_text("silent : true\\n")
    o = vars(pyfhd_parser().parse_args(["obs", "-c", str(p), "--cal-phase-fit-iter", "0", "--cal-amp-degree-fit", "0", "--min-baseline", "0"]))
    o.update(log_name="run", commit="x")
    write_collated_yaml_config(o, t)
    q = vars(pyfhd_parser().parse_args(["obs", "-c", str(Path(t, "run.yaml"))]))
    for k in o:
        if k not in ("config", "config_file", "log_name", "commit"):
            assert q[k] == o[k], (k, q[k], o[k])
''', needs="an option given as 0 whose default is not 0, and the run repeated from the configuration file it wrote", breaks="the repeated run uses the default instead of 0"),
dict(id="P07-first-string", prop="P07", file="PyFHD/io/pyfhd_io.py",
 edits=[("    if np.any(_is_string(array)):\n", "    if _is_string(array.flat[0]):\n")],
 demo=TOY.replace("import synth\n", "") + '''
import tempfile
from PyFHD.io.pyfhd_io import save, load
with tempfile.TemporaryDirectory() as t:
    save(t + "/a.h5", dict(names=np.array([None, "12", "013"], object), x=1), "d")
    got = load(t + "/a.h5")["names"]
    assert list(got) == ["", "12", "013"], got
''', needs="an array of text whose first entry is missing", breaks="the names are saved as numbers (or the save fails)"),
dict(id="P22-freq-range", prop="P22", file="PyFHD/gridding/gridding_utils.py",
 edits=[('''        dist_test_max = np.max(obs["baseline_info"]["freq"]) * dist_test
''', '''        dist_test_max = np.max(frequency_array, initial=0) * dist_test
''')], helpers=H,
 demo=TOY + '''
from PyFHD.gridding.gridding_utils import baseline_grid_locations
obs, par, vis, w = synth.toy(r, 5, 1, 8, 1, autos=False, df=5e6, dim=512)
bi = obs["baseline_info"]
psf = dict(dim=4, resolution=8)
k = np.hypot(par["uu"], par["vv"])
b = np.argmax(k)
obs["max_baseline"] = k[b] * (bi["freq"][-1] + bi["freq"][-2]) / 2
w = np.ones((8, k.size))
bi["freq_use"] = np.ones(8, int); bi["freq_use"][-1] = 0
got = baseline_grid_locations(obs, psf, par, w, log)
assert np.all(got["xmin"][:, b] == -1), got["xmin"][:, b]
''', needs="the highest channels unused and a baseline beyond the maximum only in them", breaks="the baseline limits depend on the channels in use, so such a baseline is gridded"),
dict(id="P23-nf-vis", prop="P23", file="PyFHD/gridding/visibility_grid.py",
 edits=[("        n_vis_arr[fi_use[fi]] = np.sum(xmin[fi, :] > 0)\n", "        n_vis_arr[fi] = np.sum(xmin[fi, :] > 0)\n")], helpers=H + ["gridlib.py", "core.py"],
 demo=TOY + '''
import gridlib
from PyFHD.gridding.visibility_grid import visibility_grid
c = dict(n_freq=6, n_time=1, n_pol=1, dim=32, elem=32, kpix=0.5, n_tile=5, spread=0.2, df=1e5, flag=0.0, cut=0, qmin=0.0, qmax=1.0, psf_dim=4, res=4)
obs, par, vis, w = gridlib.scene(c, r)
psf, beam = gridlib.psf_dict(r, c, obs, 1)
obs["nf_vis"] = np.zeros(6)
obs["baseline_info"]["freq_use"] = np.array([0, 1, 1, 0, 1, 0])
cfg = dict(mask_mirror_indices=False, beam_per_baseline=False, interpolate_kernel=False, grid_uniform=False, grid_spectral=False, grid_weights=True, grid_variance=True)
import inspect
g = visibility_grid(vis[0], np.ones(vis[0].shape), obs, psf, par, 0, cfg, log, uniform_flag=False)
n = g["obs"]["nf_vis"] if "obs" in g else obs["nf_vis"]
assert np.array_equal(n > 0, [0, 1, 1, 0, 1, 0]), n
''', needs="unused channels below used ones", breaks="the numbers of visibilities per channel land in the wrong channels"),
dict(id="P23-group-clash", prop="P23", file="PyFHD/gridding/visibility_grid.py",
 edits=[("            group_max = np.max(group_id) + 1\n", "            group_max = max(np.max(group_id), 1)\n")], helpers=H + ["gridlib.py", "core.py"],
 demo=TOY + '''
import gridlib
from PyFHD.gridding.visibility_grid import visibility_grid
c = dict(n_freq=1, n_time=2, n_pol=1, dim=32, elem=32, kpix=0.5, n_tile=6, spread=0.1, df=1e5, flag=0.0, cut=0, qmin=0.0, qmax=1.0, psf_dim=4, res=4)
obs, par, vis, w = gridlib.scene(c, r)
bi = obs["baseline_info"]
nb = obs["n_baselines"]
# every second baseline lies a kernel step further and belongs to the other group
g = np.arange(nb) % 2
for t in range(2):
    s = slice(t * nb, (t + 1) * nb)
    par["uu"][s] = (3.05 + 0.25 * (1 - g)) * 0.5 / bi["freq"][0]
    par["vv"][s] = -2.05 * 0.5 / bi["freq"][0]
psf, beam = gridlib.psf_dict(r, c, obs, 1)
psf["id"][:] = g * 1
obs["nf_vis"] = np.zeros(1)
cfg = dict(mask_mirror_indices=False, beam_per_baseline=False, interpolate_kernel=False, grid_uniform=False, grid_spectral=False, grid_weights=True, grid_variance=True)
def run(v):
    return visibility_grid(v, np.ones(v.shape), obs, psf, par, 0, cfg, log, uniform_flag=False)["image_uv"]
one = run(vis[0])
psf["id"][:] = 0
two = run(vis[0])
assert np.allclose(one, two), np.abs(one - two).max()
''', needs="beam groups per baseline, and baselines of different groups at neighbouring kernel places of one pixel", breaks="the kernel of one baseline is used for another"),
dict(id="P24-cut-edge", prop="P24", file="PyFHD/gridding/gridding_utils.py",
 edits=[("            cut_i = np.where(rarray.flatten() > np.abs(baseline_threshold))\n", "            cut_i = np.where(rarray.flatten() >= np.abs(baseline_threshold))\n")], helpers=H,
 demo=TOY + '''
from PyFHD.gridding.gridding_utils import dirty_image_generate
uv = np.zeros((16, 16), complex); uv[8, 12] = 1
got = dirty_image_generate(uv, dict(image_filter="filter_uv_natural"), log, baseline_threshold=-4, width_smooth=1)[0]
assert np.abs(got).max() > 0, got
''', needs="a negative baseline threshold equal to the distance of a pixel", breaks="baselines of exactly that length are removed too"),
dict(id="P26-view", prop="P26", file="PyFHD/beam_setup/beam_utils.py",
 edits=[('''call copy
                    params = beam_gaussian_params[pol_i, fbin, :].copy()
''', '''call copy
                    params = beam_gaussian_params[pol_i, fbin, :]
''')],
 demo=TOY.replace("import synth\n", "") + '''
from PyFHD.beam_setup.beam_utils import beam_image
n = 16
obs = dict(dimension=n, elements=n, kpix=0.5, n_pol=1, n_freq=2, baseline_info=dict(fbin_i=np.array([0, 1]), freq=np.array([1.4e8, 1.5e8]), freq_use=np.ones(2, int)))
psf = dict(dim=4, fnorm=np.ones(2), pix_horizon=20.0, id=np.zeros((1, 2, 3), int), beam_ptr=np.ones((1, 2, 2, 2, 16), complex), resolution=1, beam_gaussian_params=np.array([[[1.0, 13, 4, 13, 5], [1.0, 13, 3, 13, 4]]]))
a = beam_image(psf, obs, 0, square=True)
b = beam_image(psf, obs, 0, square=True)
assert np.array_equal(a, b), np.abs(a - b).max()
''', needs="a beam with Gaussian parameters whose squared image is made more than once (every frequency of a cube, every half)", breaks="the parameters of the beam change with every image, so later images are wrong"),
dict(id="P27-two-corners", prop="P27", file="PyFHD/healpix/healpix_utils.py",
 edits=[("        hpx_mask = hpx_mask00 * hpx_mask01 * hpx_mask10 * hpx_mask11\n", "        hpx_mask = hpx_mask00 * hpx_mask11\n")], helpers=H + ["p27.py", "p06.py", "core.py"],
 demo=TOY + '''
import p27
from PyFHD.healpix.healpix_utils import healpix_cnv_generate
from PyFHD.pyfhd_tools.unit_conv import radec_to_pixel
import healpy as hp
c = dict(site="mwa", jd=2456528.0, za=10.0, pa=30.0, dim=24, elem=24, kpix=1.0, xi=0.0, eta=0.0, freq=1.5e8)
obs, alt = p27.scene(c, r)
mask = (r.random((24, 24)) < 0.8).astype(float)
cnv, obs = healpix_cnv_generate(obs, mask, 15.0, dict(restrict_healpix_inds=False, healpix_inds=None), log, nside=32)
ra, dec = hp.pix2ang(32, cnv["inds"], lonlat=True)
x, y = radec_to_pixel(ra, dec, obs["astr"])
i, j = np.floor(x).astype(int), np.floor(y).astype(int)
for a in (0, 1):
    for b in (0, 1):
        assert np.all(mask[j + b, i + a] == 1), (a, b)
''', needs="a mask whose edge runs diagonally, so that only one of the other two surrounding pixels is masked", breaks="HEALPix pixels next to masked image pixels are kept and interpolate them"),
dict(id="P28-first-pol-flags", prop="P28", file="PyFHD/healpix/healpix_utils.py",
 edits=[("            flag_test = np.maximum(np.maximum(vis_weights[0], vis_weights[1]), 0)\n", "            flag_test = np.maximum(np.minimum(vis_weights[0], vis_weights[1]), 0)\n")], helpers=H + ["gridlib.py", "core.py"],
 demo=TOY + '''
import gridlib
from PyFHD.healpix.healpix_utils import vis_model_freq_split
c = dict(n_freq=2, n_time=1, n_pol=2, dim=32, elem=32, kpix=0.5, n_tile=5, spread=0.2, df=1e5, flag=0.0, cut=0, qmin=0.0, qmax=1.0, psf_dim=4, res=4)
obs, par, vis, w = gridlib.scene(c, r)
w[:] = 1; w[0, :, 3] = 0
psf, beam = gridlib.psf_dict(r, c, obs, 2)
cfg = dict(mask_mirror_indices=False, beam_per_baseline=False, interpolate_kernel=False, grid_uniform=False, grid_spectral=False, grid_weights=True, grid_variance=True, n_avg=1, rephase_weights=False)
def run(b):
    obs["nf_vis"] = np.zeros(2)
    return vis_model_freq_split(obs, psf, par, w, vis * 0.5, vis, 1, cfg, log, fft=False, save_uvf=False, bi_use=b)["residual_arr"]
assert np.allclose(run(None), run(np.arange(w.shape[-1]))), "baselines of the second polarization are missing"
''', needs="baselines flagged in one polarization only, and no selection of baselines", breaks="they are left out of the cubes of the other polarization too"),
dict(id="P29-offset-sign", prop="P29", file="PyFHD/source_modeling/vis_model_transfer.py",
 edits=[("        flaginfo_model.unique_times += rounded_offset / (24.0 * 60 * 60)\n", "        flaginfo_model.unique_times -= rounded_offset / (24.0 * 60 * 60)\n")], helpers=H,
 demo=TOY + '''
from pathlib import Path
from PyFHD.source_modeling.vis_model_transfer import flag_model_visibilities
a, b = np.triu_indices(3, 1)
t = np.array([0.0, 8.0, 16.0, 24.0])
P = lambda t: dict(antenna1=np.tile(a + 1, len(t)), antenna2=np.tile(b + 1, len(t)), time=np.repeat(2456528.0 + t / 86400, a.size))
vis = r.normal(size=(1, 2, 12)) + 0j
obs = dict(n_pol=1, n_freq=2, time_res=8.0, baseline_info=dict(tile_names=np.arange(1, 4)))
got = flag_model_visibilities(vis, P(t[1:3] + 3.0), P(t), obs, dict(input_path="/in", obs_id="o", model_file_path="/m.uvfits"), log)
assert np.array_equal(got, vis[:, :, 3:9]), got
''', needs="model times offset from those of the data by more than a quarter of the time resolution, with more time steps in the model", breaks="the data gets the model of the time step next to its own"),
dict(id="P30-intercept", prop="P30", file="PyFHD/calibration/calibrate.py",
 edits=[("    x = np.vstack([pseudo_u_model, np.ones(pseudo_u_model.size)]).T\n", "    x = np.vstack([pseudo_u_model, np.zeros(pseudo_u_model.size)]).T\n")],
 demo=TOY.replace("import synth\n", "") + '''
from PyFHD.calibration.calibrate import calibrate_qu_mixing
n = (4, 3, 30)
vis = r.normal(size=n) + 1j * r.normal(size=n)
obs = dict(n_freq=3, n_time=2, n_baselines=15)
q = r.normal(size=n[1:]) + 1j * r.normal(size=n[1:])
vis[0], vis[1] = 0, (q * np.exp(0.4j)) + 3 + 2j
vis[2], vis[3] = q, 0
assert abs(calibrate_qu_mixing(vis, vis.copy(), np.ones(n), obs)) < 1e-9
''', needs="a model whose pseudo Q has an offset that does not come from pseudo U", breaks="the angle of the model is biased, identical data and model give an angle"),
dict(id="P32-odd-mirror", prop="P32", file="PyFHD/gridding/gridding_utils.py",
 edits=[("    conj_mirror_image = np.roll(conj_mirror_image, 1, axis=(1, 0))\n", "    conj_mirror_image = np.roll(\n        conj_mirror_image, conj_mirror_image.shape[0] % 2 - 1, axis=(1, 0)\n    )\n    if conj_mirror_image.shape[0] % 2 == 0:\n        conj_mirror_image = np.roll(conj_mirror_image, 2, axis=(1, 0))\n")],
 demo=TOY.replace("import synth\n", "") + '''
from PyFHD.gridding.gridding_utils import conjugate_mirror
for n in ((4, 4), (6, 4), (5, 5), (5, 4), (1, 3)):
    uv = np.fft.fft2(r.normal(size=n))
    assert np.allclose(conjugate_mirror(uv), uv), n
''', needs="an image with an odd number of rows", breaks="the mirror is about the middle pixel instead of the origin"),
dict(id="P33-horizon", prop="P33", file="PyFHD/io/pyfhd_quickview.py",
 edits=[("    horizon_mask[horizon_test] = 0\n", "    horizon_mask[horizon_test & (beam_horizon(obs_out) > 0)] = 0\n"), ("def quickview(\n", '''def beam_horizon(obs: dict) -> NDArray[np.float64]:
    """The pixels of an image within the square enclosed by the horizon of an untilted field"""
    extent = np.degrees(1) / np.abs(obs["astr"]["cdelt"])
    x = np.abs(np.arange(obs["dimension"]) - obs["dimension"] / 2) <= extent[0]
    y = np.abs(np.arange(obs["elements"]) - obs["elements"] / 2) <= extent[1]
    return np.outer(y, x).astype(np.float64)


def quickview(
''')], helpers=H + ["p33.py", "p26.py", "p24.py", "p06.py", "p04.py", "gridlib.py", "idlsav.py", "core.py"],
 demo=TOY + '''
import p33
c = dict(seed=3, n=8, pd=4, n_freq=2, navg=1, n_pol=1, cut=0.0, kpix=0.5, df=1, groups=1, gauss=False, lobes=1, peaked=True, h5=False, pad=1, fl=False, s=127, ra=10.0, dec=-27.0, xi=0.0, eta=0.0)
for seed in range(6):
    for k in (0.5, 0.3, 0.4):
        p33.f_quick(dict(c, seed=seed, kpix=k))
''', needs="an image that reaches beyond the horizon in both directions (kpix below 0.5)", breaks="the corners beyond the horizon keep their beam, so the images there are not zero"),
dict(id="P25-shared-base", prop="P25", file="PyFHD/calibration/calibrate.py",
 edits=[("    cal_base = deepcopy(cal)\n", "    cal_base = dict(cal)\n")], helpers=PIPE,
 demo=RUN + """
from PyFHD.calibration.calibrate import calibrate
import p25
case = dict(seed=3, n_tile=10, n_time=1, n_freq=8, n_pol=2, amp=0.0, phase=0.0, f_freq=0, f_tile=0, f_one=0, by_flag="both", wvals=False, autos=True, noise=0.02, wild=False, p=0, iters=40, init=1, force=dict(auto_fit=True))
r, o, obs, par, model, w, vis, a, b, *_ = p25.build(case)
on = calibrate(obs, par, vis.copy(), w, model, p25.config(case, o, p25.rng(1)), log)[1]
case["force"] = {}
r, o, obs, par, model, w, vis, a, b, *_ = p25.build(case)
off = calibrate(obs, par, vis.copy(), w, model, p25.config(case, o, p25.rng(1)), log)[1]
assert np.allclose(on["gain_residual"], off["gain"] - on["gain"]), np.abs(on["gain_residual"]).max()
""", needs="a stage that alters the gains in place (auto-correlation amplitudes, antenna ratios)", breaks="the residual gains are taken against gains that have already been altered"),
dict(id="P25-autofit-base", prop="P25", file="PyFHD/calibration/calibrate.py",
 edits=[("        cal_auto = vis_cal_auto_fit(obs, cal, vis_auto", "        cal_auto = vis_cal_auto_fit(obs, deepcopy(cal_base), vis_auto")], helpers=PIPE,
 demo=RUN + """
from PyFHD.calibration.calibrate import calibrate
import p25
case = dict(seed=3, n_tile=10, n_time=1, n_freq=8, n_pol=2, amp=0.0, phase=0.0, f_freq=0, f_tile=0, f_one=0, by_flag="both", wvals=False, autos=True, noise=0.02, wild=False, p=0, iters=40, init=1, force=dict(auto_fit=True, poly=True))
r, o, obs, par, model, w, vis, a, b, *_ = p25.build(case)
cal = calibrate(obs, par, vis.copy(), w, model, p25.config(case, o, p25.rng(1)), log)[1]
ph = np.unwrap(np.angle(cal["gain"]), axis=1)
assert np.abs(np.diff(ph, 2, axis=1)).max() < 1e-6, "the phases of a linear phase fit are a straight line"
""", needs="auto-correlation amplitudes together with a polynomial fit or bandpass", breaks="the fitted phases (and everything else of the fit) are lost"),
dict(id="P31-early-deproject", prop="P31", file="PyFHD/pyfhd.py",
 edits=[('''        if pyfhd_config["deproject_w_term"] is not None:
            w_term_start = time.time()
            vis_arr = simple_deproject_w_term(
                obs, params, vis_arr, pyfhd_config["deproject_w_term"], logger
            )
            w_term_end = time.time()
            _print_time_diff(
                w_term_start, w_term_end, "Simple W-Term Deprojection Applied", logger
            )

''', ''), ('''        # If you decide to use the PyFHD checkpoint system, save the uncalibrated visibility &
''', '''        if pyfhd_config["deproject_w_term"] is not None:
            w_term_start = time.time()
            vis_arr = simple_deproject_w_term(
                obs, params, vis_arr, pyfhd_config["deproject_w_term"], logger
            )
            w_term_end = time.time()
            _print_time_diff(
                w_term_start, w_term_end, "Simple W-Term Deprojection Applied", logger
            )

        # If you decide to use the PyFHD checkpoint system, save the uncalibrated visibility &
''')], helpers=PIPE,
 demo=RUN + """
with p31.scratch() as td:
    d = Path(td); c = dict(SCENE); p31.start(c, d)
    pre = p31.base(c, d) + ["--save-visibilities"]
    a = p31.go(d, "a", pre + ["--save-checkpoints"])
    b = p31.go(d, "b", pre + ["--deproject-w-term", "1"])
    e = p31.go(d, "e", pre + ["--deproject-w-term", "1", "--obs-checkpoint", a / "checkpoints" / "obs1_obs_checkpoint.h5"])
    v = [P.load(x / "visibilities" / "obs1_calibrated_vis_arr.h5") for x in (b, e)]
    assert np.array_equal(*v), "deprojection is lost in the resumed run"
""", needs="resuming from an observation checkpoint with a w-term deprojection that the first run did not have (or the reverse)", breaks="the resumed run has the deprojection of the first one"),
dict(id="P34-stale-weights", prop="P34", file="PyFHD/pyfhd.py",
 edits=[('''            vis_weights, obs = vis_weights_update(vis_weights, obs, psf, params)
            weight_end = time.time()
            _print_time_diff(
                weight_start,
                weight_end,
                "Visibilities Weights Updated After Calibration",
''', '''            if pyfhd_config["flag_visibilities"]:
                vis_weights, obs = vis_weights_update(vis_weights, obs, psf, params)
            weight_end = time.time()
            _print_time_diff(
                weight_start,
                weight_end,
                "Visibilities Weights Updated After Calibration",
''')], helpers=PIPE,
 demo=RUN + """
with p31.scratch() as td:
    d = Path(td); c = dict(SCENE, n_freq=12); p31.start(c, d)
    # one tile four times as strong
    f = d / "in" / "obs1.uvfits"
    with P.fits.open(f) as h:
        g = h[0].data; n = 3
        s = np.where(g.par("ANTENNA1") == n, 4, 1) * np.where(g.par("ANTENNA2") == n, 4, 1)
        g.base["DATA"][..., :2] *= s.reshape(-1, *[1] * (g.data.ndim - 1))
        h.writeto(f, overwrite=True)
    a = p31.go(d, "a", p31.base(c, d) + p31.ALL + ["--calibrate-visibilities", "--flag-calibration"])
    t = P.tree(a)
    tile = t["metadata/obs1_obs.h5"]["baseline_info"]["tile_use"]
    assert tile[n - 1] == 0, "the outlier is flagged"
    w = t["visibilities/obs1_calibrated_vis_weights.h5"]
    A, B = np.tile(p31.P.synth.baselines(c["n_tile"], True), c["n_time"])
    assert not (w[..., (A == n - 1) | (B == n - 1)] > 0).any(), "visibilities of a flagged tile have weights"
""", needs="calibration flagging that finds an outlying tile, without visibility flagging", breaks="the visibilities of that tile keep their weights and are gridded"),
dict(id="P34-auto-order", prop="P34", file=CU,
 edits=[("            auto_tile_i = auto_tile_i_single\n", "            # the tiles of the first time step\n            auto_tile_i = auto_tile_i[: auto_tile_i_single.size]\n")], helpers=PIPE,
 demo=RUN + """
with p31.scratch() as td:
    d = Path(td); out = []
    for k, o in (("x", None), ("y", 7)):
        c = dict(SCENE, n_freq=6); t = p31.start(c, d / k, order=o)
        out.append(P.load(p31.go(d / k, "a", p31.base(c, d / k) + p31.ALL + ["--calibrate-visibilities", "--cal-time-average", "--calibration-auto-fit"]) / "calibration" / "obs1_cal.h5")["gain"])
    assert np.allclose(*out, rtol=1e-4), "gains depend on the order of the rows"
""", needs="rows that are not in the order of their tiles, time averaging and a use of the auto-correlations", breaks="auto-correlations go to the wrong tiles"),
dict(id="P35-mid-time", prop="P35", file=CU,
 edits=[('''                + ((obs["n_time"] * obs["time_res"]) / (2 * 60 * 60 * 24))
''', '''                + (obs["time_res"] / (2 * 60 * 60 * 24))
''')], helpers=["synth.py", "core.py", "p35.py"],
 demo=P35RUN + """
go(times="any", f_time=4, pick=1, frac=0.3, n_time=4, res=30.0)
""", needs="a bandpass file of many times and an observation long enough that its middle is nearer to another time of the file than its first integration", breaks="the bandpass of the time nearest to the start is taken"),
dict(id="P35-started-pointing", prop="P35", file=CU,
 edits=[('''                if pointing_jdhms_calfits < pointing_jdhms_ref[pointing_calfits_index]:
                    pointing_calfits_index -= 1
''', '''                if pointing_jdhms_calfits < pointing_jdhms_ref[pointing_calfits_index]:
                    pointing_calfits_index = max(pointing_calfits_index - 1, 0)
''')], helpers=["synth.py", "core.py", "p35.py"],
 demo=P35RUN + """
go(times="pointing", first=-6, f_time=3, pick=2, frac=0.6)
""", needs="a per-pointing bandpass file that starts before the fifth pointing before zenith", breaks="its times are taken for those one pointing later, and another pointing's bandpass is transferred"),
dict(id="P36-first-cross", prop="P36", file="PyFHD/pyfhd.py",
 edits=[("            if pol_i > 1:\n                no_conjugate = True\n", "            # the mirror is added to the polarizations that are real, once they are reformatted\n            if pol_i > 1 and pol_i % 2:\n                no_conjugate = True\n")], helpers=PIPE + ["p36.py"],
 demo=RUN + """
import p36
p36.f_stages(dict(SCENE, n_pol=4, cfg_pol=4, wide=0, per=None, spike=False, opt=3))
""", needs="four polarisations", breaks="the first cross polarised plane gets its mirror added, so that the reformatted planes are wrong"),
dict(id="P36-early-noise", prop="P36", file="PyFHD/pyfhd.py",
 edits=[('''            if pyfhd_config["flag_visibilities"]:
                flag_start = time.time()
''', '''            obs["vis_noise"] = vis_noise_calc(obs, vis_arr, vis_weights)
            if pyfhd_config["flag_visibilities"]:
                flag_start = time.time()
'''), ('''            obs["vis_noise"] = vis_noise_calc(obs, vis_arr, vis_weights)
            noise_end = time.time()
''', '''            if not pyfhd_config["flag_visibilities"]:
                obs["vis_noise"] = vis_noise_calc(obs, vis_arr, vis_weights)
            noise_end = time.time()
''')], helpers=PIPE + ["p36.py"],
 demo=RUN + """
import p36
p36.f_stages(dict(SCENE, wide=0, per=None, spike=True, opt=0, seed=0))
""", needs="flagging of the calibrated visibilities that finds something", breaks="the noise of the observation includes what was flagged"),
]
