CU = "PyFHD/calibration/calibration_utils.py"
HEAD = '''
import os, sys
os.environ["VERIF_REPO"] = os.getcwd()
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
'''
BUGS = [
dict(id="P21-slope-spread", prop="P21", file=CU,
 edits=[("            slope_sigma = np.nanstd(phase_slope_arr)\n", "            slope_sigma = np.nanstd(np.abs(phase_slope_arr))\n")],
 helpers=["core.py", "synth.py", "p19.py", "p21.py"],
 demo=HEAD + '''
import p21
done = 0
for k in range(400):
    c = p21.edge_case(k)
    if c["knob"] == "slope" and c["slopes"] == (0.9, 1) and c["up"] == 0.5:
        p21.f_edge(c)
        done += 1
        if done == 6:
            break
''', needs="tiles with phase slopes of both signs and one whose slope is just within five sigma of them", breaks="tiles within five sigma of the phase slopes are flagged"),
dict(id="P17-worst-weight", prop="P17", file=CU,
 edits=[("            weights_use = np.reshape(vis_weights[0, :, :], new_shape)\n", "            weights_use = np.reshape(np.min(vis_weights, axis=0), new_shape)\n")],
 helpers=["core.py", "synth.py"],
 demo=HEAD + '''
import logging
import numpy as np
import synth
from PyFHD.calibration.calibration_utils import vis_calibration_apply
r = np.random.default_rng(3)
obs, par, vis, w = synth.toy(r, 5, 2, 4, 4)
model = r.normal(size=vis.shape) + 1j * r.normal(size=vis.shape)
g = np.exp(2j * np.pi * r.random((2, 4, 5)))
vis = model * np.exp(0.4j) * (1 + 0.3 * r.normal(size=vis.shape))
go = lambda w: vis_calibration_apply(vis.copy(), obs, dict(gain=g.copy(), n_pol=2), model, w, logging.getLogger("x"))[1]["cross_phase"]
w = np.ones(vis.shape)
cut = w.copy()
cut[3, :, ::3] = 0
assert abs(go(w) - go(cut)) < 1e-12, (go(w), go(cut))  # the weights of the first polarisation decide
''', needs="four polarisations with other flags in the cross polarisations than in the first", breaks="the phase between the cross polarisations is fitted to other data"),
dict(id="P20-no-power", prop="P20", file=CU,
 edits=[("        auto_gain[pol_i, :, :][auto_gain[pol_i, :, :] <= 0] = 1\n", "        auto_gain[pol_i, :, :][auto_gain[pol_i, :, :] < 0] = 1\n")],
 helpers=["core.py", "synth.py"],
 demo=HEAD + '''
import numpy as np
import synth
from PyFHD.calibration.calibration_utils import vis_cal_auto_init
r = np.random.default_rng(3)
obs, par, vis, w = synth.toy(r, 5, 2, 4, 2)
A, M = r.uniform(1, 2, (2, 2, 4, 5))
A[1, 2, 3] = 0
g = vis_cal_auto_init(obs, dict(n_pol=2), vis, vis * 1.1, A, M, np.arange(5))
assert (np.abs(g) > 0).all(), g[1, 2]
''', needs="a tile whose auto-correlation is zero in a channel", breaks="the gain of that tile starts from zero and stays there"),
dict(id="P35-sidereal", prop="P35", file=CU,
 edits=[("                obs_pointing_shift_since_ref = ((24 - 23.9344699) / 24) * days_since_ref\n", "                obs_pointing_shift_since_ref = ((24 - 23.934) / 24) * days_since_ref\n")],
 helpers=["core.py", "synth.py", "p35.py"],
 demo=HEAD + '''
import p35
C = dict(seed=3, n_pol=2, n_jones=2, n_freq=3, n_tile=3, n_time=2, factor=1, times="pointing", f_time=4, pick=1, short=False, frac=0.4, by_int=True, text=False, window=False, double=True, quality=False, absolute=True, orient="east", flags=0, days=40, later=0, res=2.0)
for first in range(-5, 4):
    p35.f_transfer(dict(C, first=first, edge=0.999))
    p35.f_transfer(dict(C, first=first, edge=1e-3))
''', needs="a calibration file of weeks after the reference day that starts just after a pointing does", breaks="the gains of the pointing next to it are used"),
dict(id="P19-nominal-neighbours", prop="P19", file=CU,
 edits=[("                                & (np.abs(mode_i_arr[pol_i, :] - mode_i) > 0.01)\n", "                                & (np.abs(mode_i_arr[pol_i, :] - mode0) > 0.01)\n")],
 helpers=["core.py", "synth.py", "p19.py"],
 demo=HEAD + '''
import p19
for seed in range(3):
    p19.f_reflect(dict(seed=seed, n_pol=1, n_freq=48, how="theory", band=30.72, cable=1, hyper=True, ratio=True, f_freq=0, f_tile=0.5, at=3))
''', needs="reflections refined on the ratio of auto-correlations, and a mode that moves away from the nominal one", breaks="the phases of the wrong tiles are taken as free of the tile's reflection"),
]
