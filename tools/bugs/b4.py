"""More planted bugs: geometry of the projection, images weighted by the beam, targets at zero."""
HEAD = '''
import os, sys
os.environ["VERIF_REPO"] = os.getcwd()
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
'''
OB = "PyFHD/data_setup/obs.py"
QV = "PyFHD/io/pyfhd_quickview.py"
GU = "PyFHD/gridding/gridding_utils.py"
BUGS = [
dict(id="P06-slant-north", prop="P06", file=OB,
 edits=[("    eta = np.tan(np.radians(zenith_ang)) * np.cos(np.radians(parallactic_ang))\n", "    eta = np.tan(np.radians(zenith_ang)) * np.abs(np.cos(np.radians(parallactic_ang)))\n")],
 demo='''
import numpy as np
from PyFHD.data_setup.obs import project_slant_orthographic
R = np.radians
v = lambda a, d: np.array([np.cos(R(d)) * np.cos(R(a)), np.cos(R(d)) * np.sin(R(a)), np.sin(R(d))])
for zr, zd, pr, pd in ((10, -26.7, 15, -40), (10, -26.7, 15, -5), (2, -26.7, 355, -10)):
    a, _, _ = project_slant_orthographic(dict(phasera=pr, phasedec=pd, zenra=zr, zendec=zd, obsx=32, obsy=32, jd0=2456528.5), dict(dimension=64, elements=64, degpix=1.0))
    z, n = v(zr, zd), v(pr, pd)
    e = np.array([-np.sin(R(pr)), np.cos(R(pr)), 0])
    want = np.array([z @ e, z @ np.cross(n, e)]) / (z @ n)
    assert np.allclose(a["pv2"], want, atol=1e-6), (a["pv2"], want)
''', needs="an observation phased to the north of the zenith", breaks="its images are slanted to the other side, sources away from the centre are displaced"),
dict(id="P33-renorm-beam", prop="P33", file=QV,
 edits=[("            beam_ptr=beam_base[pol_i],\n", "            beam_ptr=beam_base[0],\n")],
 demo='''
import logging
import numpy as np
from PyFHD.io.pyfhd_quickview import get_image_renormalization
r = np.random.default_rng(1)
w, f, b = r.random((2, 8, 8)), r.uniform(0.1, 2, (2, 8, 8)), r.uniform(0.2, 1, (2, 8, 8))
obs = dict(n_pol=2, dimension=8, elements=8, obsx=4, obsy=4, degpix=1.0)
cfg = dict(pad_uv_image=1, image_filter="filter_uv_optimal")
go = lambda p: get_image_renormalization(dict(obs, n_pol=len(p)), w[p], b[p], f[p], cfg, logging.getLogger("x"))
assert np.allclose(go([0, 1]), [go([0])[0], go([1])[0]]), "each polarisation is normalised by itself"
''', needs="the optimal image filter and beams that differ between polarisations in the centre", breaks="the images of the second polarisation are scaled by the beam of the first"),
dict(id="P09-target-equator", prop="P09", file=OB,
 edits=[('        if pyfhd_config["override_target_phasedec"] is not None\n', '        if pyfhd_config["override_target_phasedec"]\n')],
 helpers=["core.py", "synth.py", "p09.py"],
 demo=HEAD + '''
import p09
C = dict(seed=3, n_ant=4, autos=True, numbers="plain", alive=1.0, n_time=2, jd0=2456528, step=2.0, scale=1e-7, freq0=150000000, n_freq=4, df=80000, n_pol=2, cfg_pol=0, navg=1, fov=None, kbin=0.5, dim=32, elem=32, minb=None, cut=None, dft=False, ra=10.0, dec=-27.0, off=2.0, meta=True, inttime=2.0, hist=False)
for odec in (None, -30.25, 0.0):
    p09.f_obs(dict(C, ora=12.5, odec=odec))
''', needs="a target on the celestial equator", breaks="the target's declination is replaced by the one of the phase centre"),
]
