"""P29 import of model visibilities and their match with the data."""
import os
from pathlib import Path
from core import *
import idlsav
import synth
from PyFHD.source_modeling.vis_model_transfer import flag_model_visibilities, vis_model_transfer

synth.no_network()
DAY = 86400.0


def scene(c):
    r = rng(c["seed"])
    nt = c["n_tile"]
    have = np.sort(r.permutation(nt)[: max(2, nt - c["flag"])])  # tiles of the data
    extra = np.setdiff1d(np.arange(nt), have)
    mt = np.arange(nt) if not c["fewer"] else np.union1d(have, extra[r.random(extra.size) < 0.5])
    T = c["res"]
    mtimes = np.arange(c["m_time"]) * T
    if c["gap"]:
        mtimes = mtimes + np.where(np.arange(c["m_time"]) >= 1 + c["seed"] % c["m_time"], 3 * T, 0)
    pick = np.sort(r.permutation(c["m_time"])[: max(1, c["m_time"] - c["t_less"])])
    jd0 = 2456528.0 + c["jd"] / 64.0
    off = round(c["off"] * 0.45 * T, 3)
    dtimes = mtimes[pick] + off
    names = np.arange(1, nt + 1) if not c["named"] else r.permutation(5 * nt)[:nt] + 1
    if c["named"] and names[have].max() <= nt:
        names[have[-1]] += 5 * nt

    def rows(tiles, auto):
        a, b = np.triu_indices(tiles.size)
        a, b = tiles[a], tiles[b]
        k = (a != b) | np.isin(a, auto)
        return a[k], b[k]

    m_auto = {"all": mt, "none": [], "some": mt[r.random(mt.size) < 0.6]}[c["m_auto"]]
    if c["m_auto"] == "some" and len(m_auto) == mt.size:
        m_auto = m_auto[1:]
    ma, mb = rows(mt, m_auto)
    da, db = rows(have, [] if not c["d_auto"] else have if c["d_auto"] == 1 else have[r.random(have.size) < 0.6])
    if c["order"] & 1:
        k = r.permutation(ma.size)
        ma, mb = ma[k], mb[k]
    if c["order"] & 2:
        k = r.permutation(da.size)
        da, db = da[k], db[k]
    dt = c["dt"]
    P = lambda a, b, t: dict(antenna1=np.tile(a, len(t)).astype(dt), antenna2=np.tile(b, len(t)).astype(dt), time=np.repeat(jd0 + t / DAY, a.size))
    pm, pd = P(ma + 1, mb + 1, mtimes), P((names if c["named"] else np.arange(1, nt + 1))[da], (names if c["named"] else np.arange(1, nt + 1))[db], dtimes)
    n = ma.size * mtimes.size
    shape = (c["n_pol"] + c["more_pol"], c["n_freq"], n)
    vis = (r.normal(size=shape) + 1j * r.normal(size=shape)).astype(np.complex64).astype(complex)
    obs = dict(n_pol=c["n_pol"], n_freq=c["n_freq"], time_res=T, pol_names=["XX", "YY", "XY", "YX", "I", "Q", "U", "V"], baseline_info=dict(tile_names=names))
    at = {(a, b, t): i for i, (a, b, t) in enumerate(zip(np.tile(ma, mtimes.size), np.tile(mb, mtimes.size), np.repeat(np.arange(mtimes.size), ma.size)))}
    want = np.zeros((c["n_pol"], c["n_freq"], da.size * pick.size), complex)
    full = c["m_auto"] == "all"
    for i, (a, b, t) in enumerate(zip(np.tile(da, pick.size), np.tile(db, pick.size), np.repeat(pick, da.size))):
        if a != b or full:
            want[:, :, i] = vis[: c["n_pol"], :, at[(a, b, t)]]
    lb = [c["m_auto"] + " autos of " + ("cross+auto" if (da == db).any() else "cross")]
    if have.size < nt:
        lb.append("flagged tiles")
    if c["order"]:
        lb.append("other row order")
    if off < -0.25:
        lb.append("model late")
    if pick.size < c["m_time"]:
        lb.append("times to choose")
    return obs, pm, vis, pd, want, mt.size, lb


def f_flag(c):
    obs, pm, vis, pd, want, nm, lb = scene(dict(c, more_pol=0))
    keep = vis.copy()
    cfg = dict(input_path="/in", obs_id="o", model_file_path=Path("/model/o.uvfits") if c["path"] else "/model/o.uvfits", model_file_type="uvfits")
    got = call("flag_model_visibilities", flag_model_visibilities, vis, pd, pm, obs, cfg, LOG)
    equal(got, want, "model visibilities for the rows of the data")
    equal(vis, keep, "the imported model is not altered")
    check(got.dtype == np.complex128, "double precision")
    return len(lb) > 1, lb


def write(c, d, obs, pm, vis, kind, lose=None):
    """The model in a file as the configuration names it; -> configuration."""
    n = pm["time"].size
    r = rng(c["seed"], 9)
    uvw = r.normal(size=(3, n)).astype("f4").astype(float) * 1e-6
    cfg = dict(input_path=d, obs_id="o", instrument="mwa", n_pol=c["cfg_pol"] and c["n_pol"], model_file_type=kind)
    if kind == "uvfits":
        p = os.path.join(d, "model.uvfits")
        jd0 = np.floor(pm["time"][0]) + 0.5
        nt = int(max(pm["antenna1"].max(), pm["antenna2"].max()))
        synth.write_uvfits(p, dict(uu=uvw[0], vv=uvw[1], ww=uvw[2], date=pm["time"] - jd0, jd0=jd0, ant1=pm["antenna1"], ant2=pm["antenna2"], vis=vis.transpose(2, 1, 0), wts=np.ones(vis.shape).transpose(2, 1, 0), freq0=1.8e8, df=8e4, crpix=1,
            order=["UU", "VV", "WW", "ANTENNA1", "ANTENNA2", "DATE"], keys={"OBSRA": 0.0, "OBSDEC": -27.0, "DATE-OBS": "2013-08-23T00:00:00"}, table=synth.default_table(nt)))
        cfg["model_file_path"] = Path(p) if c["path"] else p
    else:
        os.mkdir(os.path.join(d, "m"))
        par = dict(uu=uvw[0], vv=uvw[1], ww=uvw[2], time=pm["time"], antenna1=pm["antenna1"], antenna2=pm["antenna2"])
        if c["ptr"]:
            par = {k: idlsav.Ptr(v) for k, v in par.items()}
        if lose != "params":
            idlsav.write(os.path.join(d, "m", "o_params.sav"), dict(params=par))
        for i in range(vis.shape[0]):
            if lose == "vis" and i == c["seed"] % c["n_pol"]:
                continue
            v = vis[i].T.copy()
            if c["single"]:
                v = v.astype("c8")
            if c["ptr"]:
                a = np.empty(1, object)
                a[0] = v
                v = a if c["seed"] % 2 else idlsav.Ptr(v)
            idlsav.write(os.path.join(d, "m", f"o_vis_model_{obs['pol_names'][i]}.sav"), dict(vis_model_ptr=v))
        cfg["model_file_path"] = Path(d, "m") if c["path"] else os.path.join(d, "m")
    return cfg, uvw


def f_import(c):
    obs, pm, vis, pd, want, nm, lb = scene(dict(c, more_pol=c["more_pol"] if c["n_pol"] in (1, 2) else 0))
    if pm["time"].size == 1 and c["kind"] == "sav":
        return False  # arrays of one number are indistinguishable from numbers in a save file
    with scratch() as d:
        cfg, uvw = write(c, d, obs, pm, vis, c["kind"])
        got, par = call("vis_model_transfer", vis_model_transfer, cfg, obs, LOG)
        equal(got, vis[: c["n_pol"]], "imported model")
        check(got.dtype == np.complex128, "double precision")
        for k, v in dict(uu=uvw[0], vv=uvw[1], ww=uvw[2], antenna1=pm["antenna1"], antenna2=pm["antenna2"]).items():
            close(par[k], v, f"model {k}", rtol=1e-7)
        close(par["time"], pm["time"], "model times", rtol=0, atol=2e-7)
        out = call("flag_model_visibilities", flag_model_visibilities, got, pd, par, obs, cfg, LOG)
    equal(out, want, "imported model for the rows of the data")
    return True, lb + [c["kind"]]


def f_refuse(c):
    """A model that does not suit the data is refused (SystemExit), never used."""
    why = c["why"]
    k = dict(c, more_pol=0)
    if why == "fewer times":
        k.update(m_time=max(2, c["m_time"]), t_less=0)
    elif why in ("fewer tiles", "other tiles"):
        k.update(n_tile=max(4, c["n_tile"]), fewer=True, flag=2 if why == "other tiles" else 0, d_auto=False, m_auto="none")
    obs, pm, vis, pd, want, nm, lb = scene(k)
    r = rng(c["seed"], 5)
    with scratch() as d:
        cfg = dict(input_path=d, obs_id="o", model_file_path=Path("/model") if c["path"] else "/model", model_file_type="uvfits", instrument="mwa", n_pol=0)
        try:
            if why in ("fewer times", "fewer tiles", "other tiles"):
                if why == "fewer times":
                    t = np.unique(pm["time"])
                    keep = np.isin(pm["time"], t[np.sort(r.permutation(t.size)[: r.integers(1, t.size)])])
                else:
                    tiles = np.unique(np.append(pm["antenna1"], pm["antenna2"]))
                    names = obs["baseline_info"]["tile_names"]
                    ids = np.unique(np.append(pd["antenna1"], pd["antenna2"]))
                    have = np.nonzero(np.isin(names if c["named"] else np.arange(1, names.size + 1), ids))[0] + 1
                    drop = r.choice(np.intersect1d(have, tiles))
                    if why == "other tiles":  # as many tiles as in the data, not the same
                        nt = names.size
                        add = r.choice(np.setdiff1d(np.arange(1, nt + 1), have))
                        ts = np.sort(np.append(np.setdiff1d(have, drop), add))
                        a, b = np.triu_indices(ts.size, 1)
                        t = np.unique(pm["time"])
                        pm = dict(antenna1=np.tile(ts[a], t.size), antenna2=np.tile(ts[b], t.size), time=np.repeat(t, a.size))
                        vis = np.ones(vis.shape[:2] + (pm["time"].size,), complex)
                        keep = slice(None)
                    else:
                        keep = (pm["antenna1"] != drop) & (pm["antenna2"] != drop)
                        if not keep.any():
                            return False
                pm = {q: v[keep] for q, v in pm.items()}
                got = flag_model_visibilities(vis[..., keep] if not isinstance(keep, slice) else vis, pd, pm, obs, cfg, LOG)
            elif why == "channels":
                cfg, _ = write(k, d, obs, pm, vis, "uvfits")
                got = vis_model_transfer(cfg, dict(obs, n_freq=c["n_freq"] + r.choice([-1, 1])), LOG)
            elif why == "file type":
                got = vis_model_transfer(dict(cfg, model_file_type="h5"), obs, LOG)
            else:
                cfg, _ = write(k, d, obs, pm, vis, "sav", lose=why)
                got = vis_model_transfer(cfg, obs, LOG)
        except SystemExit:
            return True, [why]
        except Exception as e:
            fail(f"{why}: {type(e).__name__}: {e} rather than leaving with a message")
    fail(f"{why}: the model was accepted")


B = dict(seed=st.integers(0, 99999), n_tile=st.integers(2, 7), flag=st.integers(0, 3), fewer=st.booleans(), m_time=st.integers(1, 5), t_less=st.integers(0, 3), gap=st.booleans(), res=st.sampled_from([0.5, 1.0, 2.0, 8.0, 10.7]), jd=st.integers(0, 63), off=st.one_of(st.just(0.0), st.floats(-1, 1)),
    named=st.booleans(), m_auto=st.sampled_from(["all", "none", "some"]), d_auto=st.sampled_from([0, 1, 1, 2]), order=st.sampled_from([0, 0, 1, 2, 3]), dt=st.sampled_from(["float32", "int64", "float64"]), n_pol=st.sampled_from([1, 2, 4]), n_freq=st.integers(1, 4), path=st.booleans())
F = dict(B, cfg_pol=st.booleans(), ptr=st.booleans(), single=st.booleans())
SUBS = [
    Sub("flag", st.fixed_dictionaries(B), f_flag, 700, 10000, rule="data and model with different tiles, times, offsets, autocorrelations and naming; non-trivial: any of them differs"),
    Sub("import", st.fixed_dictionaries(dict(F, kind=st.sampled_from(["uvfits", "sav"]), more_pol=st.sampled_from([0, 0, 2]))), f_import, 150, 2500, rule="models in UVFITS and IDL save files, then matched"),
    Sub("refuse", st.fixed_dictionaries(dict(F, why=st.sampled_from(["fewer times", "fewer tiles", "other tiles", "channels", "file type", "params", "vis"]))), f_refuse, 150, 2000, rule="models that do not suit the data"),
]
SUBS.append(large(SUBS[0], 5, 60, n_tile=st.integers(60, 130), flag=st.integers(0, 9)))
SUBS.append(large(SUBS[0], 20, 200, name="times", m_time=st.integers(60, 300), t_less=st.integers(0, 40)))
