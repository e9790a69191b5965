"""Scenes and brute force models shared by the gridding checks."""
import itertools
from core import *
import synth



def scene(c, r):
    """obs, params, weights of one polarisation set, psf description; footprints inside, at and beyond the edge."""
    nf, nt, npol = c["n_freq"], c["n_time"], c["n_pol"]
    dim, elem, kpix = c["dim"], c["elem"], c["kpix"]
    obs, par, vis, w = synth.toy(r, c["n_tile"], nt, nf, npol, autos=c.get("autos", True), dim=dim, kpix=kpix, scale=c["spread"] * dim * kpix / 1.5e8, df=c["df"])
    obs["elements"] = elem
    bi = obs["baseline_info"]
    w = r.choice([1.0, 0.5, 0.0, -1.0], p=[1 - 1.5 * c["flag"], 0.3 * c["flag"], 0.6 * c["flag"], 0.6 * c["flag"]], size=w.shape)
    if c.get("whole") and r.random() < 0.05:
        w[:] = 0
    elif c.get("whole"):
        w[:, :, r.random(w.shape[-1]) < c["whole"]] = 0
    bi["freq_use"] = (r.random(nf) >= c["cut"]).astype(np.int64)
    kr = np.outer(bi["freq"], np.hypot(par["uu"], par["vv"]))
    obs["min_baseline"] = float(np.quantile(kr[kr > 0], c["qmin"])) * 0.9999
    obs["max_baseline"] = float(np.quantile(kr, c["qmax"])) * 1.0001
    bi["fbin_i"] = (np.arange(nf) // c.get("navg", 2)).astype(np.int64)
    if c.get("same"):  # several baselines at the very same position
        nb = obs["n_baselines"]
        for _ in range(c["same"]):
            i, j = r.integers(0, par["uu"].size, 2)
            for q in ("uu", "vv", "ww"):
                par[q][i] = par[q][j]
    if r.random() < 0.3:  # exactly along an axis of the plane
        for q in ("uu", "vv"):
            par[q][r.integers(0, par["uu"].size, 3)] = 0
    if c.get("shuffle"):
        p = r.permutation(obs["n_baselines"])
        p = np.concatenate([p + t * obs["n_baselines"] for t in range(nt)])
        for q in ("uu", "vv", "ww"):
            par[q] = par[q][p]
        w = w[..., p]
    return obs, par, vis, w


def locate(obs, par, w, pd, res, fi, b, fill=False, mask=False):
    """Brute force: per (channel, baseline) the pixel, offset, remainder and whether it is gridded. None when too close to a pixel edge."""
    info = obs["baseline_info"]
    out = {}
    allf = info["freq"]
    for jj, j in enumerate(b):
        u, v = par["uu"][j] / obs["kpix"], par["vv"][j] / obs["kpix"]
        flip = v > 0
        d = np.sqrt(u**2 + v**2) * obs["kpix"]
        ok0 = fill or (d * allf.min() >= obs["min_baseline"] and d * allf.max() <= obs["max_baseline"])
        if mask and flip:
            ok0 = False
        if flip:
            u, v = -u, -v
        for ii, i in enumerate(fi):
            x, y = allf[i] * u, allf[i] * v
            px = x - np.floor(x), y - np.floor(y)
            for p in px:
                if p != 0 and abs(p * res - round(p * res)) < 1e-7:
                    return None
            xm, ym = int(np.floor(x)) + obs["dimension"] // 2 - (pd // 2 - 1), int(np.floor(y)) + obs["elements"] // 2 - (pd // 2 - 1)
            ok = ok0 and xm > 0 and ym > 0 and xm + pd - 1 < obs["dimension"] - 1 and ym + pd - 1 < obs["elements"] - 1
            if not fill and w[i, j] <= 0:
                ok = False
            xo, yo = int(px[0] * res), int(px[1] * res)
            out[ii, jj] = dict(ok=bool(ok), xm=xm, ym=ym, xo=xo, yo=yo, dx=px[0] * res - xo, dy=px[1] * res - yo, flip=bool(flip))
    return out


def psf_dict(r, c, obs, npol, h5=False, const=None):
    pd, res = c["psf_dim"], c["res"]
    nfb = int(obs["baseline_info"]["fbin_i"].max()) + 1
    nb = obs["n_baselines"]
    ids = np.zeros((npol, nfb, nb), np.int64)
    if c.get("groups"):
        ids[:] = r.integers(0, c["groups"], ids.shape)
    beam = r.normal(size=(npol, nfb, res + 1, res + 1, pd * pd)) + 1j * r.normal(size=(npol, nfb, res + 1, res + 1, pd * pd))
    psf = dict(dim=pd, resolution=res, id=ids, beam_ptr=beam)
    if not h5:
        return psf, beam
    return h5psf(psf), beam


_N = itertools.count()


def h5psf(psf):
    """The same psf as a lazily loaded file (in memory); single values as PyFHD saves them or in arrays of one."""
    import h5py

    n = next(_N)

    def fill(g, d):
        for k, v in d.items():
            if isinstance(v, dict):
                fill(g.create_group(k), v)
            else:
                g[k] = v if n % 2 else np.atleast_1d(v)

    f = h5py.File("x%d.h5" % n, "w", driver="core", backing_store=False)
    fill(f, psf)
    return f
