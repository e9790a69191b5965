"""P06: sky geometry — horizon/equatorial/pixel conversions and direction cosines."""
from core import *
from astropy import units as u
from astropy.coordinates import AltAz, EarthLocation, ICRS, SkyCoord
from astropy.time import Time
from astropy.utils import iers
from PyFHD.data_setup.obs import project_slant_orthographic
from PyFHD.pyfhd_tools.pyfhd_utils import angle_difference, l_m_n, parallactic_angle
from PyFHD.pyfhd_tools.unit_conv import altaz_to_radec, pixel_to_radec, radec_to_altaz, radec_to_pixel

iers.conf.auto_download = False
iers.conf.auto_max_age = None
iers.conf.iers_degraded_accuracy = "warn"


def unit(ra, dec):
    ra, dec = np.radians(ra), np.radians(dec)
    return np.array([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)])


def sep(ra1, dec1, ra2, dec2):
    a, b = unit(ra1, dec1), unit(ra2, dec2)
    return np.degrees(np.arctan2(np.linalg.norm(np.cross(a, b, axis=0), axis=0), np.sum(a * b, axis=0)))


def f_altaz(c):
    loc = dict(lat=c["lat"], lon=c["lon"], height=c["h"])
    t = c["jd"]
    fmt = {}
    if c["mjd"]:
        t, fmt = t - 2400000.5, {"time_format": "mjd"}
    el = EarthLocation.from_geodetic(c["lon"] * u.deg, c["lat"] * u.deg, height=c["h"] * u.m)
    ot = Time(t, format="mjd" if c["mjd"] else "jd")
    ra, dec = call("altaz_to_radec", altaz_to_radec, c["alt"], c["az"], c["lat"], c["lon"], c["h"], t, **fmt)
    ref = SkyCoord(AltAz(alt=c["alt"] * u.deg, az=c["az"] * u.deg, location=el, obstime=ot)).icrs
    check(sep(ra, dec, ref.ra.deg, ref.dec.deg) < 1e-7, f"altaz_to_radec gives ({ra},{dec}), astropy ({ref.ra.deg},{ref.dec.deg})")
    check(0 <= ra < 360 and -90 <= dec <= 90, "equatorial coordinates out of range")
    alt, az = call("radec_to_altaz", radec_to_altaz, ra, dec, c["lat"], c["lon"], c["h"], t, **fmt)
    check(sep(az, alt, c["az"], c["alt"]) < 1e-6, f"round trip alt/az ({c['alt']},{c['az']}) -> ({alt},{az})")
    n = 3
    r = rng(c["seed"])
    ras, decs = r.uniform(0, 360, n), r.uniform(-89, 89, n)
    alt, az = call("radec_to_altaz(array)", radec_to_altaz, ras, decs, c["lat"], c["lon"], c["h"], t, **fmt)
    ref = SkyCoord(ra=ras * u.deg, dec=decs * u.deg).transform_to(AltAz(location=el, obstime=ot))
    check(np.all(sep(az, alt, ref.az.deg, ref.alt.deg) < 1e-7), "radec_to_altaz disagrees with astropy")
    # Physical sanity independent of astropy frames: the zenith's declination is the latitude up to
    # precession/nutation/aberration since J2000 and the geodetic offset, its RA the local sidereal time.
    zra, zdec = altaz_to_radec(90, 0, c["lat"], c["lon"], c["h"], t, **fmt)
    check(abs(zdec - c["lat"]) < 0.6, f"zenith declination {zdec} at latitude {c['lat']}")
    gmst = (280.46061837 + 360.98564736629 * (c["jd"] - 2451545.0)) % 360
    lst = (gmst + c["lon"]) % 360
    check(sep(zra, zdec, lst, c["lat"]) < 0.7, f"zenith RA {zra}, sidereal time {lst}")
    return abs(c["alt"]) < 89.9


def astr_of(c):
    d, e = c["dim"], c["elem"]
    kpix = c["kpix"]
    deg = np.degrees(1) / (kpix * d)
    return dict(naxis=np.array([d, e]), cdelt=np.full(2, deg), crpix=np.array([d // 2, e // 2]) + 1, crval=np.array([c["ra"], c["dec"]]),
                ctype=["RA---SIN", "DEC--SIN"], equinox=2000, mjdobs=56528.0, dateobs="2013-08-23T00:00:00.000", radecsys="ICRS",
                pv1=np.array([0, 0, 90, 180, 0.0]), pv2=np.array([c["xi"], c["eta"]]))


def sin_pixel(ra, dec, astr):
    """Slant orthographic projection written from its definition (0-based pixels)."""
    a0, d0 = np.radians(astr["crval"])
    a, d = np.radians(ra), np.radians(dec)
    l = np.cos(d) * np.sin(a - a0)
    m = np.sin(d) * np.cos(d0) - np.cos(d) * np.sin(d0) * np.cos(a - a0)
    n = np.sin(d) * np.sin(d0) + np.cos(d) * np.cos(d0) * np.cos(a - a0)
    xi, eta = astr["pv2"]
    x = np.degrees(l + xi * (1 - n)) / astr["cdelt"][0] + astr["crpix"][0] - 1
    y = np.degrees(m + eta * (1 - n)) / astr["cdelt"][1] + astr["crpix"][1] - 1
    return x, y, n


def offset(ra0, dec0, th, pa):
    """Point at angular distance th (deg) and position angle pa (deg) from (ra0, dec0)."""
    th, pa, d0 = np.radians(th), np.radians(pa), np.radians(dec0)
    sd = np.sin(d0) * np.cos(th) + np.cos(d0) * np.sin(th) * np.cos(pa)
    dec = np.arcsin(np.clip(sd, -1, 1))
    dra = np.arctan2(np.sin(pa) * np.sin(th) * np.cos(d0), np.cos(th) - np.sin(d0) * sd)
    return (ra0 + np.degrees(dra)) % 360, np.degrees(dec)


def f_pixel(c):
    astr = astr_of(c)
    r = rng(c["seed"])
    n = c["n"]
    # the projection is one-sided only for directions above the slant plane
    ra, dec = offset(c["ra"], c["dec"], r.uniform(0, 55 if abs(c["xi"]) + abs(c["eta"]) < 0.5 else 25, n), r.uniform(0, 360, n))
    wx, wy, wn = sin_pixel(ra, dec, astr)
    if n == 1:
        x, y = call("radec_to_pixel", radec_to_pixel, float(ra[0]), float(dec[0]), astr)
        check(isinstance(x, float) and isinstance(y, float), "one coordinate must give plain floats")
        close([x, y], [wx[0], wy[0]], "pixel of one coordinate", rtol=1e-8, atol=1e-6)
    x, y = call("radec_to_pixel", radec_to_pixel, ra, dec, astr)
    x, y = np.atleast_1d(x), np.atleast_1d(y)
    close(x, wx, "x pixels", rtol=1e-8, atol=1e-6)
    close(y, wy, "y pixels", rtol=1e-8, atol=1e-6)
    x0, y0 = radec_to_pixel(c["ra"], c["dec"], astr)
    close([x0, y0], [c["dim"] // 2, c["elem"] // 2], "pixel of the reference direction", atol=1e-6)
    ra2, dec2 = call("pixel_to_radec", pixel_to_radec, wx, wy, astr)
    ra2, dec2 = np.asarray(ra2, float), np.asarray(dec2, float)
    if abs(c["xi"]) + abs(c["eta"]) < 0.5:  # the inverse is single valued well inside the hemisphere
        check(np.all(sep(ra2, dec2, ra, dec) < 1e-5), f"pixel -> sky round trip off by {sep(ra2, dec2, ra, dec).max()} deg")
    return n > 1, ["slant"] if c["xi"] or c["eta"] else ["plain"]


def f_angle(c):
    a = (c["ra1"], c["dec1"], c["ra2"], c["dec2"])
    want = float(sep(*a))
    if c["deg"]:
        got = call("angle_difference", angle_difference, *a, degree=True, nearest=c["nearest"])
        back = angle_difference(a[2], a[3], a[0], a[1], degree=True, nearest=c["nearest"])
    else:
        b = tuple(np.radians(v) for v in a)
        got = call("angle_difference", angle_difference, *b, nearest=c["nearest"])
        back = angle_difference(b[2], b[3], b[0], b[1], nearest=c["nearest"])
    close(got, want, f"separation of {a} in degrees", atol=1e-7)
    close(back, got, "separation must be symmetric", atol=1e-9)
    return want > 1e-3, ["small" if want < 4 else "large"]


def f_parallactic(c):
    lat, ha, dec = c["lat"], c["ha"], c["dec"]
    got = call("parallactic_angle", parallactic_angle, lat, ha, dec)
    # spherical triangle zenith - pole - source
    y = np.sin(np.radians(ha)) * np.cos(np.radians(lat))
    x = np.sin(np.radians(lat)) * np.cos(np.radians(dec)) - np.cos(np.radians(lat)) * np.sin(np.radians(dec)) * np.cos(np.radians(ha))
    if np.hypot(x, y) < 1e-6 or abs(abs(lat) - 90) < 1e-3:
        return False
    d = (got - np.degrees(np.arctan2(y, x))) % 360
    check(min(d, 360 - d) < 1e-6, f"parallactic angle at lat {lat}, ha {ha}, dec {dec}: {got}")
    return abs(ha) > 1e-3


def f_lmn(c):
    r = rng(c["seed"])
    shp = tuple(c["shape"])
    ra, dec = offset(c["ra"], c["dec"], r.uniform(0, 180, shp), r.uniform(0, 360, shp))
    if c["nan"]:
        k = r.integers(0, ra.size, c["nan"])
        ra.flat[k] = np.nan
        dec.flat[k] = np.nan
    bad = np.isnan(ra)
    obs = dict(obsra=c["ra"], obsdec=c["dec"])
    psf = dict(image_info=dict(ra_arr=ra.copy(), dec_arr=dec.copy()))
    if c["override"]:
        obs = dict(obsra=c["ra"] + 20, obsdec=-c["dec"] / 2)
        l, m, n = call("l_m_n", l_m_n, obs, dict(image_info=dict(ra_arr=dec, dec_arr=ra)), obsdec=c["dec"], obsra=c["ra"], declination_arr=dec, right_ascension_arr=ra)
    else:
        l, m, n = call("l_m_n", l_m_n, obs, psf)
        equal(psf["image_info"]["ra_arr"], ra, "l_m_n must leave its coordinates alone")
    e = np.moveaxis(unit(np.where(bad, 0, ra), np.where(bad, 0, dec)), 0, -1)
    a0, d0 = np.radians(c["ra"]), np.radians(c["dec"])
    east = np.array([-np.sin(a0), np.cos(a0), 0])
    north = np.array([-np.sin(d0) * np.cos(a0), -np.sin(d0) * np.sin(a0), np.cos(d0)])
    cen = unit(c["ra"], c["dec"])
    for got, ax, off, nm in ((l, east, 0, "l"), (m, north, 0, "m"), (n, cen, 1, "n-1")):
        close(got, np.where(bad, 0, e @ ax - off), nm, atol=1e-10, rtol=1e-10)
    return ra.size > 1, ["with NaN sky"] if bad.any() else []


def f_slant(c):
    """The projection of an observation: pixel grid centred on the phase centre, slant chosen from the zenith."""
    d, e = c["dim"], c["elem"]
    th, pa = c["th"], c["pa"]
    pra, pdec = offset(c["zra"], c["zdec"], th, pa)
    obs = dict(dimension=d, elements=e, degpix=np.degrees(1) / (c["kpix"] * d))
    meta = dict(phasera=float(pra), phasedec=float(pdec), zenra=c["zra"], zendec=c["zdec"], obsx=d // 2, obsy=e // 2, jd0=c["jd"])
    astr, zx, zy = call("project_slant_orthographic", project_slant_orthographic, meta, obs)
    equal(astr["naxis"], [d, e], "naxis")
    close(astr["cdelt"], [obs["degpix"]] * 2, "cdelt")
    equal(astr["crpix"], [d // 2 + 1, e // 2 + 1], "crpix")
    close(astr["crval"], [pra, pdec], "crval", rtol=1e-12)
    close(astr["mjdobs"], c["jd"] - 2400000.5, "mjdobs", rtol=1e-14)
    # along the zenith: its components to the east and north of the phase centre
    a0, d0 = np.radians(pra), np.radians(pdec)
    east = np.array([-np.sin(a0), np.cos(a0), 0])
    north = np.array([-np.sin(d0) * np.cos(a0), -np.sin(d0) * np.sin(a0), np.cos(d0)])
    z, cen = unit(c["zra"], c["zdec"]), unit(pra, pdec)
    slant = np.array([z @ east, z @ north]) / (z @ cen)
    close(astr["pv2"], slant, "slant parameters", rtol=1e-6, atol=1e-7)
    # a flat array sees directions along that slant: the phase of a baseline is linear in the pixel
    r = rng(c["seed"])
    b = r.normal(size=3) * 50
    b -= (b @ z) * z
    ra, dec = offset(pra, pdec, r.uniform(0, 12, 4), r.uniform(0, 360, 4))
    s = np.array([unit(*q) for q in zip(ra, dec)])
    wx, wy, _ = sin_pixel(ra, dec, astr)
    l = (np.array([wx, wy]).T - np.array([d // 2, e // 2])) * np.radians(obs["degpix"])
    close((b @ east) * l[:, 0] + (b @ north) * l[:, 1], (s - cen) @ b, "phase of a flat array's baseline by the pixel of the source", rtol=1e-5, atol=1e-5)
    wx, wy, _ = sin_pixel(c["zra"], c["zdec"], astr)
    close([zx, zy], [wx, wy], "zenith pixel", rtol=1e-6, atol=1e-5)
    return th > 1e-2, ["RA wraps"] if abs(pra - c["zra"]) > 90 else []


ra_, dec_ = st.floats(0, 359.999), st.floats(-85, 85)
jd = st.floats(2456000, 2458800)
SUBS = [
    Sub("horizon", st.fixed_dictionaries(dict(lat=st.floats(-75, 75), lon=st.floats(-180, 180), h=st.floats(0, 3000), jd=jd, mjd=st.booleans(),
        alt=st.floats(1, 89.5), az=st.floats(0, 359.9), seed=st.integers(0, 9999))), f_altaz, 120, 1500, rule="site, time, direction; non-trivial: off zenith"),
    Sub("pixels", st.fixed_dictionaries(dict(dim=st.integers(8, 600), elem=st.integers(8, 600), kpix=st.floats(0.2, 3), ra=ra_, dec=dec_, n=st.integers(1, 6),
        xi=st.sampled_from([0.0, 0.1, -0.2, 0.6]), eta=st.sampled_from([0.0, 0.05, -0.15, -0.7]), seed=st.integers(0, 9999))), f_pixel, 300, 4000, rule="astrometry and directions within 55 deg"),
    Sub("separation", st.fixed_dictionaries(dict(ra1=ra_, dec1=dec_, ra2=ra_, dec2=dec_, deg=st.booleans(), nearest=st.booleans())) |
        st.fixed_dictionaries(dict(ra1=ra_, dec1=dec_, dr=st.floats(-3, 3), dd=st.floats(-3, 3), deg=st.booleans(), nearest=st.booleans())).map(
            lambda c: dict(ra1=c["ra1"], dec1=c["dec1"], ra2=(c["ra1"] + c["dr"]) % 360, dec2=c["dec1"] + c["dd"], deg=c["deg"], nearest=c["nearest"])),
        f_angle, 300, 4000, rule="pairs of directions; non-trivial: distinct"),
    Sub("parallactic", st.fixed_dictionaries(dict(lat=st.floats(-89, 89), ha=st.floats(-180, 180), dec=st.floats(-89, 89))), f_parallactic, 600, 8000, rule="non-trivial: off meridian"),
    Sub("direction_cosines", st.fixed_dictionaries(dict(shape=st.lists(st.integers(1, 6), min_size=1, max_size=2), ra=ra_, dec=dec_, nan=st.integers(0, 3), override=st.booleans(), seed=st.integers(0, 9999))),
        f_lmn, 600, 8000, rule="whole-sky directions, NaN pixels; non-trivial: >1 direction"),
    Sub("slant_projection", st.fixed_dictionaries(dict(dim=st.integers(8, 600), elem=st.integers(8, 600), kpix=st.floats(0.2, 3), zra=ra_, zdec=st.floats(-70, 70), th=st.floats(1e-6, 40), pa=st.floats(0, 360), jd=jd, seed=st.integers(0, 9999))),
        f_slant, 200, 2500, rule="zenith and phase centre; non-trivial: off-zenith pointing"),
]
SUBS.append(large(SUBS[1], 5, 60, n=st.integers(1000, 20000), dim=st.integers(300, 2048)))
