"""Synthetic ephemeris kernels in the formats the real ones have, built at run time.

The same analytic solar system is (a) written as SPK/PCK/LSK kernels that ASSIST and SPICE
read, and (b) evaluated directly by the oracles (numpy), so nothing of the code under test
is needed to say where the planets, the Earth's surface or the observer are."""
import json
import os

import numpy as np
import spiceypy as spice

AU = 149597870.7  # km
DAY = 86400.0
J2000 = 2451545.0
GM_AU = {  # au^3/day^2
    "GMS": 2.9591220828411956e-04, "GM1": 4.9125001948893182e-11, "GM2": 7.2434523326441187e-10, "GM4": 9.5495488297258119e-11,
    "GM5": 2.8253458252257917e-07, "GM6": 8.4597059933762903e-08, "GM7": 1.2920265649682399e-08, "GM8": 1.5243573478851939e-08,
    "GM9": 2.1750964648933581e-12,
}
GMB = 8.9970113929473456e-10
EMRAT = 81.3005682214972
# barycentric planets: a, e, inc, node, argPeri, mean anomaly at J2000 (degrees, J2000 ecliptic)
PLANETS = {
    1: (0.387098, 0.20563, 7.005, 48.331, 29.124, 174.795),
    2: (0.723332, 0.00677, 3.3946, 76.680, 54.884, 50.115),
    3: (1.000001, 0.01671, 0.0001, 12.0, 90.9, 357.53),
    4: (1.523679, 0.0934, 1.850, 49.558, 286.502, 19.373),
    5: (5.2044, 0.0489, 1.303, 100.464, 273.867, 20.020),
    6: (9.5826, 0.0565, 2.485, 113.665, 339.392, 317.020),
    7: (19.2184, 0.0457, 0.773, 74.006, 96.99, 142.2386),
    8: (30.110, 0.0095, 1.768, 131.784, 276.336, 256.228),
    9: (39.48, 0.2488, 17.16, 110.299, 113.834, 14.53),
}
AST = [1, 2, 3, 4, 7, 10, 15, 16, 31, 52, 65, 87, 88, 107, 511, 704]
AST_GM = {n: g for n, g in zip(AST, [1.4e-13, 3.0e-14, 4.2e-15, 3.85e-14, 2.5e-15, 1.2e-14, 4.5e-15, 3.4e-15, 2.1e-15, 5.9e-15, 2.0e-15,
                                     2.2e-15, 2.5e-15, 1.7e-15, 5.0e-15, 6.0e-15])}
EPS = np.radians(84381.448 / 3600)
ROT = np.array([[1, 0, 0], [0, np.cos(EPS), -np.sin(EPS)], [0, np.sin(EPS), np.cos(EPS)]])

SPAN = (J2000 - 192.0, J2000 + 12992.0)  # 1999-06 .. 2035-07
LEAP = [("1972-JAN-1", 10), ("1972-JUL-1", 11), ("1973-JAN-1", 12), ("1974-JAN-1", 13), ("1975-JAN-1", 14), ("1976-JAN-1", 15),
        ("1977-JAN-1", 16), ("1978-JAN-1", 17), ("1979-JAN-1", 18), ("1980-JAN-1", 19), ("1981-JUL-1", 20), ("1982-JUL-1", 21),
        ("1983-JUL-1", 22), ("1985-JUL-1", 23), ("1988-JAN-1", 24), ("1990-JAN-1", 25), ("1991-JAN-1", 26), ("1992-JUL-1", 27),
        ("1993-JUL-1", 28), ("1994-JUL-1", 29), ("1996-JAN-1", 30), ("1997-JUL-1", 31), ("1999-JAN-1", 32), ("2006-JAN-1", 33),
        ("2009-JAN-1", 34), ("2012-JUL-1", 35), ("2015-JUL-1", 36), ("2017-JAN-1", 37)]


def _kepler(el, gm, t):
    """Positions (equatorial, au) of a fixed Kepler ellipse at days t since J2000."""
    a, e, i, node, w, m0 = el
    i, node, w = np.radians([i, node, w])
    M = np.radians(m0) + np.sqrt(gm / a ** 3) * t
    E = M + e * np.sin(M)
    for _ in range(30):
        E = E - (E - e * np.sin(E) - M) / (1 - e * np.cos(E))
    x, y = a * (np.cos(E) - e), a * np.sqrt(1 - e * e) * np.sin(E)
    P = np.array([np.cos(w) * np.cos(node) - np.sin(w) * np.sin(node) * np.cos(i), np.cos(w) * np.sin(node) + np.sin(w) * np.cos(node) * np.cos(i), np.sin(w) * np.sin(i)])
    Q = np.array([-np.sin(w) * np.cos(node) - np.cos(w) * np.sin(node) * np.cos(i), -np.sin(w) * np.sin(node) + np.cos(w) * np.cos(node) * np.cos(i), np.cos(w) * np.sin(i)])
    return (np.multiply.outer(x, P) + np.multiply.outer(y, Q)) @ ROT.T


def helio(p, t):
    return _kepler(PLANETS[p], GM_AU["GMS"] + GM_AU.get(f"GM{p}", GMB), np.asarray(t, float))


def gm_of(p):
    return GMB if p == 3 else GM_AU[f"GM{p}"]


def sun(t):
    t = np.asarray(t, float)
    tot = GM_AU["GMS"] + sum(gm_of(p) for p in PLANETS)
    return -sum(gm_of(p) * helio(p, t) for p in PLANETS) / tot


def moon_emb(t):
    """Geocentric Moon (au)."""
    return _kepler((0.00256955, 0.0549, 5.145, 125.08, 318.15, 135.27), GMB, np.asarray(t, float))


def body(n, t):
    """Barycentric equatorial position (au) of a NAIF body at days t since J2000 TDB."""
    if n == 10:
        return sun(t)
    if n in PLANETS:
        return sun(t) + helio(n, t)
    if n == 399:
        return body(3, t) - moon_emb(t) / (1 + EMRAT)
    if n == 301:
        return body(3, t) + moon_emb(t) * EMRAT / (1 + EMRAT)
    if n >= 2000000:
        k = AST.index(n - 2000000)
        el = (2.2 + 0.09 * k, 0.05 + 0.015 * k, 2.0 + 1.5 * k, 23.0 * k, 41.0 * k, 77.0 * k)
        return sun(t) + _kepler(el, GM_AU["GMS"], np.asarray(t, float))
    raise KeyError(n)


def vel(n, t, h=0.02):
    f = lambda s: body(n, t + s * h)
    return (8 * (f(1) - f(-1)) - (f(2) - f(-2))) / (12 * h)


# ---- Earth rotation ---------------------------------------------------------
def earth_angles(t, which="high"):
    """The 3-1-3 Euler angles of the J2000 -> Earth-fixed rotation, days since J2000 TDB."""
    t = np.asarray(t, float)
    phi = 0.02 + 1e-7 * t + 1e-4 * np.sin(2 * np.pi * t / 183.0)
    dlt = 0.01 + 3e-8 * t + 5e-5 * np.cos(2 * np.pi * t / 365.0)
    w = 4.89 + 6.300387486754831 * t
    if which == "predict":  # a worse kernel: must lose against the precise one where both exist
        w = w + 0.02
    if which == "hist":
        w = w - 0.05
    return phi, dlt, w


HIGH = (SPAN[0], SPAN[0] + 9696.0)  # the precise kernel ends here (2025-12); later only the predicted one


def earth_rotation(t, which=None):
    """Matrix taking Earth-fixed to J2000 vectors."""
    if which is None:
        which = "high" if t + J2000 < HIGH[1] else "predict"
    phi, dlt, w = (float(z) for z in earth_angles(t, which))
    R3 = lambda a: np.array([[np.cos(a), np.sin(a), 0], [-np.sin(a), np.cos(a), 0], [0, 0, 1]])
    R1 = lambda a: np.array([[1, 0, 0], [0, np.cos(a), np.sin(a)], [0, -np.sin(a), np.cos(a)]])
    return (R3(w) @ R1(dlt) @ R3(phi)).T


RE = 6378.137  # km


def site_vector(loc):
    lon = np.radians(loc["Longitude"])
    return np.array([loc["cos"] * np.cos(lon), loc["cos"] * np.sin(lon), loc["sin"]])


def observer(loc, t):
    """Barycentric observatory position (au)."""
    return body(399, t) + earth_rotation(t) @ site_vector(loc) * RE / AU


def observer_vel(loc, t, h=10.0 / DAY):
    s = (earth_rotation(t + h, _w(t)) - earth_rotation(t - h, _w(t))) @ site_vector(loc) * RE / AU / (2 * h)
    return vel(399, t) + s


def _w(t):
    return "high" if t + J2000 < HIGH[1] else "predict"


SITES = {
    "X05": {"Longitude": 289.25058, "cos": 0.864981, "sin": -0.500958, "Name": "Simonyi Survey Telescope"},
    "000": {"Longitude": 0.0, "cos": 0.62411, "sin": 0.77873, "Name": "Greenwich"},
    "500": {"Longitude": 0.0, "cos": 0.0, "sin": 0.0, "Name": "Geocentric"},
    "E00": {"Longitude": 310.0, "cos": 1.0, "sin": 0.0, "Name": "On the equator"},
    "P00": {"Longitude": 0.0, "cos": 0.0, "sin": -0.99664, "Name": "South pole"},
    "F65": {"Longitude": 203.7424, "cos": 0.936239, "sin": 0.351545, "Name": "Haleakala"},
    "W84": {"Longitude": 289.19343, "cos": 0.86559, "sin": -0.499927, "Name": "CTIO DECam"},
    "250": {"Name": "Hubble Space Telescope"},
}


# ---- writers ----------------------------------------------------------------
def _cheb(fn, first, last, step, deg):
    n = int(round((last - first) / step))
    k = np.arange(deg + 1)
    x = np.cos(np.pi * (k + 0.5) / (deg + 1))
    mid = first + (np.arange(n) + 0.5) * step
    t = mid[:, None] + 0.5 * step * x[None, :]
    v = np.asarray(fn(t.ravel())).reshape(n, deg + 1, 3)
    T = np.cos(np.outer(np.arange(deg + 1), np.arccos(x)))  # (order, node)
    c = np.einsum("kj,njd->ndk", T, v) * 2.0 / (deg + 1)
    c[:, :, 0] *= 0.5
    return n, c


def _spk(path, segs, comment=()):
    h = spice.spkopn(path, "synthetic", 4096)
    if comment:
        spice.dafac(h, list(comment))
    first, last = SPAN[0] - J2000, SPAN[1] - J2000
    for n, center, step, deg in segs:
        def fn(t):
            b = body(n, t)
            if center == 3:
                b = b - body(3, t)
            elif center == 10:
                b = b - body(10, t)
            return b * AU

        m, c = _cheb(fn, first, last, step, deg)
        spice.spkw02(h, n, center, "J2000", first * DAY, last * DAY, f"body {n}", step * DAY, m, deg, c.ravel(), first * DAY)
    spice.spkcls(h)


def build(root):
    """Write a complete auxiliary data directory."""
    os.makedirs(root, exist_ok=True)
    planets = [(p, 0, {1: 8.0, 2: 16.0}.get(p, 16.0 if p < 4 else 32.0), 13) for p in PLANETS] + [(10, 0, 8.0, 13), (301, 3, 4.0, 13), (399, 3, 4.0, 13)]
    const = {"CLIGHT": 299792.458, "AU": AU, "EMRAT": EMRAT, "GMB": GMB, "J2E": 1.0826253e-3, "J3E": -2.5324e-6, "J4E": -1.6199e-6, "J2SUN": 2.1961e-7,
             "RE": RE, "ASUN": 696000.0, **GM_AU, **{f"MA{n:04d}": AST_GM[n] for n in AST}}
    com = ["Initial conditions and constants used for integration:", ""]
    items = [f"{k} {v:.17E}".replace("E", "D") if "E" not in k else f"{k} {v:.17E}" for k, v in const.items()]
    items = [f"{k} " + f"{v:.17E}".replace("E", "D") for k, v in const.items()]
    com += [" " + z for z in items]
    _spk(os.path.join(root, "linux_p1550p2650.440"), planets, com)
    os.link(os.path.join(root, "linux_p1550p2650.440"), os.path.join(root, "de440s.bsp"))
    _spk(os.path.join(root, "sb441-n16.bsp"), [(2000000 + n, 10, 32.0, 13) for n in AST])
    with open(os.path.join(root, "naif0012.tls"), "w") as f:
        f.write("KPL/LSK\n\\begindata\nDELTET/DELTA_T_A = 32.184\nDELTET/K = 1.657D-3\nDELTET/EB = 1.671D-2\nDELTET/M = ( 6.239996D0 1.99096871D-7 )\nDELTET/DELTA_AT = (\n"
                + "".join(f"  {d}, @{s}\n" for s, d in LEAP) + ")\n\\begintext\n")
    with open(os.path.join(root, "pck00010.pck"), "w") as f:
        f.write("KPL/PCK\n\\begindata\nBODY399_POLE_RA = ( 0. -0.641 0. )\nBODY399_POLE_DEC = ( 90. -0.557 0. )\nBODY399_PM = ( 190.147 360.9856235 0. )\n"
                "BODY399_RADII = ( 6378.1366 6378.1366 6356.7519 )\n\\begintext\n")
    for name, which, (a, b) in (("earth_latest_high_prec.bpc", "high", HIGH), ("earth_620120_250826.bpc", "hist", (SPAN[0], SPAN[0] + 8000.0)),
                                ("earth_2025_250826_2125_predict.bpc", "predict", SPAN)):
        h = spice.pckopn(os.path.join(root, name), "synthetic", 0)
        m, c = _cheb(lambda t: np.stack(earth_angles(t, which), -1), a - J2000, b - J2000, 4.0, 9)
        spice.pckw02(h, 3000, "J2000", (a - J2000) * DAY, (b - J2000) * DAY, "earth", 4.0 * DAY, m, 9, c.ravel(), (a - J2000) * DAY)
        spice.pckcls(h)
    with open(os.path.join(root, "ObsCodes.json"), "w") as f:
        json.dump(SITES, f)
    return root


def tdb(mjd_tai):
    """JD TDB of an MJD TAI (the standard low-order formula of the leap-second kernel)."""
    tt = (mjd_tai + 2400000.5 - J2000) * DAY + 32.184
    et = tt
    for _ in range(4):
        m = 6.239996 + 1.99096871e-7 * et
        et = tt + 1.657e-3 * np.sin(m + 1.671e-2 * np.sin(m))
    return J2000 + et / DAY
