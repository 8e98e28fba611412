"""C21: observatory positions, time scales, kernel loading."""
import os
import shutil
from types import SimpleNamespace as NS

import numpy as np
import pandas as pd

from vlib.common import Check, SkipCase
from vlib import world as W
from vlib import kernels as K


def make():
    ck = Check(
        "C21",
        "Each case is one observatory position, one time conversion, one pre-computed pointing table or one kernel directory; "
        "synthetic kernels in the real file formats carry an analytic Earth, Sun and Earth rotation which the oracle evaluates "
        "directly. Non-trivial = all cases.",
        ["epochs 2013-2035 (the span of the synthetic kernels)", "data directory paths up to 200 characters (SPICE limits file names to 255)",
         "TAI to TDB is judged to 0.06 s: the code formats the Julian date with six decimals"],
    )
    ck.need("site_positions", 300)
    ck.need("site_velocities", 300)
    ck.need("time_conversions", 500)
    ck.need("epochs_past_the_precise_kernel", 40)
    ck.need("pointing_rows", 400)
    ck.need("zero_coordinate_sites", 40)
    ck.need("long_directories", 10)
    return ck


def args(d):
    import logging

    return NS(ar_data_file_path=d, loglevel=False, pplogger=logging.getLogger("c21"))


def aux():
    from sorcha.utilities.sorchaConfigs import auxiliaryConfigs

    return auxiliaryConfigs()


def sites(ck, d):
    import spiceypy as spice
    from sorcha.ephemeris.simulation_parsing import Observatory, mjd_tai_to_epoch
    from sorcha.ephemeris.simulation_geometry import barycentricObservatoryRates
    from sorcha.ephemeris.simulation_setup import furnish_spiceypy

    rng = ck.rng("sites")
    spice.kclear()
    ck.must(furnish_spiceypy, args(d), aux())
    obs = ck.must(Observatory, args(d), aux())
    for code, loc in K.SITES.items():
        got = obs.ObservatoryXYZ.get(code)
        ck.case(["site", code])
        if "Longitude" not in loc:
            ck.ensure(got is not None and all(z is None for z in got), "an observatory without coordinates got a position", {"code": code, "got": got})
            continue
        ck.ensure(got is not None and None not in got and np.abs(np.array(got, float) - K.site_vector(loc)).max() < 1e-12, "geocentric site vector is wrong",
                  {"code": code, "loc": loc, "got": got})
    fixed = [c for c, l in K.SITES.items() if "Longitude" in l]
    # random sites, given as a file
    import json

    extra = {}
    for i in range(30):
        lat = float(rng.uniform(-90, 90))
        extra[f"R{i:02d}"] = {"Longitude": float(rng.choice([rng.uniform(0, 360), 0.0, 180.0, -70.5])), "cos": float(np.cos(np.radians(lat))), "sin": float(np.sin(np.radians(lat))), "Name": "x"}
    p = W.tmp(".json")
    json.dump(extra, open(p, "w"))
    obs2 = ck.must(Observatory, args(d), aux(), oc_file=p)
    for c, loc in extra.items():
        got = obs2.ObservatoryXYZ[c]
        ck.case(["site", loc])
        ck.ensure(None not in got and np.abs(np.array(got, float) - K.site_vector(loc)).max() < 1e-12, "geocentric site vector is wrong", {"loc": loc, "got": got})
    for i in range(ck.n(500, 6000)):
        o, loc, code = (obs, None, fixed[rng.integers(len(fixed))]) if rng.integers(2) else (obs2, None, f"R{rng.integers(30):02d}")
        loc = K.SITES.get(code) or extra[code]
        t = float(rng.uniform(K.SPAN[0] - K.J2000 + 5, K.SPAN[1] - K.J2000 - 5))
        if rng.integers(3) == 0:
            t = K.HIGH[1] - K.J2000 + float(rng.choice([-1, 1])) * 10 ** float(rng.uniform(-1, 3))
        ctx = {"code": code, "site": loc, "days_since_J2000": t}
        ck.case(["pos", code, t], True, ctx)
        ck.ev("epochs_past_the_precise_kernel", t + K.J2000 > K.HIGH[1])
        ck.ev("zero_coordinate_sites", loc["Longitude"] == 0 or loc["sin"] == 0 or loc["cos"] == 0)
        want = K.observer(loc, t) * K.AU
        got = ck.must(o.barycentricObservatory, t * 86400.0, code, _w=ctx)
        ck.ev("site_positions")
        ck.ensure(np.linalg.norm(np.asarray(got) - want) < 1e-3, "barycentric observatory position is wrong (km)", lambda: {**ctx, "got": got, "want": want})
        r, v = ck.must(barycentricObservatoryRates, t * 86400.0, code, o, _w=ctx)
        ck.ev("site_velocities")
        ck.ensure(np.linalg.norm(np.asarray(r) - want) < 1e-3, "barycentric observatory position (with rates) is wrong (km)", lambda: {**ctx, "got": r, "want": want})
        wv = K.observer_vel(loc, t) * K.AU / 86400
        ck.ensure(np.linalg.norm(np.asarray(v) - wv) < 2e-6, "barycentric observatory velocity is wrong (km/s)", lambda: {**ctx, "got": v, "want": wv})
    # time scales
    for i in range(ck.n(800, 8000)):
        mjd = float(rng.uniform(56600, 64500))
        if i % 4 == 0:
            mjd = float(np.floor(mjd)) + float(rng.choice([0, 0.5, 0.25, 1 - 1e-9]))
        got = ck.must(mjd_tai_to_epoch, mjd)
        ck.ev("time_conversions")
        ck.case(["time", mjd])
        ck.ensure(abs(got - K.tdb(mjd)) * 86400 < 0.06, "TAI to TDB conversion is off", {"mjd_tai": mjd, "got": got, "want": K.tdb(mjd)})
    spice.kclear()


def pointing(ck, d):
    from sorcha.ephemeris.simulation_setup import precompute_pointing_information
    import spiceypy as spice

    rng = ck.rng("pt")
    fixed = [c for c, l in K.SITES.items() if "Longitude" in l]
    for i in range(ck.n(32, 120)):
        code = fixed[i % len(fixed)]
        cfg = W.configs("rubin_sim", INPUT={"ephemerides_type": "ar"},
                        SIMULATION={"ar_ang_fov": "2.06", "ar_fov_buffer": "0.2", "ar_picket": "1", "ar_obs_code": code, "ar_healpix_order": "6"})
        n = int(rng.choice([1, 2, 40, 90, 90]))
        ra, dec = W.rand_sky(rng, n)
        df = pd.DataFrame({"FieldID": rng.permutation(n) + 7, "observationMidpointMJD_TAI": np.sort(rng.uniform(57000, 64000, n)), "fieldRA_deg": ra, "fieldDec_deg": dec,
                           "optFilter": "r"})
        if i % 3 == 1:
            df = df.iloc[::2].copy() if n > 2 else df
            n = len(df)
        before = df.copy(deep=True)
        ctx = {"code": code, "visits": n, "index": list(df.index[:5])}
        out = ck.must(precompute_pointing_information, df, args(d), cfg, _w=ctx)
        ck.case(["pt", i, n], True, ctx)
        ck.ensure(int(spice.ktotal("ALL")) == 0, "kernels are left loaded after the pointing preparation", ctx)
        if not ck.ensure(len(out) == n and all((out[c].to_numpy() == before[c].to_numpy()).all() for c in before), "preparing the pointings altered or reordered them", ctx):
            continue
        loc = K.SITES[code]
        for j in range(n):
            row = out.iloc[j]
            ck.ev("pointing_rows")
            t = row["fieldJD_TDB"] - K.J2000
            vec = lambda nm: np.array([row[f"{nm}_{c}"] for c in "xyz"], float)
            w = lambda: {**ctx, "row": row.to_dict()}
            ok = ck.ensure(abs(row["fieldJD_TDB"] - K.tdb(row["observationMidpointMJD_TAI"])) * 86400 < 0.06, "a visit has the wrong TDB time", w)
            ok &= ck.ensure(np.abs(vec("visit_vector") - W.unit(row["fieldRA_deg"], row["fieldDec_deg"])).max() < 1e-12, "a visit has the wrong pointing vector", w)
            ok &= ck.ensure(np.linalg.norm(vec("r_obs") - K.observer(loc, t)) < 1e-10, "a visit has the wrong observatory position", w)
            ok &= ck.ensure(np.linalg.norm(vec("v_obs") - K.observer_vel(loc, t)) < 1e-10, "a visit has the wrong observatory velocity", w)
            ok &= ck.ensure(np.linalg.norm(vec("r_sun") - K.body(10, t)) < 1e-11 and np.linalg.norm(vec("v_sun") - K.vel(10, t)) < 1e-11, "a visit has the wrong Sun position or velocity", w)
            if not ok:
                break


def directories(ck, d):
    import spiceypy as spice
    from sorcha.ephemeris.simulation_setup import furnish_spiceypy
    from sorcha.utilities.sorchaConfigs import auxiliaryConfigs

    rng = ck.rng("dir")
    lengths = sorted({int(z) for z in rng.integers(40, 200, ck.n(14, 40))} | {78, 79, 80, 110, 130, 131, 132, 133, 157, 158, 159, 200})
    base = W.tmpdir()
    for L in lengths:
        path = os.path.join(base, f"d{L}_")
        while len(path) < L:
            k = min(L - len(path), int(rng.integers(20, 90)))
            seg = "x" * k if k < 3 else "/" + "abcdefghijklmnopqrstuvwxyz"[rng.integers(26)] * (k - 1)
            path += seg
        os.makedirs(path)
        names = {}
        if rng.integers(3) == 0:
            names = {"earth_high_precision": "eop_now.bpc", "leap_seconds": "leap.tls", "planet_ephemeris": "planets.bsp"}
        real = {"earth_high_precision": "earth_latest_high_prec.bpc", "leap_seconds": "naif0012.tls", "planet_ephemeris": "de440s.bsp"}
        for f in os.listdir(d):
            if f == "meta_kernel.txt":
                continue
            new = next((names[k] for k in names if real[k] == f), f)
            os.link(os.path.join(d, f), os.path.join(path, new))
        a = auxiliaryConfigs(**names)
        ctx = {"length": len(path), "path": path, "names": names}
        ck.case(["dir", len(path), bool(names)], True, ctx)
        ck.ev("long_directories", len(path) > 79)
        spice.kclear()
        for second in (False, True):  # the second time the meta kernel exists already
            try:
                ck.must(furnish_spiceypy, args(path), a, _w=ctx)
                t = 9000.25
                m = ck.must(spice.pxform, "ITRF93", "J2000", t * 86400.0)
                ck.ensure(np.abs(np.asarray(m) - K.earth_rotation(t)).max() < 1e-9, "the less precise Earth orientation kernel wins", ctx)
                ck.must(spice.str2et, "JD 2460000.5 TDT")
                p, _ = ck.must(spice.spkpos, "EARTH", t * 86400.0, "J2000", "NONE", "SSB")
                ck.ensure(np.linalg.norm(np.asarray(p) / K.AU - K.body(399, t)) < 1e-11, "the planetary kernel is not the configured one", ctx)
            except SkipCase:
                pass
            except spice.utils.exceptions.SpiceyError as e:
                ck.violation("kernels are not usable after loading them: " + str(e)[-200:], ctx)
            finally:
                spice.kclear()
        if os.path.commonpath([path, base]) == base:
            shutil.rmtree(os.path.join(base, os.path.relpath(path, base).split(os.sep)[0]))


_D = {}


def data_dir():
    if "d" not in _D:
        # SPICE wants short names when writing
        _D["d"] = K.build(os.path.join(W.tmpdir(), "k"))
    return _D["d"]


def parts():
    return [("sites", lambda ck: sites(ck, data_dir())), ("pointing", lambda ck: pointing(ck, data_dir())), ("directories", lambda ck: directories(ck, data_dir()))]
