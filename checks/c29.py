"""C29: configurations mean what they say, or are refused."""
import logging
import os
import shutil
import subprocess

import numpy as np

from vlib.common import Check, SkipCase
from vlib import pipeline as P
from vlib import world as W

LSST = ["u", "g", "r", "i", "z", "y"]
DES = ["g", "r", "i", "z", "Y"]
SURVEYS = ["rubin_sim", "RUBIN_SIM", "LSST", "lsst", "DES", "des"]
NOTNUM = ["abc", "", "1,2", "0x1F", "1.0.0", "5 m", "None", "True", "--1"]
NAN = ["nan", "NaN", "-nan"]
TRUE, FALSE = ["True", "true", "1", "yes", "y"], ["False", "false", "0", "no", "n"]
NOTBOOL = ["maybe", "", "2", "None", "on!", "Truee", "0.0"]


def make():
    ck = Check(
        "C29",
        "Each case is one configuration file read by the real reader: a random valid one (every resulting setting compared with the value written or "
        "the documented default), the same with a single fault (must be refused), or one given to the real command line (must end with an error, in "
        "bounded time, without results). Non-trivial = the configuration was judged.",
        ["settings whose faults are only found at output (column names, documented) or which are ignored (unknown sections) are not judged",
         "refused = any error before results are produced"],
    )
    ck.need("valid_configs", 150)
    ck.need("settings_compared", 4000)
    ck.need("faults", 900)
    ck.need("faults_refused", 900)
    ck.need("fault_kinds", 100)
    ck.need("defaults_compared", 600)
    ck.need("logs_told_apart", 20)
    ck.need("logs_of_names", 6)
    ck.need("command_line_refused", 10)
    ck.need("des_configs", 40)
    ck.need("written_styles", 100)
    return ck


def num(rng, lo, hi, integer=False):
    """A number and one of the ways to write it."""
    if integer:
        v = int(rng.integers(lo, hi + 1))
        return v, str(rng.choice([f"{v}", f" {v} ", f"+{v}", f"0{v}"]))
    v = float(rng.choice([lo, hi, rng.uniform(lo, hi)])) if rng.random() < 0.4 else float(rng.uniform(lo, hi))
    k = rng.integers(5)
    s = repr(v) if k < 2 else f"{v:.12e}" if k == 2 else f"{v:.3f}" if k == 3 else f"+{v!r}" if v >= 0 else repr(v)
    if k == 3 and not lo <= float(s) <= hi:
        s = repr(v)
    return float(s), s


def boolean(rng):
    b = bool(rng.random() < 0.5)
    return b, str(rng.choice(TRUE if b else FALSE))


def valid(rng, survey, path):
    """(sections as text, expected settings {(section, key): value}, {(section, key): expected default})"""
    des = survey.lower() == "des"
    s, x, dflt = {}, {}, {}

    def put(sec, key, text, val):
        s.setdefault(sec, {})[key] = text
        x[sec, key] = val

    def opt(sec, key, tv, default, p=0.5):
        if rng.random() < p:
            put(sec, key, tv[1], tv[0])
        else:
            dflt[sec, key] = default

    et = str(rng.choice(["ar", "external"]))
    put("INPUT", "ephemerides_type", et, et)
    v = str(rng.choice(["csv", "whitespace", "hdf5"]))
    put("INPUT", "eph_format", v, v)
    v = str(rng.choice(["csv", "whitespace", "comma"]))
    put("INPUT", "aux_format", v, v)
    v, t = num(rng, 1, 50000, True)
    put("INPUT", "size_serial_chunk", t, v)
    q = str(rng.choice(["SELECT observationId, a AS b FROM observations order by observationId", "SELECT * FROM observations WHERE scheduler_note LIKE 'pair_%' AND x = 5%3",
                        "SELECT a FROM o WHERE b IN ('[x]', \"y;z\") AND c <> '#1'", "SELECT 1 = 1, 'a: b' FROM o", "SELECT '100%', '%%', '%(x)s', '$y' FROM o"]))
    put("INPUT", "pointing_sql_query", q, q)
    if et == "ar":
        for k, lo, hi in (("ar_ang_fov", 0.0, 5.0), ("ar_fov_buffer", 0.0, 1.0)):
            v, t = num(rng, lo, hi)
            put("SIMULATION", k, t, v)
        v, t = num(rng, 1, 5, True)
        put("SIMULATION", "ar_picket", t, v)
        v, t = num(rng, 0, 9, True)
        put("SIMULATION", "ar_healpix_order", t, v)
        v = str(rng.choice(["X05", "W84", "I11", "500"]))
        put("SIMULATION", "ar_obs_code", v, v)
        opt("SIMULATION", "ar_n_sub_intervals", num(rng, 1, 300, True), 101)
    f = [str(a) for a in rng.permutation(np.array(DES if des else LSST))[: int(rng.integers(1, 6))]]
    put("FILTERS", "observing_filters", str(rng.choice([",", ", ", " , "])).join(f), f)
    k = rng.integers(4)
    if k == 0:
        v, t = num(rng, 10, 20)
        put("SATURATION", "bright_limit", t, [v] * len(f))
        x["SATURATION", "bright_limit_on"] = True
    elif k == 1:
        vs = [num(rng, 10, 20) for _ in f]
        put("SATURATION", "bright_limit", ", ".join(t for _, t in vs), [v for v, _ in vs])
        x["SATURATION", "bright_limit_on"] = True
    else:
        dflt["SATURATION", "bright_limit"] = None
        dflt["SATURATION", "bright_limit_on"] = None
    v = str(rng.choice(["HG", "HG1G2", "HG12", "linear", "none"]))
    put("PHASECURVES", "phase_function", v, v)
    m = str(rng.choice(["circle", "footprint", "none"] + ["visits_footprint"] * des))
    put("FOV", "camera_model", m, m)
    if m == "circle":
        k = rng.integers(3)
        if k != 0:
            v, t = num(rng, 0.0, 1.0)
            put("FOV", "fill_factor", t, v)
        else:
            dflt["FOV", "fill_factor"] = None
        if k != 1:
            v, t = num(rng, 0.0, 3.0)
            put("FOV", "circle_radius", t, v)
        else:
            dflt["FOV", "circle_radius"] = None
    elif m == "footprint":
        opt("FOV", "footprint_edge_threshold", num(rng, 0.0, 10.0), None)
        opt("FOV", "footprint_path", (path, path), None)
    elif m == "visits_footprint":
        v = "SELECT llcra FROM observations WHERE visitId = ?"
        put("FOV", "visits_query", v, v)
    if des:
        b, t = boolean(rng)
        put("FADINGFUNCTION", "fading_function_on", t, b)
        if b:
            opt("FADINGFUNCTION", "des_transient_efficency", num(rng, 0.0, 1.0), 1)
    elif rng.random() < 0.6:
        v, t = num(rng, 1e-6, 0.5)
        put("FADINGFUNCTION", "fading_function_width", t, v)
        v, t = num(rng, 0.0, 1.0)
        put("FADINGFUNCTION", "fading_function_peak_efficiency", t, v)
        x["FADINGFUNCTION", "fading_function_on"] = True
    else:
        dflt["FADINGFUNCTION", "fading_function_on"] = False
    if not des and rng.random() < 0.6:
        L = "LINKINGFILTER"
        for k, a in (("SSP_detection_efficiency", (0.0, 1.0)), ("SSP_separation_threshold", (1e-3, 5.0)), ("SSP_maximum_time", (0.0, 1.0)), ("SSP_night_start_utc", (0.0, 24.0)),
                     ("SSP_number_observations", (1, 5, True)), ("SSP_number_tracklets", (1, 6, True)), ("SSP_track_window", (1, 40, True))):
            v, t = num(rng, *a)
            put(L, k, t, v)
        x[L, "ssp_linking_on"] = True
        opt(L, "drop_unlinked", boolean(rng), True)
    else:
        dflt["LINKINGFILTER", "ssp_linking_on"] = False
        dflt["LINKINGFILTER", "drop_unlinked"] = True
    if des:
        opt("LINKINGFILTER", "des_discovery_on", boolean(rng), None)
        for nm, hi in (("distance", 3000.0), ("motion", 10.0)):
            if rng.random() < 0.5:
                a, b = sorted([num(rng, 0.0, hi), num(rng, 0.0, hi)])
                put("LINKINGFILTER", nm + "_cut_lower", a[1], a[0])
                put("LINKINGFILTER", nm + "_cut_upper", b[1], b[0])
                x["LINKINGFILTER", nm + "_cut_on"] = True
            else:
                dflt["LINKINGFILTER", nm + "_cut_on"] = None
    v = str(rng.choice(["csv", "sqlite3", "hdf5"]))
    put("OUTPUT", "output_format", v, v)
    k = rng.integers(3)
    if k == 2:
        c = ["ObjID", "RA_deg", "some_col", "Dec_deg"][: int(rng.integers(2, 5))]
        put("OUTPUT", "output_columns", str(rng.choice([",", ", ", " ,  "])).join(c), c)
    else:
        put("OUTPUT", "output_columns", ["basic", "all"][k], ["basic", "all"][k])
    opt("OUTPUT", "position_decimals", num(rng, 0, 12, True), None)
    opt("OUTPUT", "magnitude_decimals", num(rng, 0, 12, True), None)
    opt("LIGHTCURVE", "lc_model", (None, "none"), None)
    opt("ACTIVITY", "comet_activity", (None, "none"), None)
    if rng.random() < 0.5:
        if rng.random() < 0.5 and not des:
            v, t = num(rng, 0.0, 10.0)
            put("EXPERT", "snr_limit", t, v)
            x["EXPERT", "snr_limit_on"], dflt["EXPERT", "mag_limit_on"] = True, False
        else:
            v, t = num(rng, 0.0, 30.0)
            put("EXPERT", "mag_limit", t, v)
            x["EXPERT", "mag_limit_on"], dflt["EXPERT", "snr_limit_on"] = True, False
    else:
        dflt["EXPERT", "snr_limit_on"], dflt["EXPERT", "mag_limit_on"] = False, False
    opt("EXPERT", "default_snr_cut", boolean(rng), True)
    opt("EXPERT", "brute_force", boolean(rng), True)
    for k in ("randomization_on", "vignetting_on", "trailing_losses_on"):
        if des:
            opt("EXPERT", k, (False, str(rng.choice(FALSE))), False, 0.3)
        else:
            opt("EXPERT", k, boolean(rng), True)
    if rng.random() < 0.3:
        n = str(rng.choice(["planet_ephemeris", "earth_predict", "earth_historical", "jpl_planets", "leap_seconds", "orientation_constants", "jpl_small_bodies", "earth_high_precision"]))
        put("AUXILIARY", n, "my_" + n, "my_" + n)
        if rng.random() < 0.5:
            put("AUXILIARY", n + "_url", "https://example.org/a%20b/" + n, "https://example.org/a%20b/" + n)
        else:
            dflt["AUXILIARY", n + "_url"] = None
    return s, x, dflt


# single faults: (name, applies(survey, sections, rng) -> new sections or None)
def F(sec, key, values, cond=None):
    """Replace (or add) one value."""
    def f(rng, des, s):
        if cond is None and key not in s.get(sec, {}):
            return None
        if cond is not None and not cond(des, s):
            return None
        return {**s, sec: {**s.get(sec, {}), key: str(rng.choice(np.array(values, object)))}}
    return f"[{sec}] {key} in {values[:3]}...", f


def D(sec, key):
    """Leave one mandatory value out."""
    def f(rng, des, s):
        if key not in s.get(sec, {}):
            return None
        t = {k: v for k, v in s[sec].items() if k != key}
        return {k: v for k, v in {**s, sec: t}.items() if v}
    return f"[{sec}] without {key}", f


def model(m):
    return lambda des, s: s["FOV"]["camera_model"] == m


def ar(des, s):
    return s["INPUT"]["ephemerides_type"] == "ar"


def ext(des, s):
    return not ar(des, s)


def ssp(des, s):
    return "SSP_track_window" in s.get("LINKINGFILTER", {})


isdes, notdes = (lambda des, s: des), (lambda des, s: not des)
FAULTS = []
for k in ("ephemerides_type", "eph_format", "size_serial_chunk", "aux_format", "pointing_sql_query"):
    FAULTS.append(D("INPUT", k))
FAULTS += [F("INPUT", "ephemerides_type", ["AR", "pickle", "", "internal", "externals"]), F("INPUT", "eph_format", ["tsv", "CSV ", "h6", "", "sqlite3"][:1] + ["tsv", "h6", "", "sqlite3"]),
           F("INPUT", "aux_format", ["tsv", "hdf5", "", "semicolon"]), F("INPUT", "size_serial_chunk", ["0", "-1", "-100", "10.5", "1e3", "abc", "", "nan", "inf"])]
for k in ("ar_ang_fov", "ar_fov_buffer", "ar_picket", "ar_obs_code", "ar_healpix_order"):
    FAULTS += [D("SIMULATION", k), F("SIMULATION", k, ["1"], ext)]
for k in ("ar_ang_fov", "ar_fov_buffer"):
    FAULTS += [F("SIMULATION", k, NOTNUM), F("SIMULATION", k, NAN), F("SIMULATION", k, ["-0.2", "-1e-9", "-3"])]
for k in ("ar_picket", "ar_healpix_order", "ar_n_sub_intervals"):
    FAULTS += [F("SIMULATION", k, NOTNUM + ["1.5", "nan", "inf"], ar), F("SIMULATION", k, ["-1", "-7"], ar)]
FAULTS += [F("SIMULATION", "ar_picket", ["0"], ar), F("SIMULATION", "ar_n_sub_intervals", ["0"], ar)]
FAULTS += [D("FILTERS", "observing_filters"), F("FILTERS", "observing_filters", ["r,q", "R", "r;g", "r g", "", "r,,g", "u'", "all"]),
           F("FILTERS", "observing_filters", ["r,Y", "Y"], notdes), F("FILTERS", "observing_filters", ["r,y", "u,g"], isdes)]
FAULTS += [F("SATURATION", "bright_limit", ["abc", "16,abc", "16;17", "", "16,,17"], lambda d, s: True), F("SATURATION", "bright_limit", NAN, lambda d, s: True),
           F("SATURATION", "bright_limit", ["1,2,3,4,5,6,7", "16,15,14,13,12,11,10,9"], lambda d, s: True),
           F("SATURATION", "bright_limit", ["16,17"], lambda d, s: s["FILTERS"]["observing_filters"].count(",") != 1)]
FAULTS += [D("PHASECURVES", "phase_function"), F("PHASECURVES", "phase_function", ["hg", "HG13", "None", "", "H-G", "Linear", "NONE"])]
FAULTS += [D("FOV", "camera_model"), F("FOV", "camera_model", ["Circle", "square", "", "footprints", "None"])]
FAULTS += [F("FOV", "visits_query", ["SELECT 1"], model("footprint")), F("FOV", "fill_factor", ["0.9"], model("footprint")), F("FOV", "circle_radius", ["1.75"], model("footprint")),
           F("FOV", "footprint_edge_threshold", NOTNUM, model("footprint")), F("FOV", "footprint_edge_threshold", NAN, model("footprint")),
           F("FOV", "footprint_path", ["/nowhere/corners.csv", ""], model("footprint")),
           F("FOV", "footprint_edge_threshold", ["2."], model("circle")), F("FOV", "fill_factor", NOTNUM, model("circle")), F("FOV", "fill_factor", NAN, model("circle")),
           F("FOV", "fill_factor", ["1.0001", "-0.0001", "90", "inf"], model("circle")), F("FOV", "circle_radius", NOTNUM, model("circle")), F("FOV", "circle_radius", NAN, model("circle")),
           F("FOV", "circle_radius", ["-0.001", "-1.75"], model("circle")),
           F("FOV", "camera_model", ["visits_footprint"], notdes), D("FOV", "visits_query"),
           F("FOV", "footprint_edge_threshold", ["2."], model("visits_footprint")), F("FOV", "fill_factor", ["0.9"], model("visits_footprint")), F("FOV", "circle_radius", ["1.1"], model("visits_footprint"))]


def no_circle(rng, des, s):
    return {**s, "FOV": {"camera_model": "circle"}}


FAULTS.append(("[FOV] circle without radius and fill factor", no_circle))
fad = lambda d, s: not d and "fading_function_width" in s.get("FADINGFUNCTION", {})
FAULTS += [("[FADINGFUNCTION] only a width", lambda g, d, s: {**s, "FADINGFUNCTION": {"fading_function_width": "0.1"}}),
           ("[FADINGFUNCTION] only a peak", lambda g, d, s: {**s, "FADINGFUNCTION": {"fading_function_peak_efficiency": "1."}}),
           F("FADINGFUNCTION", "fading_function_width", ["0", "0.0", "-0.1", "0.500001", "1", "inf"], fad), F("FADINGFUNCTION", "fading_function_width", NOTNUM + NAN, fad),
           F("FADINGFUNCTION", "fading_function_peak_efficiency", ["-0.0001", "1.0001", "2"], fad), F("FADINGFUNCTION", "fading_function_peak_efficiency", NOTNUM + NAN, fad),
           D("FADINGFUNCTION", "fading_function_on"), F("FADINGFUNCTION", "fading_function_on", NOTBOOL, isdes),
           F("FADINGFUNCTION", "fading_function_width", ["0.1"], isdes), F("FADINGFUNCTION", "fading_function_peak_efficiency", ["1."], isdes)]
don = lambda d, s: d and s["FADINGFUNCTION"].get("fading_function_on") in TRUE
FAULTS += [F("FADINGFUNCTION", "des_transient_efficency", NOTNUM + NAN, don), F("FADINGFUNCTION", "des_transient_efficency", ["-0.1", "1.01", "95.5", "inf"], don)]
SSP = ["SSP_detection_efficiency", "SSP_number_observations", "SSP_separation_threshold", "SSP_maximum_time", "SSP_number_tracklets", "SSP_track_window", "SSP_night_start_utc"]
for k in SSP:
    FAULTS += [D("LINKINGFILTER", k), F("LINKINGFILTER", k, NOTNUM + NAN), F("LINKINGFILTER", k, ["-1", "-0.5"])]
    FAULTS.append((f"[LINKINGFILTER] only {k}", lambda g, d, s, k=k: None if ssp(d, s) else {**s, "LINKINGFILTER": {**s.get("LINKINGFILTER", {}), k: "1"}}))
FAULTS += [F("LINKINGFILTER", "SSP_number_observations", ["0", "1.5"]), F("LINKINGFILTER", "SSP_number_tracklets", ["0", "2.5"]), F("LINKINGFILTER", "SSP_track_window", ["0", "14.5"]),
           F("LINKINGFILTER", "SSP_detection_efficiency", ["1.0001", "95"]), F("LINKINGFILTER", "SSP_night_start_utc", ["24.01", "1600"]),
           ("[LINKINGFILTER] no separation between several observations", lambda g, d, s: {**s, "LINKINGFILTER": {**s["LINKINGFILTER"], "SSP_separation_threshold": "0", "SSP_number_observations": "2"}} if ssp(d, s) else None),
           F("LINKINGFILTER", "drop_unlinked", NOTBOOL, lambda d, s: True), F("LINKINGFILTER", "des_discovery_on", ["maybe", "2", "None"], isdes),
           ("[LINKINGFILTER] of Rubin for DES", lambda g, d, s: {**s, "LINKINGFILTER": dict(zip(SSP, ["0.95", "2", "0.5", "0.0625", "3", "15", "16.0"]))} if d else None)]
for nm in ("distance", "motion"):
    for e in ("upper", "lower"):
        FAULTS += [D("LINKINGFILTER", f"{nm}_cut_{e}"), F("LINKINGFILTER", f"{nm}_cut_{e}", NOTNUM + NAN),
                   (f"[LINKINGFILTER] only {nm}_cut_{e}", lambda g, d, s, nm=nm, e=e: {**s, "LINKINGFILTER": {f"{nm}_cut_{e}": "3"}})]
    FAULTS.append((f"[LINKINGFILTER] {nm} cut for Rubin", lambda g, d, s, nm=nm: None if d else {**s, "LINKINGFILTER": {**s.get("LINKINGFILTER", {}), f"{nm}_cut_lower": "1", f"{nm}_cut_upper": "3"}}))
FAULTS += [D("OUTPUT", "output_format"), D("OUTPUT", "output_columns"), F("OUTPUT", "output_format", ["CSV", "h5", "sqlite", "", "parquet", "separatelyCSV"]), F("OUTPUT", "output_columns", ["Basic", "some", "ObjID", ""])]
for k in ("position_decimals", "magnitude_decimals"):
    FAULTS += [F("OUTPUT", k, NOTNUM + ["2.5", "nan", "1e1"], lambda d, s: True), F("OUTPUT", k, ["-1", "-7"], lambda d, s: True)]
FAULTS += [F("LIGHTCURVE", "lc_model", ["nothing_like_it", "None", "", "sinusoid"], lambda d, s: True), F("ACTIVITY", "comet_activity", ["nothing_like_it", "None", ""], lambda d, s: True),
           F("EXPERT", "snr_limit", NOTNUM + NAN, lambda d, s: "mag_limit" not in s.get("EXPERT", {})), F("EXPERT", "snr_limit", ["-0.1", "-5"], lambda d, s: "mag_limit" not in s.get("EXPERT", {})),
           F("EXPERT", "mag_limit", NOTNUM + NAN, lambda d, s: "snr_limit" not in s.get("EXPERT", {})), F("EXPERT", "mag_limit", ["-0.1", "-5"], lambda d, s: "snr_limit" not in s.get("EXPERT", {})),
           ("[EXPERT] SNR limit for DES", lambda g, d, s: {**s, "EXPERT": {**{k: v for k, v in s.get("EXPERT", {}).items() if k != "mag_limit"}, "snr_limit": str(g.choice(["0", "5", "2.5"]))}} if d else None),
           ("[EXPERT] both limits", lambda g, d, s: {**s, "EXPERT": {**s.get("EXPERT", {}), "snr_limit": "5", "mag_limit": str(g.choice(["22", "0"]))}})]
for k in ("default_snr_cut", "brute_force", "randomization_on", "vignetting_on", "trailing_losses_on"):
    FAULTS.append(F("EXPERT", k, NOTBOOL, lambda d, s: True))
for k in ("randomization_on", "vignetting_on", "trailing_losses_on"):
    FAULTS.append(F("EXPERT", k, TRUE, isdes))
for k in ("planet_ephemeris", "earth_predict", "earth_historical", "earth_high_precision", "jpl_planets", "jpl_small_bodies", "leap_seconds", "observatory_codes_compressed", "orientation_constants"):
    FAULTS.append((f"[AUXILIARY] url without {k}", lambda g, d, s, k=k: {**s, "AUXILIARY": {k + "_url": "https://example.org/x"}}))
for sec in ("INPUT", "FILTERS", "SATURATION", "PHASECURVES", "FOV", "FADINGFUNCTION", "LINKINGFILTER", "OUTPUT", "LIGHTCURVE", "ACTIVITY", "EXPERT", "AUXILIARY"):
    FAULTS.append((f"[{sec}] unknown key", lambda g, d, s, sec=sec: {**s, sec: {**s.get(sec, {}), str(g.choice(["unknown_key", "limit", "camera_modl", "bright_limits"])): "1"}}))
for sec in ("INPUT", "FILTERS", "PHASECURVES", "FOV", "OUTPUT"):
    FAULTS.append((f"no section {sec}", lambda g, d, s, sec=sec: {k: v for k, v in s.items() if k != sec}))
    FAULTS.append((f"section {sec} misspelled", lambda g, d, s, sec=sec: {(k.lower() if k == sec else k): v for k, v in s.items()}))
FAULTS.append(("no section SIMULATION", lambda g, d, s: {k: v for k, v in s.items() if k != "SIMULATION"} if ar(d, s) else None))
FAULTS.append(("no section FADINGFUNCTION", lambda g, d, s: {k: v for k, v in s.items() if k != "FADINGFUNCTION"} if d else None))


def text(rng, s, style=True):
    """One of the ways to write a configuration file."""
    out = []
    secs = list(s.items())
    if style:
        secs = [secs[i] for i in rng.permutation(len(secs))]
    sep = str(rng.choice([" = ", "=", ": ", " : ", "\t=\t"])) if style else " = "
    for name, kv in secs:
        if style and rng.random() < 0.2:
            out.append(str(rng.choice(["# a comment = 1", "; size_serial_chunk = 7", "#", ""])))
        out.append(f"[{name}]")
        keys = list(kv.items())
        if style:
            keys = [keys[i] for i in rng.permutation(len(keys))]
        for k, v in keys:
            if style and rng.random() < 0.15:
                out.append(str(rng.choice(["# " + k + " = 99", "", "   "])))
            if style and rng.random() < 0.2:
                k = str(rng.choice([k.upper(), k.lower(), k.title()]))
            out.append(f"{k}{sep}{v}")
        if rng.random() < 0.7:
            out.append("")
    return "\n".join(out) + "\n"


def read(ck, d, body, survey, i=0):
    from sorcha.utilities.sorchaConfigs import sorchaConfigs

    p = os.path.join(d, f"c{i}.ini")
    with open(p, "w") as fh:
        fh.write(body)
    logging.disable(logging.CRITICAL)
    try:
        return ck.call(sorchaConfigs, p, survey)
    finally:
        logging.disable(logging.NOTSET)


def agrees(got, want):
    if want is None or isinstance(want, (bool, str)):
        return type(got) is type(want) and got == want
    if isinstance(want, list):
        return isinstance(got, (list, tuple)) and len(got) == len(want) and all(agrees(a, b) for a, b in zip(got, want))
    return not isinstance(got, (bool, str)) and got is not None and got == want and (not isinstance(want, int) or int(got) == got)


def settings(ck):
    for i in range(ck.n(200, 4000)):
        rng = ck.rng("s", i)
        d = W.tmpdir()
        try:
            survey = str(rng.choice(SURVEYS))
            if survey.lower() == "des":
                ck.ev("des_configs")
            path = os.path.join(d, "corners.csv")
            open(path, "w").close()
            s, x, dflt = valid(rng, survey, path)
            style = bool(rng.random() < 0.7)
            body = text(rng, s, style)
            ck.ev("written_styles", style)
            ctx = {"survey": survey, "config": body}
            cfg, e = read(ck, d, body, survey)
            ck.case(["valid", survey, body], True, {"survey": survey, "settings": len(x), "defaults": len(dflt)})
            if not ck.ensure(e is None, f"a valid configuration was refused: {type(e).__name__} {str(e)[:250]}", ctx):
                raise SkipCase()
            ck.ev("valid_configs")
            for (sec, key), v in x.items():
                got = getattr(getattr(cfg, sec.lower()), key.lower(), "<absent>")
                ck.ev("settings_compared")
                ck.ensure(agrees(got, v), f"[{sec}] {key} is {got!r} although {v!r} is written", dict(ctx, key=key, got=repr(got), written=repr(v)))
            for (sec, key), v in dflt.items():
                got = getattr(getattr(cfg, sec.lower()), key.lower(), "<absent>")
                ck.ev("defaults_compared")
                ck.ensure(agrees(got, v) or (not v and not got and isinstance(v, (bool, type(None))) and isinstance(got, (bool, type(None)))),
                          f"[{sec}] {key} is {got!r} by default instead of {v!r}", dict(ctx, key=key, got=repr(got)))
            aux = s.get("AUXILIARY", {})
            for k, v in aux.items():
                if not k.endswith("_url"):
                    ck.ensure(cfg.auxiliary.urls.get(v, "<absent>") == aux.get(k + "_url"), f"the auxiliary file {v} is to be fetched from {cfg.auxiliary.urls.get(v)!r}", ctx)
                    ck.ensure(v in cfg.auxiliary.data_file_list and v in cfg.auxiliary.registry, f"the auxiliary file {v} is not among the files used", ctx)
            # faults
            for _ in range(9):
                for _ in range(30):
                    j = int(rng.integers(len(FAULTS)))
                    name, f = FAULTS[j]
                    t = f(rng, survey.lower() == "des", s)
                    if t is not None and t != s:
                        break
                else:
                    continue
                body = text(rng, t, style)
                _, e = read(ck, d, body, survey, 1)
                ck.ev("faults")
                ck.case(["fault", name, survey, body], True, {"survey": survey, "fault": name})
                SEEN.add(j)
                if ck.ensure(e is not None, f"a configuration was accepted although: {name}", {"survey": survey, "fault": name, "config": body}):
                    ck.ev("faults_refused")
                    c = {"survey": survey, "fault": name, "config": body, "error": repr(e)[:300]}
                    ck.ensure(not isinstance(e, SystemExit) or e.code not in (None, 0), f"the refusal counts as success: {name}", c)
                    if "unknown key" not in name:
                        ck.ensure(isinstance(e, SystemExit), f"the refusal is an internal error ({type(e).__name__}): {name}", c)
        except SkipCase:
            pass
        finally:
            shutil.rmtree(d, ignore_errors=True)
    ck.ev("fault_kinds", len(SEEN))


SEEN = set()


class Sink(logging.Handler):
    def __init__(self):
        super().__init__(level=0)
        self.lines = []

    def emit(self, r):
        self.lines.append(r.getMessage())


def printed(ck, cfg, args):
    """The lines of the log about the settings."""
    from sorcha.utilities.sorchaConfigs import PrintConfigsToLog

    h, lg = Sink(), logging.getLogger("sorcha.utilities.sorchaConfigs")
    old = lg.level
    lg.addHandler(h)
    lg.setLevel(1)
    prop, lg.propagate = lg.propagate, False
    off = logging.root.manager.disable
    logging.disable(logging.NOTSET)
    try:
        _, e = ck.call(PrintConfigsToLog, cfg, args)
    finally:
        logging.disable(off)
        lg.propagate = prop
        lg.removeHandler(h)
        lg.setLevel(old)
    return h.lines, e


PAIRS = [("OUTPUT", "position_decimals", [None, "0", "3"]), ("OUTPUT", "magnitude_decimals", [None, "0", "4"]), ("EXPERT", "snr_limit", [None, "0", "5"]), ("EXPERT", "mag_limit", [None, "0", "22"]),
         ("EXPERT", "trailing_losses_on", ["True", "False"]), ("EXPERT", "randomization_on", ["True", "False"]), ("EXPERT", "vignetting_on", ["True", "False"]),
         ("EXPERT", "default_snr_cut", ["True", "False"]), ("SATURATION", "bright_limit", [None, "16.0", "15.5"]), ("PHASECURVES", "phase_function", ["HG", "HG12", "none"]),
         ("FILTERS", "observing_filters", ["r,g", "r,i", "r"]), ("INPUT", "size_serial_chunk", ["1", "10"]), ("OUTPUT", "output_format", ["csv", "hdf5"]), ("OUTPUT", "output_columns", ["basic", "all", "ObjID,RA_deg"]),
         ("FOV", "footprint_edge_threshold", [None, "0", "2."]), ("LINKINGFILTER", "drop_unlinked", ["True", "False"]), ("LINKINGFILTER", "SSP_track_window", ["15", "16"]),
         ("LINKINGFILTER", "SSP_detection_efficiency", ["0", "0.95"]), ("FADINGFUNCTION", "fading_function_width", ["0.1", "0.2"]), ("FADINGFUNCTION", "fading_function_peak_efficiency", ["1", "0"])]


def logs(ck):
    """The run log is the record of what was simulated: configurations which differ do not get the same record."""
    from types import SimpleNamespace as NS

    args = NS(configfile="c.ini", paramsinput="p.csv", orbinfile="o.csv", input_ephemeris_file="e.csv", output_ephemeris_file=None, surveyname="rubin_sim", pointing_database="p.db",
              visits="v.db", outpath="/out", outfilestem="stem", stats=None, complex_parameters=None, ar_data_file_path=None, loglevel=False)
    for sec, key, values in PAIRS:
        seen = {}
        for v in values:
            d = W.tmpdir()
            rng = ck.rng("log", sec, key)
            s = W.merged(FOV={"camera_model": "footprint"}, LINKINGFILTER=dict(zip(SSP, ["0.95", "2", "0.5", "0.0625", "3", "15", "16.0"])),
                         FADINGFUNCTION={"fading_function_width": "0.1", "fading_function_peak_efficiency": "1."})
            if v is not None:
                s.setdefault(sec, {})[key] = v
            cfg, e = read(ck, d, text(rng, s, False), "rubin_sim")
            if not ck.ensure(e is None, f"a valid configuration was refused: {str(e)[:200]}", {"config": s}):
                continue
            cfg.filters.mainfilter, cfg.filters.othercolours = "r", [f"{f}-r" for f in cfg.filters.observing_filters[1:]] or None
            lines, e = printed(ck, cfg, args)
            shutil.rmtree(d, ignore_errors=True)
            ck.case(["log", sec, key, str(v)], True, {"key": key, "value": v, "lines": len(lines)})
            if not ck.ensure(e is None, f"writing the settings to the log fails with [{sec}] {key} = {v}: {e}", {"config": s}):
                continue
            t = "\n".join(lines)
            ck.ensure(t not in seen, f"the log says the same for [{sec}] {key} = {seen.get(t)} and = {v}", lambda: {"key": key, "values": [seen.get(t), v], "log": lines})
            seen[t] = v
            ck.ev("logs_told_apart")


def log_names(ck):
    """The name of a survey may be written in lower or upper case: the log of its settings says the same."""
    from types import SimpleNamespace as NS

    for names in (["rubin_sim", "RUBIN_SIM"], ["lsst", "LSST"], ["des", "DES"]):
        seen = []
        rng = ck.rng("log name", names[0])
        d = W.tmpdir()
        s, _, _ = valid(rng, names[0], d)
        s["FOV"] = {"camera_model": "footprint"}
        body = text(rng, s, False)
        for name in names:
            cfg, e = read(ck, d, body, name)
            if not ck.ensure(e is None, f"a valid configuration was refused: {str(e)[:200]}", {"survey": name, "config": s}):
                continue
            cfg.filters.mainfilter, cfg.filters.othercolours = "r", None
            args = NS(configfile="c.ini", paramsinput="p.csv", orbinfile="o.csv", input_ephemeris_file="e.csv", output_ephemeris_file=None, surveyname=name, pointing_database="p.db",
                      visits="v.db", outpath="/out", outfilestem="stem", stats=None, complex_parameters=None, ar_data_file_path=None, loglevel=False)
            lines, e = printed(ck, cfg, args)
            ck.case(["log name", name], True, {"survey": name, "lines": len(lines)})
            if ck.ensure(e is None, f"writing the settings to the log fails for the survey {name}: {e}", {"config": s}):
                seen.append("\n".join(lines).lower())
                ck.ev("logs_of_names")
        shutil.rmtree(d, ignore_errors=True)
        ck.ensure(len(set(seen)) <= 1, f"the log of the settings depends on the case of the name of the survey ({names[0]})", lambda: {"logs": seen})


def command_line(ck):
    """Faults given to the real command line: an error, soon, and no results."""
    for i in range(ck.n(14, 150)):
        rng = ck.rng("c", i)
        d = W.tmpdir()
        try:
            w = P.make(rng, "rubin_sim", n=4, groups=1, nights=2, pad_vis=2, hrange=(15.0, 18.0))
            P.write(w, d)
            base = P.sections(w)
            if i == 0:
                s, name = base, None
            elif i in (1, 2):
                s, name = {**base, "INPUT": {**base["INPUT"], "size_serial_chunk": ["0", "-3"][i - 1]}}, f"size_serial_chunk = {['0', '-3'][i - 1]}"
            else:
                for _ in range(60):
                    name, f = FAULTS[int(rng.integers(len(FAULTS)))]
                    s = f(rng, False, base)
                    if s is not None and s != base:
                        break
                else:
                    raise SkipCase()
            p = os.path.join(d, "c.ini")
            with open(p, "w") as fh:
                fh.write(text(rng, s, False))
            out = os.path.join(d, "o")
            ctx = {"fault": name, "config": open(p).read()}
            try:
                r = P.cli(w, out, seed=1, ini=p, timeout=120)
            except subprocess.TimeoutExpired:
                ck.case(["cli", name, i], True, {"fault": name})
                ck.violation(f"the command line does not come to an end: {name}", ctx)
                continue
            ck.case(["cli", name, i], True, {"fault": name})
            res = P.read_output(out, "out", "csv") if os.path.exists(os.path.join(out, "out.csv")) else None
            if name is None:
                ck.ensure(r.returncode == 0, f"a run with a valid configuration failed: {r.stderr[-300:]}", ctx)
                continue
            ck.ev("command_line_refused")
            ck.ensure(r.returncode > 0, f"the command line ended with {r.returncode} although: {name}", ctx)
            ck.ensure(res is None or not len(res), f"results were written although: {name}", ctx)
        except SkipCase:
            pass
        finally:
            shutil.rmtree(d, ignore_errors=True)


def parts():
    return [("settings", settings), ("logs", logs), ("log_names", log_names), ("command_line", command_line)]
