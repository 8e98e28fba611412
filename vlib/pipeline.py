"""Whole runs of the real pipeline on generated worlds (external ephemerides).

A World holds tables; `write` stores them in a scratch folder; `run` calls the real entry point in-process."""

import logging
import os
import shutil
import sqlite3

import numpy as np
import pandas as pd

from vlib import world as W

AU = W.AU_KM
DES_FILTERS = ["g", "r", "i", "z"]
VISITS_QUERY = ("SELECT llcra, llcdec, lrcra, lrcdec, urcra, urcdec, ulcra, ulcdec, ra as ra_centre, dec as dec_centre, detector as detectorID, "
                "magLim as limMag_perChip FROM observations WHERE visitId = ?")


def names(rng, n, kind=None):
    kind = kind or str(rng.choice(["plain", "num", "exp", "int", "mixed", "odd", "words"]))
    if kind == "num":
        return [f"{z:06d}" for z in rng.permutation(900)[:n] + 1]
    if kind == "exp":
        z = rng.permutation(90 * 8)[:n]
        return [f"{a // 8 + 1}e{a % 8 + 1}" for a in z]
    if kind == "int":
        return [str(z) for z in rng.permutation(10 ** 6)[:n]]
    if kind == "mixed":
        z = rng.permutation(10 ** 5)[:n]
        return [str(a) if i % 2 else f"x{a}" for i, a in enumerate(z)]
    if kind == "words":
        base = ["NA", "null", "None", "N/A", "NULL", "TRUE", "n/a"]
        return [str(z) for z in rng.permutation(base + [f"NA{k}" for k in range(n)])[:n]]
    if kind == "odd":
        base = ["2001-AB_", "C/2020.F", "S0.5-", "(12)P+", "a:b@", "Z'q"]
        return [base[i % len(base)] + str(a) for i, a in enumerate(rng.permutation(999)[:n])]
    return [f"S{z:05x}a" for z in rng.permutation(10 ** 5)[:n]]


class World:
    pass


def make(rng, survey="rubin_sim", n=12, groups=3, nights=5, per_night=2, phase="HG", name_kind=None, spread=1.9,
         hrange=(15.0, 23.0), pad_vis=20, per_filter_phase=False, motion=(0.05, 0.8), same_field=True, fov=2.1):
    """A survey, a population and its ephemeris."""
    w = World()
    w.survey, w.phase = survey, phase
    des = survey == "DES"
    filt = [str(f) for f in rng.permutation(DES_FILTERS if des else W.LSST_FILTERS)]
    main = w.main = filt[0]  # the first observing filter is the one of the absolute magnitudes
    w.filters = filt
    t0 = float(rng.integers(60200, 61500))
    gra, gdec = W.rand_sky(rng, groups)
    gdec = np.clip(gdec, -80, 80) if des else gdec
    vis = []
    for g in range(groups):
        for k in rng.choice(np.arange(12), size=min(nights, 12), replace=False):
            start = t0 + k + rng.uniform(0.8, 0.95)
            for j in range(per_night):
                ra, dec = (gra[g], gdec[g])
                if not same_field:
                    ra, dec = W.offset(ra, dec, rng.uniform(0, 0.6), rng.uniform(0, 360))
                vis.append((start + j * rng.uniform(0.012, 0.028), float(ra), float(dec), g))
    for _ in range(pad_vis):
        ra, dec = W.rand_sky(rng, 1)
        vis.append((t0 + rng.uniform(0, 14), float(ra[0]), float(dec[0]), -1))
    vis.sort()
    m = len(vis)
    first = int(rng.choice([0, 1, 5000, 10 ** 6]))
    oid = np.sort(rng.choice(np.arange(first, first + 3 * m), size=m, replace=False))
    rng.shuffle(oid)  # identifiers need not follow time
    exp = rng.choice([15.0, 30.0, 90.0], m) if des else rng.choice([15.0, 30.0], m)
    p = pd.DataFrame({"observationId": oid, "observationStartMJD": [v[0] for v in vis], "visitExposureTime": exp,
                      "filter": rng.choice(np.array(filt, object), m), "fiveSigmaDepth": rng.uniform(21.5, 24.8, m),
                      "fieldRA": [v[1] for v in vis], "fieldDec": [v[2] for v in vis], "group": [v[3] for v in vis]})
    p["visitTime"] = p["visitExposureTime"] + rng.uniform(0, 4, m)
    p["seeingFwhmGeom"] = rng.uniform(0.5, 1.6, m)
    p["seeingFwhmEff"] = p["seeingFwhmGeom"] * 1.1 + 0.05
    p["rotSkyPos"] = rng.uniform(0, 360, m)
    p["c"] = rng.uniform(0.3, 1.0, m)
    p["k"] = rng.uniform(2.0, 12.0, m)
    p["observationMidpointMJD"] = p["observationStartMJD"] + (p["visitExposureTime"] if des else p["visitTime"]) / 2 / 86400
    w.pointing = p

    ids = names(rng, n, name_kind)
    w.ids = ids
    w.orbits = pd.DataFrame({"ObjID": ids, "FORMAT": "COM", "q": rng.uniform(0.5, 5, n), "e": rng.uniform(0, 1.2, n), "inc": rng.uniform(0, 170, n),
                             "node": rng.uniform(0, 360, n), "argPeri": rng.uniform(0, 360, n),
                             "t_p_MJD_TDB": rng.uniform(50000, 70000, n), "epochMJD_TDB": 60000.0})
    par = {"ObjID": ids, "H_" + main: rng.uniform(*hrange, n)}
    for f in filt:
        if f != main:
            par[f"{f}-{main}"] = rng.uniform(-0.8, 1.5, n)
    k = {"HG": ["GS"], "HG1G2": ["G1", "G2"], "HG12": ["G12"], "linear": ["S"], "none": []}[phase]
    rg = {"GS": (0.05, 0.4), "G1": (0.05, 0.5), "G2": (0.05, 0.45), "G12": (0.1, 0.8), "S": (0.01, 0.06)}
    for c in k:
        if per_filter_phase:
            for f in filt:
                par[c + f] = rng.uniform(*rg[c], n)
        else:
            par[c] = rng.uniform(*rg[c], n)
    w.params = pd.DataFrame(par)
    w.group = rng.integers(-1 if rng.random() < 0.5 else 0, groups, n)  # -1: an object without ephemeris
    rows = []
    for i in range(n):
        g = w.group[i]
        if g < 0:
            continue
        ra0, dec0 = W.offset(gra[g], gdec[g], spread * np.sqrt(rng.random()), rng.uniform(0, 360))
        rate, pa = rng.uniform(*motion), rng.uniform(0, 360)
        rate = rate * min(1.0, 3 * fov / (rate * 12))
        rho = 10 ** rng.uniform(-0.5, 1.2)
        lon = rng.uniform(0, 2 * np.pi)
        for v in p[p.group == g].to_dict("records"):
            t = v["observationMidpointMJD"]
            d = t - (t0 + 6)
            ra, dec = W.offset(ra0, dec0, abs(rate * d), pa if d >= 0 else pa + 180)
            ra, dec = float(ra), float(dec)
            if W.angsep(ra, dec, v["fieldRA"], v["fieldDec"]) > fov + 0.1:
                continue
            obs = np.array([np.cos(lon + d / 58), np.sin(lon + d / 58) * 0.917, np.sin(lon + d / 58) * 0.397]) * AU
            ov = np.array([-np.sin(lon), np.cos(lon) * 0.917, np.cos(lon) * 0.397]) * 29.8
            r = obs + W.unit(ra, dec) * rho * AU
            ph = np.degrees(np.arccos(np.dot(r, r - obs) / np.linalg.norm(r) / np.linalg.norm(r - obs)))
            sv = rng.normal(0, 10, 3)
            rows.append((ids[i], v["observationId"], t, t + 2400000.5 + 69.2 / 86400, rho * AU, rng.normal(0, 20), ra, rate * np.sin(np.radians(pa)), dec,
                         rate * np.cos(np.radians(pa)), *r, *sv, *obs, *ov, ph))
    w.eph = pd.DataFrame(rows, columns=["ObjID", "FieldID", "fieldMJD_TAI", "fieldJD_TDB", "Range_LTC_km", "RangeRate_LTC_km_s", "RA_deg", "RARateCosDec_deg_day",
                                        "Dec_deg", "DecRate_deg_day", "Obj_Sun_x_LTC_km", "Obj_Sun_y_LTC_km", "Obj_Sun_z_LTC_km", "Obj_Sun_vx_LTC_km_s",
                                        "Obj_Sun_vy_LTC_km_s", "Obj_Sun_vz_LTC_km_s", "Obs_Sun_x_km", "Obs_Sun_y_km", "Obs_Sun_z_km", "Obs_Sun_vx_km_s",
                                        "Obs_Sun_vy_km_s", "Obs_Sun_vz_km_s", "phase_deg"])
    w.eph["ObjID"] = w.eph["ObjID"].astype(object)
    w.cp = None
    return w


def ccds(rng, w, grid=3, half=0.45, gap=0.05):
    """A visits-footprint table: grid x grid chips per visit."""
    rows = []
    for v in w.pointing.to_dict("records"):
        c = W.unit(v["fieldRA"], v["fieldDec"])
        ra, dec = np.radians(v["fieldRA"]), np.radians(v["fieldDec"])
        e = np.array([-np.sin(ra), np.cos(ra), 0.0])
        nn = np.array([-np.sin(dec) * np.cos(ra), -np.sin(dec) * np.sin(ra), np.cos(dec)])

        def sky(x, y):
            q = c + np.radians(x) * e + np.radians(y) * nn
            a, b = [float(z) for z in W.radec(q / np.linalg.norm(q))]
            return [v["fieldRA"] + (a - v["fieldRA"] + 180) % 360 - 180, b]  # the footprint of a visit is not wrapped at 0/360

        s = 2 * half + gap
        for a in range(grid):
            for b in range(grid):
                x, y = (a - (grid - 1) / 2) * s, (b - (grid - 1) / 2) * s
                C = sky(x, y)
                ll, lr, ul, ur = sky(x + half, y - half), sky(x - half, y - half), sky(x + half, y + half), sky(x - half, y + half)
                rows.append((v["observationId"], f"{a}{b}", C[1], C[0], ll[1], ll[0], lr[1], lr[0], ul[1], ul[0], ur[1], ur[0], float(rng.uniform(21.0, 25.0))))
    return pd.DataFrame(rows, columns=["visitId", "detector", "dec", "ra", "llcdec", "llcra", "lrcdec", "lrcra", "ulcdec", "ulcra", "urcdec", "urcra", "magLim"])


def sql(path, df, table="observations"):
    con = sqlite3.connect(path)
    df.to_sql(table, con, index=False, if_exists="replace")
    con.commit()
    con.close()


def put(path, df, fmt):
    if fmt in ("hdf5", "h5"):
        df.astype({"ObjID": str}).to_hdf(path, key="sorcha_ephemeris", format="table", data_columns=True)
    else:
        df.to_csv(path, index=False, sep=" " if fmt == "whitespace" else ",")


EXT = {"csv": ".csv", "whitespace": ".csv", "hdf5": ".h5"}


def write(w, d, eph_format="csv", aux_format="csv", rng=None):
    """Store the world; with rng, every file is put in its own row order."""
    os.makedirs(d, exist_ok=True)
    sh = (lambda t: t.sample(frac=1, random_state=int(rng.integers(1 << 30)))) if rng is not None else (lambda t: t)
    f = {"pointing_database": os.path.join(d, "pointing.db"), "orbinfile": os.path.join(d, "orbits.csv"), "paramsinput": os.path.join(d, "params.csv")}
    sql(f["pointing_database"], w.pointing.drop(columns="group"))
    put(f["orbinfile"], sh(w.orbits), aux_format)
    put(f["paramsinput"], sh(w.params), aux_format)
    if w.cp is not None:
        f["complex_physical_parameters"] = os.path.join(d, "complex.csv")
        put(f["complex_physical_parameters"], sh(w.cp), aux_format)
    if w.eph is not None:
        f["input_ephemeris_file"] = os.path.join(d, "eph" + EXT[eph_format])
        put(f["input_ephemeris_file"], sh(w.eph), eph_format)
    if getattr(w, "visits", None) is not None:
        f["visits_database"] = os.path.join(d, "visits.db")
        sql(f["visits_database"], w.visits)
    w.files, w.eph_format, w.aux_format = f, eph_format, aux_format
    return f


def sections(w, **over):
    s = W.merged(INPUT={"eph_format": w.eph_format, "aux_format": w.aux_format, "ephemerides_type": "external",
                        "pointing_sql_query": W.DES_QUERY if w.survey == "DES" else W.LSST_QUERY},
                 FILTERS={"observing_filters": ",".join(w.filters)}, PHASECURVES={"phase_function": w.phase})
    if w.survey == "DES":
        s["FADINGFUNCTION"] = {"fading_function_on": "False"}
        s["OUTPUT"]["output_columns"] = "all"
    for k, v in over.items():
        if v is None:
            s.pop(k, None)
        else:
            s.setdefault(k, {}).update(v)
    return s


class Result:
    out = stats = obs = None


def run(w, outdir, seed=1, stats=None, stem="out", return_only=False, ini=None, eph_out=None, ar=None, **over):
    """One in-process run of the real entry point. Raises what it raises."""
    from sorcha.utilities.sorchaArguments import sorchaArguments
    from sorcha.utilities.sorchaConfigs import sorchaConfigs

    if w.survey == "DES":
        from sorcha.des import runDESSimulation as entry
    else:
        from sorcha.sorcha import runLSSTSimulation as entry
    if os.path.isdir(outdir):
        shutil.rmtree(outdir)
    os.makedirs(outdir)
    sec = sections(w, **over)
    inip = W.write_ini(sec, os.path.join(outdir, "..", os.path.basename(outdir) + ".ini"))
    a = {"configfile": inip, "outpath": outdir, "outfilestem": stem, "loglevel": False, "stats": stats, "visits_database": None,
         "surveyname": w.survey, "seed": seed, "input_ephemeris_file": None, "output_ephemeris_file": eph_out, "ar_data_path": ar}
    a.update(w.files)
    logging.disable(logging.CRITICAL)
    try:
        cfg = sorchaConfigs(inip, w.survey)
        args = sorchaArguments(a)
        r = entry(args, cfg, return_only=return_only)
    finally:
        logging.disable(logging.NOTSET)
    res = Result()
    res.dir, res.cfg = outdir, cfg
    if return_only:
        res.obs, res.stats = r if stats else (r, None)
        res.files = sorted(os.listdir(outdir))
    else:
        res.files = sorted(os.listdir(outdir))
        res.out = read_output(outdir, stem, sec["OUTPUT"]["output_format"])
        if stats:
            p = os.path.join(outdir, stats + ".csv")
            res.stats = pd.read_csv(p, dtype={"ObjID": str}, keep_default_na=False, na_values=[""]) if os.path.exists(p) else None
    return res


def read_output(outdir, stem, fmt):
    p = os.path.join(outdir, stem + {"csv": ".csv", "sqlite3": ".db", "hdf5": ".h5", "h5": ".h5"}[fmt])
    if not os.path.exists(p):
        return None
    if fmt == "csv":
        return pd.read_csv(p, dtype={"ObjID": str}, keep_default_na=False, na_values=[""])
    if fmt == "sqlite3":
        con = sqlite3.connect(p)
        try:
            return pd.read_sql("select * from sorcha_results", con)
        finally:
            con.close()
    return pd.read_hdf(p, "sorcha_results")


PY = "/opt/venv/bin/python"


def cli_args(w, inip, outdir, stem="out", stats=None, ar=None, ew=None, extra=()):
    f = w.files
    a = ["-c", inip, "-o", outdir, "--ob", f["orbinfile"], "-p", f["paramsinput"], "--pd", f["pointing_database"], "-t", stem, "-s", w.survey]
    for k, o in (("input_ephemeris_file", "--er"), ("complex_physical_parameters", "--cp"), ("visits_database", "--vd")):
        if k in f:
            a += [o, f[k]]
    if stats:
        a += ["--st", stats]
    if ar:
        a += ["--ar", ar]
    if ew:
        a += ["--ew", ew]
    return a + list(extra)


def cli(w, outdir, seed=None, env=None, cwd=None, ini=None, keep=False, timeout=300, over=None, **k):
    """One run of the real command line in a process of its own."""
    import subprocess

    if os.path.isdir(outdir) and not keep:
        shutil.rmtree(outdir)
    os.makedirs(outdir, exist_ok=True)
    inip = ini or W.write_ini(sections(w, **(over or {})), outdir.rstrip("/") + ".ini")
    e = dict(os.environ)
    e.pop("SORCHA_SEED", None)
    if seed is not None:
        e["SORCHA_SEED"] = str(seed)
    e.update(env or {})
    return subprocess.run([PY, "-W", "ignore", "-m", "sorcha_cmdline.run"] + cli_args(w, inip, outdir, **k), env=e, cwd=cwd or outdir, capture_output=True, text=True, timeout=timeout)
