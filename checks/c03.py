"""C03: the deterministic pipeline against an independent reference."""
import os
import shutil

import numpy as np
import pandas as pd

from vlib.common import Check, SkipCase
from vlib import pipeline as P
from vlib import world as W
from checks import c04, c05, c06, c07, c11, c14, c16

STAGES = ["trailing", "vignetting", "randomisation", "default_snr", "circle", "footprint", "visits", "snr_limit", "mag_limit", "bright_limit", "linking", "distance", "motion", "discovery"]


def make():
    ck = Check(
        "C03",
        "Each case is one complete run of the real entry point on a generated survey, population and configuration; its output is compared row by row and "
        "value by value with a reference that recomputes photometry, depth, uncertainties, camera and cuts from the input tables (for the randomised runs: "
        "from the values measured in a run of the same seed with all cuts off). Non-trivial = some rows are reported and some are not.",
        ["fading function, fill factor and linking efficiency below one are off", "rows within rounding of an edge of the camera are not judged"],
    )
    for s in STAGES:
        ck.need("on_" + s, 6)
        ck.need("off_" + s, 6)
        if s not in ("trailing", "vignetting", "randomisation"):
            ck.need("decided_" + s, 1)
    ck.need("values_compared", 20000)
    ck.need("rows_judged", 1000)
    return ck


def gnomonic(ra, dec, fra, fdec, rot=None):
    c = W.unit(fra, fdec)
    a, d = np.radians(fra), np.radians(fdec)
    e = np.stack([-np.sin(a), np.cos(a), 0 * a], -1)
    n = np.stack([-np.sin(d) * np.cos(a), -np.sin(d) * np.sin(a), np.cos(d)], -1)
    v = W.unit(ra, dec)
    z = np.sum(v * c, -1)
    x, y = np.sum(v * e, -1) / z, np.sum(v * n, -1) / z
    q = x + 1j * y
    if rot is not None:
        q = q * np.exp(1j * np.radians(rot))
    return np.stack([q.real, q.imag], -1), z > 0


_cams = {}


def base(w, use):
    """Photometry of every potential detection."""
    v = w.pointing.set_index("observationId")
    e = w.eph.merge(w.params, on="ObjID", how="left").merge(w.orbits, on="ObjID", how="left")
    for c, s in {"optFilter": "filter", "visitExposureTime": "visitExposureTime", "fieldRA_deg": "fieldRA", "fieldDec_deg": "fieldDec", "fieldFiveSigmaDepth_mag": "fiveSigmaDepth",
                 "seeingFwhmGeom_arcsec": "seeingFwhmGeom", "seeingFwhmEff_arcsec": "seeingFwhmEff", "fieldRotSkyPos_deg": "rotSkyPos", "visitTime": "visitTime", "c": "c", "k": "k"}.items():
        e[c] = v.loc[e.FieldID, s].to_numpy() if len(e) else pd.Series(dtype=v[s].dtype)
    e = e[e.optFilter.isin(use)].reset_index(drop=True)
    m = w.main
    mags, hf = [], []
    for r in e.to_dict("records"):
        f = r["optFilter"]
        H = r["H_" + m] + (r[f"{f}-{m}"] if f != m else 0.0)
        p = {k: r[k + f] if k + f in r else r[k] for k in c04.PARAMS[w.phase]}
        rho = np.sqrt(sum(r[f"Obj_Sun_{x}_LTC_km"] ** 2 for x in "xyz")) / W.AU_KM
        mags.append(c04.reduced(w.phase, H, p, r["phase_deg"]) + 5 * np.log10(rho * r["Range_LTC_km"] / W.AU_KM))
        hf.append(H)
    for c in e.columns:
        if c not in ("ObjID", "optFilter", "FORMAT"):
            e[c] = e[c].astype(float) if c != "FieldID" else e[c].astype(int)
    e["trailedSourceMagTrue"], e["H_filter"] = np.array(mags, float), np.array(hf, float)
    return e


def stages(w, e, o, cut_values=None):
    """Reference run. Returns (table of surviving rows, ambiguous keys, what each cut removed)."""
    des = w.survey == "DES"
    x = o["EXPERT"]
    e = e.copy()
    rate = np.hypot(e.RARateCosDec_deg_day, e.DecRate_deg_day).to_numpy()
    on = lambda k: x.get(k) == "True"
    tr, vig, rnd = on("trailing_losses_on"), on("vignetting_on"), on("randomization_on")
    e["PSFMagTrue"] = e.trailedSourceMagTrue + (c05.loss(rate, e.visitExposureTime, e.seeingFwhmEff_arcsec, "circularPSF") if tr else 0.0)
    sep = W.angsep(e.RA_deg, e.Dec_deg, e.fieldRA_deg, e.fieldDec_deg)
    e["fiveSigmaDepth_mag"] = e.fieldFiveSigmaDepth_mag - (c06.oracle(np.asarray(sep, float)) if vig else 0.0)
    if not des:
        dm = c05.loss(rate, e.visitExposureTime, e.seeingFwhmGeom_arcsec, "trailedSource") if tr else 0.0
        st = c07.snr_model(e.trailedSourceMagTrue + dm, e.fiveSigmaDepth_mag)
        sp = c07.snr_model(e.PSFMagTrue, e.fiveSigmaDepth_mag)
        e["SNRTrailedSourceMag"], e["SNRPSFMag"] = st, sp
        e["trailedSourceMagSigma"], e["PSFMagSigma"] = 2.5 * np.log10(1 + 1 / st), 2.5 * np.log10(1 + 1 / sp)
        e["astrometricSigma_deg"] = np.sqrt(100.0 + (600 * e.seeingFwhmGeom_arcsec / st) ** 2) / 3.6e6
    e["RATrue_deg"], e["DecTrue_deg"] = e.RA_deg, e.Dec_deg
    e["trailedSourceMag"], e["PSFMag"] = e.trailedSourceMagTrue, e.PSFMagTrue
    took = {}
    amb = set()

    def keep(stage, mask):
        nonlocal e
        mask = np.asarray(mask, bool)
        took[stage] = int((~mask).sum())
        e = e[mask].reset_index(drop=True)

    if rnd and o["EXPERT"].get("default_snr_cut") == "True":
        keep("default_snr", e.SNRPSFMag > 2)
    if rnd and cut_values is not None:
        i = pd.MultiIndex.from_frame(e[["ObjID", "FieldID"]])
        for c in ("trailedSourceMag", "PSFMag", "RA_deg", "Dec_deg"):
            e[c] = cut_values.reindex(i)[c].to_numpy()
    fov = o["FOV"]
    if fov["camera_model"] == "circle":
        s = W.angsep(e.RA_deg, e.Dec_deg, e.fieldRA_deg, e.fieldDec_deg)
        R = float(fov["circle_radius"])
        amb |= {k for k, a in zip(zip(e.ObjID, e.FieldID), np.abs(s - R) < 1e-8) if a}
        keep("circle", s < R)
    elif fov["camera_model"] == "footprint":
        if not _cams:
            _cams.update(c11.cameras(None, None))
        q, front = gnomonic(e.RA_deg.to_numpy(), e.Dec_deg.to_numpy(), e.fieldRA_deg.to_numpy(), e.fieldDec_deg.to_numpy(), None if des else e.fieldRotSkyPos_deg.to_numpy())
        thr = fov.get("footprint_edge_threshold")
        det = np.full(len(e), -1)
        a = np.zeros(len(e), bool)
        for d, poly in enumerate(_cams["DES" if des else "LSST"]):
            ins, dist = c11.inside_dist(poly, q)
            tol = max(2e-8, 2e-10 / np.linalg.norm(poly - np.roll(poly, 1, 0), axis=1).min())
            a |= dist < tol
            if thr is not None:
                t = np.radians(float(thr) / 3600)
                a |= ins & (np.abs(dist - t) < tol)
                ins &= dist > t
            det[ins & front] = d
        e["detectorID"] = det
        amb |= {k for k, b in zip(zip(e.ObjID, e.FieldID), a) if b}
        keep("footprint", det >= 0)
    elif fov["camera_model"] == "visits_footprint":
        det, lim, a = [], [], []
        by = {k: g for k, g in w.visits.groupby("visitId")}
        for r in e.to_dict("records"):
            q, _ = gnomonic(*[np.array([r[c]]) for c in ("RA_deg", "Dec_deg", "fieldRA_deg", "fieldDec_deg")])
            hit, bad = (None, None), False
            for t in by[r["FieldID"]].to_dict("records"):
                ra = np.array([t[k + "ra"] for k in ("llc", "lrc", "urc", "ulc")])
                de = np.array([t[k + "dec"] for k in ("llc", "lrc", "urc", "ulc")])
                g, _ = gnomonic(ra, de, np.full(4, r["fieldRA_deg"]), np.full(4, r["fieldDec_deg"]))
                i2, d2 = c11.inside_dist(c11.poly(g), q)
                ru = ra
                u = t["ra"] + (r["RA_deg"] - t["ra"] + 180) % 360 - 180
                i1, d1 = c11.inside_dist(c11.poly(np.stack([ru, de], -1)), np.array([[u, r["Dec_deg"]]]))
                bad |= bool(i1[0] != i2[0]) or d1[0] < 1e-7
                if i1[0]:
                    hit = (t["detector"], t["magLim"])
            det.append(hit[0])
            lim.append(hit[1])
            a.append(bad)
        amb |= {k for k, b in zip(zip(e.ObjID, e.FieldID), a) if b}
        e["detectorID"], e["limMag_perChip"] = pd.Series(det, dtype=object), pd.Series(lim, dtype=object)
        keep("visits", [d is not None for d in det])
    if "snr_limit" in x:
        keep("snr_limit", e.SNRPSFMag > float(x["snr_limit"]))
    if "mag_limit" in x:
        keep("mag_limit", e.trailedSourceMag < float(x["mag_limit"]))
    if "SATURATION" in o:
        L = [float(z) for z in o["SATURATION"]["bright_limit"].split(",")]
        use = o["FILTERS"]["observing_filters"].split(",")
        L = dict(zip(use, L if len(L) > 1 else L * len(use)))
        keep("bright_limit", e.PSFMag.to_numpy() >= np.array([L[f] for f in e.optFilter], float))
    k = o.get("LINKINGFILTER", {})
    if "distance_cut_upper" in k:
        r = np.sqrt(sum(e[f"Obj_Sun_{c}_LTC_km"] ** 2 for c in "xyz")).to_numpy(float) / W.AU_KM
        ok = (r > float(k["distance_cut_lower"])) & (r < float(k["distance_cut_upper"]))
        good = set(e.ObjID[ok])
        keep("distance", e.ObjID.isin(good))
    if "motion_cut_upper" in k:
        r = np.hypot(e.RARateCosDec_deg_day, e.DecRate_deg_day).to_numpy(float)
        keep("motion", (r > float(k["motion_cut_lower"])) & (r < float(k["motion_cut_upper"])))
    if k.get("des_discovery_on") == "True":
        good = set()
        for n, g in e.groupby("ObjID"):
            s = c16.spec(g.fieldMJD_TAI.to_numpy(), np.sqrt(sum(g[f"Obj_Sun_{c}_LTC_km"] ** 2 for c in "xyz")).to_numpy() / W.AU_KM)
            if s["ambiguous"]:
                raise SkipCase()
            if s["found"]:
                good.add(n)
        keep("discovery", e.ObjID.isin(good))
    if k.get("SSP_detection_efficiency"):
        c = {"minobs": int(k["SSP_number_observations"]), "ntrk": int(k["SSP_number_tracklets"]), "window": int(k["SSP_track_window"]), "minsep": float(k["SSP_separation_threshold"]),
             "maxt": float(k["SSP_maximum_time"]), "noon": float(k["SSP_night_start_utc"])}
        linked = {}
        for n, g in e.groupby("ObjID"):
            try:
                s = c14.spec(g.fieldMJD_TAI.to_numpy(), g.RA_deg.to_numpy(float), g.Dec_deg.to_numpy(float), c)
            except c14.Amb:
                raise SkipCase()
            linked[n] = s[1] if s[0] else None
        l = np.array([linked[n] is not None for n in e.ObjID], bool)
        e["object_linked"] = l
        e["date_linked_MJD"] = [np.nan if linked[n] is None else float(linked[n]) for n in e.ObjID]
        if k.get("drop_unlinked") != "False":
            keep("linking", l)
        else:
            took["linking"] = int((~l).sum())
    return e, amb, took


def configure(rng, w, i):
    des = w.survey == "DES"
    nf = int(rng.integers(1, len(w.filters) + 1))
    use = [w.main] + [str(f) for f in rng.permutation(w.filters[1:])[: nf - 1]] if rng.random() < 0.6 else list(w.filters)
    o = {"FILTERS": {"observing_filters": ",".join(use)}, "EXPERT": {}, "OUTPUT": {"output_columns": "all", "output_format": str(rng.choice(["csv", "sqlite3", "hdf5"]))}, "FOV": {"camera_model": "none"},
         "INPUT": {"size_serial_chunk": str(int(rng.choice([2, 5, 100])))}}
    x = o["EXPERT"]
    cams = ["none", "circle", "footprint", "visits"] if des else ["none", "circle", "footprint"]
    cam = cams[int(rng.integers(len(cams)))]
    if cam == "circle":
        o["FOV"] = {"camera_model": "circle", "circle_radius": f"{rng.uniform(0.5, 1.9):.3f}"}
    elif cam == "footprint":
        o["FOV"] = {"camera_model": "footprint"}
        if rng.random() < 0.5:
            o["FOV"]["footprint_edge_threshold"] = f"{rng.choice([0.5, 2.0, 60.0])}"
    elif cam == "visits":
        o["FOV"] = {"camera_model": "visits_footprint", "visits_query": P.VISITS_QUERY}
        w.visits = P.ccds(rng, w)
    if not des:
        for s, p in (("randomization_on", 0.4), ("vignetting_on", 0.5), ("trailing_losses_on", 0.5), ("default_snr_cut", 0.5)):
            x[s] = str(bool(rng.random() < p))
    q = rng.random()
    if q < 0.4 and not des:
        x["snr_limit"] = f"{rng.choice([1.0, 5.0, 12.0])}"
    elif q < 0.7:
        x["mag_limit"] = f"{rng.uniform(20, 24):.2f}"
    if rng.random() < 0.5:
        o["SATURATION"] = {"bright_limit": f"{rng.uniform(16, 20):.2f}" if rng.random() < 0.4 else ",".join(f"{z:.2f}" for z in rng.uniform(16, 20, len(use)))}
    if des:
        k = {}
        if rng.random() < 0.5:
            k |= {"distance_cut_upper": f"{rng.uniform(3, 12):.2f}", "distance_cut_lower": f"{rng.uniform(0.5, 2):.2f}"}
        if rng.random() < 0.5:
            k |= {"motion_cut_upper": f"{rng.uniform(0.4, 0.8):.3f}", "motion_cut_lower": f"{rng.uniform(0.05, 0.2):.3f}"}
        if rng.random() < 0.4:
            k["des_discovery_on"] = "True"
        if k:
            o["LINKINGFILTER"] = k
    elif rng.random() < 0.5:
        o["LINKINGFILTER"] = {"SSP_detection_efficiency": "1.0", "SSP_number_observations": "2", "SSP_separation_threshold": f"{rng.choice([0.5, 5.0, 40.0])}", "SSP_maximum_time": f"{rng.choice([0.02, 0.0625])}",
                              "SSP_number_tracklets": f"{rng.choice([1, 2, 3])}", "SSP_track_window": f"{rng.choice([3, 7, 15])}", "SSP_night_start_utc": "16.0", "drop_unlinked": str(rng.choice(["True", "False"]))}
    return o, use


def enabled(w, o):
    x, k = o["EXPERT"], o.get("LINKINGFILTER", {})
    on = {"trailing": x.get("trailing_losses_on") == "True", "vignetting": x.get("vignetting_on") == "True", "randomisation": x.get("randomization_on") == "True",
          "default_snr": x.get("default_snr_cut") == "True" and x.get("randomization_on") == "True", "circle": o["FOV"]["camera_model"] == "circle", "footprint": o["FOV"]["camera_model"] == "footprint",
          "visits": o["FOV"]["camera_model"] == "visits_footprint", "snr_limit": "snr_limit" in x, "mag_limit": "mag_limit" in x, "bright_limit": "SATURATION" in o,
          "linking": "SSP_detection_efficiency" in k, "distance": "distance_cut_upper" in k, "motion": "motion_cut_upper" in k, "discovery": k.get("des_discovery_on") == "True"}
    return on


EXACT = ["FieldID", "fieldMJD_TAI", "Range_LTC_km", "RangeRate_LTC_km_s", "RATrue_deg", "RARateCosDec_deg_day", "DecTrue_deg", "DecRate_deg_day", "phase_deg",
         "Obj_Sun_x_LTC_km", "Obj_Sun_y_LTC_km", "Obj_Sun_z_LTC_km", "Obj_Sun_vx_LTC_km_s", "Obs_Sun_x_km", "Obs_Sun_vz_km_s", "fieldRA_deg", "fieldDec_deg", "visitExposureTime", "fieldFiveSigmaDepth_mag",
         "q", "e", "inc", "node", "argPeri", "t_p_MJD_TDB", "epochMJD_TDB"]
LSST_ONLY = ["seeingFwhmGeom_arcsec", "seeingFwhmEff_arcsec", "fieldRotSkyPos_deg", "visitTime"]
CALC = ["trailedSourceMagTrue", "PSFMagTrue", "fiveSigmaDepth_mag", "trailedSourceMag", "PSFMag", "RA_deg", "Dec_deg", "H_filter"]
UNC = ["SNRTrailedSourceMag", "SNRPSFMag", "trailedSourceMagSigma", "PSFMagSigma", "astrometricSigma_deg"]


def num(z):
    return np.nan if z is None else float(z)


def worlds(ck):
    for i in range(ck.n(110, 1200)):
        rng = ck.rng("w", i)
        survey = "DES" if i % 5 < 2 else "rubin_sim"
        w = P.make(rng, survey, n=int(rng.choice([2, 10, 20])), groups=int(rng.integers(1, 3)), nights=int(rng.choice([4, 8, 12])), phase=["HG", "HG1G2", "HG12", "linear", "none"][i % 5 if i % 2 else int(rng.integers(5))],
                   per_night=int(rng.integers(1, 3)), per_filter_phase=rng.random() < 0.4, spread=1.8, hrange=(14.0, 23.0))
        d = W.tmpdir()
        try:
            o, use = configure(rng, w, i)
            ef = str(rng.choice(["csv", "whitespace", "hdf5"])) if len(w.eph) else "csv"
            P.write(w, os.path.join(d, "in"), ef, str(rng.choice(["csv", "whitespace"])), rng=rng)
            ctx = {"world": i, "survey": survey, "phase": w.phase, "main": w.main, "objects": len(w.ids), "eph_rows": len(w.eph), "config": o}
            one(ck, rng, w, d, o, use, ctx)
        except SkipCase:
            ck.ev("worlds_not_judged")
        finally:
            shutil.rmtree(d, ignore_errors=True)


def one(ck, rng, w, d, o, use, ctx):
    seed = int(rng.integers(1 << 31))
    rnd = o["EXPERT"].get("randomization_on") == "True"
    b = base(w, use)
    meas = None
    if rnd:
        free = {k: v for k, v in o.items() if k not in ("SATURATION", "LINKINGFILTER")}
        free["FOV"] = {"camera_model": "none"}
        free["EXPERT"] = {k: v for k, v in o["EXPERT"].items() if k not in ("snr_limit", "mag_limit")}
        r0 = ck.must(P.run, w, os.path.join(d, "free"), seed=seed, _w=dict(ctx, cuts="off"), **free)
        if r0.out is None:
            raise SkipCase()
        meas = r0.out.assign(ObjID=r0.out.ObjID.astype(str)).set_index(["ObjID", "FieldID"])
        if not ck.ensure(meas.index.is_unique, "a detection was reported twice", ctx):
            return
    want, amb, took = stages(w, b, o, meas)
    if amb and ({"distance", "discovery", "linking"} & {s for s, v in enabled(w, o).items() if v}):
        raise SkipCase()
    r = ck.must(P.run, w, os.path.join(d, "out"), seed=seed, _w=ctx, **o)
    for s, v in enabled(w, o).items():
        ck.ev(("on_" if v else "off_") + s)
        if took.get(s):
            ck.ev("decided_" + s)
    got = r.out if r.out is not None else pd.DataFrame({"ObjID": [], "FieldID": []})
    got = got.assign(ObjID=got.ObjID.astype(str))
    gk = list(zip(got.ObjID, got.FieldID))
    wk = list(zip(want.ObjID, want.FieldID))
    ck.case(ctx, 0 < len(wk) < len(b), {"world": ctx["world"], "survey": w.survey, "removed": took, "reported": len(gk), "potential": len(b)})
    ck.ev("rows_judged", len(b))
    if not ck.ensure(len(set(gk)) == len(gk), "a detection was reported twice", lambda: {"ctx": ctx, "rows": [k for k in gk if gk.count(k) > 1][:4]}):
        return
    lost, inv = set(wk) - set(gk) - amb, set(gk) - set(wk) - amb

    def detail(s):
        a = b.set_index(["ObjID", "FieldID"])
        full = stages(w, b, {"EXPERT": o["EXPERT"], "FOV": {"camera_model": "none"}}, meas)[0].set_index(["ObjID", "FieldID"])
        return [{"key": [str(z) for z in k], **{c: full[c].get(k) for c in CALC + (UNC if w.survey != "DES" else [])}} for k in sorted(s, key=str)[:3]]

    if not ck.ensure(not lost and not inv, f"the run {'lost' if lost else 'reported'} detections the reference {'keeps' if lost else 'rejects'}",
                     lambda: {"ctx": ctx, "lost": detail(lost), "invented": detail(inv), "n": [len(lost), len(inv), len(gk), len(wk)], "removed_by": took}):
        return
    if not len(gk):
        return
    i = pd.MultiIndex.from_tuples(gk)
    want = want.set_index(["ObjID", "FieldID"], drop=False)
    sel = np.array([k in want.index for k in gk])
    got, i = got[sel].reset_index(drop=True), i[sel]
    want = want.loc[i].reset_index(drop=True)
    des = w.survey == "DES"
    cols = EXACT + CALC + (UNC + LSST_ONLY if not des else ["c", "k"])
    cols += [c for c in ("object_linked", "date_linked_MJD", "detectorID", "limMag_perChip") if c in want]
    for c in cols:
        if not ck.ensure(c in got, f"column {c} is missing from the full output", ctx):
            return
        if c == "detectorID" and des and o["FOV"]["camera_model"] == "visits_footprint":
            bad = (got[c].astype(str).str.lstrip("0") != want[c].astype(str).str.lstrip("0")).to_numpy()
        else:
            g, v = got[c].map(num).to_numpy(float), want[c].map(num).to_numpy(float)
            rt, at = (1e-12, 0) if c in EXACT + LSST_ONLY else (1e-7, 3e-6 if c in ("fiveSigmaDepth_mag",) else 1e-6)
            if c in UNC:
                rt, at = 1e-5, 0
            bad = ~(np.isclose(g, v, rtol=rt, atol=at) | (np.isnan(g) & np.isnan(v)))
        ck.ev("values_compared", len(got))
        ck.ensure(not bad.any(), f"column {c} differs from the reference", lambda: {"ctx": ctx, "column": c, "got": got.loc[bad, c].head(3).tolist(), "want": want.loc[bad, c].head(3).tolist(),
                                                                                  "rows": want[bad].head(2).to_dict("records")})
    bad = got.optFilter.astype(str).to_numpy() != want.optFilter.astype(str).to_numpy()
    ck.ensure(not bad.any(), "the observing filter of a row is not its visit's", ctx)


def parts():
    return [("worlds", worlds)]
