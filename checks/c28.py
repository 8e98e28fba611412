"""C28: pointing data are read and matched to observations exactly."""
import os
import shutil
import sqlite3

import numpy as np
import pandas as pd

from vlib.common import Check, SkipCase
from vlib import pipeline as P
from vlib import world as W

LSST = {"observationStartMJD": "observationStartMJD_TAI", "visitTime": "visitTime", "visitExposureTime": "visitExposureTime", "filter": "optFilter",
        "seeingFwhmGeom": "seeingFwhmGeom_arcsec", "seeingFwhmEff": "seeingFwhmEff_arcsec", "fiveSigmaDepth": "fieldFiveSigmaDepth_mag",
        "fieldRA": "fieldRA_deg", "fieldDec": "fieldDec_deg", "rotSkyPos": "fieldRotSkyPos_deg"}
DES = {"observationMidpointMJD": "observationMidpointMJD_TAI", "visitExposureTime": "visitExposureTime", "filter": "optFilter",
       "fiveSigmaDepth": "fieldFiveSigmaDepth_mag", "fieldRA": "fieldRA_deg", "fieldDec": "fieldDec_deg", "c": "c", "k": "k"}


def make():
    ck = Check(
        "C28",
        "Each case is one generated pointing database, read with the real reader, and one table of observations matched to it with the real matcher; "
        "every returned row is compared with the stored visit of its identifier. Non-trivial = at least one visit of an observing filter.",
        ["observation identifiers in the pointing database are unique (it is their key)",
         "an observation of a visit outside the requested filters is dropped (documented); one whose time differs from its visit's by 0.02 d or more must be refused, "
         "one within the visit must be accepted, in between is not judged"],
    )
    ck.need("databases", 60)
    ck.need("visits_read", 2000)
    ck.need("visits_excluded", 300)
    ck.need("rows_matched", 3000)
    ck.need("rows_excluded", 500)
    ck.need("foreign_refused", 60)
    ck.need("within_visit", 500)
    ck.need("bad_query_refused", 10)
    ck.need("no_filter_refused", 10)
    ck.need("fading_columns", 8)
    ck.need("odd_paths", 10)
    ck.need("pipeline_rows", 60)
    return ck


def database(rng, survey, n):
    fl = np.array(["g", "r", "i", "z"] if survey == "DES" else W.LSST_FILTERS, object)
    k = rng.integers(4)
    if k == 0:
        oid = rng.permutation(4 * n)[:n]
    elif k == 1:
        oid = np.arange(n)
    elif k == 2:
        oid = 2 ** 53 + rng.permutation(3 * n)[:n]  # neighbouring identifiers which are equal as doubles
    else:
        oid = 20250000000000 + rng.permutation(10 ** 5)[:n]
    df = pd.DataFrame({"observationId": oid})
    t = 60000 + np.sort(rng.uniform(0, rng.choice([1, 400, 3650]), n))
    df["observationMidpointMJD" if survey == "DES" else "observationStartMJD"] = t
    if survey != "DES":
        df["visitTime"] = rng.choice([34.0, 30.0, 0.0, 15.5, 600.0], n) if rng.random() < .7 else 34.0
        df["seeingFwhmGeom"], df["seeingFwhmEff"] = rng.uniform(.4, 3, n), rng.uniform(.4, 3, n)
        df["rotSkyPos"] = rng.uniform(0, 360, n)
    else:
        df["c"], df["k"] = rng.uniform(.5, 1, n), rng.uniform(1, 9, n)
    df["visitExposureTime"] = rng.choice([30, 29.2, 90, 200.0], n)
    df["filter"] = rng.choice(fl, n)
    df["fiveSigmaDepth"] = rng.uniform(20, 25, n)
    df["fieldRA"], df["fieldDec"] = W.rand_sky(rng, n)
    df["proposal"] = rng.choice(["WFD", "DDF"], n)
    if rng.random() < .3:  # quantities the survey did not record
        for c in [c for c in ("seeingFwhmGeom", "rotSkyPos", "fiveSigmaDepth", "c", "visitExposureTime" if survey != "DES" else "k") if c in df]:
            if rng.random() < .5:
                df[c] = df[c].astype(float).mask(rng.random(n) < .3)
    return df.sample(frac=1, random_state=int(rng.integers(1 << 30))).reset_index(drop=True)


def query(rng, survey, m):
    cols = [("observationId", "observationId"), ("filter", "filter")] + [(a, b) for a, b in m.items() if a != "filter"]
    cols = [cols[i] for i in rng.permutation(len(cols))]
    q = "SELECT " + ", ".join(a if a == b else f"{a} as {b}" for a, b in cols) + " FROM observations"
    where = rng.random() < .3
    if where:
        q += " WHERE proposal = 'WFD'"
    if rng.random() < .7:
        q += " order by observationId"
    return q, where


def eq(a, b):
    if isinstance(b, str):
        return a == b
    a, b = (float("nan") if x is None else float(x) for x in (a, b))
    return a == b or (a != a and b != b)


def tables(ck):
    from sorcha.modules.PPMatchPointingToObservations import PPMatchPointingToObservations
    from sorcha.modules.PPReadPointingDatabase import PPReadPointingDatabase

    for i in range(ck.n(360, 2500)):
        rng = ck.rng("t", i)
        survey = ["rubin_sim", "DES", "rubin_sim", "RUBIN_SIM", "des"][i % 5]
        des = survey.lower() == "des"
        m = DES if des else LSST
        n = int(rng.choice([1, 3, 20, 80, 200])) if i % 40 != 39 else int(rng.integers(2001, 5000))
        db = database(rng, "DES" if des else "rubin_sim", n)
        fl = sorted(set(db["filter"]))
        obsf = [str(x) for x in rng.permutation(fl)[: int(rng.integers(1, len(fl) + 1))]]
        if rng.random() < .3:
            obsf.insert(int(rng.integers(len(obsf) + 1)), "w")
        d = os.path.join(W.tmpdir(), str(rng.choice(["pt", "a b", "50% #1?", "é"])))
        os.makedirs(d)
        path = os.path.join(d, str(rng.choice(["p.db", "baseline v1.0 (10%).db", "x#y.db"])))
        P.sql(path, db)
        q, where = query(rng, survey, m)
        w = {"i": i, "survey": survey, "visits": n, "filters": obsf, "query": q, "path": path}
        try:
            before = open(path, "rb").read()
            sel = db["filter"].isin(obsf) & ((db["proposal"] == "WFD") | (not where))
            if not sel.any():
                _, e = ck.call(PPReadPointingDatabase, path, obsf, q, survey)
                ck.ensure(isinstance(e, SystemExit), f"no visit in the observing filters, but not refused ({e!r})", w)
                ck.ev("no_filter_refused")
                continue
            got = ck.must(PPReadPointingDatabase, path, obsf, q, survey, _w=w)
            ck.ensure(open(path, "rb").read() == before, "the pointing database was modified", w)
            ck.ev("odd_paths", any(x in path for x in "%#? é"))
            exp = db[db["filter"].isin(obsf)]
            if where:
                exp = exp[exp["proposal"] == "WFD"]
            if "order by" in q:
                exp = exp.sort_values("observationId")
            ck.ev("databases")
            ck.ev("visits_read", len(exp))
            ck.ev("visits_excluded", n - len(exp))
            ck.case([i, n, obsf, q], sample=[survey, n, obsf, q[:60]])
            if not ck.ensure(got["FieldID"].tolist() == exp["observationId"].tolist(), f"visits read {got['FieldID'].tolist()[:6]} instead of {exp['observationId'].tolist()[:6]}", w):
                continue
            truth = {}
            half = 1 / 86400 / 2
            for r in exp.to_dict("records"):
                v = {b: r[a] for a, b in m.items()}
                if des:
                    v["observationStartMJD_TAI"] = r["observationMidpointMJD"] - r["visitExposureTime"] * half
                else:
                    v["observationMidpointMJD_TAI"] = r["observationStartMJD"] + r["visitTime"] * half
                truth[r["observationId"]] = v
            bad = None
            for r in got.to_dict("records"):
                v = truth[r["FieldID"]]
                for c, x in v.items():
                    derived = (c == "observationStartMJD_TAI") if des else (c == "observationMidpointMJD_TAI")
                    if not (abs(r[c] - x) < 1e-9 if derived else eq(r[c], x)):
                        bad = (r["FieldID"], c, r[c], x)
            ck.ensure(bad is None, f"visit {bad and bad[0]}: {bad and bad[1:]} (read, stored)", w)
            # --- matching
            k = int(rng.choice([1, 5, 40, 120])) if i % 40 != 38 else int(rng.integers(2001, 5000))
            oth = db[~db["observationId"].isin(exp["observationId"])]["observationId"].to_numpy()
            src = np.concatenate([exp["observationId"].to_numpy(), oth]) if rng.random() < .7 else exp["observationId"].to_numpy()
            fid = rng.choice(src, k)
            o = pd.DataFrame({"ObjID": [f"o{z}" for z in rng.integers(0, 9, k)], "FieldID": fid, "row": np.arange(k), "H_filter": rng.uniform(10, 20, k)})
            # a time within the visit, as ephemerides have
            where_in = rng.choice([0.0, 0.5, 1.0])
            st = np.array([truth[f]["observationStartMJD_TAI"] if f in truth else 60000.0 for f in fid.tolist()])
            ln = np.array([(truth[f]["visitExposureTime"] if des else truth[f]["visitTime"]) / 86400 if f in truth else 0 for f in fid.tolist()])
            o["fieldMJD_TAI"] = st + where_in * ln
            o["RA_deg"] = rng.uniform(0, 360, k)
            if rng.random() < .3:
                o["RA_deg"] = o["RA_deg"].mask(rng.random(k) < .2)
            if rng.random() < .5:
                o = o.iloc[rng.permutation(k)]
            if rng.random() < .5:
                o = o.reset_index(drop=True)
            if rng.random() < .3:
                o.index = rng.integers(0, 3, k)
            o0 = o.copy(deep=True)
            p0 = got.copy(deep=True)
            pt = got
            if rng.random() < .5:  # as prepared for the ephemeris generation
                pt = got.copy()
                for c in ["fieldJD_TDB", "pixels", "visit_vector_x", "r_obs_y", "v_sun_z"]:
                    pt[c] = rng.normal(size=len(pt))
            res = ck.must(PPMatchPointingToObservations, o, pt, _w=w)
            ck.ensure(o.equals(o0) and got.equals(p0), "matching changed its inputs", w)
            want = o0[o0["FieldID"].isin(list(truth))]
            ck.ev("rows_matched", len(want))
            ck.ev("rows_excluded", k - len(want))
            ck.ev("within_visit", len(want))
            if ck.ensure(res["row"].tolist() == want["row"].tolist(), f"rows {res['row'].tolist()[:10]} after matching instead of {want['row'].tolist()[:10]}", w):
                bad = None
                keep = [c for c in list(truth.values())[0] if not c.startswith("observation")]
                if not ck.ensure(set(keep) <= set(res.columns), f"columns missing after matching: {sorted(set(keep) - set(res.columns))}", w):
                    continue
                for r, s in zip(res.to_dict("records"), want.to_dict("records")):
                    v = truth[s["FieldID"]]
                    for c in keep:
                        if not eq(r[c], v[c]):
                            bad = (s["FieldID"], c, r[c], v[c])
                    for c in o0.columns:
                        if not eq(r[c], s[c]):
                            bad = (s["row"], c, r[c], s[c])
                ck.ensure(bad is None, f"after matching: {bad} (visit/row, column, got, expected)", w)
                ck.ensure(res.index.is_unique, "row labels repeat after matching", w)
            # --- an ephemeris of another survey or simulation
            if len(want):
                f = o0.copy().reset_index(drop=True)
                hit = np.flatnonzero(f["FieldID"].isin(list(truth)).to_numpy())
                n_off = 1 if rng.random() < .5 else len(hit)
                sel = rng.choice(hit, n_off, replace=False)
                f.loc[sel, "fieldMJD_TAI"] += float(rng.choice([-1, 1])) * float(rng.choice([0.021, 0.03, 0.1, 0.5, 1.0, 30.0, 400.0]))
                dif = np.abs(f.loc[sel, "fieldMJD_TAI"].to_numpy() - np.array([truth[z]["observationStartMJD_TAI"] for z in f.loc[sel, "FieldID"].tolist()]))
                if dif.max() >= 0.02:
                    _, e = ck.call(PPMatchPointingToObservations, f, pt)
                    ck.ensure(isinstance(e, SystemExit), f"{n_off} observation(s) {dif.max():.3f} d away from their visit accepted ({e!r})", w)
                    ck.ev("foreign_refused")
        except SkipCase:
            pass
        finally:
            shutil.rmtree(os.path.dirname(d), ignore_errors=True)


def faults(ck):
    """Queries and filters that yield nothing usable stop the run."""
    from sorcha.modules.PPReadPointingDatabase import PPReadPointingDatabase

    for i in range(ck.n(60, 200)):
        rng = ck.rng("f", i)
        des = bool(i % 2)
        survey = "DES" if des else "rubin_sim"
        db = database(rng, survey, 30)
        q = W.DES_QUERY if des else W.LSST_QUERY
        fl = sorted(set(db["filter"]))
        kind = ["query", "filter", "survey", "fading_null", "fading_missing"][i // 2 % 5]
        fading = 0
        if kind == "query":
            q = [q.replace("fieldRA", "noSuchColumn"), q.replace("FROM observations", "FROM elsewhere"), "SELEC " + q[6:], q + " WHERE"][int(rng.integers(4))]
        elif kind == "filter":
            fl = [str(rng.choice(["w", "R", "", "clear"]))]
        elif kind == "survey":
            survey = str(rng.choice(["rubin", "LSST2", "", "euclid"]))
        elif kind.startswith("fading"):
            if not des:
                continue
            fading = 1
            c = str(rng.choice(["c", "k"]))
            if kind == "fading_null":
                db.loc[int(rng.integers(len(db))), c] = np.nan
            else:
                q = q.replace(", c, k", ", c" if c == "k" else ", k")
        path = W.tmp(".db")
        try:
            P.sql(path, db)
            r, e = ck.call(PPReadPointingDatabase, path, fl, q, survey, fading)
            ck.ensure(isinstance(e, SystemExit), f"{kind}: not refused ({e!r})", {"i": i, "kind": kind, "query": q, "filters": fl, "survey": survey})
            ck.ev({"query": "bad_query_refused", "filter": "no_filter_refused", "survey": "unknown_survey_refused"}.get(kind, "fading_columns"))
            ck.case(["fault", i, kind, q[-40:]], sample=[kind, survey])
        finally:
            os.unlink(path)


def pipeline(ck):
    """Whole runs: the metadata in the output are those of the visit."""
    for i in range(ck.n(6, 30)):
        rng = ck.rng("p", i)
        des = i % 3 == 2
        w = P.make(rng, "DES" if des else "rubin_sim", n=8, groups=2, nights=3, pad_vis=15, hrange=(14, 19))
        obsf = [w.filters[0]] + [f for f in w.filters[1:] if rng.random() < .6]
        w.pointing = w.pointing.sample(frac=1, random_state=i).reset_index(drop=True)
        d = W.tmpdir()
        try:
            P.write(w, d + "/in", str(rng.choice(["csv", "hdf5", "whitespace"])), "csv", rng=rng)
            c = {"i": i, "filters": obsf}
            q = (W.DES_QUERY if des else W.LSST_QUERY).replace("order by observationId", "order by fieldRA")
            r = ck.must(P.run, w, d + "/out", _w=c, INPUT={"size_serial_chunk": "3", "pointing_sql_query": q}, FILTERS={"observing_filters": ",".join(obsf)},
                        OUTPUT={"output_columns": "all"}, EXPERT={"default_snr_cut": "False"})
            if r.out is None:
                continue
            vis = w.pointing.set_index("observationId")
            m = DES if des else LSST
            bad = None
            for o in r.out.to_dict("records"):
                v = vis.loc[o["FieldID"]]
                for a, b in m.items():
                    if b in o and b not in ("fieldRA_deg", "fieldDec_deg") and not b.startswith("observation"):
                        x, y = o[b], v[a]
                        if not (x == y if isinstance(y, str) else abs(float(x) - float(y)) <= 1e-3 + 1e-9 * abs(float(y))):
                            bad = (o["FieldID"], b, x, y)
                if v["filter"] not in obsf:
                    bad = (o["FieldID"], "filter not requested", v["filter"], obsf)
            ck.ensure(bad is None, f"output row with metadata of another visit: {bad}", c)
            ck.ev("pipeline_rows", len(r.out))
            ck.case(["pipe", i, len(r.out)], len(r.out) > 0, c)
        except SkipCase:
            pass
        finally:
            shutil.rmtree(d, ignore_errors=True)


def parts():
    return [("tables", tables), ("faults", faults), ("pipeline", pipeline)]
