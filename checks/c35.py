"""C35: what is reported for an object does not depend on the rest of the inputs or on how they are arranged."""
import argparse
import contextlib
import copy
import io
import os
import shutil

import numpy as np
import pandas as pd

from vlib.common import Check, SkipCase
from vlib import pipeline as P
from vlib import world as W
from checks import c01
from checks.c01 import KEYS, same_rows

WAYS = ["split", "permute", "visits", "columns", "filters", "rename", "format", "shift", "rotate"]


def make():
    ck = Check(
        "C35",
        "Each case is one pair: a complete run of the real entry point (deterministic configuration) on a world, and the run or runs on the same world put differently - split over several runs whose outputs are merged, rows "
        "of all files in another order, visits without observations added, unused columns added, filters listed in another order, objects and visits renamed, other file formats, all times "
        "moved by whole days, the sky turned about the pole; the rows of output and statistics must be the same ones. Non-trivial = at least one row is reported.",
        ["values are compared to a relative 1e-9 (1e-7 after moving or turning the world)", "linking runs use efficiency 1 (random otherwise)"],
    )
    for k, n in {"pairs": 120, "rows_compared": 3000, "des_pairs": 10, "linking_pairs": 10, "merged": 4, "generated_pairs": 6, "statistics_compared": 60, "cuts_took_rows": 40, **{"way_" + x: 8 for x in WAYS}}.items():
        ck.need(k, n)
    return ck


def canon(df, keys):
    return pd.DataFrame(columns=keys) if df is None else df


def turned(ra, a):
    return (np.asarray(ra, float) + a) % 360


def put(rng, w, way, over):
    """Changed copies: list of (world, changes of the configuration, back-mapping of rows)."""
    v = copy.deepcopy(w)
    o = {k: dict(x) for k, x in over.items()}
    back = lambda df: df  # noqa
    if way == "split":
        k = int(rng.integers(2, 5))
        g = rng.integers(0, k, len(w.ids))
        out = []
        for j in range(k):
            ids = [x for x, y in zip(w.ids, g) if y == j]
            if not ids:
                continue
            v = copy.deepcopy(w)
            v.ids = ids
            for t in ("orbits", "params", "eph"):
                d = getattr(v, t)
                setattr(v, t, None if d is None else d[d["ObjID"].isin(ids)].reset_index(drop=True))
            out.append((v, {x: dict(y) for x, y in over.items()}, back))
        return out
    if way == "permute":
        for t in ("pointing", "orbits", "params", "eph", "visits"):
            d = getattr(v, t, None)
            if d is not None:
                setattr(v, t, d.iloc[rng.permutation(len(d))].reset_index(drop=True))
        if rng.random() < 0.5 and v.eph is not None:
            c = list(v.eph.columns)
            v.eph = v.eph[["ObjID", "FieldID"] + [c[j] for j in rng.permutation(len(c)) if c[j] not in ("ObjID", "FieldID")]]
        if rng.random() < 0.5:
            c = list(v.params.columns[1:])
            v.params = v.params[["ObjID"] + [c[j] for j in rng.permutation(len(c))]]
        if rng.random() < 0.7:  # the order of the visits is that of the query
            q = W.DES_QUERY if v.survey == "DES" else W.LSST_QUERY
            q = q.replace("order by observationId", str(rng.choice(["", "order by observationId desc", "order by fieldRA", "order by fiveSigmaDepth"])))
            o.setdefault("INPUT", {})["pointing_sql_query"] = q
    if way == "visits":
        p = v.pointing
        m = int(rng.integers(1, 2 * len(p)))
        q = p.iloc[rng.integers(0, len(p), m)].copy()
        lo, hi = int(p.observationId.min()), int(p.observationId.max())
        free = np.setdiff1d(np.arange(max(0, lo - m), hi + 2 * m + 2), p.observationId.values)
        q["observationId"] = rng.choice(free, m, replace=False)
        q["observationStartMJD"] += rng.uniform(-3, 3, m)
        q["observationMidpointMJD"] = q["observationStartMJD"] + (q["visitExposureTime"] if v.survey == "DES" else q["visitTime"]) / 2 / 86400
        ra, dec = W.rand_sky(rng, m)
        same = rng.random(m) < 0.4
        q["fieldRA"] = np.where(same, q["fieldRA"], ra)
        q["fieldDec"] = np.where(same, q["fieldDec"], np.clip(dec, -80, 80))
        q["fiveSigmaDepth"] += rng.uniform(-2, 2, m)
        q["group"] = -1
        v.pointing = pd.concat([p, q], ignore_index=True)
        if getattr(v, "visits", None) is not None:
            extra = P.ccds(rng, argparse.Namespace(pointing=q))
            v.visits = pd.concat([v.visits, extra], ignore_index=True)
    if way == "columns":
        n = len(v.params)
        v.params["albedo"] = rng.uniform(0, 1, n)
        if rng.random() < 0.5:
            v.params.insert(1, "family", rng.choice(["a", "b c".replace(" ", "_")], n))
        v.pointing["airmass"] = rng.uniform(1, 3, len(v.pointing))
        v.pointing["note"] = "x"
    if way == "filters":
        f = o["FILTERS"]["observing_filters"].split(",")
        r = [0] + [int(x) + 1 for x in rng.permutation(len(f) - 1)]
        o["FILTERS"]["observing_filters"] = ",".join(f[j] for j in r)
        b = o.get("SATURATION", {}).get("bright_limit", "")
        if "," in b:
            b = b.split(",")
            o["SATURATION"]["bright_limit"] = ",".join(b[j] for j in r)
    if way == "rename":
        new = P.names(rng, len(v.ids))
        m = dict(zip(v.ids, new))
        p = v.pointing
        fid = np.sort(rng.choice(10 ** int(rng.integers(4, 10)), len(p), replace=False))
        rng.shuffle(fid)
        f = dict(zip(p.observationId, [int(x) for x in fid]))
        v.ids = new
        for t in ("orbits", "params", "eph"):
            d = getattr(v, t)
            if d is not None:
                d["ObjID"] = d["ObjID"].map(m)
        p["observationId"] = p["observationId"].map(f)
        if v.eph is not None:
            v.eph["FieldID"] = v.eph["FieldID"].map(f).astype(int) if len(v.eph) else v.eph["FieldID"]
        if getattr(v, "visits", None) is not None:
            v.visits["visitId"] = v.visits["visitId"].map(f)
        mi, fi = {b: a for a, b in m.items()}, {b: a for a, b in f.items()}

        def back(df):
            df = df.copy()
            df["ObjID"] = df["ObjID"].astype(str).map(mi)
            if "FieldID" in df:
                df["FieldID"] = df["FieldID"].map(fi)
            return df
    if way == "shift":
        k = float(rng.choice([-300, -7, 1, 28, 500]))
        for c in ("observationStartMJD", "observationMidpointMJD"):
            v.pointing[c] += k
        v.eph["fieldMJD_TAI"] += k
        v.eph["fieldJD_TDB"] += k
        for c in ("t_p_MJD_TDB", "epochMJD_TDB"):
            v.orbits[c] += k

        def back(df):
            df = df.copy()
            for c in ("fieldMJD_TAI", "fieldJD_TDB", "observationStartMJD_TAI", "date_linked_MJD", "t_p_MJD_TDB", "epochMJD_TDB"):
                if c in df:
                    df[c] = df[c] - k
            return df
    if way == "rotate":
        a = float(rng.uniform(0, 360))
        if rng.random() < 0.6:  # put one group at the origin
            a = -float(v.pointing.fieldRA.iloc[int(rng.integers(len(v.pointing)))]) + float(rng.uniform(-1, 1))
        if getattr(v, "visits", None) is not None:
            f = dict(zip(v.pointing.observationId, turned(v.pointing.fieldRA, a) - v.pointing.fieldRA))
            for c in v.visits.columns:
                if c.endswith("ra"):
                    v.visits[c] = v.visits[c] + v.visits["visitId"].map(f)
        v.pointing["fieldRA"] = turned(v.pointing["fieldRA"], a)
        v.eph["RA_deg"] = turned(v.eph["RA_deg"], a)

        def back(df):
            df = df.copy()
            for c in ("fieldRA_deg", "RA_deg", "RATrue_deg", "ra_centre"):
                if c in df:
                    df[c] = turned(df[c], -a)
            return df
    return [(v, o, back)]


def collect(rs, backs, attr):
    d = [b(getattr(r, attr)) for r, b in zip(rs, backs) if getattr(r, attr) is not None and len(getattr(r, attr))]
    if not d:
        return None
    return pd.concat(d, ignore_index=True)


def exact(ck, what, a, b, keys, ctx):
    same_rows(ck, what, a if len(a) else None, b if len(b) else None, keys, ctx)


def loose(ck, what, a, b, keys, ctx, tol):
    """As same_rows, for values which went through a change of the world."""
    if not len(a) and not len(b):
        return
    drop = [c for c in a.columns if c.startswith(("Obj_Sun", "Obs_Sun"))]
    a, b = a.drop(columns=drop), b.drop(columns=drop, errors="ignore")
    w = lambda: {"ctx": ctx, "reference_rows": len(a), "rows": len(b), "ref_head": a.head(3), "head": b.head(3)}
    if not ck.ensure(len(a) == len(b) and set(a.columns) == set(b.columns), f"{what}: {len(b)} rows instead of {len(a)}, or other columns", w):
        return
    if not len(a):
        return
    a, b = a.sort_values(keys).reset_index(drop=True), b.sort_values(keys).reset_index(drop=True)
    for c in a.columns:
        x, y = a[c], b[c]
        if pd.api.types.is_numeric_dtype(x) and pd.api.types.is_numeric_dtype(y):
            x, y = x.to_numpy(float), y.to_numpy(float)
            dd = np.abs(x - y)
            if c in ("fieldRA_deg", "RA_deg", "RATrue_deg", "ra_centre"):
                dd = np.minimum(dd, 360 - dd)
            bad = ~((dd <= tol + tol * np.abs(x) * (0 if "MJD" in c or "JD" in c else 1)) | (np.isnan(x) & np.isnan(y)))
        else:
            bad = ((x.astype(str) != y.astype(str)) & ~(x.isna() & y.isna())).to_numpy()
        if not ck.ensure(not np.any(bad), f"{what}: column {c} differs", lambda: {"ctx": ctx, "column": c, "reference": a.loc[bad, c].head(4).tolist(), "got": b.loc[bad, c].head(4).tolist(), "rows": b.loc[bad, keys].head(4)}):
            return
    ck.ev("rows_compared", len(a))


def part_worlds(ck):
    for i in range(ck.n(30, 170)):
        rng = ck.rng("w", i)
        survey = "DES" if i % 3 == 1 else "rubin_sim"
        w = P.make(rng, survey, n=int(rng.choice([3, 6, 10, 16])), groups=int(rng.integers(1, 4)), nights=int(rng.integers(3, 8)), phase=str(rng.choice(["HG", "HG1G2", "HG12", "linear", "none"])),
                   per_night=int(rng.integers(2, 4)), per_filter_phase=rng.random() < 0.3)
        d = W.tmpdir()
        try:
            over, use = c01.config(rng, w, "cuts", d)
            # no column whose content is unknown: all of them, or the basic ones
            over.setdefault("INPUT", {})["size_serial_chunk"] = str(int(rng.choice([1, 3, 5, 1000])))
            world(ck, rng, w, d, over, i)
        except SkipCase:
            pass
        finally:
            shutil.rmtree(d, ignore_errors=True)


def world(ck, rng, w, d, over, i):
    ef = str(rng.choice(["csv", "hdf5", "whitespace"])) if len(w.eph) else "csv"
    P.write(w, os.path.join(d, "in"), ef, "csv", rng=rng)
    ctx = {"world": i, "survey": w.survey, "config": over, "objects": len(w.ids), "format": ef}
    ref = ck.must(P.run, w, os.path.join(d, "ref"), stats="st", _w=ctx, **over)
    rows = 0 if ref.out is None else len(ref.out)
    linking = ref.cfg.linkingfilter.ssp_linking_on
    ways = WAYS if rows else [WAYS[int(x)] for x in rng.choice(len(WAYS), 2, replace=False)]
    for way in ways:
        if way == "filters" and "," not in over["FILTERS"]["observing_filters"]:
            continue
        rs, backs = [], []
        c = dict(ctx, way=way)
        if way == "format":
            todo = [(copy.deepcopy(w), {k: dict(x) for k, x in over.items()}, lambda x: x)]
        else:
            todo = put(rng, w, way, over)
        dbs = over["OUTPUT"]["output_format"] == "sqlite3" and way == "split"
        for j, (v, o, back) in enumerate(todo):
            f = ef
            if way == "format":
                f = str(rng.choice([x for x in ("csv", "hdf5", "whitespace") if x != ef or not len(v.eph)])) if len(v.eph) else "csv"
            if not len(v.eph):
                f = "csv"
            dd = os.path.join(d, f"in_{way}{j}")
            P.write(v, dd, f, str(rng.choice(["csv", "whitespace"])) if way == "format" else "csv")
            r = ck.must(P.run, v, os.path.join(d, f"o_{way}", str(j)), stats="st", _w=c, **o)
            rs.append(r)
            backs.append(back)
        out, st = collect(rs, backs, "out"), collect(rs, backs, "stats")
        ck.ev("pairs")
        ck.ev("way_" + way)
        ck.ev("des_pairs", w.survey == "DES")
        ck.ev("linking_pairs", linking)
        ck.ev("cuts_took_rows", 0 < rows < len(w.eph))
        ck.case([i, way, rows], rows > 0, c)
        a, b = c01.canon(ref.out), c01.canon(out)
        keys = [k for k in ["ObjID", "FieldID"] if k in a] if "FieldID" in a else ["ObjID", "fieldMJD_TAI"]
        if way == "columns" and len(b):
            b = b.drop(columns=[x for x in ("albedo", "family", "extra_value", "note", "airmass") if x in b])
        sa, sb = c01.canon(ref.stats), c01.canon(st)
        if way in ("shift", "rotate"):
            if keys == ["ObjID", "fieldMJD_TAI"] and len(a):
                for x in (a, b):
                    if len(x):
                        x["fieldMJD_TAI"] = x["fieldMJD_TAI"].round(7)
            loose(ck, "output after " + way, a, b, keys, c, 1e-7)
            loose(ck, "statistics after " + way, sa, sb, ["ObjID", "optFilter"], c, 1e-7)
        else:
            exact(ck, "output after " + way, a, b, keys, c)
            exact(ck, "statistics after " + way, sa, sb, ["ObjID", "optFilter"], c)
        ck.ev("statistics_compared", len(sa) > 0)
        if dbs and rows:
            merge(ck, w, d, a, keys, c)
        shutil.rmtree(os.path.join(d, f"o_{way}"), ignore_errors=True)


def merge(ck, w, d, ref, keys, ctx):
    """The outputs of the split runs, put together by the command for it."""
    from sorcha_cmdline.outputs import cmd_outputs_create_sqlite

    inp = os.path.join(d, "inputs")
    shutil.rmtree(inp, ignore_errors=True)
    os.makedirs(inp)
    w.orbits.to_csv(os.path.join(inp, "orbits.txt"), sep=" ", index=False)
    w.params.to_csv(os.path.join(inp, "params.txt"), sep=" ", index=False)
    p = os.path.join(d, "all.db")
    if os.path.exists(p):
        os.remove(p)
    with contextlib.redirect_stdout(io.StringIO()):
        ck.must(cmd_outputs_create_sqlite, argparse.Namespace(output=p, inputs=inp, results=os.path.join(d, "o_split"), stem=None, complex=False, force=False), _w=ctx)
    import sqlite3

    con = sqlite3.connect(p)
    try:
        got = pd.read_sql("select * from sorcha_results", con)
    finally:
        con.close()
    ck.ev("merged")
    same_rows(ck, "merged output of split runs", ref, got, keys, ctx)


def part_generated(ck):
    for i in range(ck.n(3, 14)):
        rng = ck.rng("g", i)
        w, over, ar = c01.ar_world(rng, n=5, brute=bool(i % 2), survey="DES" if i % 3 == 2 else "rubin_sim")
        d = W.tmpdir()
        try:
            P.write(w, os.path.join(d, "in"), "csv", "csv")
            over["INPUT"] = dict(over["INPUT"], size_serial_chunk=str(int(rng.choice([2, 100]))))
            ref = ck.must(P.run, w, os.path.join(d, "ref"), eph_out="eph", ar=ar, _w={"generated": i}, **over)
            ep = os.path.join(ref.dir, "eph.csv")
            refe = pd.read_csv(ep, dtype={"ObjID": str}, keep_default_na=False, na_values=[""]) if os.path.exists(ep) else None
            for way in ("split", "permute", "rename"):
                rs, backs, es = [], [], []
                c = {"generated": i, "way": way, "brute": bool(i % 2)}
                for j, (v, o, back) in enumerate(put(rng, w, way, over)):
                    P.write(v, os.path.join(d, f"in_{way}{j}"), "csv", "csv")
                    r = ck.must(P.run, v, os.path.join(d, f"o_{way}{j}"), eph_out="eph", ar=ar, _w=c, **o)
                    e = os.path.join(r.dir, "eph.csv")
                    if os.path.exists(e):
                        es.append(back(pd.read_csv(e, dtype={"ObjID": str}, keep_default_na=False, na_values=[""])))
                    rs.append(r)
                    backs.append(back)
                ck.ev("generated_pairs")
                ck.ev("pairs")
                ck.ev("way_" + way)
                ck.case(["g", i, way], refe is not None, c)
                same_rows(ck, "generated ephemeris after " + way, refe, pd.concat(es, ignore_index=True) if es else None, ["ObjID", "FieldID"], c)
                same_rows(ck, "output after " + way + " (generated)", ref.out, collect(rs, backs, "out"), KEYS, c)
        except SkipCase:
            pass
        finally:
            shutil.rmtree(d, ignore_errors=True)


def parts():
    return [("worlds", part_worlds), ("generated", part_generated)]
