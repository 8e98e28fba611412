"""C24: output files contain exactly the surviving rows in the chosen form."""
import csv
import os
import shutil
import sqlite3
from types import SimpleNamespace as NS

import numpy as np
import pandas as pd

from vlib.common import Check, SkipCase
from vlib import pipeline as P
from vlib import world as W
from checks import c01

BASIC = ["ObjID", "fieldMJD_TAI", "fieldRA_deg", "fieldDec_deg", "RA_deg", "Dec_deg", "astrometricSigma_deg", "optFilter", "trailedSourceMag",
         "trailedSourceMagSigma", "fiveSigmaDepth_mag", "phase_deg", "Range_LTC_km", "RangeRate_LTC_km_s", "Obj_Sun_LTC_km"]
POS = ["fieldRA_deg", "fieldDec_deg", "RA_deg", "Dec_deg", "astrometricSigma_deg", "RATrue_deg", "DecTrue_deg"]
MAG = ["PSFMag", "trailedSourceMag", "trailedSourceMagTrue", "PSFMagTrue", "PSFMagSigma", "trailedSourceMagSigma", "fieldFiveSigmaDepth_mag", "fiveSigmaDepth_mag"]


def make():
    ck = Check(
        "C24",
        "Each case is one history of chunks written by the real writer in one format, column selection and rounding, read back by an independent "
        "reader (csv module, sqlite3, HDF5) and compared cell by cell with the recorded input chunks. Non-trivial = at least one row was written.",
        ["identifiers such as 'NA', empty names and names with embedded quotes or line breaks are not generated for HDF5",
         "HDF5 tables hold at most a few hundred columns"],
    )
    for f in ("csv", "sqlite3", "hdf5"):
        ck.need("histories_" + f, 30)
    ck.need("cells_compared", 50000)
    ck.need("cells_rounded", 3000)
    ck.need("zero_decimals", 10)
    ck.need("unavailable_column_refused", 15)
    ck.need("basic_columns_refused", 8)
    ck.need("growing_identifiers", 20)
    ck.need("changing_types", 10)
    ck.need("column_lists", 20)
    ck.need("pipeline_runs", 8)
    ck.need("unlinked_kept", 10)
    return ck


def frame(rng, n, idlen, ints=False, cat=True):
    df = W.obs_frame(rng, n, category=False)
    alphabet = np.array(list("ABCxyz0123456789-._+() /'@:é"), object)
    ids = ["".join(rng.choice(alphabet, int(rng.integers(1, idlen + 1)))).strip() or "q" for _ in range(max(1, n // 3))]
    df["ObjID"] = rng.choice(np.array(["o" + i for i in ids], object), n)
    df["fieldRA_deg"], df["fieldDec_deg"] = df["RA_deg"] * 0.99, df["Dec_deg"] * 0.98
    df["phase_deg"] = rng.uniform(0, 90, n)
    df["Range_LTC_km"] = rng.uniform(1e7, 1e10, n)
    df["RangeRate_LTC_km_s"] = rng.normal(0, 20, n)
    df["fieldFiveSigmaDepth_mag"] = df["fiveSigmaDepth_mag"] + rng.uniform(0, 1, n)
    df["object_linked"] = rng.random(n) < 0.5
    df["date_linked_MJD"] = np.where(df["object_linked"], 60000.0 + rng.integers(0, 50, n), np.nan)
    df["H_r"] = rng.integers(10, 20, n) if ints else rng.uniform(10, 20, n)
    df["g-r"] = rng.uniform(-1, 1, n)
    df["FORMAT"] = "COM"
    if n and rng.random() < 0.3:  # halves, signs, exact values
        df.loc[df.index[0], ["RA_deg", "Dec_deg", "trailedSourceMag"]] = [0.5, -0.0, 22.5]
    if n > 1 and rng.random() < 0.3:
        df.loc[df.index[1], ["RA_deg", "trailedSourceMag"]] = [1e-12, np.nan]
    if cat:
        df["optFilter"] = pd.Categorical(df["optFilter"], categories=W.LSST_FILTERS)
    df.index = rng.permutation(n) if rng.random() < 0.5 else df.index
    return df


def read(path, fmt):
    """Independent reader: (columns, list of rows of raw cells)."""
    if fmt == "csv":
        with open(path, newline="", encoding="utf-8") as f:
            r = list(csv.reader(f))
        return r[0], r[1:]
    if fmt == "sqlite3":
        con = sqlite3.connect(path)
        cur = con.execute("select * from sorcha_results order by rowid")
        cols = [c[0] for c in cur.description]
        rows = cur.fetchall()
        con.close()
        return cols, rows
    import tables

    with tables.open_file(path) as f:
        t = f.get_node("/sorcha_results/table")
        n = t.nrows
    df = pd.read_hdf(path, "sorcha_results")
    assert len(df) == n
    return list(df.columns), [tuple(r) for r in df.astype({"optFilter": object} if "optFilter" in df else {}).to_numpy(object)]


def num(x):
    if x is None or x == "":
        return float("nan")
    if x in ("True", "False"):
        return float(x == "True")
    return float(x)


def compare(ck, cols, rows, want, expected_cols, pd_, md, ctx):
    w = lambda: {"ctx": ctx, "columns": cols, "expected": expected_cols, "rows": len(rows), "expected_rows": len(want)}
    if not ck.ensure(list(cols) == list(expected_cols), "the columns of the file are not the requested ones", w):
        return
    if not ck.ensure(len(rows) == len(want), f"the file has {len(rows)} rows, {len(want)} were passed on", w):
        return
    n = len(rows)
    for j, c in enumerate(expected_cols):
        src = want[c].tolist()
        got = [r[j] for r in rows]
        if isinstance(src[0], str) if n else False:
            bad = [i for i in range(n) if got[i] != src[i]]
            ck.ev("cells_compared", n)
            ck.ensure(not bad, f"column {c} holds other values or another row order", lambda: {"ctx": ctx, "want": src[bad[0]], "got": got[bad[0]], "row": bad[0]})
            continue
        g = np.array([num(x) for x in got], float)
        s = np.array([num(x) if not isinstance(x, (bool, np.bool_)) else float(x) for x in src], float)
        ck.ev("cells_compared", n)
        dec = pd_ if c in POS else md if c in MAG else None
        nan = np.isnan(g) & np.isnan(s)
        if dec is None:
            bad = ~(nan | (g == s))
            msg = f"column {c} was altered"
        else:
            ck.ev("cells_rounded", n)
            u = 10.0 ** -dec
            near = np.round(g / u) * u
            tol = 1e-15 + 4e-16 * np.abs(s)
            bad = ~(nan | ((np.abs(g - s) <= 0.5 * u + 3 * tol) & (np.abs(g - near) <= 3 * tol)))
            msg = f"column {c} is not rounded to {dec} decimals"
        ck.ensure(not bad.any(), msg, lambda: {"ctx": ctx, "column": c, "written": s[bad][:4], "read": g[bad][:4], "rows": np.flatnonzero(bad)[:4]})


def histories(ck):
    from sorcha.modules.PPOutput import PPIndexSQLDatabase, PPWriteOutput

    for i in range(ck.n(180, 1500)):
        rng = ck.rng("h", i)
        fmt = ["csv", "sqlite3", "hdf5"][i % 3]
        d = W.tmpdir()
        try:
            sel = ["basic", "all", "list"][int(rng.integers(3))]
            pdec = [None, 0, 1, 4, 7, 12][int(rng.integers(6))]
            mdec = [None, 0, 1, 3, 6][int(rng.integers(5))]
            linked = rng.random() < 0.4
            ints = rng.random() < 0.3
            grow = rng.random() < 0.5
            cat = rng.random() < 0.8
            k = int(rng.choice([1, 2, 3, 6]))
            lens = sorted(rng.integers(1, 40, k)) if grow else rng.integers(1, 40, k)
            chunks = [frame(rng, int(rng.choice([1, 2, 9, 40])) if i % 24 > 2 or q else int(rng.integers(2001, 5000)), int(L), ints and (q % 2 == 0), cat) for q, L in enumerate(lens)]
            available = list(chunks[0].columns) + ["Obj_Sun_LTC_km"]
            spec = sel
            if sel == "list":
                spec = [str(c) for c in rng.permutation(available)[: int(rng.integers(2, 14))]]
                if "ObjID" not in spec and rng.random() < 0.7:
                    spec.insert(int(rng.integers(len(spec) + 1)), "ObjID")
            over = {"OUTPUT": {"output_format": fmt, "output_columns": ", ".join(spec) if sel == "list" else sel,
                               "position_decimals": pdec, "magnitude_decimals": mdec}}
            if linked:
                over["LINKINGFILTER"] = {"SSP_detection_efficiency": "1.0", "SSP_number_observations": "2", "SSP_separation_threshold": "0.5", "SSP_maximum_time": "0.06",
                                         "SSP_number_tracklets": "2", "SSP_track_window": "15", "SSP_night_start_utc": "16.0", "drop_unlinked": "False"}
            cfg = W.configs("rubin_sim", **over)
            stem = str(rng.choice(["out", "a b", "x.y", "res-1"]))
            args = NS(outpath=d, outfilestem=stem)
            ctx = {"history": i, "format": fmt, "columns": spec, "position_decimals": pdec, "magnitude_decimals": mdec, "chunks": [len(c) for c in chunks], "id_lengths": list(map(int, lens)), "int_then_float": bool(ints)}
            if sel == "list" and rng.random() < 0.4:
                refused(ck, rng, PPWriteOutput, cfg, args, chunks, available, fmt, ctx)
            if sel == "basic" and rng.random() < 0.4:
                basic_refused(ck, rng, PPWriteOutput, cfg, args, chunks, ctx)
            before = [c.copy() for c in chunks]
            for c in chunks:
                ck.must(PPWriteOutput, args, cfg, c, _w=ctx)
            want = pd.concat([b.assign(Obj_Sun_LTC_km=np.sqrt(b.Obj_Sun_x_LTC_km ** 2 + b.Obj_Sun_y_LTC_km ** 2 + b.Obj_Sun_z_LTC_km ** 2), optFilter=b.optFilter.astype(object)) for b in before], ignore_index=True)
            exp = BASIC + (["object_linked"] if linked else []) if sel == "basic" else list(want.columns) if sel == "all" else spec
            if sel == "all":
                exp = list(chunks[0].columns)
                ck.ensure(set(exp) == set(want.columns), "columns appeared or vanished", ctx)
            p = os.path.join(d, stem + {"csv": ".csv", "sqlite3": ".db", "hdf5": ".h5"}[fmt])
            if not ck.ensure(os.path.exists(p) and len(os.listdir(d)) == 1, "the output is not in one file of the configured name", {"ctx": ctx, "files": os.listdir(d)}):
                continue
            if fmt == "sqlite3":
                ck.must(PPIndexSQLDatabase, p, _w=ctx)
            cols, rows = read(p, fmt)
            compare(ck, cols, rows, want, exp, pdec, mdec, ctx)
            ck.ev("lists_without_index_columns", not {"ObjID", "fieldMJD_TAI", "optFilter"} <= set(exp))
            ck.case(ctx, True, {"format": fmt, "columns": sel, "chunks": len(chunks), "rows": len(want)})
            ck.ev("histories_" + fmt)
            ck.ev("zero_decimals", pdec == 0 or mdec == 0)
            ck.ev("growing_identifiers", grow and k > 1)
            ck.ev("changing_types", ints and k > 1)
            ck.ev("column_lists", sel == "list")
            ck.ev("unlinked_kept", linked)
        except SkipCase:
            pass
        finally:
            shutil.rmtree(d, ignore_errors=True)


def basic_refused(ck, rng, PPWriteOutput, cfg, args, chunks, ctx):
    """A survey without uncertainties (DES) has no astrometricSigma_deg or trailedSourceMagSigma to put among the basic columns."""
    gone = [["astrometricSigma_deg", "trailedSourceMagSigma"], ["trailedSourceMagSigma"], ["RangeRate_LTC_km_s"]][int(rng.integers(3))]
    _, e = ck.call(PPWriteOutput, args, cfg, chunks[0].drop(columns=gone))
    ck.ensure(isinstance(e, SystemExit) and e.code not in (0, None) and all(g in str(e.code) for g in gone), "basic output without some of its columns is not refused with their names", {"ctx": ctx, "missing": gone, "outcome": repr(e)})
    ck.ensure(not os.listdir(args.outpath), "a refused output still wrote a file", {"ctx": ctx, "files": os.listdir(args.outpath)})
    ck.ev("unavailable_column_refused")
    ck.ev("basic_columns_refused")


def refused(ck, rng, PPWriteOutput, cfg, args, chunks, available, fmt, ctx):
    good = list(cfg.output.output_columns)
    bad = list(good)
    bad.insert(int(rng.integers(len(bad) + 1)), str(rng.choice(["RA", "ra_deg", "Nope", "trailedsourcemag", "optfilter "])))
    cfg.output.output_columns = bad
    _, e = ck.call(PPWriteOutput, args, cfg, chunks[0].copy())
    cfg.output.output_columns = good
    ck.ensure(isinstance(e, SystemExit) and e.code not in (0, None), "an unavailable output column is not refused", {"ctx": ctx, "columns": bad, "outcome": repr(e)})
    ck.ensure(not os.listdir(args.outpath), "a refused output still wrote a file", {"ctx": ctx, "files": os.listdir(args.outpath)})
    ck.ev("unavailable_column_refused")


def whole(ck):
    """The rows of the file are those handed to the writer by real runs."""
    import sorcha.des
    import sorcha.sorcha

    for i in range(ck.n(12, 90)):
        rng = ck.rng("p", i)
        survey = "DES" if i % 3 == 2 else "rubin_sim"
        n = int(rng.choice([3, 8, 15]))
        w = P.make(rng, survey, n=n, nights=4)
        d = W.tmpdir()
        mod = sorcha.des if survey == "DES" else sorcha.sorcha
        orig = mod.PPWriteOutput
        seen = []

        def spy(a, c, obs, **k):
            seen.append(obs.copy())
            return orig(a, c, obs, **k)

        try:
            P.write(w, os.path.join(d, "in"), "csv", "csv", rng=rng)
            fmt = ["csv", "sqlite3", "hdf5"][int(rng.integers(3))]
            sel = "all" if survey == "DES" or rng.random() < 0.5 else "basic"
            pdec, mdec = [None, 0, 5][int(rng.integers(3))], [None, 2][int(rng.integers(2))]
            over = {"OUTPUT": {"output_format": fmt, "output_columns": sel, "position_decimals": pdec, "magnitude_decimals": mdec},
                    "INPUT": {"size_serial_chunk": str(int(rng.choice([1, 4, 100])))}}
            ctx = {"pipeline": i, "survey": survey, "config": over, "objects": n}
            mod.PPWriteOutput = spy
            r = ck.must(P.run, w, os.path.join(d, "o"), seed=i, _w=ctx, **over)
            mod.PPWriteOutput = orig
            rows_in = sum(map(len, seen))
            ck.case([ctx, rows_in], rows_in > 0, {"rows": rows_in, "format": fmt})
            if not rows_in:
                ck.ensure(r.out is None or len(r.out) == 0, "rows appeared from nowhere", ctx)
                continue
            ck.ev("pipeline_runs")
            want = pd.concat([b.assign(Obj_Sun_LTC_km=np.sqrt(b.Obj_Sun_x_LTC_km ** 2 + b.Obj_Sun_y_LTC_km ** 2 + b.Obj_Sun_z_LTC_km ** 2), optFilter=b.optFilter.astype(object)) for b in seen], ignore_index=True)
            p = os.path.join(d, "o", "out" + {"csv": ".csv", "sqlite3": ".db", "hdf5": ".h5"}[fmt])
            cols, rows = read(p, fmt)
            exp = BASIC if sel == "basic" else [c for c in cols]
            if sel == "all":
                ck.ensure(set(cols) == set(want.columns), "columns of the file differ from the observations", {"ctx": ctx, "difference": sorted(set(cols) ^ set(want.columns))})
            if set(exp) <= set(want.columns):
                compare(ck, cols, rows, want, exp, pdec, mdec, ctx)
        except SkipCase:
            pass
        finally:
            mod.PPWriteOutput = orig
            shutil.rmtree(d, ignore_errors=True)


def parts():
    return [("histories", histories), ("whole", whole)]
