"""C25: the statistics file summarises exactly the detections reported."""
import csv
import os
import shutil
from types import SimpleNamespace as NS

import numpy as np
import pandas as pd

from vlib.common import Check, SkipCase
from vlib import pipeline as P
from vlib import world as W
from checks import c01


def make():
    ck = Check(
        "C25",
        "Each case is a history of chunks of recorded detections summarised by the real function into one file (or returned), or a complete run whose "
        "statistics file is recomputed from its own detections file. Non-trivial = an object has detections in at least two filters or several in one.",
        ["pairs of object and filter without detections may be listed with a count of zero and no values, as in the documented example file"],
    )
    ck.need("lines_compared", 2000)
    ck.need("histories", 60)
    ck.need("returned_tables", 20)
    ck.need("pipeline_runs", 10)
    ck.need("unlinked_lines", 20)
    ck.need("lines_without_detections", 50)
    ck.need("linked_dates", 50)
    return ck


COLS = ["ObjID", "optFilter", "number_obs", "min_apparent_mag", "max_apparent_mag", "median_apparent_mag", "min_phase", "max_phase"]


def f(x):
    return float("nan") if x in ("", None) else float(x)


def same(a, b, tol=1e-12):
    return (np.isnan(a) and np.isnan(b)) or abs(a - b) <= tol * max(1, abs(b))


def judge(ck, lines, det, link, drop, ctx, tol=1e-12, exact_cols=None):
    """lines: list of dicts of text/values; det: the detections, as a table."""
    pairs = {}
    for o, fl, m, ph, l, d in zip(det.ObjID.astype(str), det.optFilter.astype(str), det.trailedSourceMag, det.phase_deg,
                                  det.object_linked if "object_linked" in det else [None] * len(det), det.date_linked_MJD if "date_linked_MJD" in det else [None] * len(det)):
        pairs.setdefault((o, fl), []).append((float(m), float(ph), l, d))
    keys = [(r["ObjID"], r["optFilter"]) for r in lines]
    if not ck.ensure(len(set(keys)) == len(keys), "a pair of object and filter is listed twice", lambda: {"ctx": ctx, "pairs": [k for k in keys if keys.count(k) > 1][:4]}):
        return
    w = lambda k: {"ctx": ctx, "pair": k, "detections": pairs.get(k, [])[:30], "line": next((r for r in lines if (r["ObjID"], r["optFilter"]) == k), None)}
    miss = [k for k in pairs if k not in set(keys)]
    ck.ensure(not miss, "a pair with detections is not in the statistics", lambda: w(miss[0]))
    objs = {o for o, _ in pairs}
    linked = {o: bool(x[2]) for (o, _), v in pairs.items() for x in v}
    for r in lines:
        k = (r["ObjID"], r["optFilter"])
        v = pairs.get(k, [])
        ck.ev("lines_compared")
        ck.ensure(k[0] in objs, "the statistics list an object without detections", lambda: w(k))
        if not ck.ensure(int(float(r["number_obs"])) == len(v), f"number of observations {r['number_obs']} instead of {len(v)}", lambda: w(k)):
            continue
        if not v:
            ck.ev("lines_without_detections")
            ck.ensure(all(np.isnan(f(r[c])) for c in COLS[3:]), "a line without detections has values", lambda: w(k))
        else:
            m, ph = np.array([x[0] for x in v]), np.array([x[1] for x in v])
            for c, want in (("min_apparent_mag", m.min()), ("max_apparent_mag", m.max()), ("median_apparent_mag", float(np.median(m))), ("min_phase", ph.min()), ("max_phase", ph.max())):
                ck.ensure(same(f(r[c]), want, tol), f"{c} is {r[c]} instead of {want}", lambda: w(k))
        if link:
            if drop is False:
                t = str(r.get("object_linked"))
                if v:
                    ck.ensure(t == str(bool(v[0][2])), f"object_linked is {t} instead of {bool(v[0][2])}", lambda: w(k))
                else:
                    ck.ensure(t in ("", "nan", "None", str(linked.get(k[0]))), f"object_linked is {t} for an object that is {'' if linked.get(k[0]) else 'not '}linked", lambda: w(k))
                ck.ev("unlinked_lines", t == "False")
            if v:
                d = float("nan") if v[0][3] is None else float(v[0][3])
                ck.ev("linked_dates", not np.isnan(d))
                ck.ensure(same(f(r["date_linked_MJD"]), d, 0), f"date_linked_MJD is {r['date_linked_MJD']} instead of {d}", lambda: w(k))


def read(path):
    with open(path, newline="", encoding="utf-8") as fh:
        rd = csv.reader(fh)
        head = next(rd)
        return head, [dict(zip(head, r)) for r in rd]


def frame(rng, ids, n, cat, extra_cat):
    df = W.obs_frame(rng, n, category=False)
    df["ObjID"] = rng.choice(np.array(ids, object), n)
    flt = [str(x) for x in rng.permutation(W.LSST_FILTERS)[: int(rng.integers(1, 7))]]
    df["optFilter"] = rng.choice(np.array(flt, object), n)
    if cat:
        df["optFilter"] = pd.Categorical(df["optFilter"], categories=W.LSST_FILTERS if extra_cat else sorted(set(df["optFilter"])))
    df["phase_deg"] = rng.uniform(0, 120, n)
    df["trailedSourceMagTrue"] = df["trailedSourceMag"] + rng.normal(0, 1, n)
    df["PSFMag"] = df["trailedSourceMag"] + rng.uniform(0, 2, n)
    if rng.random() < 0.3:  # ties
        df["trailedSourceMag"] = np.round(df["trailedSourceMag"])
    if rng.random() < 0.4:
        df["phase_deg"] = np.round(df["phase_deg"] / 30) * 30
    st = {o: bool(rng.random() < 0.5) for o in ids}
    dt = {o: float(60000 + rng.integers(0, 99)) for o in ids}
    df["object_linked"] = [st[o] for o in df.ObjID]
    df["date_linked_MJD"] = [dt[o] if st[o] else np.nan for o in df.ObjID]
    df.index = rng.permutation(n) if rng.random() < 0.5 else rng.integers(0, 5, n) if rng.random() < 0.3 else df.index
    return df


def histories(ck):
    from sorcha.modules.PPStats import stats

    for i in range(ck.n(110, 1500)):
        rng = ck.rng("h", i)
        d = W.tmpdir()
        try:
            link = rng.random() < 0.7
            drop = bool(rng.random() < 0.4)
            cfg = NS(linkingfilter=NS(ssp_linking_on=bool(link), drop_unlinked=drop))
            kind = str(rng.choice(["plain", "num", "exp", "odd"]))
            names = P.names(rng, 30, kind)
            if kind == "odd":
                names = [n + x for n, x in zip(names, rng.choice(np.array(["", ",b", '"q"', " c"], object), 30))]
            chunks = []
            for q in range(int(rng.choice([1, 2, 5]))):
                ids = names[q * 6: q * 6 + int(rng.integers(1, 7))]
                t = frame(rng, ids, int(rng.choice([1, 3, 20, 60])) if i % 20 != 19 else int(rng.integers(2001, 5000)), rng.random() < 0.7, rng.random() < 0.6)
                if link and drop:
                    t = t[t.object_linked]
                if len(t):
                    chunks.append(t)
            if not chunks:
                raise SkipCase()
            ctx = {"history": i, "linking": link, "drop_unlinked": drop, "chunks": [len(c) for c in chunks]}
            ck.case([ctx], any(len(c) > 1 for c in chunks), ctx)
            for c in chunks:
                b = c.copy(deep=True)
                ck.must(stats, c, "st.v1", d, cfg, _w=ctx)
                ck.ensure(c.equals(b), "summarising altered the detections", ctx)
            files = os.listdir(d)
            ck.ensure(files == ["st.v1.csv"], "the statistics file has another name", {"files": files})
            head, lines = read(os.path.join(d, files[0]))
            want = COLS + (["object_linked"] if link and not drop else []) + (["date_linked_MJD"] if link else [])
            ck.ensure(head == want, "the statistics file has other columns", {"ctx": ctx, "columns": head})
            ck.ev("histories")
            det = pd.concat([c.astype({"optFilter": str}) for c in chunks])
            judge(ck, lines, det, link, drop, ctx)
            r = ck.must(stats, chunks[0], "no", d, cfg, return_only=True, _w=ctx)
            ck.ensure(os.listdir(d) == files, "summarising in memory wrote a file", ctx)
            r = r.reset_index().to_dict("records")
            ck.ev("returned_tables")
            for x in r:
                x["ObjID"], x["optFilter"] = str(x["ObjID"]), str(x["optFilter"])
            judge(ck, r, chunks[0], link, drop, dict(ctx, returned=True))
        except SkipCase:
            pass
        finally:
            shutil.rmtree(d, ignore_errors=True)


def pipeline(ck):
    for i in range(ck.n(16, 150)):
        rng = ck.rng("p", i)
        w = P.make(rng, "DES" if i % 4 == 3 else "rubin_sim", n=int(rng.choice([5, 15])), groups=2, nights=6, per_night=2, name_kind=str(rng.choice(["plain", "num", "exp", "int"])))
        d = W.tmpdir()
        try:
            o, use = c01.config(rng, w, "cuts", d)
            o["OUTPUT"]["output_columns"] = "all"
            if rng.random() < 0.5 and w.survey != "DES":
                o["EXPERT"]["randomization_on"] = "True"
            o["INPUT"] = {"size_serial_chunk": str(int(rng.choice([1, 4, 50])))}
            P.write(w, os.path.join(d, "in"), "csv", "csv", rng=rng)
            ctx = {"run": i, "survey": w.survey, "config": o}
            r = ck.must(P.run, w, os.path.join(d, "o"), stats="tally", _w=ctx, **o)
            ck.ev("pipeline_runs")
            p = os.path.join(r.dir, "tally.csv")
            ck.case(ctx, r.out is not None and len(r.out) > 2, {"run": i, "rows": 0 if r.out is None else len(r.out)})
            if r.out is None:
                ck.ensure(not os.path.exists(p) or not any(int(float(x["number_obs"])) for x in read(p)[1]), "statistics of detections that are not in the output", ctx)
                continue
            if not ck.ensure(os.path.exists(p), "a run with detections wrote no statistics", ctx):
                continue
            lf = r.cfg.linkingfilter
            judge(ck, read(p)[1], r.out, bool(lf.ssp_linking_on), lf.drop_unlinked if lf.ssp_linking_on else True, ctx, tol=1e-9)
        except SkipCase:
            pass
        finally:
            shutil.rmtree(d, ignore_errors=True)


def parts():
    return [("histories", histories), ("pipeline", pipeline)]
