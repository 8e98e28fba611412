"""C01: every detection reported exactly once, whatever the chunk size."""
import os
import shutil

import numpy as np
import pandas as pd

from vlib.common import Check, SkipCase
from vlib import pipeline as P
from vlib import world as W
from vlib import kernels as K
from checks import c21, c22


def make():
    ck = Check(
        "C01",
        "Each case is one complete run of the real entry point (deterministic configuration) at one chunk size; its recorded output and "
        "statistics rows are compared with the run of the same world at the largest chunk size, and - where every cut is off - with "
        "the ephemeris rows themselves. Non-trivial = at least one row is reported and more than one chunk was processed.",
        ["values are compared to a relative 1e-9 (vectorised arithmetic may differ in the last bit with array length)",
         "linking runs use efficiency 1 (random otherwise)"],
    )
    ck.need("runs", 60)
    ck.need("multi_chunk_runs", 40)
    ck.need("rows_compared", 1500)
    ck.need("chunks_without_rows", 10)
    ck.need("short_last_chunk", 10)
    ck.need("des_runs", 15)
    ck.need("all_cuts_off_worlds", 3)
    ck.need("linking_runs", 8)
    ck.need("generated_ephemeris_runs", 3)
    ck.need("des_generated_rows", 5)
    ck.need("returned_statistics", 8)
    for f in ("csv", "sqlite3", "hdf5"):
        ck.need("output_" + f, 8)
    for f in ("csv", "whitespace", "hdf5"):
        ck.need("eph_" + f, 8)
    return ck


def canon(df):
    if df is None:
        return pd.DataFrame()
    df = df.copy()
    df["ObjID"] = df["ObjID"].astype(str)
    if "optFilter" in df:
        df["optFilter"] = df["optFilter"].astype(str)
    return df


def same_rows(ck, what, a, b, keys, ctx):
    """a (reference) and b have the same rows, each once, with the same values."""
    a, b = canon(a), canon(b)
    w = lambda: {"ctx": ctx, "reference_rows": len(a), "rows": len(b), "ref_head": a.head(3), "head": b.head(3)}
    if not ck.ensure(len(a) == len(b), f"{what}: {len(b)} rows instead of {len(a)}", w):
        return False
    if not len(a):
        return True
    if not ck.ensure(set(a.columns) == set(b.columns), f"{what}: columns differ: {sorted(set(a.columns) ^ set(b.columns))}", w):
        return False
    ka = [tuple(r) for r in a[keys].to_numpy()]
    kb = [tuple(r) for r in b[keys].to_numpy()]
    if not ck.ensure(len(set(kb)) == len(kb), f"{what}: a row is repeated", lambda: {"ctx": ctx, "rows": [k for k in kb if kb.count(k) > 1][:6]}):
        return False
    if not ck.ensure(set(ka) == set(kb), f"{what}: rows lost or invented", lambda: {"ctx": ctx, "lost": sorted(map(str, set(ka) - set(kb)))[:5], "invented": sorted(map(str, set(kb) - set(ka)))[:5]}):
        return False
    ia = pd.Series(range(len(a)), index=pd.MultiIndex.from_tuples(ka))
    order = ia.loc[pd.MultiIndex.from_tuples(kb)].values
    a = a.iloc[order].reset_index(drop=True)
    b = b.reset_index(drop=True)
    for c in a.columns:
        x, y = a[c], b[c]
        if pd.api.types.is_numeric_dtype(x) and pd.api.types.is_numeric_dtype(y):
            xv, yv = x.to_numpy(float), y.to_numpy(float)
            bad = ~(np.isclose(xv, yv, rtol=1e-9, atol=1e-12) | (np.isnan(xv) & np.isnan(yv)))
        else:
            bad = ((x.astype(str) != y.astype(str)) & ~(x.isna() & y.isna())).to_numpy()
        if not ck.ensure(not bad.any(), f"{what}: column {c} differs", lambda: {"ctx": ctx, "column": c, "reference": x[bad].head(4).tolist(), "got": y[bad].head(4).tolist(), "rows": b.loc[bad, keys].head(4)}):
            return False
    ck.ev("rows_compared", len(a))
    return True


def config(rng, w, mode, d):
    """A deterministic configuration."""
    o = {"FILTERS": {}, "EXPERT": {}, "OUTPUT": {}, "FOV": {"camera_model": "none"}, "LINKINGFILTER": {}}
    use = list(w.filters) if rng.random() < 0.5 else [w.main] + list(rng.permutation(w.filters[1:])[: int(rng.integers(1, 4))])
    o["FILTERS"]["observing_filters"] = ",".join(use)
    o["OUTPUT"]["output_format"] = str(rng.choice(["csv", "sqlite3", "hdf5"]))
    des = w.survey == "DES"
    cols = "all" if des or rng.random() < 0.4 else "basic"
    o["OUTPUT"]["output_columns"] = cols
    if not des:
        o["EXPERT"]["randomization_on"] = "False"
        o["EXPERT"]["vignetting_on"] = str(rng.choice(["True", "False"]))
        o["EXPERT"]["trailing_losses_on"] = str(rng.choice(["True", "False"]))
        o["EXPERT"]["default_snr_cut"] = "False"
    if mode == "off":
        o["OUTPUT"]["output_columns"] = "all"
        return o, use
    if not des:
        o["EXPERT"]["default_snr_cut"] = str(rng.choice(["True", "False"]))
    cam = str(rng.choice(["none", "circle", "footprint", "visits"] if des else ["none", "circle", "footprint"]))
    if cam == "circle":
        o["FOV"] = {"camera_model": "circle", "circle_radius": f"{rng.uniform(0.6, 2):.3f}"}
    elif cam == "footprint":
        o["FOV"] = {"camera_model": "footprint"}
        if rng.random() < 0.5:
            o["FOV"]["footprint_edge_threshold"] = "2."
    elif cam == "visits":
        o["FOV"] = {"camera_model": "visits_footprint", "visits_query": P.VISITS_QUERY}
        w.visits = P.ccds(rng, w)
    k = rng.random()
    if k < 0.35 and not des:
        o["EXPERT"]["snr_limit"] = "5"
    elif k < 0.7:
        o["EXPERT"]["mag_limit"] = "23.0"
    if rng.random() < 0.6:
        o["SATURATION"] = {"bright_limit": "17.5" if rng.random() < 0.5 else ",".join(f"{x:.2f}" for x in rng.uniform(16, 19, len(use)))}
    if des:
        if rng.random() < 0.4:
            o["LINKINGFILTER"] |= {"distance_cut_upper": "12", "distance_cut_lower": "0.8"}
        if rng.random() < 0.4:
            o["LINKINGFILTER"] |= {"motion_cut_upper": "90", "motion_cut_lower": "1"}
        if rng.random() < 0.5:
            o["LINKINGFILTER"]["des_discovery_on"] = "True"
    elif rng.random() < 0.6:
        o["LINKINGFILTER"] |= {"SSP_detection_efficiency": "1.0", "SSP_number_observations": "2", "SSP_separation_threshold": "0.5", "SSP_maximum_time": "0.0625",
                               "SSP_number_tracklets": "2", "SSP_track_window": "15", "SSP_night_start_utc": "16.0", "drop_unlinked": str(rng.choice(["True", "False"]))}
    return o, use


class Reads:
    """Monitor of the objects handed to each chunk."""

    def __init__(self):
        from sorcha.readers.CombinedDataReader import CombinedDataReader as C

        self.C, self.orig = C, (C.read_block, C.read_aux_block)
        self.blocks = []

    def __enter__(self):
        me = self

        def wrap(f):
            def g(s, *a, **k):
                from sorcha.readers.OrbitAuxReader import OrbitAuxReader

                start = s.block_start
                r = f(s, *a, **k)
                me.blocks.append((start, s.block_start, 0 if r is None else len(r), [] if r is None else sorted(set(r["ObjID"].astype(str)))))
                return r

            return g

        self.C.read_block, self.C.read_aux_block = wrap(self.orig[0]), wrap(self.orig[1])
        return self

    def __exit__(self, *a):
        self.C.read_block, self.C.read_aux_block = self.orig


KEYS = ["ObjID", "fieldMJD_TAI"]


def worlds(ck):
    for i in range(ck.n(22, 160)):
        rng = ck.rng("w", i)
        survey = "DES" if i % 3 == 2 else "rubin_sim"
        n = int(rng.choice([1, 4, 7, 12, 25]))
        mode = "off" if i % 4 == 0 else "cuts"
        w = P.make(rng, survey, n=n, groups=int(rng.integers(1, 4)), nights=int(rng.integers(2, 8)), phase=str(rng.choice(["HG", "HG1G2", "HG12", "linear", "none"])),
                   per_night=int(rng.integers(1, 4)), per_filter_phase=rng.random() < 0.3)
        d = W.tmpdir()
        try:
            over, use = config(rng, w, mode, d)
            ef, af = ["csv", "whitespace", "hdf5"][i % 3 if rng.random() < 0.5 else int(rng.integers(3))], str(rng.choice(["csv", "whitespace", "comma"]))
            if not len(w.eph):
                ef = "csv"
            P.write(w, os.path.join(d, "in"), ef, af, rng=rng)
            ctx = {"world": i, "survey": survey, "objects": n, "eph_rows": len(w.eph), "eph_format": ef, "aux_format": af, "config": over, "ids": w.ids[:3]}
            one_world(ck, rng, w, d, over, use, mode, ctx)
        except SkipCase:
            pass
        finally:
            shutil.rmtree(d, ignore_errors=True)


def one_world(ck, rng, w, d, over, use, mode, ctx):
    n = len(w.ids)
    stats = "st" if rng.random() < 0.7 else None
    ref = None
    sizes = [n + 1000] + sorted({1, 2, 3, max(1, n - 1), n, n + 1, int(rng.integers(1, n + 1))})
    if ck.quick and len(sizes) > 5:
        sizes = [sizes[0]] + [int(x) for x in rng.choice(sizes[1:], 4, replace=False)]
    for ch in sizes:
        o = {k: dict(v) for k, v in over.items()}
        o["INPUT"] = {"size_serial_chunk": str(ch)}
        c = dict(ctx, chunk=ch)
        with Reads() as mon:
            r = ck.must(P.run, w, os.path.join(d, f"o{ch}"), stats=stats, _w=c, **o)
        ck.ev("runs")
        ck.ev("output_" + over["OUTPUT"]["output_format"])
        ck.ev("eph_" + w.eph_format)
        if w.survey == "DES":
            ck.ev("des_runs")
        if r.cfg.linkingfilter.ssp_linking_on:
            ck.ev("linking_runs")
        nch = len(mon.blocks)
        rows = 0 if r.out is None else len(r.out)
        ck.case([c, rows], rows > 0 and nch > 1, {"chunk": ch, "chunks": nch, "rows": rows, "world": ctx["world"]})
        if nch > 1:
            ck.ev("multi_chunk_runs")
            ck.ev("chunks_without_rows", sum(b[2] == 0 for b in mon.blocks))
            ck.ev("short_last_chunk", n % ch != 0)
        objs = [x for b in mon.blocks for x in b[3]]
        ck.ensure(len(objs) == len(set(objs)), "an object was read in two chunks", lambda: {"ctx": c, "blocks": [b[:3] for b in mon.blocks]})
        ck.ensure(set(objs) == set(w.eph["ObjID"]), "objects with an ephemeris were not read", lambda: {"ctx": c, "missing": sorted(set(w.eph["ObjID"]) - set(objs))[:5], "blocks": [b[:3] for b in mon.blocks]})
        ck.ensure(sum(b[2] for b in mon.blocks) == len(w.eph), "ephemeris rows read are not those of the file", lambda: {"ctx": c, "blocks": [b[:3] for b in mon.blocks]})
        if ref is None:
            ref = r
            if mode == "off":
                ck.ev("all_cuts_off_worlds")
                filt = dict(zip(w.pointing.observationId, w.pointing["filter"]))
                e = w.eph[np.array([filt[f] in use for f in w.eph.FieldID], dtype=bool)]
                got = [] if r.out is None else list(zip(r.out.ObjID.astype(str), r.out.FieldID))
                want = list(zip(e.ObjID, e.FieldID))
                ck.ensure(sorted(got) == sorted(want), "with every cut off the run does not report exactly the ephemeris rows in the observing filters",
                          lambda: {"ctx": c, "lost": sorted(set(want) - set(got))[:5], "invented": sorted(set(got) - set(want))[:5], "n": [len(want), len(got)]})
        else:
            same_rows(ck, "output", ref.out, r.out, KEYS, c)
            if stats:
                same_rows(ck, "statistics", ref.stats, r.stats, ["ObjID", "optFilter"], c)
        shutil.rmtree(r.dir, ignore_errors=True)
    # the in-memory form gives the same rows
    if rng.random() < 0.5:
        ch = int(rng.choice([1, 2, n, n + 5]))
        o = {k: dict(v) for k, v in over.items()}
        o["INPUT"] = {"size_serial_chunk": str(ch)}
        r = ck.must(P.run, w, os.path.join(d, "mem"), stats=stats, return_only=True, _w=dict(ctx, return_only=ch), **o)
        got = r.obs
        ck.ensure(not r.files, "a run which returns its observations wrote files", {"ctx": ctx, "files": r.files})
        if stats:
            ck.ev("returned_statistics")
            st = r.stats.reset_index() if len(r.stats) else None
            if st is not None:
                st["optFilter"] = st["optFilter"].astype(str)
            same_rows(ck, "returned statistics", ref.stats, st, ["ObjID", "optFilter"], dict(ctx, return_only=ch))
        ck.ev("runs")
        if ref.out is not None and len(got):
            k = [x for x in ref.out.columns if x in got.columns]
            same_rows(ck, "returned observations", canon(ref.out)[k], got[k], KEYS, dict(ctx, return_only=ch))
        else:
            ck.ensure((0 if ref.out is None else len(ref.out)) == len(got), "returned observations differ from the file", {"ctx": ctx, "n": len(got)})


def generated(ck):
    """Chunking of runs that generate the ephemeris, and the writing of it."""
    for i in range(ck.n(3, 9)):
        rng = ck.rng("g", i)
        w, over, ar = ar_world(rng, n=int(rng.choice([5, 7])), brute=i % 2 == 0, hrange=(14.0, 22.0) if i % 2 == 0 else (14.0, 34.0), survey="DES" if i % 3 == 2 else "rubin_sim")
        d = W.tmpdir()
        try:
            P.write(w, os.path.join(d, "in"), "csv", "csv", rng=rng)
            ref = refe = None
            for ch in (100, 1, 3):
                c = {"generated": i, "chunk": ch, "objects": len(w.ids)}
                o = {k: dict(v) for k, v in over.items()}
                o["INPUT"]["size_serial_chunk"] = str(ch)
                with Reads() as mon:
                    r = ck.must(P.run, w, os.path.join(d, f"o{ch}"), eph_out="eph", ar=ar, _w=c, **o)
                ck.ev("runs")
                ck.ev("generated_ephemeris_runs")
                ck.ev("des_generated_rows", 0 if w.survey != "DES" or r.out is None else len(r.out))
                if len(mon.blocks) > 1:
                    ck.ev("multi_chunk_runs")
                rows = 0 if r.out is None else len(r.out)
                ck.case([c, rows], rows > 0, c)
                objs = [x for b in mon.blocks for x in b[3]]
                ck.ensure(sorted(objs) == sorted(w.ids), "the chunks do not contain every object once", {"ctx": c, "blocks": [b[:3] for b in mon.blocks]})
                ep = os.path.join(r.dir, "eph.csv")
                e = pd.read_csv(ep, dtype={"ObjID": str}, keep_default_na=False, na_values=[""]) if os.path.exists(ep) else None
                if ref is None:
                    ref, refe = r, e
                else:
                    same_rows(ck, "output (generated)", ref.out, r.out, KEYS, c)
                    same_rows(ck, "written ephemeris", refe, e, ["ObjID", "FieldID"], c)
        except SkipCase:
            pass
        finally:
            shutil.rmtree(d, ignore_errors=True)


def ar_world(rng, n=6, brute=True, hrange=(14.0, 22.0), survey="rubin_sim"):
    """Objects with real orbits, and visits pointed at where they are."""
    des = survey == "DES"
    d = c21.data_dir()
    epoch = float(rng.uniform(500, 12000))
    fmt = str(rng.choice(["COM", "KEP", "CART", "BCOM"]))
    w = P.make(rng, survey, n=n, groups=2, nights=2, pad_vis=2, hrange=hrange)
    rows, X, V = c22.orbits(rng, fmt, n, epoch)
    orb = pd.DataFrame(rows)
    orb["ObjID"] = w.ids
    w.orbits = orb[["ObjID", "FORMAT"] + [c for c in orb.columns if c not in ("ObjID", "FORMAT")]]
    t0 = epoch + rng.uniform(-30, 30)
    truth = c22.Truth(X, V, epoch, t0, t0 + 8)
    code = "W84" if des else "X05"
    vis = []
    for j in range(n):
        for night in rng.choice(6, 2, replace=False):
            for h in (0.1, 0.12):
                t = t0 + night + h + rng.uniform(0, 0.2)
                r, _, _, _ = truth.apparent(j, K.observer(K.SITES[code], t), t)
                ra, dec = W.radec(r)
                ra, dec = W.offset(ra, dec, rng.uniform(0, 1.5), rng.uniform(0, 360))
                vis.append((t + K.J2000 - 2400000.5 - 32.184 / 86400, float(ra), float(dec)))
    vis.sort()
    m = len(vis)
    p = w.pointing.iloc[np.zeros(m, int)].reset_index(drop=True).copy()
    p["observationStartMJD"] = [v[0] for v in vis]
    p["fieldRA"], p["fieldDec"] = [v[1] for v in vis], [v[2] for v in vis]
    p["observationId"] = rng.permutation(3 * m)[:m]
    p["filter"] = rng.choice(np.array(w.filters, object), m)
    p["visitTime"], p["visitExposureTime"] = 34.0, 30.0
    if des:
        p["observationMidpointMJD"] = p["observationStartMJD"] + 15 / 86400
    p["rotSkyPos"] = rng.uniform(0, 360, m)
    w.pointing = p
    w.eph = None
    over = {"INPUT": {"ephemerides_type": "ar"}, "SIMULATION": {"ar_ang_fov": "2.06", "ar_fov_buffer": "0.2", "ar_picket": "1", "ar_obs_code": code, "ar_healpix_order": "6"},
            "EXPERT": {"randomization_on": "False", "default_snr_cut": "False", "brute_force": str(brute)}, "OUTPUT": {"output_columns": "all"}}
    if des:
        w.visits = P.ccds(rng, w, grid=4, half=0.4) if rng.random() < 0.7 else None
        if w.visits is not None:
            over["FOV"] = {"camera_model": "visits_footprint", "visits_query": P.VISITS_QUERY}
    return w, over, d


def parts():
    return [("worlds", worlds), ("generated", generated)]
