"""C12: per-visit CCD footprints (DES)."""
import os
import sqlite3

import numpy as np
import pandas as pd

from vlib.common import Check, VERIF
from vlib import world as W
from checks.c11 import poly, inside_dist, unproject


def make():
    ck = Check(
        "C12",
        "Each case is a generated footprint database of several visits (a DECam-like focal plane with some CCDs missing, or "
        "a random grid of CCDs; any RA, declinations up to 80 deg, half of the visits across RA 0 with unwrapped corners as "
        "documented, rotated or not) and sources in CCDs, near their edges, in gaps, off the camera and in visits without "
        "CCDs, filtered through the configuration. Non-trivial = rows on and off CCDs.",
        ["rows are judged only where the polygon in (RA, Dec) and the one on the tangent plane agree, and more than 1e-7 deg "
         "from an edge", "CCDs do not overlap"],
    )
    ck.need("rows_on_ccd", 1500)
    ck.need("rows_off_ccd", 800)
    ck.need("rows_on_ccd_across_ra0", 200)
    ck.need("rows_on_ccd_high_dec", 200)
    ck.need("rows_of_unlisted_visit", 20)
    return ck


Q = ("SELECT llcra, llcdec, lrcra, lrcdec, urcra, urcdec, ulcra, ulcdec, ra as ra_centre, dec as dec_centre, detectorID, "
     "magLim as limMag_perChip FROM observations WHERE visitId = ?")


def focal_planes(rng):
    t = pd.read_csv(os.path.join(VERIF, "data", "DES_ccd_corners.csv"))
    decam = [np.radians(g[["x", "y"]].to_numpy()) for _, g in t.groupby("detector", sort=False)]

    def pick():
        if rng.integers(3):
            k = rng.random(len(decam)) > rng.choice([0, 0.05, 0.5])
            k[rng.integers(len(decam))] = True
            return [poly(p) for p, u in zip(decam, k) if u]
        nx, ny = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        w, h = np.radians(rng.uniform(0.1, 0.5, 2))
        g = rng.uniform(0.02, 0.1)
        return [poly(np.array([[(a - nx / 2) * w * (1 + g), (b - ny / 2) * h * (1 + g)],
                               [(a - nx / 2) * w * (1 + g) + w, (b - ny / 2) * h * (1 + g)],
                               [(a - nx / 2) * w * (1 + g) + w, (b - ny / 2) * h * (1 + g) + h],
                               [(a - nx / 2) * w * (1 + g), (b - ny / 2) * h * (1 + g) + h]])) for a in range(nx) for b in range(ny)]

    return pick


def unwrap(ra, c):
    return c + (ra - c + 180) % 360 - 180


def world(rng, pick, nvis):
    ids = rng.permutation(100000)[:nvis] + 100000
    vis, rows = {}, []
    for v in ids:
        plane = pick()
        th = rng.choice([0.0, rng.uniform(0, 2 * np.pi)])
        c, s = np.cos(th), np.sin(th)
        plane = [p @ np.array([[c, s], [-s, c]]) for p in plane]
        de0 = float(rng.choice([rng.uniform(-80, 80), rng.uniform(-70, -40), rng.uniform(-5, 5), rng.uniform(-80, -72)]))
        ra0 = float(rng.choice([rng.uniform(8, 352), rng.normal(0, 0.5) % 360, rng.normal(0, 2) % 360]))
        cc, dets = [], rng.permutation(200)[: len(plane)] + 1
        for p, d in zip(plane, dets):
            ra, de = unproject(p[:, 0], p[:, 1], np.float64(ra0), np.float64(de0))
            m = p.mean(0)
            cr, cd = unproject(m[:1], m[1:], np.float64(ra0), np.float64(de0))
            ra, cr = unwrap(ra, ra0), unwrap(cr[0], ra0)
            lim = float(np.round(rng.uniform(22, 25), 4))
            k = rng.integers(4)  # which corner is called lower left
            ra_, de_ = np.roll(ra, k), np.roll(de, k)
            rows.append((int(v), int(d), cr, cd[0], *sum(([ra_[j], de_[j]] for j in range(4)), []), lim))
            cc.append((int(d), lim, np.stack([ra, de], -1), p))
        vis[int(v)] = (ra0, de0, cc)
    o = rng.permutation(len(rows))
    db = pd.DataFrame([rows[j] for j in o],
                      columns="visitId detectorID ra dec llcra llcdec lrcra lrcdec urcra urcdec ulcra ulcdec magLim".split())
    path = W.tmp(".db")
    os.remove(path)
    cn = sqlite3.connect(path)
    db.to_sql("observations", cn, index=False)
    cn.commit()
    cn.close()
    return path, vis


def run(ck):
    from sorcha.modules.PPApplyFOVFilter import PPApplyFOVFilter

    rng = ck.rng("visits")
    pick = focal_planes(rng)
    cfg = ck.must(W.configs, "des", INPUT={"pointing_sql_query": W.DES_QUERY}, FILTERS={"observing_filters": "r,g,i,z"},
                  FOV={"camera_model": "visits_footprint", "visits_query": Q}, FADINGFUNCTION={"fading_function_on": "False"},
                  LINKINGFILTER={"des_discovery_on": "False"})
    for i in range(ck.n(140, 1500)):
        sparse = bool(rng.integers(2))  # sparse: about one source per visit
        nvis = int(rng.integers(20, 60) if sparse else rng.integers(1, 6))
        path, vis = world(rng, pick, nvis)
        n = int(rng.integers(20, 80) if sparse else rng.integers(1, 120) if i % 20 != 19 else rng.integers(2001, 3000))
        names = list(vis)
        fv = rng.choice(names, n)
        q = np.zeros((n, 2))
        kind = rng.integers(0, 4, n)
        rec = []
        for j in range(n):
            ra0, de0, cc = vis[fv[j]]
            P = cc[rng.integers(len(cc))][3]
            if kind[j] <= 1:
                q[j] = rng.dirichlet(np.ones(4)) @ P
            elif kind[j] == 2:
                e = rng.integers(4)
                a, b = P[e], P[(e + 1) % 4]
                nrm = np.array([b[1] - a[1], a[0] - b[0]]) / np.linalg.norm(b - a)
                q[j] = a + rng.uniform(0, 1) * (b - a) + nrm * rng.choice([-1, 1]) * 10 ** rng.uniform(-6, -3)
            else:
                q[j] = np.radians(rng.uniform(-1.5, 1.5, 2))
            r, d = unproject(q[j : j + 1, 0], q[j : j + 1, 1], np.float64(ra0), np.float64(de0))
            want, amb = (-1, None), False
            u = unwrap(r, ra0)
            for det, lim, S, P in cc:
                if np.abs(P.mean(0) - q[j]).max() > 0.012:
                    continue
                i1, d1 = inside_dist(poly(S), np.stack([u, d], -1))
                i2, d2 = inside_dist(P, q[j : j + 1])
                amb |= bool(i1[0] != i2[0]) or d1[0] < 1e-7
                if i1[0]:
                    want = (det, lim)
            rec.append((r[0], d[0], ra0, de0, int(fv[j]), want[0], want[1], amb))
        rec = pd.DataFrame(rec, columns=["RA_deg", "Dec_deg", "fieldRA_deg", "fieldDec_deg", "FieldID", "det", "lim", "amb"])
        df = W.obs_frame(rng, n)
        for c in ("RA_deg", "Dec_deg", "fieldRA_deg", "fieldDec_deg", "FieldID"):
            df[c] = rec[c]
        ghost = rng.random(n) < 0.05
        df.loc[ghost, "FieldID"] = 5
        rec.loc[ghost, "det"] = -1
        ok = ~rec["amb"].to_numpy()
        df, rec = df[ok].reset_index(drop=True), rec[ok].reset_index(drop=True)
        if not len(df):
            continue
        on = rec["det"].to_numpy() >= 0
        ck.ev("rows_on_ccd", on.sum())
        ck.ev("rows_off_ccd", (~on).sum())
        ck.ev("rows_of_unlisted_visit", ghost[ok].sum())
        ck.ev("rows_on_ccd_across_ra0", (on & (np.abs(df.RA_deg - df.fieldRA_deg) > 180)).sum())
        ck.ev("rows_on_ccd_high_dec", (on & (np.abs(df.fieldDec_deg) > 50)).sum())
        ctx = {"visits": {v: [vis[v][0], vis[v][1], len(vis[v][2])] for v in names[:5]}, "rows": len(df)}
        ck.case([i, ctx], on.any() and (~on).any(), ctx)
        before = df.copy(deep=True)
        out = ck.must(PPApplyFOVFilter, df.copy(), cfg, W.rngs(i), visits=path, _w=ctx)
        os.remove(path)
        if W.kept_exactly(ck, "visits footprint", before, out, on, ctx):
            m = {v: (d, l) for v, d, l in zip(before.vid, rec.det, rec.lim)}
            for r in out.to_dict("records"):
                d, l = m[r["vid"]]
                if not ck.ensure(r.get("detectorID") == d and r.get("limMag_perChip") == l,
                                 "a source was given the detector or limiting magnitude of another CCD",
                                 {"row": r, "want_detector": d, "want_limit": l, "ctx": ctx}):
                    break


def parts():
    return [("run", run)]
