"""C11: camera footprint -> which detector, if any, a source falls on."""
import os

import numpy as np
import pandas as pd

from vlib.common import Check, VERIF
from vlib import world as W


def make():
    ck = Check(
        "C11",
        "Each case is a camera (built-in LSST, built-in DES, or random convex detectors with shuffled corners), random "
        "pointings (poles, RA wrap) and rotations, an edge distance, and sources placed in detectors, near their edges, in "
        "gaps and far away; every row's verdict and detector are compared with an exact point-in-polygon oracle. "
        "Non-trivial = rows on and off detectors.",
        ["sources within about 2e-8 rad of a decision boundary (the code's area tolerance), or over 60 deg from the pointing, are not judged",
         "built-in corner tables are trusted as data (LSST in radians, DES in degrees)", "detectors are convex"],
    )
    ck.need("rows_on_detector", 3000)
    ck.need("rows_off_detector", 1000)
    ck.need("rows_rejected_by_edge_only", 100)
    ck.need("camera_LSST", 10)
    ck.need("camera_DES", 5)
    ck.need("camera_custom", 10)
    ck.need("rows_near_edge", 500)
    return ck


def project(lon, lat):
    """Corner angles (radians) to the tangent plane about the camera centre."""
    return np.tan(lon), np.tan(lat) / np.cos(lon)


def poly(xy):
    """Counter-clockwise convex polygon from unordered corners."""
    c = xy.mean(0)
    return xy[np.argsort(np.arctan2(xy[:, 1] - c[1], xy[:, 0] - c[0]))]


def inside_dist(P, q):
    """Signed test: inside mask, and distance of each q to the polygon's boundary."""
    A, B = P, np.roll(P, -1, 0)
    ins = np.ones(len(q), bool)
    dmin = np.full(len(q), np.inf)
    for a, b in zip(A, B):
        e = b - a
        w = q - a
        ins &= e[0] * w[:, 1] - e[1] * w[:, 0] >= 0
        t = np.clip((w @ e) / (e @ e), 0, 1)
        dmin = np.minimum(dmin, np.linalg.norm(w - t[:, None] * e, axis=1))
    return ins, dmin


def unproject(x, y, ra0, de0):
    a, d = np.radians(ra0), np.radians(de0)
    n = W.unit(ra0, de0)
    e = np.stack([-np.sin(a), np.cos(a), 0 * a], -1)
    no = np.stack([-np.sin(d) * np.cos(a), -np.sin(d) * np.sin(a), np.cos(d)], -1)
    return W.radec(n + x[:, None] * e + y[:, None] * no)


def cameras(ck, rng):
    data = os.path.join(VERIF, "data")
    out = {}
    for nm, f, k in (("LSST", "LSST_detector_corners_100123.csv", 1.0), ("DES", "DES_ccd_corners.csv", np.pi / 180)):
        t = pd.read_csv(os.path.join(data, f))
        out[nm] = [poly(np.stack(project(g.x.to_numpy() * k, g.y.to_numpy() * k), -1)) for _, g in t.groupby("detector", sort=False)]
    return out


def custom(rng):
    """A grid of random convex detectors; returns (csv path, polygons)."""
    nx, ny = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    pitch = 10 ** rng.uniform(-2, -1)
    rows, polys = [], []
    names = rng.permutation(nx * ny * 3)[: nx * ny]
    off = rng.uniform(-1, 1, 2) * pitch
    for j, (a, b) in enumerate((a, b) for a in range(nx) for b in range(ny)):
        m = int(rng.integers(3, 7))
        th = np.sort(rng.uniform(0, 2 * np.pi, m))
        if np.max(np.diff(np.append(th, th[0] + 2 * np.pi))) > 2.6:
            th = np.arange(m) * 2 * np.pi / m + rng.uniform(0, 6)
        if np.min(np.diff(np.append(th, th[0] + 2 * np.pi))) < 0.5:
            th = np.arange(m) * 2 * np.pi / m + rng.uniform(0, 6)
        r = 0.48 * pitch
        lon = (a - nx / 2 + 0.5) * pitch + off[0] + r * np.cos(th)
        lat = (b - ny / 2 + 0.5) * pitch + off[1] + r * np.sin(th)
        polys.append(poly(np.stack(project(lon, lat), -1)))
        for k in rng.permutation(m):
            rows.append((f"D{names[j]}" if j % 2 else f"{names[j]}", lon[k], lat[k]))
    p = W.tmp(".csv")
    if rng.integers(2):  # corners of different detectors interleaved, but detectors still first appear in order
        first = {}
        for r_ in rows:
            first.setdefault(r_[0], []).append(r_)
        heads = [v[0] for v in first.values()]
        rest = [x for v in first.values() for x in v[1:]]
        rng.shuffle(rest)
        rows = heads + [tuple(x) for x in rest]
    pd.DataFrame(rows, columns=["detector", "x", "y"]).assign(x=lambda d: d.x.astype(float), y=lambda d: d.y.astype(float)).to_csv(
        p, index=False, float_format="%.17g")
    return p, polys


def run(ck):
    from sorcha.modules.PPApplyFOVFilter import PPApplyFOVFilter
    from sorcha.modules.PPFootprintFilter import Footprint

    rng = ck.rng("fp")
    built = cameras(ck, rng)
    fps = {"LSST": ck.must(Footprint, None, "rubin_sim"), "DES": ck.must(Footprint, None, "des")}
    ck.must(Footprint, None, "LSST")
    for i in range(ck.n(160, 3000)):
        cam = ["LSST", "LSST", "custom", "custom", "DES"][i % 5]
        if cam == "custom":
            path, polys = custom(rng)
            fp = ck.must(Footprint, path, str(rng.choice(["rubin_sim", "des"])))
        else:
            path, polys, fp = None, built[cam], fps[cam]
        ck.ev("camera_" + cam)
        thr = [None, 2.0, 0.0, float(10 ** rng.uniform(-1, 2.3))][int(rng.integers(4))]
        ov = {"camera_model": "footprint", "footprint_path": path, "footprint_edge_threshold": thr}
        cfg = ck.must(W.configs, FOV=ov)
        n = int(rng.integers(1, 250))
        allP = np.concatenate(polys)
        ext = np.abs(allP).max()
        # focal plane positions: interior points, edge points, gaps, everywhere
        kind = rng.integers(0, 4, n)
        q = np.zeros((n, 2))
        for j in range(n):
            P = polys[rng.integers(len(polys))]
            if kind[j] == 0:
                w = rng.dirichlet(np.ones(len(P)))
                q[j] = w @ P
            elif kind[j] == 1:
                e = rng.integers(len(P))
                t = rng.uniform(-0.02, 1.02)
                a, b = P[e], P[(e + 1) % len(P)]
                nrm = np.array([b[1] - a[1], a[0] - b[0]]) / np.linalg.norm(b - a)
                lim = np.radians((thr or 0) / 3600)
                q[j] = a + t * (b - a) + nrm * rng.choice([-1, 1]) * (rng.choice([0, lim]) + 10 ** rng.uniform(-7.5, -4) * rng.choice([-1, 1]))
            elif kind[j] == 2:
                q[j] = rng.uniform(-1.2, 1.2, 2) * ext
            else:
                q[j] = rng.normal(0, 1, 2) * min(3 * ext, 0.5)
        nf = max(1, n // 15)
        fra, fde = W.rand_sky(rng, nf)
        if rng.integers(5) == 0:
            fde[0] = rng.choice([90.0, -90.0])
        f = rng.integers(0, nf, n)
        rot = rng.uniform(-360, 360, nf)
        hasrot = rng.integers(5) != 0
        rr = np.radians(rot[f]) if hasrot else np.zeros(n)
        xy = (q[:, 0] + 1j * q[:, 1]) * np.exp(-1j * rr)
        ra, de = unproject(xy.real, xy.imag, fra[f], fde[f])
        df = W.obs_frame(rng, n)
        df["RA_deg"], df["Dec_deg"] = ra, de
        df["fieldRA_deg"], df["fieldDec_deg"] = fra[f], fde[f]
        if hasrot:
            df["fieldRotSkyPos_deg"] = rot[f]
        df["FieldID"] = f
        want = np.full(n, -1)
        near = np.full(n, np.inf)
        edge_only = np.zeros(n, bool)
        tol = 2e-8
        amb = np.linalg.norm(q, axis=1) > 1.7
        lim = np.radians(thr / 3600) if thr is not None else None
        for d, P in enumerate(polys):
            ins, dist = inside_dist(P, q)
            near = np.minimum(near, dist)
            # the area test of the code has a tolerance of 1e-11 sr, i.e. 1e-11/edge in distance
            tol = max(2e-8, 2e-10 / np.linalg.norm(P - np.roll(P, 1, 0), axis=1).min())
            amb |= dist < tol
            if lim is not None:
                amb |= ins & (np.abs(dist - lim) < tol)
                edge_only |= ins & (dist <= lim)
                ins &= dist > lim
            want[ins] = d
        df, want, q = df[~amb].reset_index(drop=True), want[~amb], q[~amb]
        ck.ev("rows_near_edge", int((near[~amb] < 1e-4).sum()))
        ck.ev("rows_on_detector", int((want >= 0).sum()))
        ck.ev("rows_off_detector", int((want < 0).sum()))
        ck.ev("rows_rejected_by_edge_only", int(edge_only[~amb].sum()))
        if not len(df):
            continue
        ctx = {"camera": cam, "edge_threshold": thr, "rows": len(df), "fields": nf, "rotation": hasrot}
        ck.case([i, ctx], (want >= 0).any() and (want < 0).any(), ctx)
        before = df.copy(deep=True)
        out = ck.must(PPApplyFOVFilter, df.copy(), cfg, W.rngs(i), footprint=fp, _w=ctx)
        if W.kept_exactly(ck, f"{cam} camera footprint", before, out, want >= 0, ctx):
            m = dict(zip(before["vid"], want))
            bad = [(v, d, int(m[v])) for v, d in zip(out["vid"], out["detectorID"] if "detectorID" in out else [None] * len(out)) if d != m[v]]
            ck.ensure(not bad, f"{cam} camera: {len(bad)} source(s) were assigned to the wrong detector",
                      lambda: {"ctx": ctx, "vid,got,want": bad[:5], "rows": before[before.vid.isin([b[0] for b in bad[:5]])].to_dict("records")})


def detectors(ck):
    """Detectors built from corners in degrees behave like those in radians."""
    from sorcha.modules.PPFootprintFilter import Detector

    rng = ck.rng("det")
    for i in range(ck.n(60, 600)):
        th = np.sort(rng.uniform(0, 2 * np.pi, 4))
        if np.max(np.diff(np.append(th, th[0] + 2 * np.pi))) > 2.6:
            th = np.arange(4) * np.pi / 2
        c = rng.uniform(-0.03, 0.03, 2)
        r = rng.uniform(0.002, 0.02)
        lon, lat = c[0] + r * np.cos(th), c[1] + r * np.sin(th)
        P = poly(np.stack(project(lon, lat), -1))
        pts = np.concatenate([P.mean(0) + rng.normal(0, r, (40, 2))])
        thr = [None, float(10 ** rng.uniform(0, 2))][int(rng.integers(2))]
        ins, dist = inside_dist(P, pts)
        lim = 0 if thr is None else np.radians(thr / 3600)
        ok = (dist > 2e-8) & (np.abs(dist - lim) > 2e-8)
        want = np.where(ok & ins & ((dist > lim) if thr is not None else True))[0]
        ck.case(["det", i, thr], True, {"edge_threshold": thr})
        for u, k in (("radians", 1.0), ("degrees", 180 / np.pi)):
            d = ck.must(Detector, np.array((lon * k, lat * k)), 7, u, _w=u)
            got = np.asarray(ck.must(d.ison, pts.T.copy(), edge_thresh=thr))
            ck.ensure(set(got[ok[got]].tolist()) == set(want.tolist()), f"a detector built from corners in {u} selects the wrong points",
                      {"units": u, "corners": [lon, lat], "got": got, "want": want, "edge": thr})


def parts():
    return [("detectors", detectors), ("run", run)]
