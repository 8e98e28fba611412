"""C22: the built-in ephemeris generator on synthetic kernels against an independent integration."""
import copy
import logging
import os
from types import SimpleNamespace as NS

import numpy as np
import pandas as pd
import healpy as hp
from scipy.integrate import solve_ivp

from vlib.common import Check, SkipCase
from vlib import world as W
from vlib import kernels as K
from checks.c17 import rot
from checks.c18 import time_from_perihelion
from checks import c21

C = 299792.458 * 86400 / K.AU
GMS = K.GM_AU["GMS"]
BODIES = [10, 1, 2, 399, 301, 4, 5, 6, 7, 8, 9] + [2000000 + n for n in K.AST]
GMOON = K.GMB / (1 + K.EMRAT)
GM = np.array([GMS, K.GM_AU["GM1"], K.GM_AU["GM2"], K.GMB - GMOON, GMOON] + [K.GM_AU[f"GM{i}"] for i in range(4, 10)] + [K.AST_GM[n] for n in K.AST])
GMT = float(GM.sum())


def make():
    ck = Check(
        "C22",
        "Each case is one (object, visit) pair of a real run of the generator (precompute_pointing_information + create_ephemeris) on "
        "synthetic kernels; an independent integrator (scipy DOP853, same perturbers, 1PN Sun) says which pairs must have a row "
        "and what every column must be. Non-trivial = a row was expected or produced.",
        ["objects that come within 0.05 au of a massive body are not judged (figure terms of the Earth are not modelled by the oracle)",
         "separations within the interpolation error of the edge of field + buffer are not judged for presence",
         "objects faster than half a HEALPix pixel per sub-interval are not judged for presence (documented limitation)",
         "TDB times are taken from the row (judged in C21)"],
    )
    ck.need("scenarios_with_two_epochs", 3)
    ck.need("rows_judged", 400)
    ck.need("rows_expected", 400)
    ck.need("rows_in_the_buffer", 40)
    ck.need("absent_pairs", 3000)
    ck.need("runs", 8)
    ck.need("empty_runs", 1)
    ck.need("chunked_or_reordered_runs", 4)
    ck.need("numeric_looking_ids", 30)
    for f in ("KEP", "BKEP", "COM", "BCOM", "CART", "BCART"):
        ck.need("rows_" + f, 20)
    return ck


class Sky:
    """All perturbers over a window, one piecewise Chebyshev table."""

    def __init__(self, a, b):
        self.step, self.deg = 4.0, 12
        self.a = np.floor((a - 8) / 4) * 4
        n = int(np.ceil((b + 8 - self.a) / 4))
        k = np.arange(self.deg + 1)
        x = np.cos(np.pi * (k + 0.5) / (self.deg + 1))
        mid = self.a + (np.arange(n) + 0.5) * 4
        t = (mid[:, None] + 2 * x[None]).ravel()
        v = np.stack([K.body(m, t) for m in BODIES], 1).reshape(n, self.deg + 1, len(BODIES), 3)
        T = np.cos(np.outer(k, np.arccos(x)))
        c = np.einsum("kj,njbd->nkbd", T, v) * 2 / (self.deg + 1)
        c[:, 0] *= 0.5
        self.c = c.reshape(n, self.deg + 1, -1)
        self.k = k

    def pos(self, t):
        i = int((t - self.a) // 4)
        x = (t - self.a - 4 * i) / 2 - 1
        return (np.cos(self.k * np.arccos(np.clip(x, -1, 1))) @ self.c[i]).reshape(-1, 3)


def rhs(sky, n):
    def f(t, y):
        y = y.reshape(2, n, 3)
        r, v = y
        b = sky.pos(t)
        d = b[None] - r[:, None]
        d2 = (d * d).sum(-1)
        a = (GM[None, :, None] * d / (d2 * np.sqrt(d2))[..., None]).sum(1)
        h = 0.05
        vs = (sky.pos(t + h)[0] - sky.pos(t - h)[0]) / (2 * h)
        rs, vv = r - b[0], v - vs
        rn = np.linalg.norm(rs, axis=1, keepdims=True)
        a = a + GMS / (C * C * rn ** 3) * ((4 * GMS / rn - (vv * vv).sum(1, keepdims=True)) * rs + 4 * (rs * vv).sum(1, keepdims=True) * vv)
        return np.concatenate([v.ravel(), a.ravel()])

    return f


class Truth:
    def __init__(self, X, V, epoch, t0, t1):
        self.n = len(X)
        sky = Sky(min(t0, epoch) - 12, max(t1, epoch) + 12)
        f = rhs(sky, self.n)
        y0 = np.concatenate([X.ravel(), V.ravel()])
        self.parts = []
        lo, hi = min(t0 - 10, epoch), max(t1 + 10, epoch)
        for end in (lo, hi):
            if end == epoch:
                continue
            s = solve_ivp(f, (epoch, end), y0, method="DOP853", rtol=1e-11, atol=1e-14, dense_output=True)
            self.parts.append((min(end, epoch), max(end, epoch), s.sol))

    def state(self, j, t):
        for a, b, s in self.parts:
            if a <= t <= b:
                y = s(t).reshape(2, self.n, 3)
                return y[0, j], y[1, j]
        raise ValueError(t)

    def all(self, t):
        for a, b, s in self.parts:
            if a <= t <= b:
                return s(t).reshape(2, self.n, 3)
        raise ValueError(t)

    def apparent_all(self, o, t):
        """Light-time corrected vectors of all objects from o at t (shared light time per object, iterated)."""
        lt = np.zeros(self.n)
        x, v = self.all(t)
        x0, v0 = x, v
        for _ in range(2):
            # retarded place by Taylor expansion, then exactly per object when needed
            lt = np.linalg.norm(x0 - v0 * lt[:, None] - o, axis=1) / C
        return x0 - v0 * lt[:, None] - o, lt

    def apparent(self, j, o, t):
        lt = 0.0
        for _ in range(6):
            x, v = self.state(j, t - lt)
            r = x - o
            lt = np.linalg.norm(r) / C
        return r, lt, x, v


class Several:
    """Objects given at different epochs: one Truth per epoch, which[j] = (Truth, index in it)."""

    def __init__(self, which):
        self.which, self.n = which, len(which)
        self.groups = list({id(t): t for t, _ in which}.values())

    def all(self, t):
        g = {id(x): x.all(t) for x in self.groups}
        return np.stack([g[id(x)][:, k] for x, k in self.which], axis=1)

    def apparent_all(self, o, t):
        g = {id(x): x.apparent_all(o, t) for x in self.groups}
        return np.array([g[id(x)][0][k] for x, k in self.which]), np.array([g[id(x)][1][k] for x, k in self.which])

    def apparent(self, j, o, t):
        x, k = self.which[j]
        return x.apparent(k, o, t)


def orbits(rng, fmt, n, epoch):
    """n orbits in one format with their true barycentric equatorial states (epoch: days since J2000)."""
    rows, X, V = [], [], []
    mu = GMT if fmt.startswith("B") else GMS
    sx, sv = (np.zeros(3), np.zeros(3)) if fmt.startswith("B") else (K.body(10, epoch), K.vel(10, epoch))
    for i in range(n):
        k = rng.integers(8)
        if k < 4:
            q, e = rng.uniform(1.3, 3.0), rng.uniform(0, 0.3)
        elif k == 4:
            q, e = rng.uniform(0.5, 1.2), rng.uniform(0.1, 0.6)
        elif k == 5:
            q, e = rng.uniform(15, 40), rng.uniform(0, 0.2)
        elif k == 6:
            q, e = rng.uniform(1, 8), rng.uniform(0.7, 0.97)
        else:
            q, e = rng.uniform(1, 6), (rng.uniform(1.0, 1.5) if fmt[-3:] != "KEP" else 0.5)
        inc = float(rng.choice([rng.uniform(0, 0.4), rng.uniform(0, np.pi)]))
        node, w = rng.uniform(0, 2 * np.pi, 2)
        numax = np.pi if e < 0.9 else 2.2
        nu = rng.uniform(-numax, numax)
        P, Q = rot(inc, node, w)
        p = q * (1 + e)
        r = p / (1 + e * np.cos(nu))
        x = r * (np.cos(nu) * P + np.sin(nu) * Q)
        v = np.sqrt(mu / p) * (-np.sin(nu) * P + (e + np.cos(nu)) * Q)
        dt = time_from_perihelion(q, e, nu, mu)
        row = {"FORMAT": fmt}
        deg = np.degrees
        if fmt in ("KEP", "BKEP"):
            a = q / (1 - e)
            row.update(a=a, e=e, inc=deg(inc), node=deg(node), argPeri=deg(w), ma=deg(dt * np.sqrt(mu / a ** 3)) % 360)
        elif fmt in ("COM", "BCOM"):
            row.update(q=q, e=e, inc=deg(inc), node=deg(node), argPeri=deg(w), t_p_MJD_TDB=epoch + K.J2000 - 2400000.5 - dt)
        else:
            row.update(x=x[0], y=x[1], z=x[2], xdot=v[0], ydot=v[1], zdot=v[2])
        row["epochMJD_TDB"] = epoch + K.J2000 - 2400000.5
        rows.append(row)
        X.append(K.ROT @ x + sx)
        V.append(K.ROT @ v + sv)
    return rows, np.array(X), np.array(V)


def names(rng, n, kind):
    if kind == "num":
        return [f"{z:06d}" for z in rng.permutation(900)[:n] + 1]
    if kind == "exp":
        return [f"{a}e{b}" for a, b in zip(rng.permutation(90)[:n] + 1, rng.integers(1, 9, n))]
    if kind == "int":
        return [str(z) for z in rng.permutation(10 ** 6)[:n]]
    return [f"S{z:05x}a" for z in rng.permutation(10 ** 5)[:n]]


def generate(ck, orb, pts, args, cfg, ctx):
    from sorcha.ephemeris.simulation_driver import create_ephemeris

    return ck.must(create_ephemeris, orb, pts, args, cfg, _w=ctx)


def scenario(ck, si):
    from sorcha.ephemeris.simulation_setup import precompute_pointing_information

    rng = ck.rng("s", si)
    d = c21.data_dir()
    fmt = ["KEP", "COM", "CART", "BKEP", "BCOM", "BCART"][si % 6]
    epoch = float(rng.uniform(500, 12000))
    span = float(rng.choice([3.0, 25.0, 120.0]))
    t0 = epoch + float(rng.choice([0.0, rng.uniform(-300, 300), -span / 2, rng.uniform(-20, 20)]))
    t0 = min(max(t0, 60.0), 12000)
    n = int(rng.choice([6, 12, 20]))
    kind = ["str", "num", "exp", "int"][int(rng.integers(4))]
    ids = names(rng, n, kind)
    m = int(rng.integers(1, n)) if si % 3 == 1 else 0  # objects given at another epoch
    rows, X, V = orbits(rng, fmt, n - m, epoch)
    truth = Truth(X, V, epoch, t0, t0 + span)
    if m:
        epoch2 = epoch + float(rng.uniform(-40, 40))
        rows2, X, V = orbits(rng, fmt, m, epoch2)
        other = Truth(X, V, epoch2, t0, t0 + span)
        mix = rng.permutation(n)
        which = [(truth, j) for j in range(n - m)] + [(other, j) for j in range(m)]
        rows, truth = [(rows + rows2)[j] for j in mix], Several([which[j] for j in mix])
        ck.ev("scenarios_with_two_epochs")
    code = str(rng.choice(["X05", "W84", "500", "000", "F65"]))
    loc = K.SITES[code]
    fov = float(rng.choice([0.3, 1.2, 2.06, 4.0]))
    buf = float(rng.choice([0.1, 0.2, 0.8]))
    picket = int(rng.choice([1, 1, 2]))
    order = int(rng.choice([4, 5, 6, 6, 7, 8]))
    if span > 100:
        picket = 1
    cfg = W.configs("rubin_sim", INPUT={"ephemerides_type": "ar"},
                    SIMULATION={"ar_ang_fov": str(fov), "ar_fov_buffer": str(buf), "ar_picket": str(picket), "ar_obs_code": code, "ar_healpix_order": str(order)})
    R = fov + buf
    # visits: aimed at objects with offsets up to a bit outside, or anywhere
    nv = 50
    tv = np.sort(t0 + (rng.uniform(0, span, nv) if span < 50 else np.concatenate([rng.uniform(0, 3, nv // 2), rng.uniform(span - 3, span, nv - nv // 2)])))
    empty = si % 9 == 4
    vr, vd = [], []
    for t in tv:
        j = int(rng.integers(n))
        o = K.observer(loc, t)
        u, _, _, _ = truth.apparent(j, o, t)
        u = u / np.linalg.norm(u)
        ra, dec = (float(z) for z in W.radec(u))
        if empty:
            ra, dec = (ra + 180) % 360, -dec
        sep = float(rng.choice([0.0, R * np.sqrt(rng.uniform(0, 1.3)), rng.uniform(fov, R), rng.uniform(0, 1.5) * R], p=[0.05, 0.5, 0.25, 0.2]))
        a, b = W.offset(ra, dec, sep, float(rng.uniform(0, 360)))
        vr.append(float(a) % 360)
        vd.append(float(b))
    mjd = tv + K.J2000 - 2400000.5 - 32.184 / 86400
    if si % 4 == 3:
        perm = rng.permutation(nv)
        mjd, vr, vd = mjd[perm], np.array(vr)[perm], np.array(vd)[perm]
    pts = pd.DataFrame({"FieldID": np.arange(nv) + 100, "observationMidpointMJD_TAI": mjd, "fieldRA_deg": vr, "fieldDec_deg": vd, "optFilter": "r"})
    outdir = W.tmpdir()
    args = NS(ar_data_file_path=d, loglevel=False, pplogger=logging.getLogger("c22"), outpath=outdir, output_ephemeris_file=None)
    ctx = {"scenario": si, "format": fmt, "ids": kind, "fov": fov, "buffer": buf, "picket": picket, "order": order, "code": code, "span": span, "epoch_offset": t0 - epoch, "objects": n}
    pts = ck.must(precompute_pointing_information, pts, args, cfg, _w=ctx)
    orb = pd.DataFrame(rows)
    orb.insert(0, "ObjID", ids)
    orb["H_r"] = rng.uniform(10, 20, n)
    orb["tag"] = np.arange(n) * 1.25
    orb0 = orb.copy(deep=True)
    out = generate(ck, orb.copy(), pts, args, cfg, ctx)
    ck.ev("runs")
    ck.ev("numeric_looking_ids", n if kind != "str" else 0)
    if not judge(ck, out, orb0, ids, pts, truth, loc, fov, buf, picket, order, cfg, ctx, fmt, empty):
        return
    # another chunking / order gives the same rows
    key = lambda df: df.assign(ObjID=df["ObjID"].astype(str)).sort_values(["ObjID", "FieldID"], kind="stable").reset_index(drop=True)
    perm = rng.permutation(n)
    cut = int(rng.integers(1, n))
    pieces = []
    for sub in (perm[:cut], perm[cut:]):
        pieces.append(generate(ck, numbered(orb0.iloc[np.sort(sub) if si % 2 else sub], si), pts, args, cfg, ctx))
    ck.ev("chunked_or_reordered_runs")
    a, b = key(out), key(pd.concat([p for p in pieces if len(p)]) if any(len(p) for p in pieces) else pieces[0])
    w = lambda: {**ctx, "one": len(a), "split": len(b)}
    if ck.ensure(len(a) == len(b) and list(a["ObjID"]) == list(b["ObjID"]) and list(a["FieldID"]) == list(b["FieldID"]), "splitting or reordering the population changes which rows are generated", w):
        num = [c for c in a if c not in ("ObjID", "FORMAT")]
        A, B = a[num].to_numpy(float), b[num].to_numpy(float)
        ck.ensure(np.allclose(A, B, rtol=1e-9, atol=1e-9), "splitting or reordering the population changes generated values", w)


def numbered(orb, si):
    """The index of a chunk: from zero, or with gaps where objects were culled before."""
    return orb.reset_index(drop=True) if si % 3 == 0 else orb


def judge(ck, out, orb0, ids, pts, truth, loc, fov, buf, picket, order, cfg, ctx, fmt, empty):
    R = fov + buf
    resol = hp.nside2resol(2 ** order)
    step = 2.0 * picket / (cfg.simulation.ar_n_sub_intervals - 1)
    ok = True
    got = {}
    for k in range(len(out)):
        row = out.iloc[k]
        key = (str(row["ObjID"]), int(row["FieldID"]))
        ok &= ck.ensure(key not in got, "a row is generated twice", {**ctx, "pair": key})
        got[key] = row
    known = set(ids)
    ok &= ck.ensure(all(o in known for o, _ in got), "a generated row carries an identifier that is not in the input", {**ctx, "got": sorted({o for o, _ in got} - known)[:5], "want": sorted(known)[:5]})
    if not ok:
        return False
    if empty:
        ck.ev("empty_runs", len(out) == 0)
        ck.ensure({"ObjID", "FieldID", "RA_deg", "tag"} <= set(out.columns), "a run without detections loses its columns", ctx)
    info = {i: orb0.iloc[k] for k, i in enumerate(ids)}
    for _, p in pts.iterrows():
        t = p["fieldJD_TDB"] - K.J2000
        o = K.observer(loc, t)
        c = W.unit(p["fieldRA_deg"], p["fieldDec_deg"])
        rough, _ = truth.apparent_all(o, t)
        ur = rough / np.linalg.norm(rough, axis=1, keepdims=True)
        sep_r = np.degrees(np.arccos(np.clip(ur @ c, -1, 1)))
        xb = truth.all(t)[0]
        near = np.linalg.norm(xb[:, None] - np.stack([K.body(m, t) for m in BODIES])[None], axis=2).min(1) < 0.05
        for j, oid in enumerate(ids):
            key = (oid, int(p["FieldID"]))
            row = got.get(key)
            if row is None and sep_r[j] > R + 5:
                ck.case([ctx["scenario"], key], False)
                ck.ev("absent_pairs")
                continue
            if near[j]:
                ck.ev("close_approaches_not_judged")
                continue
            r, lt, x, v = truth.apparent(j, o, t)
            dist = np.linalg.norm(r)
            u = r / dist
            sep = float(np.degrees(2 * np.arcsin(np.clip(np.linalg.norm(u - c) / 2, 0, 1))))
            w = lambda: {**ctx, "pair": key, "separation": sep, "row": None if row is None else row.to_dict(), "orbit": info[oid].to_dict(), "t": t}
            if row is None:
                if sep > R - 1e-5:
                    ck.ev("absent_pairs")
                    ck.case([ctx["scenario"], key], False)
                    continue
                # how well can the quadratic interpolation know the place?
                us = []
                for s in (-1.5, -0.5, 0.5, 1.5):
                    oo = K.observer(loc, t + s * picket)
                    z = truth.apparent(j, oo, t + s * picket)[0]
                    us.append(z / np.linalg.norm(z))
                us = np.array(us)
                tol = np.degrees(0.0642 * 2.5 * np.linalg.norm(us[3] - 3 * us[2] + 3 * us[1] - us[0]) + 2.2 * K.RE / K.AU / dist) + 1e-4
                speed = np.linalg.norm(us[2] - us[1]) / picket
                if sep > R - tol or speed * step > 0.4 * resol:
                    ck.ev("edge_or_fast_not_judged")
                    continue
                ck.ev("rows_expected")
                ck.violation("an object inside the field has no ephemeris row", w())
                return False
            if not ck.ensure(sep < R + 1e-4, "an ephemeris row lies outside field plus buffer", w):
                return False
            ck.ev("rows_expected")
            ck.ev("rows_judged")
            ck.ev("rows_" + fmt)
            ck.ev("rows_in_the_buffer", sep > fov)
            ck.case([ctx["scenario"], key], True, {**ctx, "pair": key, "separation": sep})
            if not row_ok(ck, row, p, t, o, r, lt, x, v, truth, j, loc, info[oid], w):
                return False
    return True


def row_ok(ck, row, p, t, o, r, lt, x, v, truth, j, loc, orb, w):
    dist = np.linalg.norm(r)
    u = r / dist
    ok = ck.ensure(abs(row["fieldMJD_TAI"] - p["observationMidpointMJD_TAI"]) < 1e-9 and abs(row["fieldJD_TDB"] - p["fieldJD_TDB"]) < 1e-8, "a row carries the wrong time", w)
    err = np.degrees(np.linalg.norm(W.unit(row["RA_deg"], row["Dec_deg"]) - u)) * 3600
    ck.events["max_position_error_uas"] = max(ck.events.get("max_position_error_uas", 0), int(err * 1e6))
    ok &= ck.ensure(err < 0.002, f"RA/Dec differ from an independent integration by {err:.3g} arcsec", w)
    ok &= ck.ensure(abs(row["Range_LTC_km"] / K.AU - dist) < 5e-8 * max(dist, 1), "range differs from an independent integration", w)
    ov = K.observer_vel(loc, t)
    sp, sv = K.body(10, t), K.vel(10, t)
    got = lambda a, b: np.array([row[f"{a}_{c}_{b}"] for c in "xyz"], float)
    vtot = np.linalg.norm(v) + np.linalg.norm(ov)
    ok &= ck.ensure(np.linalg.norm(got("Obj_Sun", "LTC_km") / K.AU - (x - sp)) < 1e-7 * max(dist, 1), "object-Sun vector is wrong", w)
    ok &= ck.ensure(np.linalg.norm(np.array([row[f"Obj_Sun_v{c}_LTC_km_s"] for c in "xyz"]) * 86400 / K.AU - (v - sv)) < 1e-8, "object-Sun velocity is wrong", w)
    ok &= ck.ensure(np.linalg.norm(got("Obs_Sun", "km") / K.AU - (o - sp)) < 1e-9, "observatory-Sun vector is wrong", w)
    ok &= ck.ensure(np.linalg.norm(np.array([row[f"Obs_Sun_v{c}_km_s"] for c in "xyz"]) * 86400 / K.AU - (ov - sv)) < 1e-9, "observatory-Sun velocity is wrong", w)
    vrad = (v - ov) @ u
    ok &= ck.ensure(abs(row["RangeRate_LTC_km_s"] * 86400 / K.AU - vrad) < 1e-7 + 1.1 * vtot * vtot / C, "range rate is wrong", w)
    # rates: straight-line motion of observer and retarded object around t
    h = 2e-3

    def dirn(s):
        oo = o + ov * s
        l2 = lt
        for _ in range(4):
            z = x + v * (s - (l2 - lt)) - oo
            l2 = np.linalg.norm(z) / C
        return z / np.linalg.norm(z)

    du = (dirn(h) - dirn(-h)) / (2 * h)
    a = np.arctan2(u[1], u[0])
    A = np.array([-np.sin(a), np.cos(a), 0])
    D = np.cross(u, A)
    tol = 1e-6 * vtot / dist * 57.3 + 1e-7
    ok &= ck.ensure(abs(row["RARateCosDec_deg_day"] - np.degrees(du @ A)) < tol and abs(row["DecRate_deg_day"] - np.degrees(du @ D)) < tol, "rates are wrong", w)
    s = x - sp
    ph = np.degrees(np.arctan2(np.linalg.norm(np.cross(s, r)), s @ r))
    ok &= ck.ensure(abs(row["phase_deg"] - ph) < 1e-5, "phase angle is wrong", w)
    ok &= ck.ensure(all((row[c] == orb[c]) or (row[c] != row[c] and orb[c] != orb[c]) for c in orb.index if c not in ("ObjID",)), "orbit columns joined to a row are not those of the object", w)
    return ok


def run(ck):
    n = ck.n(24, 150)
    for si in range(n):
        try:
            scenario(ck, si)
        except SkipCase:
            pass
        if ck.elapsed() > (500 if ck.quick else 3000):
            break


def parts():
    return [("run", run)]
