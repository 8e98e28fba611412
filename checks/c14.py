"""C14: linking - offline history checker."""
import numpy as np
import pandas as pd

from vlib.common import Check
from vlib import world as W


def make():
    ck = Check(
        "C14",
        "Each case is one detection history of one object under one linking configuration, inside a table of several objects; "
        "histories are generated around the thresholds (separation, time, number of detections, nights, windows, local night "
        "boundaries). Non-trivial = the object has at least two detections.",
        ["objects with a detection pair within 1e-6 (relative) of a threshold are not judged",
         "every detection falls in the middle 80% of the local day (documented precondition of the linker)"],
    )
    ck.need("objects_linked", 300)
    ck.need("objects_unlinked", 300)
    ck.need("linked_not_at_first_possible_night_of_data", 50)
    ck.need("flips_by_one_threshold", 60)
    return ck


class Amb(Exception):
    pass


def tracklet(t, ra, dec, minobs, minsep, maxt):
    n = len(t)
    if n < minobs:
        return False
    if minobs == 1:
        return True
    o = np.argsort(t)
    t, ra, dec = t[o], ra[o], dec[o]
    sep = W.angsep(ra[:, None], dec[:, None], ra[None, :], dec[None, :]) * 3600
    for i in range(n):
        for j in range(i):
            dt = t[i] - t[j]
            if abs(dt - maxt) < 1e-6 * maxt + 1e-9 or abs(sep[i, j] - minsep) < 1e-6 * minsep + 1e-5:
                raise Amb()
            if dt < maxt and sep[i, j] > minsep and i - j + 1 >= minobs:
                return True
    return False


def spec(t, ra, dec, c):
    """(linked, completing night, tracklet nights)"""
    night = np.floor(t - c["noon"] / 24.0).astype(int)
    nights = [int(k) for k in np.unique(night)
              if tracklet(t[night == k], ra[night == k], dec[night == k], c["minobs"], c["minsep"], c["maxt"])]
    for k in nights:
        if c["ntrk"] <= 1 or sum(1 for m in nights if k - c["window"] < m <= k) >= c["ntrk"]:
            return True, k, nights
    return False, None, nights


def params(rng):
    return {
        "minobs": int(rng.choice([1, 2, 2, 2, 3, 4])), "ntrk": int(rng.choice([1, 2, 3, 3, 3, 4])),
        "window": int(rng.choice([1, 2, 5, 14, 15, 15, 30])), "minsep": float(rng.choice([0.5, 0.5, 0.1, 2.0, 10.0])),
        "maxt": float(rng.choice([0.0625, 0.0625, 0.02, 0.2])), "noon": float(rng.choice([16.0, 16.0, 17.0, 3.5, 0.0, 23.0])),
    }


def history(rng, c, hostile):
    """Detections of one object: nights around the window, detections around the tracklet thresholds."""
    nn = int(rng.integers(1, 3 + c["ntrk"] * 2))
    base = int(rng.integers(59000, 64000))
    if rng.random() < 0.5:
        ks = base + np.sort(rng.choice(np.arange(c["window"] + 2 + int(rng.integers(0, 4))), size=min(nn, c["window"] + 2), replace=False))
    else:
        ks = base + np.cumsum(rng.integers(1, max(2, c["window"] // max(1, c["ntrk"] - 1)) + 2, nn))
    t, ra, dec = [], [], []
    a0, d0 = W.rand_sky(rng, 1, hostile)
    for k in ks:
        m = int(rng.choice([1, c["minobs"], c["minobs"], c["minobs"], c["minobs"] + 1, max(1, c["minobs"] - 1)]))
        if rng.random() < 0.15:
            m += 3
        span = c["maxt"] * rng.choice([0.05, 0.9, 0.99, 1.01, 1.5, 3.0], p=[0.35, 0.3, 0.1, 0.1, 0.1, 0.05])
        ph = rng.uniform(0.11, max(0.12, 0.89 - min(span, 0.7)))
        dts = np.sort(rng.uniform(0, span, m))
        if m > 1:
            dts[0], dts[-1] = 0, span
        tt = k + c["noon"] / 24.0 + np.minimum(ph + dts, 0.888 + np.arange(m) * 1e-3)
        tt = np.sort(tt)
        mv = c["minsep"] / 3600 * rng.choice([0.0, 0.5, 0.98, 1.02, 3, 100], p=[0.1, 0.1, 0.1, 0.2, 0.25, 0.25])
        pa = rng.uniform(0, 360)
        x, y = W.offset(np.full(m, a0[0]), np.full(m, d0[0]), mv * (tt - tt[0]) / max(tt[-1] - tt[0], 1e-9), pa)
        t += list(tt)
        ra += list(x)
        dec += list(y)
        a0, d0 = W.offset(a0, d0, rng.uniform(0, 1), rng.uniform(0, 360))
    t = np.array(t)
    ok = (np.mod(t - c["noon"] / 24, 1) > 0.1005) & (np.mod(t - c["noon"] / 24, 1) < 0.8995)
    return t[ok], np.array(ra)[ok], np.array(dec)[ok]


def frame(rng, hists, names=None):
    fr = []
    names = names or [f"obj{i:03d}" for i in range(len(hists))]
    for nme, (t, ra, dec) in zip(names, hists):
        fr.append(pd.DataFrame({"ObjID": nme, "fieldMJD_TAI": t, "RA_deg": ra, "Dec_deg": dec}))
    df = pd.concat(fr, ignore_index=True)
    n = len(df)
    extra = W.obs_frame(rng, n)
    for col in extra.columns:
        if col not in df.columns and col != "vid":
            df[col] = extra[col].to_numpy()
    df["optFilter"] = df["optFilter"].astype("category")
    df["FieldID"] = rng.permutation(n) + 10
    df["vid"] = np.arange(n) + 7000
    return df


def link(c, df, p=1.0, drop=True):
    from sorcha.modules.PPLinkingFilter import PPLinkingFilter

    return PPLinkingFilter(df, p, c["minobs"], c["ntrk"], c["window"], c["minsep"], c["maxt"], c["noon"], drop_unlinked=drop)


def judge(ck, c, df, hists, names, drop, what):
    df = df.copy(deep=True)
    before = df.copy(deep=True)
    out = ck.must(link, c, df, 1.0, drop, _w={"config": c, "table": before.head(60).to_dict("list")})
    kept = out.groupby("ObjID")
    gone = set(before.ObjID) - set(out.ObjID)
    ck.ensure(len(set(out.vid)) == len(out), f"{what}: a detection was duplicated by linking", lambda: {"config": c})
    wmask = np.zeros(len(before), bool)
    res = []
    for nme, (t, ra, dec) in zip(names, hists):
        if len(t) == 0:
            res.append(None)
            continue
        wit = lambda: {"config": c, "object": nme, "mjd": np.sort(t), "ra": ra[np.argsort(t)], "dec": dec[np.argsort(t)],
                       "expected": s, "reported": out[out.ObjID == nme].head(1).to_dict("records")}
        try:
            s = spec(t, ra, dec, c)
        except Amb:
            ck.ev("not_judged_near_threshold")
            res.append(None)
            continue
        res.append(s)
        ck.case([c, t, ra, dec], len(t) > 1, {"config": c, "mjd": t[:8], "linked": s[0]})
        rows = out[out.ObjID == nme]
        nin = int((before.ObjID == nme).sum())
        if s[0]:
            ck.ev("objects_linked")
            if s[1] != int(np.floor(t.min() - c["noon"] / 24)):
                ck.ev("linked_not_at_first_possible_night_of_data")
            if ck.ensure(len(rows) == nin, f"{what}: a linkable object kept {len(rows)} of its {nin} detections", wit):
                ck.ensure(rows["object_linked"].all(), f"{what}: linked object not flagged as linked", wit)
                ck.ensure((rows["date_linked_MJD"] == s[1]).all(), f"{what}: the linking date is not the night of the completing tracklet", wit)
        else:
            ck.ev("objects_unlinked")
            if drop:
                ck.ensure(len(rows) == 0, f"{what}: an object that cannot be linked was reported", wit)
            else:
                ck.ensure(len(rows) == nin, f"{what}: detections of an unlinked object lost although unlinked objects are kept", wit)
                ck.ensure((~rows["object_linked"].astype(bool)).all() and rows["date_linked_MJD"].isna().all(),
                          f"{what}: an object that cannot be linked is flagged as linked", wit)
    W.unchanged(ck, what, before, out, ctx=c)
    return res


def run(ck):
    rng = ck.rng("link")
    for i in range(ck.n(120, 2500)):
        c = params(rng)
        nobj = int(rng.integers(1, 26))
        hists = [history(rng, c, rng.random() < 0.5) for _ in range(nobj)]
        hists = [h for h in hists if len(h[0])]
        if not hists:
            continue
        names = [("obj" if i % 4 else "a survey of long names, number 1e5 of its kind, ") + f"{j:03d}" for j in range(len(hists))]
        df = frame(rng, hists, names)
        df = df.iloc[rng.permutation(len(df))] if rng.integers(2) else df.sort_values("fieldMJD_TAI")
        if rng.integers(2):
            df = df.reset_index(drop=True)
        a = judge(ck, c, df, hists, names, bool(rng.integers(4) > 0), "linking")
        # the same histories with one threshold moved: verdicts must move as the specification says
        c2 = dict(c)
        k = str(rng.choice(["minobs", "ntrk", "window", "minsep", "maxt"]))
        c2[k] = {"minobs": max(1, c[k] + int(rng.choice([-1, 1]))), "ntrk": max(1, c[k] + int(rng.choice([-1, 1]))),
                 "window": max(1, c[k] + int(rng.choice([-1, 1]))), "minsep": c[k] * rng.choice([0.4, 2.1]),
                 "maxt": c[k] * rng.choice([0.6, 1.7])}[k]
        b = judge(ck, c2, df.sample(frac=1, random_state=int(rng.integers(1 << 30))), hists, names, True, "linking")
        ck.ev("flips_by_one_threshold", sum(1 for x, y in zip(a, b) if x and y and x[0] != y[0]))


def corner(ck):
    """Constructed histories at every boundary: window edge, local midnight / UTC midnight, separation, RA wrap, poles."""
    rng = ck.rng("corner")
    base = {"minobs": 2, "ntrk": 3, "window": 15, "minsep": 0.5, "maxt": 0.0625, "noon": 16.0}

    def pair(night, c, phase=0.5, dt=0.02, sep=5.0, ra=10.0, dec=5.0, pa=70.0):
        t0 = night + c["noon"] / 24 + phase
        x, y = W.offset(np.array([ra, ra]), np.array([dec, dec]), np.array([0, sep / 3600]), pa)
        return [(t0, x[0], y[0]), (t0 + dt, x[1], y[1])]

    for rep in range(ck.n(12, 60)):
        for noon in (16.0, 17.0, 5.0):
            c = dict(base, noon=noon, window=int(rng.choice([3, 10, 15])), ntrk=int(rng.choice([2, 3])))
            n0 = 60000 + int(rng.integers(500))
            H = []
            for last in (c["window"] - 2, c["window"] - 1, c["window"], c["window"] + 1):  # window edge
                ks = [0] + ([1] if c["ntrk"] == 3 else []) + [last]
                if len(set(ks)) == len(ks) and last > 0:
                    H.append(sum([pair(n0 + k, c) for k in ks], []))
            for ra, dec in ((0.0005, -30.0), (359.9999, 10.0), (200.0, 89.9995), (30.0, -89.9999)):  # wrap and poles
                H.append(sum([pair(n0 + k, c, ra=ra, dec=dec, sep=float(rng.choice([0.4, 0.6, 5.0])), pa=90.0) for k in range(c["ntrk"])], []))
            for ph in (0.12, 0.3, 0.48, 0.7, 0.85):  # night boundaries in UTC fall inside the local night
                H.append(sum([pair(n0 + k, c, phase=ph, dt=0.03) for k in range(c["ntrk"])], []))
            # detections of neighbouring nights never form a tracklet together
            H.append([(n0 + k + c["noon"] / 24 + 0.5, 10 + k, 5.0) for k in range(6)])
            # three in one night count once
            H.append(sum([pair(n0, c, phase=p) for p in (0.2, 0.4, 0.6)], []))
            hists = [tuple(np.array(z) for z in zip(*h)) for h in H]
            names = [f"c{j}" for j in range(len(hists))]
            df = frame(rng, hists, names).sample(frac=1, random_state=int(rng.integers(1 << 30)))
            judge(ck, c, df, hists, names, True, "linking at a boundary")
            ck.ev("boundary_histories", len(H))


def parts():
    return [("corner", corner), ("run", run)]
