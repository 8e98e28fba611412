"""C09: SNR, magnitude, saturation, default-SNR, distance and motion cuts keep exactly the right rows."""
import numpy as np
import pandas as pd

from vlib.common import Check, SkipCase
from vlib import world as W


def make():
    ck = Check(
        "C09",
        "Each case is a random observation table (0-60 rows, random index, values placed at, just below and just above "
        "the limit, categorical or plain filters) and one random cut; non-trivial = the cut had rows on both sides.",
        ["values exactly equal to the limit are decided only for cuts whose documentation decides them"],
    )
    for e in ("snr", "mag", "bright", "defaultsnr", "distance", "motion"):
        ck.need(e + "_both_sides", 5)
    return ck


def around(rng, n, lim):
    """Values concentrated at the limit, its neighbours in floating point, and both sides."""
    base = rng.normal(lim, 1.0 + abs(lim) * 0.05, n)
    k = rng.integers(0, 8, n)
    return np.where(k == 0, lim, np.where(k == 1, np.nextafter(lim, np.inf), np.where(k == 2, np.nextafter(lim, -np.inf), base)))


def frame(rng, n, filters=W.LSST_FILTERS):
    df = W.obs_frame(rng, n, filters=filters, category=bool(rng.integers(2)))
    m = rng.integers(3)
    if m == 1:
        df.index = rng.permutation(n) + rng.integers(0, 100)
    elif m == 2:
        df = df.sample(frac=1, random_state=int(rng.integers(1 << 30)))
    return df


def relabelled(rng, df):
    """Tables stuck together from pieces carry repeated row labels; the cuts on magnitude and SNR never looked at labels."""
    if rng.random() < 0.3:
        df.index = rng.integers(0, max(2, len(df) // 3), len(df))
    return df


def both(ck, name, keep):
    if keep.any() and (~keep).any():
        ck.ev(name + "_both_sides")
        return True
    return False


def size(ck, rng, i, m):
    if i % 25 == 24:
        ck.ev("large_tables")
        return int(rng.integers(2001, 6000))
    return int(rng.integers(0, m))


def snr(ck):
    from sorcha.modules.PPSNRLimit import PPSNRLimit
    from sorcha.modules.PPMagnitudeLimit import PPMagnitudeLimit

    rng = ck.rng("snr")
    for i in range(ck.n(150, 3000)):
        n = size(ck, rng, i, 60)
        df = relabelled(rng, frame(rng, n))
        lim = float(rng.choice([2.0, 5.0, 0.0, 1e-3, rng.uniform(0, 30)]))
        df["SNRPSFMag"] = np.abs(around(rng, n, lim))
        keep = (df["SNRPSFMag"] > lim).to_numpy()
        before = df.copy(deep=True)
        out = ck.must(PPSNRLimit, df.copy(), lim, _w=("snr", lim))
        ck.case(["snr", i, n, lim], both(ck, "snr", keep), {"cut": "snr", "limit": lim, "rows": n, "kept": int(keep.sum())})
        W.kept_exactly(ck, f"SNR limit {lim}", before, out, keep, {"limit": lim})

        lim = float(rng.uniform(16, 25)) if rng.integers(2) else float(rng.integers(16, 25))
        df = relabelled(rng, frame(rng, n))
        df["trailedSourceMag"] = around(rng, n, lim)
        keep = (df["trailedSourceMag"] < lim).to_numpy()
        before = df.copy(deep=True)
        out = ck.must(PPMagnitudeLimit, df.copy(), lim, _w=("mag", lim))
        ck.case(["mag", i, n, lim], both(ck, "mag", keep), {"cut": "mag", "limit": lim, "rows": n, "kept": int(keep.sum())})
        W.kept_exactly(ck, f"magnitude limit {lim}", before, out, keep, {"limit": lim})


def bright(ck):
    from sorcha.modules.PPBrightLimit import PPBrightLimit

    rng = ck.rng("bright")
    for i in range(ck.n(150, 3000)):
        n = size(ck, rng, i, 60)
        nf = int(rng.integers(1, 7))
        filters = list(rng.permutation(W.LSST_FILTERS)[:nf])
        single = bool(rng.integers(2))
        lims = [float(np.round(rng.uniform(14, 18), 2)) for _ in filters]
        text = str(lims[0]) if single else ", ".join(map(str, lims))
        cfg = ck.must(W.configs, _w=text, FILTERS={"observing_filters": ",".join(filters)}, SATURATION={"bright_limit": text})
        if single or nf == 1:
            lims = [lims[0]] * nf
        ck.ensure(cfg.saturation.bright_limit_on is True, "bright limit configured but not on", {"text": text})
        df = frame(rng, n, filters)
        if n and rng.integers(2):
            df["optFilter"] = pd.Categorical(df["optFilter"].astype(str), categories=list(rng.permutation(W.LSST_FILTERS)))
        lm = dict(zip(filters, lims))
        own = np.array([lm[str(f)] for f in df["optFilter"]], dtype=float)
        df["PSFMag"] = np.array([around(rng, 1, x)[0] for x in own], dtype=float) if n else df["PSFMag"]
        keep = ~(df["PSFMag"].to_numpy() < own)
        before = df.copy(deep=True)
        for form, val in (("configured", cfg.saturation.bright_limit), ("float", lims[0]) if single else ("list", lims)):
            out = ck.must(PPBrightLimit, df.copy(), cfg.filters.observing_filters, val, _w=(text, filters))
            ck.case(["bright", i, form, text, n], both(ck, "bright", keep), {"cut": "saturation", "limits": lm, "rows": n, "kept": int(keep.sum())})
            W.kept_exactly(ck, f"saturation limit {lm}", before, out, keep, {"limits": lm, "form": form})


def default_snr(ck):
    from sorcha.modules.PPRandomizeMeasurements import randomizeAstrometryAndPhotometry

    rng = ck.rng("default")
    for i in range(ck.n(30, 500)):
        n = size(ck, rng, i, 50)
        on = bool(rng.integers(3))
        cfg = ck.must(W.configs, EXPERT={"default_snr_cut": on, "trailing_losses_on": bool(rng.integers(2))})
        df = frame(rng, n).drop(columns=["trailedSourceMag", "PSFMag", "RATrue_deg", "DecTrue_deg"])
        df["SNRPSFMag"] = np.abs(around(rng, n, 2.0))
        df["SNRTrailedSourceMag"] = df["SNRPSFMag"] * rng.uniform(1.0, 1.2, n)
        keep = (df["SNRPSFMag"] > 2.0).to_numpy() if on else np.ones(n, bool)
        before = df.copy(deep=True)
        out = ck.must(randomizeAstrometryAndPhotometry, df.copy(), cfg, W.rngs(i), _w=i)
        ck.case(["default", i, n], both(ck, "defaultsnr", keep))
        W.kept_exactly(ck, f"default SNR cut on={on}", before, out, keep, {"on": on}, free=("RA_deg", "Dec_deg"))


def des(ck):
    from sorcha.modules.PPDistanceandMotionCuts import distance_cut, motion_cut

    rng = ck.rng("des")
    for i in range(ck.n(150, 3000)):
        n = size(ck, rng, i, 50)
        df = frame(rng, n)
        lo = float(rng.uniform(0, 20))
        hi = lo + float(rng.uniform(1, 40))
        r = rng.uniform(0, hi * 1.6, n)
        k = rng.integers(0, 5, n)
        r = np.where(k == 0, lo * (1 + rng.choice([-1, 1], n) * 1e-7), np.where(k == 1, hi * (1 + rng.choice([-1, 1], n) * 1e-7), r))
        v = rng.normal(0, 1, (n, 3))
        v = v / np.linalg.norm(v, axis=1)[:, None] * r[:, None] * W.AU_KM if n else v
        for j, c in enumerate("xyz"):
            df[f"Obj_Sun_{c}_LTC_km"] = v[:, j] if n else 0.0
        rr = np.linalg.norm(v, axis=1) / W.AU_KM
        inb = (rr > lo) & (rr < hi)
        good = set(df["ObjID"].to_numpy()[inb])
        keep = df["ObjID"].isin(good).to_numpy()
        before = df.copy(deep=True)
        out = ck.must(distance_cut, df.copy(), hi, lo, _w=(lo, hi))
        ck.case(["dist", i, lo, hi, n], both(ck, "distance", keep), {"cut": "distance", "bounds": [lo, hi], "rows": n, "kept": int(keep.sum())})
        W.kept_exactly(ck, f"heliocentric distance cut {lo}..{hi} au", before, out, keep, {"lo": lo, "hi": hi})

        lo = float(rng.choice([0.0, rng.uniform(0, 0.5)]))
        hi = lo + float(rng.uniform(0.05, 1))
        df = frame(rng, n)
        m = rng.uniform(0, hi * 1.6, n)
        k = rng.integers(0, 5, n)
        m = np.where(k == 0, lo * (1 + rng.choice([-1, 1], n) * 1e-7), np.where(k == 1, hi * (1 + rng.choice([-1, 1], n) * 1e-7), m))
        t = rng.uniform(0, 2 * np.pi, n)
        df["RARateCosDec_deg_day"], df["DecRate_deg_day"] = m * np.cos(t), m * np.sin(t)
        mm = np.hypot(df["RARateCosDec_deg_day"], df["DecRate_deg_day"]).to_numpy()
        keep = (mm > lo) & (mm < hi)
        edge = np.isclose(mm, lo, rtol=1e-12, atol=0) | np.isclose(mm, hi, rtol=1e-12, atol=0) | (mm == lo)
        df, keep = df[~edge], keep[~edge]
        before = df.copy(deep=True)
        out = ck.must(motion_cut, df.copy(), hi, lo, _w=(lo, hi))
        ck.case(["motion", i, lo, hi, n], both(ck, "motion", keep), {"cut": "motion", "bounds": [lo, hi], "rows": n, "kept": int(keep.sum())})
        W.kept_exactly(ck, f"rate-of-motion cut {lo}..{hi} deg/day", before, out, keep, {"lo": lo, "hi": hi})


def parts():
    return [("snr/mag", snr), ("bright", bright), ("default", default_snr), ("des", des)]
