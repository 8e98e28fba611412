"""C10: circular footprint and fill factor."""
import numpy as np
import pandas as pd

from vlib.common import Check
from vlib import stat
from vlib import world as W


def make():
    ck = Check(
        "C10",
        "Each case is a random table of sources scattered about random pointings (poles, RA wrap, radii 1e-3 to 170 deg, a "
        "share of the sources within 1e-6 deg of the circle), filtered with a circle and/or a fill factor through the "
        "configuration. Non-trivial = sources on both sides of the circle.",
        ["sources within 1e-8 deg of the circle are not judged"],
    )
    ck.need("both_sides", 30)
    ck.need("wrapped_rows_inside", 50)
    ck.need("polar_rows_inside", 50)
    ck.need("statistical_tests", 5)
    return ck


def table(rng, n, r):
    nf = max(1, n // 8)
    fra, fde = W.rand_sky(rng, nf)
    if rng.integers(6) == 0:
        fde[0] = rng.choice([90.0, -90.0])
    f = rng.integers(0, nf, n)
    k = rng.integers(0, 4, n)
    sep = np.where(k == 0, r * (1 + rng.choice([-1, 1], n) * 10 ** rng.uniform(-6, -2, n)),
                   np.where(k == 1, r * rng.uniform(0, 3, n), np.where(k == 2, r * np.sqrt(rng.uniform(0, 1.2, n)), rng.uniform(0, 180, n))))
    sep = np.clip(sep, 0, 180)
    ra, de = W.offset(fra[f], fde[f], sep, rng.uniform(0, 360, n))
    df = W.obs_frame(rng, n)
    df["RA_deg"], df["Dec_deg"] = ra, np.clip(de, -90, 90)
    df["fieldRA_deg"], df["fieldDec_deg"] = fra[f], fde[f]
    df["fieldRotSkyPos_deg"] = rng.uniform(0, 360, n)
    df["FieldID"] = f
    return df


def circle(ck):
    from sorcha.modules.PPApplyFOVFilter import PPApplyFOVFilter, PPCircleFootprint, PPGetSeparation

    rng = ck.rng("circle")
    for i in range(ck.n(250, 4000)):
        n = int(rng.integers(1, 80))
        r = float(rng.choice([1.75, 1.1, 2.1, 10 ** rng.uniform(-3, 1), rng.uniform(1, 170)]))
        df = table(rng, n, r)
        sep = W.angsep(df.RA_deg, df.Dec_deg, df.fieldRA_deg, df.fieldDec_deg)
        ok = np.abs(sep - r) > 1e-8
        df, sep = df[ok].reset_index(drop=True), sep[ok]
        if not len(df):
            continue
        keep = sep < r
        ck.ev("wrapped_rows_inside", int(((np.abs(df.RA_deg - df.fieldRA_deg) > 180) & keep).sum()))
        ck.ev("polar_rows_inside", int(((np.abs(df.fieldDec_deg) > 85) & keep).sum()))
        if keep.any() and (~keep).any():
            ck.ev("both_sides")
        ctx = {"radius": r, "rows": len(df)}
        ck.case(["circle", i, r], keep.any() and (~keep).any(), ctx)
        before = df.copy(deep=True)
        if rng.integers(2):
            cfg = ck.must(W.configs, FOV={"camera_model": "circle", "circle_radius": r})
            out = ck.must(PPApplyFOVFilter, df.copy(), cfg, W.rngs(i), _w=ctx)
        else:
            out = ck.must(PPCircleFootprint, df.copy(), r, _w=ctx)
        W.kept_exactly(ck, f"circle of {r} deg", before, out, keep, ctx)
        s = np.asarray(ck.must(PPGetSeparation, df.RA_deg.to_numpy(), df.Dec_deg.to_numpy(), df.fieldRA_deg.to_numpy(), df.fieldDec_deg.to_numpy()))
        ck.ensure(np.allclose(s, sep, rtol=0, atol=1e-9), "separation is not the great-circle distance", {"table": before})


def fill(ck):
    from sorcha.modules.PPApplyFOVFilter import PPApplyFOVFilter, PPSimpleSensorArea

    rng = ck.rng("fill")
    per = {}
    for i in range(ck.n(100, 1500)):
        n = int(rng.choice([1, 7, 400, 900]))
        ff = float(rng.choice([0.0, 0.1, 0.5, 0.9, 0.9, 1.0]))
        r = 1.75
        use_r = bool(rng.integers(2))
        df = table(rng, n, r)
        sep = W.angsep(df.RA_deg, df.Dec_deg, df.fieldRA_deg, df.fieldDec_deg)
        df, sep = df[np.abs(sep - r) > 1e-8].reset_index(drop=True), sep[np.abs(sep - r) > 1e-8]
        inside = sep < r if use_r else np.ones(len(df), bool)
        cfg = ck.must(W.configs, FOV={"camera_model": "circle", "fill_factor": ff, "circle_radius": r if use_r else None})
        ctx = {"fill_factor": ff, "with_circle": use_r, "rows": len(df)}
        mr = W.rngs(int(rng.integers(1 << 31)))
        masks = []
        for rep in range(2):
            before = df.copy(deep=True)
            out = ck.must(PPApplyFOVFilter, df.copy(), cfg, mr, _w=ctx)
            got = set(out["vid"])
            m = df["vid"].isin(got).to_numpy()
            ck.case(["fill", i, rep, ff], inside.any() and ff < 1, ctx)
            ck.ensure(not (m & ~inside).any(), "a source outside the circle survived", ctx)
            ck.ensure(len(out) == len(got), "fill factor duplicated a row", ctx)
            W.kept_exactly(ck, "fill factor", before, out, m, ctx)
            if ff == 1.0:
                ck.ensure(m.sum() == inside.sum(), "fill factor 1 removed a source", ctx)
            if ff == 0.0:
                ck.ensure(m.sum() == 0, "fill factor 0 kept a source", ctx)
            masks.append(m[inside].astype(float))
        if 0 < ff < 1:
            per.setdefault(ff, []).append(masks)
    for ff, ms in per.items():
        a = np.concatenate([m[0] for m in ms])
        b = np.concatenate([m[1] for m in ms])
        stat.binomial(ck, f"fill factor {ff}: survivors", int(a.sum() + b.sum()), len(a) + len(b), ff, {"fill_factor": ff})
        stat.uncorrelated(ck, f"fill factor {ff}: neighbouring rows", a[1:], a[:-1])
        stat.uncorrelated(ck, f"fill factor {ff}: successive chunks", a, b)
    x = W.obs_frame(rng, 4000)
    o = ck.must(PPSimpleSensorArea, x.copy(), W.rngs(3))
    stat.binomial(ck, "default fill factor 0.9", len(o), 4000, 0.9)


def parts():
    return [("circle", circle), ("fill", fill)]
