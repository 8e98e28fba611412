"""C13: fading functions."""
import numpy as np
import pandas as pd

from vlib.common import Check
from vlib import stat
from vlib import world as W


def make():
    ck = Check(
        "C13",
        "Each case is one call of the LSST or DES fading filter on a random table (magnitudes from far above to far below the "
        "depth, any peak, width, per-row c and k); verdicts are accumulated over strata of the predicted probability. "
        "Non-trivial = table has rows with intermediate probability.",
        ["tests reject at p < 1e-9 per statistic"],
    )
    ck.need("statistical_tests", 20)
    ck.need("random_values_tested", 20000)
    ck.need("certain_rows", 500)
    ck.need("rows_with_depth_of_chip", 2000)
    ck.need("rows_in_large_chunks", 300000)
    return ck


def table(rng, n):
    df = W.obs_frame(rng, n)
    df["PSFMag"] = df["fiveSigmaDepth_mag"] + np.where(rng.random(n) < 0.6, rng.normal(0, 0.25, n), rng.uniform(-12, 8, n))
    # distinct other magnitudes/depths so that use of a wrong column shows
    df["trailedSourceMag"] = df["PSFMag"] - rng.uniform(0.2, 1, n)
    df["PSFMagTrue"] = df["PSFMag"] + rng.choice([-1, 1], n) * rng.uniform(0.2, 1, n)
    df["trailedSourceMagTrue"] = df["PSFMagTrue"] - rng.uniform(0.2, 1, n)
    df["fieldFiveSigmaDepth_mag"] = df["fiveSigmaDepth_mag"] + rng.uniform(0.1, 1, n)
    if rng.integers(2):
        df.index = rng.permutation(n) + 4
    return df


def run(ck):
    from sorcha.modules.PPFadingFunctionFilter import PPFadingFunctionFilter
    from sorcha.modules.DESFadingFunctionFilter import DESFadingFunctionFilter
    from sorcha.modules.PPDetectionProbability import calcDetectionProbability, PPDetectionProbability
    from sorcha.modules.DESDetectionProbability import DEScalcDetectionProbability, DESDetectionProbability

    rng = ck.rng("fading")
    acc = {}
    succ = []
    for i in range(ck.n(140, 2000)):
        survey = ["lsst", "des"][i % 2]
        n = int(rng.choice([0, 1, 300, 600]))
        mr = W.rngs(int(rng.integers(1 << 31)))
        peak = float(rng.choice([1.0, 1.0, 0.9, rng.uniform(0, 1), 0.0]))
        w = float(rng.choice([0.1, 0.5, 10 ** rng.uniform(-3, -0.31)]))
        res = []
        perchip = int(rng.integers(4))
        for rep in range(2):
            df = table(rng, n)
            depth = "fiveSigmaDepth_mag"
            if survey == "lsst" and perchip:  # visits with footprints of their own: each chip has its depth
                depth = "limMag_perChip"
                df[depth] = df["fiveSigmaDepth_mag"] + (rng.uniform(-1, 1, n) if perchip > 1 else 0.0)
                if perchip == 3:
                    df[depth] = float(rng.uniform(22, 25))
                df["PSFMag"] = df[depth] + np.where(rng.random(n) < 0.6, rng.normal(0, 0.25, n), rng.uniform(-12, 8, n))
                ck.ev("rows_with_depth_of_chip", n)
            x = (df["PSFMag"] - df[depth]).to_numpy()
            if survey == "des":
                df["c"] = rng.uniform(0.5, 1, n)
                df["k"] = rng.uniform(2, 12, n)
                e = df["k"].to_numpy() * x
                top = peak * df["c"].to_numpy()
            else:
                e = x / w
                top = np.full(n, peak)
            p = np.where(e > 700, 0.0, top / (1 + np.exp(np.minimum(e, 700))))
            ctx = {"survey": survey, "rows": n, "peak": peak, "width": w, "call": rep}
            ck.case([i, rep, ctx], ((p > 0.01) & (p < 0.99)).any(), ctx)
            before = df.copy(deep=True)
            if survey == "lsst":
                out = ck.must(PPFadingFunctionFilter, df, peak, w, mr, _w=ctx)
                pr = ck.must(PPDetectionProbability, before.copy(), fillFactor=peak, w=w)
                pc = ck.must(calcDetectionProbability, before["PSFMag"].to_numpy(), before[depth].to_numpy(), peak, w)
            else:
                out = ck.must(DESFadingFunctionFilter, df, peak, mr, _w=ctx)
                pr = ck.must(DESDetectionProbability, before.copy(), peak)
                pc = ck.must(DEScalcDetectionProbability, before["PSFMag"].to_numpy(), before["fiveSigmaDepth_mag"].to_numpy(),
                             before["c"].to_numpy(), before["k"].to_numpy(), peak)
            for q in (pr, pc):
                ck.ensure(np.allclose(np.asarray(q, float), p, rtol=1e-9, atol=1e-15), f"{survey} detection probability is not the fading function",
                          {"ctx": ctx, "table": before.head(5).to_dict("records"), "got": np.asarray(q)[:5], "want": p[:5]})
            m = before["vid"].isin(set(out["vid"])).to_numpy()
            W.kept_exactly(ck, f"{survey} fading function", before, out, m, ctx)
            sure = p >= 1 - 1e-12
            never = p < 1e-15
            ck.ev("certain_rows", sure.sum() + never.sum())
            ck.ensure(m[sure].all() and not m[never].any(), "a row with probability 1 was dropped, or one with probability 0 kept", ctx)
            for lo, hi in ((0, 0.05), (0.05, 0.2), (0.2, 0.4), (0.4, 0.6), (0.6, 0.8), (0.8, 0.95), (0.95, 1.01)):
                s = (p >= lo) & (p < hi) & (p > 0)
                acc.setdefault((survey, f"p in [{lo},{hi})"), []).append((m[s], p[s]))
            s = x < -6
            acc.setdefault((survey, "bright rows"), []).append((m[s], p[s]))
            mid = (p > 0.1) & (p < 0.9)
            z = np.where(mid, (m - p) / np.sqrt(np.where(mid, p * (1 - p), 1)), 0)
            res.append(z)
        succ.append(res)
    for (survey, what), v in acc.items():
        m, p = np.concatenate([a for a, _ in v]), np.concatenate([b for _, b in v])
        if len(p) > 50:
            stat.bernoulli_sum(ck, f"{survey}, {what}: survivors", int(m.sum()), p, {"survey": survey, "stratum": what})
    a = np.concatenate([r[0] for r in succ])
    b = np.concatenate([r[1] for r in succ])
    stat.uncorrelated(ck, "verdicts of successive chunks", a, b)
    stat.uncorrelated(ck, "verdicts of neighbouring rows", a[1:], a[:-1])
    stat.uncorrelated(ck, "verdicts of neighbouring rows", b[2:], b[:-2])


def big(ck):
    """Chunks of many rows: the draws do not repeat."""
    from sorcha.modules.PPFadingFunctionFilter import PPFadingFunctionFilter
    from sorcha.modules.DESFadingFunctionFilter import DESFadingFunctionFilter

    rng = ck.rng("big")
    for i, n in enumerate([5000, 12000, 70000, 140000] + ([300000, 1100000] if ck.tier != "quick" else [])):
        for survey in ("lsst", "des"):
            df = W.obs_frame(rng, n)
            df["PSFMag"] = df["fiveSigmaDepth_mag"]  # half of them
            df["c"], df["k"] = 1.0, 5.0
            ctx = {"survey": survey, "rows": n}
            ck.case(["big", survey, n], True, ctx)
            v = df["vid"].to_numpy()
            mr = W.rngs(int(rng.integers(1 << 31)))
            out = ck.must(PPFadingFunctionFilter, df, 1.0, 0.1, mr, _w=ctx) if survey == "lsst" else ck.must(DESFadingFunctionFilter, df, 1.0, mr, _w=ctx)
            m = np.isin(v, out["vid"].to_numpy())
            stat.binomial(ck, f"{survey}, survivors of a large chunk", int(m.sum()), n, 0.5, ctx)
            stat.no_repeats(ck, f"{survey}, verdicts of a large chunk", m.astype(float), ctx)
            ck.ev("rows_in_large_chunks", n)


def efficiency(ck):
    from sorcha.modules.PPDetectionEfficiency import PPDetectionEfficiency

    rng = ck.rng("eff")
    for th in (0.0, 0.3, 0.95, 1.0):
        df = W.obs_frame(rng, 3000)
        out = ck.must(PPDetectionEfficiency, df.copy(), th, W.rngs(int(rng.integers(1 << 30))))
        ck.case(["eff", th], 0 < th < 1)
        W.kept_exactly(ck, "detection efficiency", df, out, df["vid"].isin(set(out["vid"])).to_numpy(), th)
        stat.binomial(ck, f"detection efficiency {th}", len(out), len(df), th)
    for th in (-0.1, 1.1):
        _, e = ck.call(PPDetectionEfficiency, df.copy(), th, W.rngs(1))
        ck.ensure(isinstance(e, SystemExit), f"detection efficiency {th} was accepted", th)


def parts():
    return [("efficiency", efficiency), ("big", big), ("run", run)]
