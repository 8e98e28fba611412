"""C05: trailing losses."""
import numpy as np
import pandas as pd

from vlib.common import Check
from vlib import world as W


def make():
    ck = Check(
        "C05",
        "Each case is a random table of detections with sky rates from 0 to 100 deg/day in every direction, seeing, and "
        "exposure times; both loss models are evaluated on the table and per row and compared with the published fit. "
        "Non-trivial = some row trails by more than 1% of the seeing disk.",
        ["fit constants of Veres & Chesley (2017) / Jones et al. (2018): trailed a=0.761 b=1.162, detection a=0.420 b=0.003"],
    )
    ck.need("rows_trailing", 500)
    ck.need("monotone_pairs", 200)
    return ck


FIT = {"trailedSource": (0.761, 1.162), "circularPSF": (0.420, 0.003)}


def loss(v_deg_day, texp, fwhm, model):
    a, b = FIT[model]
    x = v_deg_day * 3600.0 / 86400.0 * texp / fwhm
    return 1.25 * np.log10(1 + a * x * x / (1 + b * x))


def run(ck):
    from sorcha.modules.PPTrailingLoss import PPTrailingLoss, calcTrailingLoss

    rng = ck.rng("trail")
    for i in range(ck.n(150, 3000)):
        n = int(rng.integers(1, 50))
        v = np.where(rng.random(n) < 0.1, 0.0, 10 ** rng.uniform(-4, 2, n))
        t = rng.uniform(0, 2 * np.pi, n)
        df = pd.DataFrame({"RARateCosDec_deg_day": v * np.cos(t), "DecRate_deg_day": v * np.sin(t),
                           "Dec_deg": rng.uniform(-90, 90, n), "RA_deg": rng.uniform(0, 360, n),
                           "seeingFwhmEff_arcsec": rng.uniform(0.3, 4, n), "seeingFwhmGeom_arcsec": rng.uniform(0.3, 4, n),
                           "visitTime": rng.uniform(30, 60, n), "visitExposureTime": rng.choice([1.0, 15.0, 30.0, 90.0, 300.0], n)})
        if rng.integers(2):
            df.index = rng.permutation(n) + 5
        before = df.copy(deep=True)
        vv = np.hypot(df["RARateCosDec_deg_day"], df["DecRate_deg_day"]).to_numpy()
        trailing = vv / 24 * df["visitExposureTime"].to_numpy() / df["seeingFwhmEff_arcsec"].to_numpy() > 0.01
        ck.ev("rows_trailing", trailing.sum())
        ck.case([i, n, v], trailing.any(), {"rows": n, "max_rate_deg_day": float(v.max())})
        for model in FIT:
            out = np.asarray(ck.must(PPTrailingLoss, df, model, _w=model), float)
            want = loss(vv, df["visitExposureTime"].to_numpy(), df["seeingFwhmEff_arcsec"].to_numpy(), model)
            ck.ensure(len(out) == n and np.allclose(out, want, rtol=1e-9, atol=1e-12),
                      f"trailing loss ({model}) differs from the published fit by up to {np.max(np.abs(out - want)) if len(out) == n else 'shape'}",
                      {"model": model, "table": before, "got": out, "want": want})
            ck.ensure(np.all(out[v == 0] == 0) and np.all(out >= 0), "a stationary source lost flux, or a loss is negative",
                      {"model": model, "table": before, "got": out})
            # scalar calls, other seeing, and monotonicity in rate and exposure
            k = int(rng.integers(n))
            s = df.iloc[k]
            a = ck.must(calcTrailingLoss, s["RARateCosDec_deg_day"], s["DecRate_deg_day"], s["seeingFwhmGeom_arcsec"],
                        texp=s["visitExposureTime"], model=model)
            ck.ensure(np.isclose(a, loss(vv[k], s["visitExposureTime"], s["seeingFwhmGeom_arcsec"], model), rtol=1e-9, atol=1e-12),
                      "scalar trailing loss differs from the published fit", {"row": dict(s), "model": model, "got": float(a)})
            b = ck.must(calcTrailingLoss, 1.7 * s["RARateCosDec_deg_day"], 1.7 * s["DecRate_deg_day"], s["seeingFwhmGeom_arcsec"],
                        texp=s["visitExposureTime"], model=model)
            ck.ensure(b >= a, "a faster source has a smaller trailing loss", {"row": dict(s), "model": model, "a": float(a), "b": float(b)})
            ck.ev("monotone_pairs")
        d30 = ck.must(calcTrailingLoss, df["RARateCosDec_deg_day"], df["DecRate_deg_day"], df["seeingFwhmEff_arcsec"])
        ck.ensure(np.allclose(d30, loss(vv, 30.0, df["seeingFwhmEff_arcsec"].to_numpy(), "circularPSF"), rtol=1e-9, atol=1e-12),
                  "default trailing loss is not the 30 s detection loss", {"table": before})
        ck.ensure(df.equals(before), "computing trailing losses altered the observations table", {"before": before, "after": df})


def parts():
    return [("trail", run)]
