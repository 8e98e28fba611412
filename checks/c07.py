"""C07: SNR, photometric and astrometric uncertainties."""
import numpy as np
import pandas as pd

from vlib.common import Check
from vlib import world as W
from checks.c05 import loss


def make():
    ck = Check(
        "C07",
        "Each case is a random table of potential detections (magnitudes from 15 mag brighter to 6 mag fainter than the "
        "depth, all rates/seeing/exposures, trailing losses on and off); each row's SNRs and sigmas are recomputed from the "
        "published formulae. Non-trivial = the table spans both sides of the depth.",
        ["LSST overview (Ivezic et al. 2019) noise model, gamma=0.039, 10 mas floor, 0.6 FWHM/SNR"],
    )
    ck.need("rows_trailing_on", 300)
    ck.need("rows_trailing_off", 300)
    return ck


def snr_model(m, m5):
    x = 10 ** (0.4 * (m - m5))
    return 1 / np.sqrt((0.04 - 0.039) * x + 0.039 * x * x)


def run(ck):
    from sorcha.modules.PPAddUncertainties import addUncertainties

    rng = ck.rng("unc")
    cfgs = {t: ck.must(W.configs, EXPERT={"trailing_losses_on": t}) for t in (True, False)}
    for i in range(ck.n(200, 4000)):
        on = bool(rng.integers(2))
        n = int(rng.integers(1, 50))
        m5 = rng.uniform(20, 25.5, n)
        mag = m5 + np.where(rng.random(n) < 0.3, rng.normal(0, 0.3, n), rng.uniform(-15, 6, n))
        v = np.where(rng.random(n) < 0.1, 0.0, 10 ** rng.uniform(-4, 1.5, n))
        t = rng.uniform(0, 2 * np.pi, n)
        df = pd.DataFrame({"RARateCosDec_deg_day": v * np.cos(t), "DecRate_deg_day": v * np.sin(t),
                           "Dec_deg": rng.uniform(-90, 90, n), "seeingFwhmEff_arcsec": rng.uniform(0.3, 4, n),
                           "visitTime": rng.uniform(30, 60, n), "visitExposureTime": rng.choice([1.0, 15.0, 30.0, 90.0], n),
                           "fiveSigmaDepth_mag": m5, "fieldFiveSigmaDepth_mag": m5 + rng.uniform(0, 1, n),
                           "trailedSourceMagTrue": mag, "vid": np.arange(n) + 1000})
        df["seeingFwhmGeom_arcsec"] = 0.822 * df["seeingFwhmEff_arcsec"] + 0.052
        vv = np.hypot(df["RARateCosDec_deg_day"], df["DecRate_deg_day"]).to_numpy()
        te, sg = df["visitExposureTime"].to_numpy(), df["seeingFwhmGeom_arcsec"].to_numpy()
        df["PSFMagTrue"] = mag + (loss(vv, te, df["seeingFwhmEff_arcsec"].to_numpy(), "circularPSF") if on else 0.0)
        if rng.integers(2):
            df.index = rng.permutation(n) + 5
        before = df.copy(deep=True)
        ctx = {"trailing_losses": on, "rows": n, "i": i}
        out = ck.must(addUncertainties, df.copy(), cfgs[on], W.rngs(i), verbose=False, _w=ctx)
        ck.ev("rows_trailing_on" if on else "rows_trailing_off", n)
        ck.case([i, ctx], (mag < m5).any() and (mag > m5).any(), ctx)
        dm = loss(vv, te, sg, "trailedSource") if on else 0.0
        snr_t = snr_model(mag + dm, m5)
        snr_p = snr_model(df["PSFMagTrue"].to_numpy(), m5)
        want = {
            "SNRTrailedSourceMag": snr_t,
            "SNRPSFMag": snr_p,
            "trailedSourceMagSigma": 2.5 * np.log10(1 + 1 / snr_t),
            "PSFMagSigma": 2.5 * np.log10(1 + 1 / snr_p),
            "astrometricSigma_deg": np.sqrt(10.0**2 + (0.6 * sg * 1000 / snr_t) ** 2) / 3.6e6,
        }
        if not ck.ensure(list(out["vid"]) == list(before["vid"]), "adding uncertainties lost, duplicated or reordered rows", ctx):
            continue
        for c, w in want.items():
            g = out[c].to_numpy(float)
            bad = ~np.isclose(g, w, rtol=1e-8, atol=0)
            ck.ensure(not bad.any(), f"{c} differs from the noise model", lambda: {"ctx": ctx, "row": before.iloc[int(np.argmax(bad))].to_dict(),
                      "got": float(g[np.argmax(bad)]), "want": float(w[np.argmax(bad)])})
        ck.ensure((out["astrometricSigma_deg"] >= 10 / 3.6e6 * (1 - 1e-12)).all(), "astrometric uncertainty below the 10 mas floor", ctx)
        W.unchanged(ck, "uncertainty step", before, out, free=tuple(want), ctx=ctx)


def parts():
    return [("unc", run)]
