"""C06: limiting magnitude at the source (vignetting)."""
import numpy as np
import pandas as pd

from vlib.common import Check
from vlib import world as W
from vlib.vignet_table import FRAC, STEP


def make():
    ck = Check(
        "C06",
        "Each case is a table of sources placed at a known angular distance and position angle from random field centres "
        "(including both poles and the RA 0/360 seam, RA given in any revolution); the depth must be the field depth minus "
        "the loss tabulated for that distance. Non-trivial = some source lies beyond 0.66 deg, where the loss is non-zero.",
        ["unvignetted fractions of VignettingFunc_v3.3 as reference table"],
    )
    ck.need("rows_vignetted", 500)
    ck.need("rows_seam", 20)
    ck.need("rows_pole", 20)
    return ck


def oracle(theta):
    r = np.arange(len(FRAC)) * STEP
    f = np.asarray(FRAC) / FRAC[0]
    return -2.5 * np.log10(np.interp(theta, r, f))


def run(ck):
    from sorcha.modules.PPVignetting import vignettingEffects, calcVignettingLosses

    rng = ck.rng("vig")
    for i in range(ck.n(150, 3000)):
        n = int(rng.integers(1, 60))
        fra, fdec = W.rand_sky(rng, n)
        th = rng.choice([0.0, 1e-7, 1.0, 1.75, 2.0, 2.1]) if rng.integers(5) == 0 else rng.uniform(0, 2.3, n)
        th = np.broadcast_to(th, n).astype(float)
        pa = rng.uniform(0, 360, n)
        ra, dec = W.offset(fra, fdec, th, pa)
        rev = rng.integers(3)
        if rev == 1:
            ra = np.where(ra > 180, ra - 360, ra)
        elif rev == 2:
            fra = np.where(fra < 10, fra + 360, fra)
        df = pd.DataFrame({"RA_deg": ra, "Dec_deg": dec, "fieldRA_deg": fra, "fieldDec_deg": fdec, "FieldID": rng.integers(0, 9, n),
                           "fieldFiveSigmaDepth_mag": rng.uniform(20, 25, n), "seeingFwhmEff_arcsec": 1.0})
        if rng.integers(2):
            df.index = rng.permutation(n) + 5
        before = df.copy(deep=True)
        out = np.asarray(ck.must(vignettingEffects, df, _w=before), float)
        sep = W.angsep(ra, dec, fra, fdec)
        want = df["fieldFiveSigmaDepth_mag"].to_numpy() - oracle(sep)
        ck.ev("rows", n)
        ck.ev("rows_vignetted", (sep > 0.68).sum())
        ck.ev("rows_seam", (np.abs(ra - fra) > 180).sum())
        ck.ev("rows_pole", (np.abs(fdec) > 85).sum())
        ck.case([i, n, th], (sep > 0.66).any(), {"rows": n, "max_distance_deg": float(sep.max())})
        ck.ensure(len(out) == n and np.allclose(out, want, rtol=0, atol=2e-6),
                  f"limiting magnitude at the source differs from field depth minus vignetting by up to {np.nanmax(np.abs(out - want)) if len(out) == n else 'shape'}",
                  {"table": before, "got": out, "want": want})
        ck.ensure(np.all(out <= df["fieldFiveSigmaDepth_mag"].to_numpy() + 1e-12), "vignetting made the limiting magnitude deeper than at the field centre",
                  {"table": before, "got": out})
        ck.ensure(df.equals(before), "computing vignetting altered the observations table", {"before": before, "after": df})
        # along one ray the loss never decreases outwards and does not depend on direction
        k = int(rng.integers(n))
        rr = np.sort(rng.uniform(0, 2.2, 30))
        for p in (float(pa[k]), float(pa[k]) + 90):
            a, d = W.offset(np.full(30, fra[k]), np.full(30, fdec[k]), rr, np.full(30, p))
            l = np.asarray(ck.must(calcVignettingLosses, a, d, np.full(30, fra[k]), np.full(30, fdec[k])), float)
            ck.ensure(np.all(np.diff(l) > -1e-7) and np.allclose(l, oracle(rr), atol=2e-6), "vignetting loss is not the tabulated function of distance",
                      {"field": [fra[k], fdec[k]], "pa": p, "r": rr, "loss": l})


def parts():
    return [("vig", run)]
