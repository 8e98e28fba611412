"""Synthetic worlds for the monitors: configurations, pointing databases, populations, ephemerides.

Everything is built from a numpy Generator, so a world is a function of VERIF_SEED."""

import os
import sqlite3
import tempfile

import numpy as np
import pandas as pd

from vlib.common import WORK

AU_KM = 149597870.7
LSST_QUERY = (
    "SELECT observationId, observationStartMJD as observationStartMJD_TAI, visitTime, visitExposureTime, filter, "
    "seeingFwhmGeom as seeingFwhmGeom_arcsec, seeingFwhmEff as seeingFwhmEff_arcsec, fiveSigmaDepth as "
    "fieldFiveSigmaDepth_mag , fieldRA as fieldRA_deg, fieldDec as fieldDec_deg, rotSkyPos as fieldRotSkyPos_deg "
    "FROM observations order by observationId"
)
DES_QUERY = (
    "SELECT observationId, observationMidpointMJD as observationMidpointMJD_TAI, visitExposureTime, filter, "
    "fiveSigmaDepth as fieldFiveSigmaDepth_mag, fieldRA as fieldRA_deg, fieldDec as fieldDec_deg, c, k "
    "FROM observations order by observationId"
)
LSST_FILTERS = ["u", "g", "r", "i", "z", "y"]


def tmp(suffix=""):
    fd, p = tempfile.mkstemp(suffix=suffix, dir=WORK)
    os.close(fd)
    return p


def tmpdir():
    return tempfile.mkdtemp(dir=WORK)


# --------------------------------------------------------------------------- configuration

BASE = {
    "INPUT": {"ephemerides_type": "external", "eph_format": "csv", "size_serial_chunk": "10", "aux_format": "csv",
              "pointing_sql_query": LSST_QUERY},
    "FILTERS": {"observing_filters": "r,g,i,z,u,y"},
    "PHASECURVES": {"phase_function": "HG"},
    "FOV": {"camera_model": "none"},
    "OUTPUT": {"output_format": "csv", "output_columns": "basic"},
}


def ini_text(sections):
    out = []
    for s, kv in sections.items():
        if kv is None:
            continue
        out.append(f"[{s}]")
        for k, v in kv.items():
            if v is not None:
                out.append(f"{k} = {v}")
        out.append("")
    return "\n".join(out)


def merged(**over):
    d = {k: dict(v) for k, v in BASE.items()}
    for s, kv in over.items():
        if kv is None:
            d.pop(s, None)
        else:
            d.setdefault(s, {}).update(kv)
    return d


def write_ini(sections, path=None):
    path = path or tmp(".ini")
    with open(path, "w") as f:
        f.write(ini_text(sections))
    return path


def configs(survey="rubin_sim", **over):
    from sorcha.utilities.sorchaConfigs import sorchaConfigs

    p = write_ini(merged(**over))
    return sorchaConfigs(p, survey)


def rngs(seed):
    from sorcha.utilities.sorchaModuleRNG import PerModuleRNG

    return PerModuleRNG(int(seed))


# --------------------------------------------------------------------------- geometry helpers (independent)


def unit(ra_deg, dec_deg):
    a, d = np.radians(ra_deg), np.radians(dec_deg)
    return np.stack([np.cos(d) * np.cos(a), np.cos(d) * np.sin(a), np.sin(d)], axis=-1)


def radec(v):
    v = np.asarray(v, float)
    ra = np.degrees(np.arctan2(v[..., 1], v[..., 0])) % 360.0
    dec = np.degrees(np.arctan2(v[..., 2], np.hypot(v[..., 0], v[..., 1])))
    return ra, dec


def angsep(ra1, dec1, ra2, dec2):
    """Angular separation in degrees; accurate at all scales."""
    a, b = unit(ra1, dec1), unit(ra2, dec2)
    c = np.linalg.norm(np.cross(a, b), axis=-1)
    return np.degrees(np.arctan2(c, np.sum(a * b, axis=-1)))


def offset(ra, dec, sep_deg, pa_deg):
    """Point at separation sep and position angle pa (E of N) from (ra, dec)."""
    ra, dec, sep, pa = (np.radians(np.asarray(x, float)) for x in (ra, dec, sep_deg, pa_deg))
    n = np.stack([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)], -1)
    e = np.stack([-np.sin(ra), np.cos(ra), np.zeros_like(ra + dec) + 0.0], -1)
    no = np.stack([-np.sin(dec) * np.cos(ra), -np.sin(dec) * np.sin(ra), np.cos(dec)], -1)
    d = np.sin(pa)[..., None] * e + np.cos(pa)[..., None] * no
    v = np.cos(sep)[..., None] * n + np.sin(sep)[..., None] * d
    return radec(v)


def rand_sky(rng, n, hostile=True):
    """Sky positions incl. poles and the RA wrap."""
    z = rng.uniform(-1, 1, n)
    dec = np.degrees(np.arcsin(z))
    ra = rng.uniform(0, 360, n)
    if hostile and n:
        k = rng.random(n)
        dec = np.where(k < 0.1, rng.choice([-1, 1], n) * rng.uniform(86, 89.999, n), dec)
        ra = np.where((k > 0.1) & (k < 0.25), (rng.normal(0, 0.8, n)) % 360, ra)
    return ra, dec


# --------------------------------------------------------------------------- observations frames


def obs_frame(rng, n, objs=None, filters=LSST_FILTERS, category=True):
    """Rows as they look after photometry, uncertainties and randomisation (LSST path)."""
    objs = objs or [f"o{i}" for i in range(max(1, n // 4))]
    ra, dec = rand_sky(rng, n)
    df = pd.DataFrame(
        {
            "ObjID": rng.choice(np.array(objs, dtype=object), n),
            "FieldID": rng.integers(0, 10_000, n),
            "fieldMJD_TAI": np.sort(rng.uniform(60200, 60300, n)),
            "RA_deg": ra,
            "Dec_deg": dec,
            "RATrue_deg": ra,
            "DecTrue_deg": dec,
            "optFilter": rng.choice(np.array(filters, dtype=object), n),
            "trailedSourceMagTrue": rng.uniform(14, 26, n),
            "PSFMagTrue": rng.uniform(14, 26, n),
            "trailedSourceMag": rng.uniform(14, 26, n),
            "PSFMag": rng.uniform(14, 26, n),
            "fiveSigmaDepth_mag": rng.uniform(21, 25, n),
            "SNRPSFMag": rng.uniform(0.1, 50, n),
            "SNRTrailedSourceMag": rng.uniform(0.1, 50, n),
            "trailedSourceMagSigma": rng.uniform(0.001, 0.3, n),
            "PSFMagSigma": rng.uniform(0.001, 0.3, n),
            "astrometricSigma_deg": rng.uniform(1e-6, 1e-4, n),
            "RARateCosDec_deg_day": rng.normal(0, 0.5, n),
            "DecRate_deg_day": rng.normal(0, 0.5, n),
        }
    )
    v = rng.normal(0, 1, (n, 3)) * (10 ** rng.uniform(0, 1.5, n))[:, None] * AU_KM
    for j, c in enumerate("xyz"):
        df[f"Obj_Sun_{c}_LTC_km"] = v[:, j]
    df["vid"] = np.arange(n) + 1000
    if category:
        df["optFilter"] = df["optFilter"].astype("category")
    return df


def rows_by_vid(df):
    return {r["vid"]: r for r in df.to_dict("records")}


def same_value(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    return a == b


def kept_exactly(ck, what, before, after, keep_mask, ctx=None, free=(), added=()):
    """Monitor of one cut: exactly the rows of keep_mask survive, each once, with every value unchanged."""
    b = before.reset_index(drop=True)
    want = set(b["vid"][np.asarray(keep_mask)])
    got_list = list(after["vid"])
    got = set(got_list)
    w = lambda: {"what": what, "ctx": ctx, "lost": b[b.vid.isin(want - got)].head(5).to_dict("records"),
                 "wrongly_kept": b[b.vid.isin(got - want)].head(5).to_dict("records"), "n": len(b)}
    ck.ev("rows_in", len(b))
    ck.ev("rows_kept", len(want))
    ck.ev("rows_dropped", len(b) - len(want))
    ok = ck.ensure(len(got_list) == len(got), f"{what}: a row was duplicated", w)
    ok &= ck.ensure(not (want - got), f"{what}: {len(want - got)} row(s) that must survive were removed", w)
    ok &= ck.ensure(not (got - want), f"{what}: {len(got - want)} row(s) that must be removed survived", w)
    if ok:
        unchanged(ck, what, b, after, free, ctx)
    return ok


def unchanged(ck, what, before, after, free=(), ctx=None):
    """Frame condition: columns of `before` not in `free` have the same values in `after` (matched by vid)."""
    cols = [c for c in before.columns if c not in free]
    miss = [c for c in cols if c not in after.columns]
    if not ck.ensure(not miss, f"{what}: columns {miss} disappeared", {"ctx": ctx}):
        return False
    bi = before.set_index("vid", drop=False)
    ai = after.set_index("vid", drop=False)
    bi = bi.loc[ai.index]
    for c in cols:
        x, y = bi[c].to_numpy(dtype=object), ai[c].to_numpy(dtype=object)
        bad = [i for i in range(len(x)) if not same_value(x[i], y[i])]
        if bad:
            return ck.ensure(False, f"{what}: column {c} of a surviving row was altered",
                             {"ctx": ctx, "vid": ai.index[bad[0]], "before": x[bad[0]], "after": y[bad[0]]})
    ck.ev("frame_values_compared", len(cols) * len(ai))
    return True
