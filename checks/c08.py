"""C08: randomisation of positions and magnitudes."""
import numpy as np
import pandas as pd

from vlib.common import Check
from vlib import stat
from vlib import world as W


def make():
    ck = Check(
        "C08",
        "Each case is one call of the randomisation stage on a random table in one sky stratum (equator, mid-latitude, RA "
        "wrap, close to a pole, exactly on a pole, whole sky) with sigmas from 0.05 to 20 arcsec; residuals are accumulated "
        "and tested. Non-trivial = table has rows.",
        ["tests reject at p < 1e-9 per statistic", "small-angle statistics: sigma <= 20 arcsec"],
    )
    ck.need("statistical_tests", 40)
    ck.need("random_values_tested", 20000)
    ck.need("rows_wrapping_ra", 20)
    ck.need("rows_in_large_chunks", 200000)
    return ck


STRATA = ["equator", "mid", "wrap", "pole", "exact_pole", "sky"]


def place(rng, s, n):
    if s == "equator":
        return rng.uniform(0, 360, n), rng.normal(0, 0.2, n)
    if s == "mid":
        return rng.uniform(0, 360, n), rng.choice([-1, 1], n) * rng.uniform(50, 70, n)
    if s == "wrap":
        return (rng.normal(0, 0.001, n)) % 360, rng.uniform(-75, 75, n)
    if s == "pole":
        return rng.uniform(0, 360, n), rng.choice([-1, 1], n) * (90 - 10 ** rng.uniform(-3, 0.5, n))
    if s == "exact_pole":
        return rng.uniform(0, 360, n), rng.choice([-90.0, 90.0], n)
    return W.rand_sky(rng, n)


def table(rng, s, n):
    df = W.obs_frame(rng, n, category=bool(rng.integers(2)))
    df = df.drop(columns=["RATrue_deg", "DecTrue_deg", "trailedSourceMag", "PSFMag"])
    df["RA_deg"], df["Dec_deg"] = place(rng, s, n)
    df["astrometricSigma_deg"] = (0.2 if s == "exact_pole" else 0.05) * 10 ** rng.uniform(0, 2, n) / 3600.0
    df["trailedSourceMagSigma"] = 10 ** rng.uniform(-3, 0, n)
    df["PSFMagSigma"] = 10 ** rng.uniform(-3, 0, n)
    df["SNRPSFMag"] = 10 ** rng.uniform(-0.5, 2, n)
    if rng.integers(2):
        df.index = rng.permutation(n) + 3
    return df


def tangent(ra0, de0, ra, de):
    """Offsets (east, north) in degrees, exact direction and great-circle length."""
    a, b = W.unit(ra0, de0), W.unit(ra, de)
    al = np.radians(ra0)
    d = np.radians(de0)
    e = np.stack([-np.sin(al), np.cos(al), 0 * al], -1)
    no = np.stack([-np.sin(d) * np.cos(al), -np.sin(d) * np.sin(al), np.cos(d)], -1)
    dx, dy = np.sum((b - a) * e, -1), np.sum((b - a) * no, -1)
    h = np.hypot(dx, dy)
    s = np.radians(W.angsep(ra0, de0, ra, de))
    k = np.where(h > 0, s / np.where(h > 0, h, 1), 0)
    return np.degrees(dx * k), np.degrees(dy * k)


FREE = ("RA_deg", "Dec_deg")


def run(ck):
    from sorcha.modules.PPRandomizeMeasurements import randomizeAstrometryAndPhotometry

    rng = ck.rng("rand")
    acc = {}
    cfgs = {}
    for tr in (True, False):
        for cut in (True, False):
            cfgs[tr, cut] = ck.must(W.configs, EXPERT={"trailing_losses_on": tr, "default_SNR_cut": cut})
    for i in range(ck.n(90, 900)):
        s = STRATA[i % len(STRATA)]
        n = int(rng.choice([0, 1, 2, 300, 700]))
        tr, cut = bool(rng.integers(2)), bool(rng.integers(2))
        mr = W.rngs(int(rng.integers(1 << 31)))
        for rep in range(2):  # two calls on the same generators: successive chunks
            df = table(rng, s, n)
            before = df.copy(deep=True)
            ctx = {"stratum": s, "rows": n, "trailing": tr, "default_snr_cut": cut, "call": rep}
            ck.case([i, rep, ctx], n > 0, ctx)
            out = ck.must(randomizeAstrometryAndPhotometry, df, cfgs[tr, cut], mr, verbose=False, _w=ctx)
            kept = before[before.SNRPSFMag > 2.0] if cut else before
            if not ck.ensure(list(out["vid"]) == list(kept["vid"]), "randomisation changed which rows are present",
                             {"ctx": ctx, "want": list(kept["vid"])[:20], "got": list(out["vid"])[:20]}):
                continue
            W.unchanged(ck, "randomisation", kept, out, FREE, ctx)
            k = kept.reset_index(drop=True)
            o = out.reset_index(drop=True)
            need = ["RATrue_deg", "DecTrue_deg", "RA_deg", "Dec_deg", "trailedSourceMag", "PSFMag"]
            if not ck.ensure(all(c in o for c in need), "randomisation did not produce its columns", {"cols": list(o.columns)}):
                continue
            ck.ensure(np.array_equal(o.RATrue_deg, k.RA_deg) and np.array_equal(o.DecTrue_deg, k.Dec_deg),
                      "the true position is not kept as RATrue/DecTrue", {"ctx": ctx})
            if len(k) == 0:
                ck.ev("empty_tables")
                continue
            ra, de = o.RA_deg.to_numpy(), o.Dec_deg.to_numpy()
            bad = ~((ra >= 0) & (ra < 360) & (np.abs(de) <= 90))
            ck.ensure(not bad.any(), "randomised position is not a valid sky coordinate",
                      lambda: {"ctx": ctx, "rows": o[bad].head(3).to_dict("records")})
            ck.ev("rows_wrapping_ra", int((np.abs(ra - k.RA_deg) > 180).sum()))
            x, y = tangent(k.RA_deg.to_numpy(), k.Dec_deg.to_numpy(), ra, de)
            sg = k.astrometricSigma_deg.to_numpy()
            acc.setdefault((s, "e"), []).append(x / sg)
            acc.setdefault((s, "n"), []).append(y / sg)
            zt = ((o.trailedSourceMag - k.trailedSourceMagTrue) / k.trailedSourceMagSigma).to_numpy()
            acc.setdefault(("mag", "t"), []).append(zt)
            acc.setdefault(("mag", "e"), []).append(x / sg)
            if tr:
                zp = ((o.PSFMag - k.PSFMagTrue) / k.PSFMagSigma).to_numpy()
                acc.setdefault(("magp", "p"), []).append(zp)
                acc.setdefault(("magp", "t"), []).append(zt)
            else:
                ck.ensure(np.array_equal(o.PSFMag, o.trailedSourceMag),
                          "without trailing losses the PSF and trailed-source magnitudes of a detection differ", {"ctx": ctx})
            if rep == 0:
                prev = (zt, x / sg)
            elif n > 100 and not cut:
                acc.setdefault(("succ", "t0"), []).append(prev[0])
                acc.setdefault(("succ", "t1"), []).append(zt)
                acc.setdefault(("succ", "e0"), []).append(prev[1])
                acc.setdefault(("succ", "e1"), []).append(x / sg)
    A = {k: np.concatenate(v) for k, v in acc.items()}
    for s in STRATA:
        e, no = A[s, "e"], A[s, "n"]
        w = {"stratum": s, "n": len(e)}
        stat.normal(ck, f"east residuals / sigma [{s}]", e, w)
        stat.normal(ck, f"north residuals / sigma [{s}]", no, w)
        stat.uniform(ck, f"radial residuals [{s}]", 1 - np.exp(-(e**2 + no**2) / 2), w)
        stat.uniform(ck, f"direction of residuals [{s}]", (np.arctan2(e, no) / (2 * np.pi)) % 1.0, w)
        stat.uncorrelated(ck, f"east and north residuals [{s}]", e, no, w)
        stat.uncorrelated(ck, f"squared east and north residuals [{s}]", np.minimum(e**2, 9), np.minimum(no**2, 9), w)
        stat.uncorrelated(ck, f"residuals of consecutive rows [{s}]", e[1:], e[:-1], w)
    stat.normal(ck, "trailed-source magnitude residuals / sigma", A["mag", "t"])
    stat.uncorrelated(ck, "residuals of consecutive rows", A["mag", "t"][1:], A["mag", "t"][:-1])
    stat.uncorrelated(ck, "magnitude and position residuals", A["mag", "t"], A["mag", "e"])
    stat.normal(ck, "PSF magnitude residuals / sigma", A["magp", "p"])
    stat.uncorrelated(ck, "PSF and trailed-source magnitude residuals", A["magp", "p"], A["magp", "t"])
    stat.uncorrelated(ck, "magnitude residuals of successive chunks", A["succ", "t0"], A["succ", "t1"])
    stat.uncorrelated(ck, "position residuals of successive chunks", A["succ", "e0"], A["succ", "e1"])


def big(ck):
    """Chunks of many rows: the draws do not repeat."""
    from sorcha.modules.PPRandomizeMeasurements import randomizeAstrometryAndPhotometry

    rng = ck.rng("big")
    cfg = ck.must(W.configs, EXPERT={"trailing_losses_on": True, "default_SNR_cut": False})
    for i, n in enumerate([5000, 12000, 33000, 70000, 140000] + ([300000, 1100000] if ck.tier != "quick" else [])):
        s = ["sky", "equator", "mid"][i % 3]
        mr = W.rngs(int(rng.integers(1 << 31)))
        df = table(rng, s, n)
        k = df.copy(deep=True).reset_index(drop=True)
        ctx = {"stratum": s, "rows": n}
        ck.case(["big", i, n], True, ctx)
        o = ck.must(randomizeAstrometryAndPhotometry, df, cfg, mr, verbose=False, _w=ctx).reset_index(drop=True)
        if not ck.ensure(list(o["vid"]) == list(k["vid"]), "randomisation changed which rows are present", ctx):
            continue
        x, y = tangent(k.RA_deg.to_numpy(), k.Dec_deg.to_numpy(), o.RA_deg.to_numpy(), o.Dec_deg.to_numpy())
        sg = k.astrometricSigma_deg.to_numpy()
        for nm, z in (("east residuals", x / sg), ("north residuals", y / sg), ("trailed-source magnitude residuals", (o.trailedSourceMag - k.trailedSourceMagTrue) / k.trailedSourceMagSigma),
                      ("PSF magnitude residuals", (o.PSFMag - k.PSFMagTrue) / k.PSFMagSigma)):
            z = np.asarray(z, float)
            stat.normal(ck, f"{nm} of a large chunk / sigma", z, ctx)
            stat.no_repeats(ck, f"{nm} of a large chunk", z, ctx)
        ck.ev("rows_in_large_chunks", n)


def units(ck):
    """randomizeAstrometry in its other units, with its default column names."""
    from sorcha.modules.PPRandomizeMeasurements import randomizeAstrometry

    rng = ck.rng("units")
    F = {"deg": 1.0, "mas": 3600000.0, "rad": np.pi / 180}
    res = {}
    for i in range(ck.n(36, 200)):
        cu, su = ["deg", "mas", "rad"][i % 3], ["deg", "mas", "rad"][(i // 3) % 3]
        n = 400
        ra, de = W.rand_sky(rng, n)
        sg = 10 ** rng.uniform(0, 1.3, n) / 3600
        df = pd.DataFrame({"RA_deg": ra * F[cu], "Dec_deg": de * F[cu], "AstSig(deg)": sg * F[su], "vid": np.arange(n) + 1000})
        k = df.copy(deep=True)
        ctx = {"coordinate_units": cu, "sigma_units": su}
        ck.case(["u", i, ctx], True, ctx)
        o = ck.must(randomizeAstrometry, df, W.rngs(int(rng.integers(1 << 31))), radecUnits=cu, sigUnits=su, _w=ctx)
        ck.ensure(np.array_equal(o.RATrue_deg, k.RA_deg) and np.array_equal(o.DecTrue_deg, k.Dec_deg), "true position lost", ctx)
        ra1, de1 = o.RA_deg.to_numpy() / F[cu], o.Dec_deg.to_numpy() / F[cu]
        sep = W.angsep(ra, de, ra1, de1)
        res.setdefault((cu, su), []).append(1 - np.exp(-((sep / sg) ** 2) / 2))
        ck.ensure(np.all((ra1 >= 0) & (ra1 < 360.0000001)), "RA out of range", ctx)
    for (cu, su), u in res.items():
        stat.uniform(ck, f"radial residuals with coordinates in {cu}, sigma in {su}", np.concatenate(u), {"units": [cu, su]})


def helpers(ck):
    """radec <-> icrf conversions invert each other everywhere."""
    from sorcha.modules.PPRandomizeMeasurements import icrf2radec, radec2icrf, flux2mag, mag2flux

    rng = ck.rng("helpers")
    for i in range(ck.n(40, 400)):
        n = int(rng.integers(1, 80))
        ra, de = W.rand_sky(rng, n)
        v = np.asarray(ck.must(radec2icrf, ra, de))
        ck.case(["h", i], True)
        ck.ensure(np.allclose(v.T, W.unit(ra, de), atol=1e-14), "radec2icrf is not the unit vector of (RA, Dec)", {"ra": ra, "dec": de})
        sc = 10 ** rng.uniform(-3, 3, n)
        r2, d2 = ck.must(icrf2radec, *(v * sc))
        ck.ensure(np.all((np.asarray(r2) >= 0) & (np.asarray(r2) < 360)) and np.max(W.angsep(ra, de, r2, d2)) < 1e-6,
                  "icrf2radec does not invert radec2icrf", {"ra": ra, "dec": de, "scale": sc})
        r3, d3 = ck.must(icrf2radec, *v, deg=False)
        ck.ensure(np.max(W.angsep(ra, de, np.degrees(r3), np.degrees(d3))) < 1e-6, "icrf2radec in radians is wrong", {"ra": ra, "dec": de})
        r4, d4 = ck.must(icrf2radec, *[float(q) for q in v[:, 0]])
        ck.ensure(W.angsep(ra[0], de[0], r4, d4) < 1e-6, "icrf2radec of a single vector is wrong", {"ra": ra[0], "dec": de[0]})
        m = rng.uniform(10, 30, n)
        ck.ensure(np.allclose(flux2mag(mag2flux(m)), m, rtol=0, atol=1e-9), "flux2mag does not invert mag2flux", {"m": m})


def parts():
    return [("helpers", helpers), ("units", units), ("big", big), ("run", run)]
