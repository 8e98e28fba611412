"""C33: light-curve and activity plugins are applied to the right rows."""
import os
import shutil
import zlib

import numpy as np
import pandas as pd

from vlib.common import Check, SkipCase
from vlib import pipeline as P
from vlib import world as W
from checks.c30 import execute, ns

KM = 149597870.700  # per au
LOG = []
MODELS = {}


def models():
    """Plugin models which record what they are given. Made once, when the code under test is there."""
    if MODELS:
        return MODELS
    from sorcha.lightcurves.base_lightcurve import AbstractLightCurve
    from sorcha.activity.base_activity import AbstractCometaryActivity

    class WaveLC(AbstractLightCurve):
        def __init__(self, required_column_names=["fieldMJD_TAI", "LCA", "Period", "Time0"]):
            super().__init__(required_column_names)

        def compute(self, df):
            self._validate_column_names(df)
            LOG.append(("lc", df[["ObjID", "FieldID", "LCA", "Period", "Time0", "trailedSourceMagTrue"]].copy()))
            return wave(df["ObjID"].values, df["FieldID"].values, df["fieldMJD_TAI"].values, df["LCA"].values, df["Period"].values, df["Time0"].values)

        def maxBrightness(self, df):
            return -np.abs(df["LCA"].values) - 0.2

        @staticmethod
        def name_id():
            return "verif_wave"

    class PlainLC(AbstractLightCurve):  # only what the template class asks for
        def compute(self, df):
            LOG.append(("lc", df[["ObjID", "FieldID", "trailedSourceMagTrue"]].copy()))
            r = np.where(df["optFilter"].astype(str).values == "r", -0.7, 0.4)
            r.flags.writeable = False
            return r

        @staticmethod
        def name_id():
            return "verif_plain"

    class Dust(AbstractCometaryActivity):
        def __init__(self):
            super().__init__(["trailedSourceMagTrue", "optFilter", "afrho1", "k"])

        def compute(self, df, observing_filters, rho, delta, alpha):
            self._validate_column_names(df)
            LOG.append(("ca", df[["ObjID", "FieldID", "afrho1", "k", "trailedSourceMagTrue", "optFilter"]].assign(rho=np.asarray(rho), delta=np.asarray(delta), alpha=np.asarray(alpha)), list(observing_filters)))
            df = df.copy()
            df["coma_verif"] = dust(df["afrho1"].values, df["k"].values, rho, delta, alpha)
            df["trailedSourceMagTrue"] = -2.5 * np.log10(10 ** (-0.4 * df["coma_verif"].values) + 10 ** (-0.4 * df["trailedSourceMagTrue"].values))
            return df

        def maxBrightness(self, df, observing_filters, rho, delta, alpha):
            c = dust(df["afrho1"].values, df["k"].values, np.asarray(rho), np.asarray(delta), np.asarray(alpha))
            return -2.5 * np.log10(10 ** (-0.4 * c) + 10 ** (-0.4 * df["trailedSourceMagTrue"].values))

        @staticmethod
        def name_id():
            return "verif_dust"

    class Needy(AbstractLightCurve):
        def __init__(self):
            super().__init__(["a_column_which_is_not_there"])

        def compute(self, df):
            self._validate_column_names(df)
            return np.zeros(len(df))

        @staticmethod
        def name_id():
            return "verif_needy"

    MODELS.update(WaveLC=WaveLC, PlainLC=PlainLC, Dust=Dust, Needy=Needy)
    return MODELS


def wave(o, f, t, a, p, t0):
    h = np.array([zlib.crc32(f"{x}|{int(y)}".encode()) % 1000 for x, y in zip(o, f)]) / 5000.0
    return np.asarray(a, float) * np.sin(2 * np.pi * (np.asarray(t, float) - np.asarray(t0, float)) / np.asarray(p, float)) + h - 0.1


def dust(af, k, rho, delta, alpha):
    return 21.0 - 2.5 * np.log10(np.asarray(af, float)) + 2.5 * np.asarray(k, float) * np.log10(rho) + 5 * np.log10(delta) + 0.01 * np.asarray(alpha)


def make():
    ck = Check(
        "C33",
        "Each case is one generated survey and population with a complex-parameter file in another order, run through the real entry point without and with recording light-curve and activity "
        "models; the recorded calls and the output rows are compared, by object and visit, with the run without a model and the generated parameters. Or one configuration naming models, or one run "
        "which computes its ephemerides with and without the cut of faint objects. Non-trivial = at least one row whose magnitude the model changed.",
        ["models return arrays in the order of the rows, as their template says", "cuts by brightness are switched off where rows of runs with and without models are compared"],
    )
    for k, n in {"rows_lc": 300, "rows_activity": 300, "rows_both": 150, "unchanged_without_model": 200, "identity_rows": 300, "identity_activity_rows": 200, "refused_models": 20,
                 "multi_chunk": 8, "single_row_chunks": 4, "ar_runs": 6, "ar_brightened": 1, "unregistered_columns": 3, "registry": 3, "missing_parameters": 6, "culling_rows": 300, "culled": 30, "kept_by_model": 20,
                 "des_runs": 2, "des_fading_rows": 20}.items():
        ck.need(k, n)
    return ck


KEY = ["ObjID", "FieldID"]


def cp(rng, w):
    n = len(w.ids)
    t = pd.DataFrame({"ObjID": w.ids, "LCA": rng.uniform(0.2, 1.5, n), "Period": 10 ** rng.uniform(-1.5, 1, n), "Time0": rng.uniform(60000, 60010, n), "afrho1": 10 ** rng.uniform(0, 3, n),
                      "k": rng.uniform(-4, -1, n)})
    w.cp = t[["ObjID"] + [str(c) for c in rng.permutation(t.columns[1:])]]
    return w.cp


OFF = {"EXPERT": {"randomization_on": "False", "default_snr_cut": "False"}, "OUTPUT": {"output_columns": "all", "output_format": "csv"}, "FADINGFUNCTION": {"fading_function_on": "False"}}


def go(ck, w, d, name, ctx, lc=None, ca=None, usecp=True, expect=True, ar=None, over=None, seed=7):
    """One real run; returns its rows or None if it was refused."""
    sec = {k: dict(v) for k, v in OFF.items()}
    for k, v in (over or {}).items():
        sec.setdefault(k, {}).update(v)
    if lc is not None:
        sec["LIGHTCURVE"] = {"lc_model": lc}
    if ca is not None:
        sec["ACTIVITY"] = {"comet_activity": ca}
    out = os.path.join(d, name)
    os.makedirs(out)
    inip = W.write_ini(P.sections(w, **sec), os.path.join(d, name + ".ini"))
    f = dict(w.files)
    if not usecp:
        w.files = {k: v for k, v in f.items() if k != "complex_physical_parameters"}
    LOG.clear()
    try:
        r, e = ck.call(execute, ns(w, inip, out, ar=ar), seed)
    finally:
        w.files = f
    if e is not None or r != 0:
        if expect:
            ck.violation("a valid run with plugin models failed", {"ctx": ctx, "run": name, "error": f"{type(e).__name__}: {str(e)[:300]}" if e is not None else str(r)[:300]}, "failed " + name)
        return e if e is not None else SystemExit(r)
    t = P.read_output(out, "out", "csv")
    return t if t is not None else pd.DataFrame(columns=KEY)


def index(t):
    return t.assign(ObjID=t["ObjID"].astype(str)).set_index(KEY).sort_index()


def part_runs(ck):
    M = models()
    rng = ck.rng("runs")
    for i in range(ck.n(40, 250)):
        phase = ["HG", "HG1G2", "HG12", "linear", "none"][int(rng.integers(5))]
        des = i % 5 == 4
        w = P.make(rng, "DES" if des else "rubin_sim", n=int(rng.choice([3, 6, 9])), groups=2, nights=3, phase=phase, hrange=(14, 22))
        t = cp(rng, w)
        d = W.tmpdir()
        ctx = {"i": i, "survey": w.survey, "phase": phase, "objects": len(w.ids), "filters": w.filters}
        if i % 4 == 1:  # objects seen once
            ctx["single"] = list(w.ids[::2])
            e = w.eph[w.eph.ObjID.isin(ctx["single"])].sample(frac=1, random_state=i).drop_duplicates("ObjID").index
            w.eph = w.eph[~w.eph.ObjID.isin(ctx["single"]) | w.eph.index.isin(e)].reset_index(drop=True)
        try:
            P.write(w, os.path.join(d, "in"), "csv", str(rng.choice(["csv", "whitespace"])) if all(" " not in str(x) for x in w.ids) else "csv", rng=rng)
            one(ck, rng, w, t.set_index("ObjID"), d, ctx)
            if des:
                ck.ev("des_runs")
        except SkipCase:
            pass
        finally:
            shutil.rmtree(d, ignore_errors=True)


def compare(ck, base, got, ctx, what, but=()):
    """The runs differ at most in the columns `but`."""
    if not ck.ensure(list(base.index) == list(got.index), f"the {what} changes which observations there are", lambda: {"ctx": ctx, "rows": [len(base), len(got)]}, "rows"):
        return False
    cols = [c for c in base.columns if c not in but]
    miss = [c for c in cols if c not in got.columns]
    ck.ensure(not miss, f"columns are missing with the {what}", {"ctx": ctx, "columns": miss}, "columns")
    for c in cols:
        if c in miss:
            continue
        a, b = base[c], got[c + "_pointing" if c + "_pointing" in got.columns and c == "k" else c]
        if pd.api.types.is_numeric_dtype(a):
            ok = np.allclose(a.astype(float), b.astype(float), rtol=1e-12, atol=0, equal_nan=True)
        else:
            ok = (a.astype(str) == b.astype(str)).all()
        ck.ensure(ok, f"the {what} changes a column it has nothing to do with", {"ctx": ctx, "column": c}, "other columns")
    return True


DEPENDENT = ("trailedSourceMagTrue", "trailedSourceMag", "PSFMag", "PSFMagTrue", "PSFMagSigma", "trailedSourceMagSigma", "SNR", "SNRPSFMag", "SNRTrailedSourceMag", "astrometricSigma_deg",
             "AstRASigma(mas)", "AstDecSigma(mas)", "PhotometricSigmaPSF(mag)", "PhotometricSigmaTrailedSource(mag)", "trailedSourceMagSigma", "PSFMagSigma", "visible", "Delta_m", "coma_verif")


def close(a, b, tol=2e-9):
    return np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=0, atol=tol)


def one(ck, rng, w, par, d, ctx):
    par.index = par.index.astype(str)
    chunk = 1 if "single" in ctx else int(rng.choice([1, 2, 3, 100]))
    over = {"INPUT": {"size_serial_chunk": str(chunk)}}
    if chunk < len(w.ids):
        ck.ev("multi_chunk")
    ctx["chunk"] = chunk
    a = go(ck, w, d, "plain", ctx, usecp=False, over=over)
    if isinstance(a, BaseException):
        return
    a = index(a)
    ck.case(ctx, len(a) > 0, ctx)
    ck.ev("single_row_chunks", sum(1 for x in ctx.get("single", ()) if x in set(a.index.get_level_values(0))))
    nocols = {"trailedSourceMagTrue"} - set(a.columns)
    if not len(a):
        return
    if nocols:
        ck.violation("the output lacks the magnitude without measurement errors", {"ctx": ctx, "columns": list(a.columns)}, "harness")
        return
    b = go(ck, w, d, "unused", ctx, lc="none", ca="none", over=over)
    if not isinstance(b, BaseException):
        compare(ck, a, index(b), ctx, "complex-parameter file without a model")
        ck.ensure(list(index(b).columns) == list(a.columns), "a run without models has other columns when a complex-parameter file is given", {"ctx": ctx}, "columns")
        ck.ev("unchanged_without_model", len(a))
    lc = "verif_wave" if rng.random() < 0.75 else "verif_plain"
    p = par.reindex([x[0] for x in a.index])

    def shift():
        if lc == "verif_wave":
            return wave([x[0] for x in a.index], [x[1] for x in a.index], a["fieldMJD_TAI"].values, p["LCA"].values, p["Period"].values, p["Time0"].values)
        return np.where(a["optFilter"].astype(str).values == "r", -0.7, 0.4)

    b = go(ck, w, d, "lc", ctx, lc=lc, over=over)
    if not isinstance(b, BaseException):
        b = index(b)
        if compare(ck, a, b, dict(ctx, lc=lc), "light-curve model", DEPENDENT):
            s = shift()
            dm = b["trailedSourceMagTrue"].values - a["trailedSourceMagTrue"].values
            ck.ensure(close(dm, s), "an observation does not have the light-curve change of its own object and time", lambda: worst(ctx, a, dm, s), "light curve")
            ck.ensure("Delta_m" in b.columns and close(b["Delta_m"], s), "the recorded light-curve change is not the model's", lambda: worst(ctx, a, b.get("Delta_m", dm * 0), s), "Delta_m")
            ck.ensure(close(b["trailedSourceMag"] - b["trailedSourceMagTrue"], 0 * s), "without randomisation the magnitude differs from the true one", {"ctx": ctx}, "light curve")
            ck.ev("rows_lc", len(a))
            recorded(ck, ctx, "lc", a, par, ["LCA", "Period", "Time0"] if lc == "verif_wave" else [])
    b = go(ck, w, d, "ca", ctx, ca="verif_dust", over=over)
    rho = np.sqrt(sum(a[f"Obj_Sun_{c}_LTC_km"].values ** 2 for c in "xyz")) / KM
    delta = a["Range_LTC_km"].values / KM
    coma = dust(p["afrho1"].values, p["k"].values, rho, delta, a["phase_deg"].values)
    if not isinstance(b, BaseException):
        b = index(b)
        if compare(ck, a, b, ctx, "activity model", DEPENDENT):
            want = -2.5 * np.log10(10 ** (-0.4 * coma) + 10 ** (-0.4 * a["trailedSourceMagTrue"].values))
            ck.ensure(close(b["trailedSourceMagTrue"], want), "an observation does not have the activity of its own object and geometry", lambda: worst(ctx, a, b["trailedSourceMagTrue"].values, want), "activity")
            ck.ensure("coma_verif" in b.columns and close(b["coma_verif"], coma), "a column made by the activity model is not kept for its rows", lambda: worst(ctx, a, b.get("coma_verif", coma * 0), coma), "activity column")
            ck.ev("rows_activity", len(a))
            recorded(ck, ctx, "ca", a, par, ["afrho1", "k"], filters=w.filters, geo=(rho, delta, a["phase_deg"].values))
    if rng.random() < 0.6:
        b = go(ck, w, d, "both", ctx, lc=lc, ca="verif_dust", over=over)
        if not isinstance(b, BaseException):
            b = index(b)
            if compare(ck, a, b, ctx, "pair of models", DEPENDENT):
                want = -2.5 * np.log10(10 ** (-0.4 * coma) + 10 ** (-0.4 * (a["trailedSourceMagTrue"].values + shift())))
                ck.ensure(close(b["trailedSourceMagTrue"], want), "light curve and activity are not combined for the observation they belong to",
                          lambda: worst(ctx, a, b["trailedSourceMagTrue"].values, want), "both")
                ck.ev("rows_both", len(a))
    if w.survey == "DES":  # with the fading function, whose columns of the visits are named c and k
        f = {k: dict(v) for k, v in over.items()}
        f["FADINGFUNCTION"] = {"fading_function_on": "True"}
        r = [go(ck, w, d, f"fade{j}", ctx, usecp=bool(j), lc="identity" if j else None, over=f) for j in (0, 1)]
        if not any(isinstance(x, BaseException) for x in r):
            r = [set(map(tuple, x[KEY].astype(str).values)) for x in r]
            ck.ensure(r[0] == r[1], "complex parameters change which observations fade", {"ctx": ctx, "rows": [len(x) for x in r]}, "fading")
            ck.ev("des_fading_rows", len(r[0]))
    for name, kw in (("identity lc", {"lc": "identity"}), ("identity activity", {"ca": "identity"}), ("identity both", {"lc": "identity", "ca": "identity"})):
        b = go(ck, w, d, name.replace(" ", "_"), ctx, over=over, **kw)
        if not isinstance(b, BaseException):
            compare(ck, a, index(b), ctx, name + " model")
            ck.ev("identity_rows", len(a))
            if "ca" in kw:
                ck.ev("identity_activity_rows", len(a))


def worst(ctx, a, got, want):
    k = int(np.nanargmax(np.abs(np.asarray(got, float) - np.asarray(want, float))))
    return {"ctx": ctx, "row": [str(x) for x in a.index[k]], "got": float(np.asarray(got)[k]), "expected": float(np.asarray(want)[k])}


def recorded(ck, ctx, kind, a, par, cols, filters=None, geo=None):
    """What the model was given: each observation once, with its own object's parameters."""
    calls = [x for x in LOG if x[0] == kind]
    t = pd.concat([x[1] for x in calls]) if calls else pd.DataFrame(columns=KEY)
    t = t.assign(ObjID=t["ObjID"].astype(str))
    n = t.groupby(KEY).size()
    ck.ensure((n == 1).all(), "the model was given an observation more than once", lambda: {"ctx": ctx, "rows": n[n > 1].head(3).to_dict().__repr__()}, "recorded")
    ck.ensure(set(a.index) <= set(n.index), "an observation of the output was not given to the model", {"ctx": ctx}, "recorded")
    for c in cols:
        ck.ensure(np.allclose(t[c].astype(float).values, par[c].reindex(t["ObjID"]).values.astype(float), rtol=1e-14), "the model was given an observation with parameters of another object",
                  {"ctx": ctx, "column": c}, "recorded parameters")
    if filters:
        ck.ensure(all(x[2] == list(filters) for x in calls), "the model was given other filters than the survey's", {"ctx": ctx, "given": [x[2] for x in calls][:2]}, "filters")
    t = t.set_index(KEY)
    t = t.reindex(a.index)
    if geo is not None:
        for nm, g in zip(("rho", "delta", "alpha"), geo):
            ck.ensure(np.allclose(t[nm].values.astype(float), g, rtol=1e-9), "the model was given the geometry of another observation", {"ctx": ctx, "what": nm}, "geometry")
    ck.ensure(close(t["trailedSourceMagTrue"], a["trailedSourceMagTrue"]), "the model was given another magnitude than that without a model", {"ctx": ctx}, "given magnitude")


def part_refusals(ck):
    M = models()
    rng = ck.rng("refusals")
    for i in range(ck.n(14, 80)):
        w = P.make(rng, n=4, groups=1, nights=2, pad_vis=3, hrange=(14, 18))
        t = cp(rng, w)
        d = W.tmpdir()
        try:
            P.write(w, os.path.join(d, "in"), "csv", "csv", rng=rng)
            for lc, ca in ((["Identity", "verif_wav", "verif_dust", "sinusoidal_", "WaveLC", "identity "][int(rng.integers(5))], None), (None, ["lsst", "verif_wave", "Dust", "IDENTITY", "comet"][int(rng.integers(5))])):
                r = go(ck, w, d, f"u{lc}{ca}", {}, lc=lc, ca=ca, expect=False)
                ctx = {"case": "unknown model", "lc": lc, "ca": ca, "result": repr(r)[:200] if isinstance(r, BaseException) else len(r)}
                ck.case([ctx, i], True, ctx)
                ck.ensure(isinstance(r, SystemExit) and r.code not in (0, None), "a model which is not registered was not refused cleanly", ctx, "unknown model")
                ck.ev("refused_models")
            # no file of parameters, objects missing in it
            lc, ca = [("verif_wave", None), (None, "verif_dust"), ("identity", None), (None, "identity")][int(rng.integers(4))]
            r = go(ck, w, d, "nocp", {}, lc=lc, ca=ca, usecp=False, expect=False)
            ctx = {"case": "no parameters", "lc": lc, "ca": ca, "result": repr(r)[:200] if isinstance(r, BaseException) else len(r)}
            ck.case([ctx, i], True, ctx)
            ck.ensure(isinstance(r, SystemExit) and r.code not in (0, None), "a model without a complex-parameter file was not refused cleanly", ctx, "no parameters")
            ck.ev("missing_parameters")
            p = w.files["complex_physical_parameters"]
            full = open(p).read()
            k = rng.integers(2)
            t2 = pd.read_csv(p, dtype=str, keep_default_na=False)
            if k:
                t2 = t2.drop(index=int(rng.integers(len(t2))))
            else:
                t2.loc[int(rng.integers(len(t2))), "ObjID"] = "somebody else"
            t2.to_csv(p, index=False)
            r = go(ck, w, d, "short", {}, lc="verif_wave", expect=False)
            ctx = {"case": "object without parameters", "missing": bool(k), "result": repr(r)[:200] if isinstance(r, BaseException) else len(r)}
            ck.case([ctx, i], True, ctx)
            ck.ensure(isinstance(r, SystemExit) and r.code not in (0, None), "an object without complex parameters was not refused cleanly", ctx, "object without parameters")
            ck.ev("missing_parameters")
            open(p, "w").write(full)
            # a column the model needs
            r = go(ck, w, d, "needy", {}, lc="verif_needy", expect=False)
            ctx = {"case": "column missing", "result": repr(r)[:200] if isinstance(r, BaseException) else len(r)}
            ck.case([ctx, i], True, ctx)
            ref = go(ck, w, d, "ref", {}, usecp=False)
            ck.ensure(isinstance(r, BaseException) or not len(ref), "a run whose model lacks a column it needs ended normally", ctx, "column")
            ck.ev("unregistered_columns")
        except SkipCase:
            pass
        finally:
            shutil.rmtree(d, ignore_errors=True)


def part_registry(ck):
    """New models are found, one name is one class."""
    from sorcha.lightcurves import lightcurve_registration as L
    from sorcha.lightcurves.base_lightcurve import AbstractLightCurve
    from sorcha.activity import activity_registration as A
    from sorcha.activity.base_activity import AbstractCometaryActivity

    for base, reg, upd, D, nargs in ((AbstractLightCurve, L.register_lc_subclasses, L.update_lc_subclasses, L.LC_METHODS, 1),
                                     (AbstractCometaryActivity, A.register_activity_subclasses, A.update_activity_subclasses, A.CA_METHODS, 5)):
        for k in range(3):
            before = dict(D)
            cls = type(f"V{k}", (base,), {"compute": lambda self, df, *a: None, "name_id": staticmethod(lambda k=k: f"verif_new_{k}")})
            upd()
            upd()
            ctx = {"base": base.__name__, "k": k}
            ck.case(["registry", base.__name__, k], True, ctx)
            ck.ensure(D.get(f"verif_new_{k}") is cls, "a new model is not found under its name", ctx, "registry")
            ck.ensure(all(D.get(n) is c for n, c in before.items()) and len(D) == len(before) + 1, "registering a model changes the others", ctx, "registry")
            ck.ensure(all(c.name_id() == n for n, c in D.items()), "a model is registered under another name", ctx, "registry")
            r, e = ck.call(reg)
            ck.ensure(e is None and r == dict(D), "registering anew gives other models", {"ctx": ctx, "error": repr(e)[:200]}, "registry")
            ck.ev("registry")
        # two models of one name: last, the classes stay known to python
        dup = type("W2", (base,), {"compute": lambda self, df, *a: None, "name_id": staticmethod(lambda: "verif_new_2")})
        r, e = ck.call(reg)
        ck.ensure(isinstance(e, ValueError), "two models of one name were registered", {"base": base.__name__}, "registry")
        upd()
        ck.ensure(D.get("verif_new_2") is cls and dup is not cls, "a model was replaced by another of the same name", {"base": base.__name__}, "registry")


def part_culling(ck):
    """No object which a model can make bright enough is cut; the others are cut exactly as without the model's change."""
    from sorcha.modules.PPFaintObjectCullingFilter import PPFaintObjectCullingFilter
    M = models()
    from sorcha.lightcurves.lightcurve_registration import update_lc_subclasses
    from sorcha.activity.activity_registration import update_activity_subclasses

    update_lc_subclasses()
    update_activity_subclasses()
    rng = ck.rng("culling")
    for i in range(ck.n(60, 600)):
        n = int(rng.integers(2, 14))
        filt = [str(x) for x in rng.permutation(list("ugrizy"))[: int(rng.integers(1, 7))]]
        main = filt[0]
        t = pd.DataFrame({"ObjID": P.names(rng, n), "q": rng.uniform(1.0, 30, n), "LCA": rng.uniform(0, 4, n), "Period": 1.0, "Time0": 0.0, "afrho1": 10 ** rng.uniform(-4, 4, n), "k": rng.uniform(-4, -1, n)})
        depth = {f: float(rng.uniform(22, 25)) for f in filt}
        t["H_" + main] = np.where(t.q > 2, np.mean(list(depth.values())) + 2 - 5 * np.log10(t.q * np.maximum(t.q - 1, 0.1)) + rng.normal(0, 2.0, n), rng.uniform(10, 30, n))
        for f in filt[1:]:
            t[f"{f}-{main}"] = rng.normal(0, 1.0, n)
        rows = [(f, depth[f] - (0 if j == 0 else rng.uniform(0, 3))) for f in filt for j in range(3)]
        v = pd.DataFrame(rows, columns=["optFilter", "fieldFiveSigmaDepth_mag"]).sample(frac=1, random_state=int(rng.integers(1 << 30)))
        t.index = rng.permutation(5 * n)[:n]
        lc = [None, "verif_wave", "verif_plain", "identity"][int(rng.integers(4))]
        ca = [None, "verif_dust", "identity"][int(rng.integers(3))]
        ctx = {"case": "culling", "i": i, "lc": lc, "ca": ca, "filters": filt}
        got = ck.must(PPFaintObjectCullingFilter, t.copy(), v, main, filt, lc, ca, _w=ctx)
        kept = set(got["ObjID"])
        ck.case(ctx, len(kept) < n, ctx)
        best = {}
        for f in filt:
            m = t["H_" + main] + (t[f"{f}-{main}"] if f != main else 0) + 5 * np.log10(t.q) + 5 * np.log10(np.maximum(t.q - 1, 1e-9))
            if lc == "verif_wave":
                m = m - t["LCA"] - 0.2
            if lc == "verif_plain":
                m = m * 0 - np.inf
            if ca == "verif_dust":
                m = -2.5 * np.log10(10 ** (-0.4 * dust(t.afrho1.values, t.k.values, t.q.values, np.maximum(t.q - 1, 1e-9).values, 0.0)) + 10 ** (-0.4 * m))
            best[f] = m - depth[f] - 2
        b = pd.DataFrame(best)
        for o, q, x in zip(t.ObjID, t.q, b.min(axis=1)):
            ck.ev("culling_rows")
            if q < 2 or x < -1e-9:
                ck.ensure(o in kept, "an object which can be bright enough was cut before the ephemeris is calculated", {"ctx": ctx, "ObjID": str(o), "q": float(q), "brighter than the limit by": float(-x)}, "cut")
                if lc or ca:
                    ck.ev("kept_by_model")
            elif x > 1e-9:
                ck.ensure(o not in kept, "an object which can never be bright enough was not cut", {"ctx": ctx, "ObjID": str(o), "q": float(q), "fainter than the limit by": float(x)}, "not cut")
                ck.ev("culled")
        same = got.reset_index(drop=True)
        orig = t[t.ObjID.isin(kept)].reset_index(drop=True)
        ck.ensure(all(c in same.columns and (same[c] == orig[c]).all() for c in orig.columns), "the cut changes the objects it keeps", ctx, "kept objects")


def part_ar(ck):
    """Runs which compute ephemerides: cutting faint objects first does not change what is observed."""
    from checks.c01 import ar_world
    M = models()
    rng = ck.rng("ar")
    for i in range(ck.n(3, 15)):
        w, over, ar = ar_world(rng, n=6, hrange=(16, 27), survey="DES" if i % 3 == 2 else "rubin_sim")
        t = cp(rng, w)
        w.cp = t.assign(LCA=rng.uniform(0, 3, len(t)), afrho1=10 ** rng.uniform(1, 4, len(t)))
        d = W.tmpdir()
        try:
            P.write(w, os.path.join(d, "in"), "csv", "csv", rng=rng)
            w.files.pop("input_ephemeris_file", None)
            ref = {}
            for name, lc, ca in (("none", None, None), ("wave", "verif_wave", None), ("dust", None, "verif_dust"), ("identity", "identity", "identity"), ("plain", "verif_plain", None)):
                r = []
                for brute in (True, False):
                    o = {k: dict(v) for k, v in over.items()}
                    o["EXPERT"] = dict(o["EXPERT"], brute_force=str(brute))
                    o["OUTPUT"] = dict(o.get("OUTPUT", {}), output_format="csv")
                    ctx = {"case": "computed ephemerides", "i": i, "models": name, "brute": brute}
                    x = go(ck, w, d, f"{name}{brute}", ctx, lc=lc, ca=ca, over=o, ar=ar)
                    if isinstance(x, BaseException):
                        continue
                    r.append(index(x) if len(x) else x)
                    ck.ev("ar_runs")
                ck.case(["ar", i, name], bool(r) and len(r[0]) > 0, {"i": i, "models": name})
                if len(r) < 2:
                    continue
                if not len(r[0]) or not len(r[1]):
                    ck.ensure(len(r[0]) == len(r[1]), "cutting faint objects first changes what is observed", {"ctx": ctx, "rows": [len(x) for x in r]}, "culled observations")
                    continue
                detectable = r[0]
                # what is too faint to matter may be cut: rows within 2 mag of the limit must agree
                lim = lambda x: x[x["trailedSourceMagTrue"] < x["fieldFiveSigmaDepth_mag"] + 1.9]
                a, b = lim(r[0]), lim(r[1])
                ck.ensure(list(a.index) == list(b.index), "cutting faint objects first loses observations which are bright enough",
                          lambda: {"ctx": ctx, "lost": [str(x) for x in a.index.difference(b.index)[:3]], "rows": [len(a), len(b)]}, "culled observations")
                if name == "none":
                    ref = set(r[1].index)
                elif ref and set(r[1].index) - ref:
                    ck.ev("ar_brightened")
                if name == "identity":
                    ck.ensure(not ref or set(r[1].index) == ref, "identity models change what is observed", {"ctx": ctx, "rows": [len(ref), len(r[1])]}, "identity")
        except SkipCase:
            pass
        finally:
            shutil.rmtree(d, ignore_errors=True)


def parts():
    return [("runs", part_runs), ("refusals", part_refusals), ("registry", part_registry), ("culling", part_culling), ("ar", part_ar)]
