"""C17: culling of faint objects."""
import numpy as np
import pandas as pd

from vlib.common import Check
from vlib import world as W

GM = 2.9591220828559115e-04


def make():
    ck = Check(
        "C17",
        "Each case is one object in one culling call: brightest magnitude placed around the limit, perihelion around 2 au and "
        "beyond, six orbit formats, several colours, filters and depths, with and without light-curve or activity models. "
        "Non-trivial = perihelion beyond 2 au.",
        ["Earth is between 0.983 and 1.017 au from the Sun; phase terms never brighten an object beyond zero phase angle",
         "objects within 0.005 mag of the limit or with perihelion within 0.001 au of 2 au are not judged (0.15 mag and 0.02 au for barycentric orbits)"],
    )
    ck.need("culled", 300)
    ck.need("judged_near_limit", 40)
    ck.need("judged_near_2au", 20)
    ck.need("few_deep_visits", 50)
    ck.need("kept_judged", 300)
    ck.need("detectable_in_one_filter_only", 50)
    ck.need("brightened_by_model", 30)
    ck.need("followed_to_detection", 200)
    for k, n in {"complete_runs": 8, "runs_that_culled": 4, "chunks_without_culling": 4, "chunks_culled_whole": 1, "rows_of_runs": 20, "objects_culled_in_runs": 8}.items():
        ck.need(k, n)
    return ck


def kepler(M, e):
    E = M + e * np.sin(M)
    for _ in range(200):
        d = (E - e * np.sin(E) - M) / (1 - e * np.cos(E))
        E -= d
        if abs(d) < 1e-14:
            break
    return E


def rot(inc, node, w):
    c, s = np.cos, np.sin
    P = np.array([c(node) * c(w) - s(node) * s(w) * c(inc), s(node) * c(w) + c(node) * s(w) * c(inc), s(w) * s(inc)])
    Q = np.array([-c(node) * s(w) - s(node) * c(w) * c(inc), -s(node) * s(w) + c(node) * c(w) * c(inc), c(w) * s(inc)])
    return P, Q


def state(q, e, inc, node, w, nu, mu=GM):
    p = q * (1 + e)
    P, Q = rot(inc, node, w)
    r = p / (1 + e * np.cos(nu))
    return r * (np.cos(nu) * P + np.sin(nu) * Q), np.sqrt(mu / p) * (-np.sin(nu) * P + (e + np.cos(nu)) * Q)


def population(rng, n, fmt, main, obsf, depth):
    rows = []
    for k in range(n):
        q = float(rng.choice([rng.uniform(0.3, 1.97), rng.uniform(2.03, 6), rng.uniform(6, 60)], p=[0.15, 0.5, 0.35]))
        if rng.random() < 0.1:
            q = 2 + float(rng.choice([-1, 1]) * rng.uniform(0.0015, 0.02))
        hyper = fmt in ("COM", "BCOM", "CART", "BCART") and rng.random() < 0.15
        e = float(rng.uniform(1.01, 3)) if hyper else float(rng.choice([rng.uniform(0, 0.4), rng.uniform(0.4, 0.97)]))
        inc, node, w = rng.uniform(0.01, np.pi - 0.01), rng.uniform(0, 2 * np.pi), rng.uniform(0, 2 * np.pi)
        epoch = 60200.0 if k == 0 or rng.random() < 0.6 else float(rng.uniform(50000, 62000))
        d = {"ObjID": f"O{k}", "FORMAT": fmt, "epochMJD_TDB": epoch, "qtrue": q, "_el": (q, e, inc, node, w)}
        nu = rng.uniform(-1, 1) * (2.9 if not hyper else 0.9 * np.arccos(-1 / e))
        if fmt in ("COM", "BCOM"):
            d.update(q=q, e=e, inc=np.degrees(inc), node=np.degrees(node), argPeri=np.degrees(w), t_p_MJD_TDB=float(epoch + rng.uniform(-2000, 2000)))
        elif fmt in ("KEP", "BKEP"):
            d.update(a=q / (1 - e), e=e, inc=np.degrees(inc), node=np.degrees(node), argPeri=np.degrees(w), ma=float(rng.uniform(0, 360)))
        else:
            x, v = state(q, e, inc, node, w, nu)
            d.update(x=x[0], y=x[1], z=x[2], xdot=v[0], ydot=v[1], zdot=v[2])
        cols = {f: float(rng.normal(0, 0.6)) for f in obsf if f != main}
        for f, c in cols.items():
            d[f"{f}-{main}"] = c
        # brightest possible magnitude placed relative to the limit of one filter
        f = str(rng.choice([f for f in obsf if f in depth] or obsf))
        geo = 5 * np.log10(q) + 5 * np.log10(max(q - 1.0, 0.05))
        off = rng.choice([-4, -1, -0.3, 0.3, 1.0, 4.0]) + rng.uniform(-0.1, 0.1) if rng.random() < 0.7 else rng.choice([-1, 1]) * rng.uniform(0.006, 0.03)
        d[f"H_{main}"] = depth.get(f, 24.0) + 2 - geo - cols.get(f, 0.0) + float(off)
        rows.append(d)
    return pd.DataFrame(rows)


def models():
    from sorcha.lightcurves.base_lightcurve import AbstractLightCurve
    from sorcha.activity.base_activity import AbstractCometaryActivity
    from sorcha.lightcurves.lightcurve_registration import update_lc_subclasses
    from sorcha.activity.activity_registration import update_activity_subclasses

    class VLC(AbstractLightCurve):
        def compute(self, df):
            return -df["amp"].to_numpy()

        def maxBrightness(self, df):
            return -df["amp"]

        @staticmethod
        def name_id():
            return "verif_lc_c17"

    class VCA(AbstractCometaryActivity):
        def compute(self, df, *a):
            return df

        def maxBrightness(self, df, filts, rho, delta, alpha):
            assert len(rho) == len(df) and len(delta) == len(df)
            return df["trailedSourceMagTrue"] - df["boost"]

        @staticmethod
        def name_id():
            return "verif_ca_c17"

    update_lc_subclasses()
    update_activity_subclasses()


def run(ck):
    from sorcha.modules.PPFaintObjectCullingFilter import PPFaintObjectCullingFilter

    models()
    rng = ck.rng("cull")
    for i in range(ck.n(160, 2500)):
        fmt = ["COM", "KEP", "CART", "BCOM", "BKEP", "BCART"][i % 6]
        obsf = [str(x) for x in rng.permutation(W.LSST_FILTERS)[: int(rng.integers(1, 7))]]
        main = str(rng.choice(obsf))
        pf = [f for f in obsf if rng.random() < 0.9] or [obsf[0]]
        depth = {}
        fp = []
        for f in pf:
            n = int(rng.integers(1, 8))
            dd = rng.uniform(20, 25.5, n)
            if rng.random() < 0.3:
                # a few visits far deeper than the many others
                dd = np.concatenate([rng.uniform(15, 20, int(10 ** rng.uniform(1, 3.3))), rng.uniform(23, 26, int(rng.integers(1, 3)))])
                n = len(dd)
                ck.ev("few_deep_visits")
            depth[f] = float(dd.max())
            fp.append(pd.DataFrame({"FieldID": rng.integers(0, 1e6, n), "optFilter": f, "fieldFiveSigmaDepth_mag": dd}))
        fp = pd.concat(fp).sample(frac=1, random_state=int(rng.integers(1 << 30)))
        if rng.integers(2):
            fp["optFilter"] = pd.Categorical(fp["optFilter"], categories=W.LSST_FILTERS)
        n = int(rng.integers(1, 30))
        pop = population(rng, n, fmt, main, obsf, depth)
        lc = "verif_lc_c17" if rng.random() < 0.3 else None
        ca = "verif_ca_c17" if rng.random() < 0.3 else None
        pop["amp"] = rng.choice([0.0, 0.5, 3.0], n)
        pop["boost"] = rng.choice([0.0, 0.7, 5.0], n)
        aux = pop.drop(columns=["qtrue", "_el"])
        before = aux.copy(deep=True)
        ctx = {"format": fmt, "main": main, "filters": obsf, "depths": depth, "lc": lc, "activity": ca}
        out = ck.must(PPFaintObjectCullingFilter, aux, fp, main, obsf, lc, ca, _w={"ctx": ctx, "population": before.head(3).to_dict("records")})
        kept = set(out.ObjID)
        ck.ensure(len(out) == len(kept) and kept <= set(before.ObjID), "culling duplicated or invented objects", ctx)
        bi = before.set_index("ObjID")
        for c in bi.columns:
            x = bi.loc[list(out.ObjID), c].to_numpy(dtype=object)
            if c in out.columns:
                ck.ensure(all(W.same_value(a, b) for a, b in zip(x, out[c].to_numpy(dtype=object))), f"culling altered column {c}", ctx)
        for r in pop.to_dict("records"):
            q = r["qtrue"]
            ck.case([i, r["ObjID"], ctx, q], q > 2, {"format": fmt, "q": q, "H": r[f"H_{main}"], "filters": obsf})
            # for barycentric orbits the distance of the Sun from the barycentre may be neglected
            bary = fmt.startswith("B")
            if abs(q - 2) < (0.02 if bary else 0.001):
                continue
            ck.ev("judged_near_2au", not bary and abs(q - 2) < 0.02)
            if q < 2:
                ck.ensure(r["ObjID"] in kept, "an object with perihelion below 2 au was culled", lambda: {"ctx": ctx, "object": r})
                ck.ev("kept_judged")
                continue
            br = (r["amp"] if lc else 0) + (r["boost"] if ca else 0)
            excess = {}
            for f in obsf:
                m = r[f"H_{main}"] + (r[f"{f}-{main}"] if f != main else 0) + 5 * np.log10(q * (q - 1.0)) - br
                excess[f] = m - depth[f] - 2 if f in depth else np.inf
            best = min(excess.values())
            ck.ev("judged_near_limit", not bary and 0.005 <= abs(best) < 0.05)
            tol = 0.15 if bary else 0.005
            if abs(best) < tol:
                ck.ev("not_judged_near_limit")
                continue
            if best > 0:
                ck.ev("culled")
                ck.ensure(r["ObjID"] not in kept, "an object fainter than every limit was not culled", lambda: {"ctx": ctx, "object": r, "excess": excess})
            else:
                ck.ev("kept_judged")
                ck.ev("detectable_in_one_filter_only", sum(x < 0 for x in excess.values()) == 1 and len(excess) > 1)
                ck.ev("brightened_by_model", br > 0 and best + br > 0)
                ck.ensure(r["ObjID"] in kept, "an object that can be brighter than the limit was culled", lambda: {"ctx": ctx, "object": r, "excess": excess})
        # follow culled objects over their orbit with the pipeline's own photometry: never detectable
        gone = pop[~pop.ObjID.isin(kept)]
        if len(gone) and not lc and not ca and i % 2 == 0:
            follow(ck, rng, gone, main, obsf, depth, ctx)


def follow(ck, rng, gone, main, obsf, depth, ctx):
    from sorcha.modules.PPCalculateApparentMagnitude import PPCalculateApparentMagnitude

    rows = []
    for r in gone.to_dict("records"):
        q, e, inc, node, w = r["_el"]
        for nu in (0.0, 0.3, -0.5):
            x, _ = state(q, e, inc, node, w, nu)
            rr = np.linalg.norm(x)
            # worst-case observer: on the line of sight from the Sun, at Earth's aphelion
            rows.append({**r, "R": rr, "D": rr - 1.017, "ph": float(rng.choice([0.0, 5.0]))})
    df = pd.DataFrame(rows).drop(columns=["_el", "qtrue"])
    df = pd.concat([df.assign(optFilter=f) for f in obsf], ignore_index=True)
    df["fieldMJD_TAI"] = 60300.0
    v = W.unit(*W.rand_sky(rng, len(df)))
    for j, c in enumerate("xyz"):
        df[f"Obj_Sun_{c}_LTC_km"] = v[:, j] * df["R"] * W.AU_KM
        df[f"Obs_Sun_{c}_km"] = v[:, j] * W.AU_KM
    df["Range_LTC_km"] = df["D"] * W.AU_KM
    df["phase_deg"] = df["ph"]
    pf = str(rng.choice(["HG", "HG12", "linear", "none"]))
    df["GS"] = rng.uniform(0.0, 0.3, len(df))
    df["G12"] = 0.5
    df["S"] = 0.04
    from sorcha.modules.PPApplyColourOffsets import PPApplyColourOffsets  # noqa: F401

    offs = [f"{f}-{main}" for f in obsf if f != main]
    out = ck.must(PPCalculateApparentMagnitude, df, pf, main, offs, obsf, "basic", None, None, _w=ctx)
    lim = out["optFilter"].astype(str).map(depth).astype(float)
    bright = out["trailedSourceMagTrue"] < lim + 1.5
    ck.ev("followed_to_detection", len(out))
    ck.ensure(not bright.any(), "a culled object reaches a detectable magnitude at some point of its orbit",
              lambda: {"ctx": ctx, "row": out[bright].iloc[0].to_dict()})


def perihelion(r):
    if "q" in r:
        return r["q"]
    if "a" in r:
        return r["a"] * (1 - r["e"])
    x, v = np.array([r["x"], r["y"], r["z"]]), np.array([r["xdot"], r["ydot"], r["zdot"]])
    h = np.cross(x, v)
    e = np.cross(v, h) / GM - x / np.linalg.norm(x)
    return float(h @ h / GM / (1 + np.linalg.norm(e)))


def part_runs(ck):
    """Complete runs with and without culling: the same detections, and the ephemerides of the objects that are not culled."""
    import os
    import shutil
    from checks import c01
    from vlib import pipeline as P
    from vlib.common import SkipCase

    for i in range(ck.n(5, 16)):
        rng = ck.rng("e2e", i)
        w, over, ar = c01.ar_world(rng, n=8, brute=False, hrange=(13.0, 19.0), survey="DES" if i % 5 == 3 else "rubin_sim")
        h = [c for c in w.params.columns if c.startswith("H_")][0]
        w.params[h] = w.params[h].astype(float)
        ch = int(rng.choice([2, 4]))
        faint = np.zeros(8, bool)
        faint[:ch] = True  # the first chunk is culled whole where the perihelia allow it
        faint[ch + 1 + int(rng.integers(0, 8 - ch - 1))] = True
        if i % 5 == 4:
            faint[:] = False
        # the order of the orbits is that of the chunks
        w.orbits = w.orbits.iloc[np.argsort([-perihelion(r) for r in w.orbits.to_dict("records")], kind="stable")].reset_index(drop=True)
        pos = {o: k for k, o in enumerate(w.orbits.ObjID)}
        q = [perihelion(r) for r in w.orbits.to_dict("records")]
        # magnitude 15 or 37 at perihelion, so that colours and depths do not matter
        qs = [max(q[pos[o]], 2.0) for o in w.params.ObjID]
        w.params[h] = [(37.0 if faint[pos[o]] else 15.0) - 5 * np.log10(x * (x - 1)) for o, x in zip(w.params.ObjID, qs)]
        culled = {o for o, f, x in zip(w.orbits.ObjID, faint, q) if f and x > 2}
        near = any(f and abs(x - 2) < 0.05 for f, x in zip(faint, q))
        o = {k: dict(v) for k, v in over.items()}
        o["EXPERT"].update({"mag_limit": "26"} if i % 5 == 3 else {"snr_limit": "3"}, brute_force="True")
        d = W.tmpdir()
        ctx = {"run": i, "chunk": ch, "culled": sorted(culled), "perihelia": q, "faint": faint}
        try:
            P.write(w, os.path.join(d, "in"), "csv", "csv")
            ref = ck.must(P.run, w, os.path.join(d, "brute"), eph_out="eph", ar=ar, _w=ctx, **o)
            refe = pd.read_csv(os.path.join(ref.dir, "eph.csv"), dtype={"ObjID": str}, keep_default_na=False, na_values=[""])
            o["EXPERT"]["brute_force"] = "False"
            for chunk in (1000, ch):
                o["INPUT"]["size_serial_chunk"] = str(chunk)
                r = ck.must(P.run, w, os.path.join(d, f"cull{chunk}"), eph_out="eph", ar=ar, _w=dict(ctx, chunk=chunk), **o)
                ck.ev("complete_runs")
                ck.ev("runs_that_culled", bool(culled))
                ck.ev("objects_culled_in_runs", len(culled))
                for k in range(0, 8, chunk):
                    ids = set(w.orbits.ObjID[k : k + chunk])
                    ck.ev("chunks_without_culling", not ids & culled)
                    ck.ev("chunks_culled_whole", ids <= culled)
                ck.case(["e2e", i, chunk, 0 if ref.out is None else len(ref.out)], bool(culled), dict(ctx, chunk=chunk))
                ck.ensure(ref.out is None or near or not set(ref.out.ObjID.astype(str)) & culled, "an object culled is detected without culling", ctx)
                c01.same_rows(ck, "output with culling", *[None if x is None else x.drop(columns="q", errors="ignore") for x in (ref.out, r.out)], c01.KEYS, ctx)
                ck.ev("rows_of_runs", 0 if ref.out is None else len(ref.out))
                ep = os.path.join(r.dir, "eph.csv")
                e = pd.read_csv(ep, dtype={"ObjID": str}, keep_default_na=False, na_values=[""]) if os.path.exists(ep) else None
                if not near:
                    x = refe[~refe.ObjID.isin(culled)].reset_index(drop=True)
                    c01.same_rows(ck, "ephemeris with culling", x if len(x) else None, e, ["ObjID", "FieldID"], ctx)
        except SkipCase:
            pass
        finally:
            shutil.rmtree(d, ignore_errors=True)


def parts():
    return [("run", run), ("runs", part_runs)]
