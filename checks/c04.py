"""C04: the apparent magnitude of every potential detection follows the documented photometric model."""
import numpy as np
import pandas as pd
import astropy.units as u
from sbpy.photometry import HG, HG1G2, HG12_Pen16

from vlib.common import Check
from vlib import world as W

RANGES = {"GS": (-0.1, 0.6), "G1": (0.0, 0.5), "G2": (0.0, 0.45), "G12": (-0.2, 1.1), "S": (0.0, 0.2)}
PARAMS = {"HG": ["GS"], "HG1G2": ["G1", "G2"], "HG12": ["G12"], "linear": ["S"], "none": []}


def make():
    ck = Check(
        "C04",
        "Each case is a random table of potential detections (1-60 rows, several objects and filters, main filter and "
        "filter order random, phase parameters global or per filter, absolute magnitudes float or integer valued, "
        "unusual row indices) pushed through the apparent-magnitude step; every row is recomputed independently. "
        "Non-trivial = at least two filters with different colours are present (or the single-filter configuration).",
        ["sbpy evaluated one row at a time is the reference for HG1G2 and HG12; HG is re-derived from Bowell et al. (1989)"],
    )
    for f in PARAMS:
        ck.need(f"rows_{f}", 50)
    ck.need("per_filter_params", 20)
    ck.need("single_filter", 10)
    return ck


def bowell(alpha_deg, G):
    a = np.radians(alpha_deg)
    A, B, C = (3.332, 1.862), (0.631, 1.218), (0.986, 0.238)
    t, s = np.tan(a / 2), np.sin(a)
    w = np.exp(-90.56 * t * t)
    ph = []
    for i in range(2):
        small = 1 - C[i] * s / (0.119 + 1.341 * s - 0.754 * s * s)
        large = np.exp(-A[i] * t ** B[i])
        ph.append(w * small + (1 - w) * large)
    return -2.5 * np.log10((1 - G) * ph[0] + G * ph[1])


def reduced(fn, H, p, alpha):
    if fn == "none":
        return H
    if fn == "linear":
        return H + p["S"] * alpha
    if fn == "HG":
        return H + bowell(alpha, p["GS"])
    if fn == "HG1G2":
        return float(HG1G2(H=H * u.mag, G1=p["G1"], G2=p["G2"])(alpha * u.deg).value)
    return float(HG12_Pen16(H=H * u.mag, G12=p["G12"])(alpha * u.deg).value)


def run(ck):
    from sorcha.modules.PPCalculateApparentMagnitude import PPCalculateApparentMagnitude

    rng = ck.rng("mag")
    for i in range(ck.n(260, 4000)):
        fn = list(PARAMS)[i % 5]
        nf = int(rng.choice([1, 2, 3, 6]))
        filters = list(map(str, rng.permutation(W.LSST_FILTERS)[:nf]))
        main = filters[0]
        nobj = int(rng.integers(1, 8))
        n = int(rng.integers(1, 60))
        percol = bool(rng.integers(2))
        intH = rng.integers(4) == 0
        objs = {}
        for k in range(nobj):
            o = {"H": float(np.round(rng.uniform(5, 25))) if intH else float(rng.uniform(-1, 27))}
            o["col"] = {f: float(np.round(rng.normal(0.5, 1.0), 3)) for f in filters[1:]}
            o["col"][main] = 0.0
            o["p"] = {p: {f: float(rng.uniform(*RANGES[p])) for f in filters} for p in PARAMS[fn]}
            if not percol:
                for p in o["p"]:
                    v = o["p"][p][main]
                    o["p"][p] = {f: v for f in filters}
            objs[f"obj{k}"] = o
        ids = rng.choice(np.array(list(objs), dtype=object), n)
        fil = rng.choice(np.array(filters, dtype=object), n)
        delta = 10 ** rng.uniform(-2, 1.9, n)
        rho = 10 ** rng.uniform(-0.5, 1.9, n)
        amax = 179 if fn in ("HG", "linear", "none") else 120
        alpha = np.where(rng.random(n) < 0.15, 0.0, np.where(rng.random(n) < 0.5, rng.uniform(0, 8, n), rng.uniform(0, amax, n)))
        v = rng.normal(0, 1, (n, 3))
        v = v / np.linalg.norm(v, axis=1)[:, None] * (rho * W.AU_KM)[:, None]
        df = pd.DataFrame({"ObjID": ids, "FieldID": rng.integers(0, 999, n), "optFilter": fil,
                           "Range_LTC_km": delta * W.AU_KM, "phase_deg": alpha,
                           "Obj_Sun_x_LTC_km": v[:, 0], "Obj_Sun_y_LTC_km": v[:, 1], "Obj_Sun_z_LTC_km": v[:, 2],
                           "Dec_deg": rng.uniform(-90, 90, n), "vid": np.arange(n) + 1000})
        if rng.integers(2):
            df["optFilter"] = pd.Categorical(df["optFilter"], categories=list(rng.permutation(W.LSST_FILTERS)))
        df["H_" + main] = [objs[o]["H"] for o in ids]
        if intH:
            df["H_" + main] = df["H_" + main].astype("int64")
        cols = [(f"{f}-{main}", [objs[o]["col"][f] for o in ids]) for f in filters[1:]]
        for p in PARAMS[fn]:
            if percol:
                cols += [(p + f, [objs[o]["p"][p][f] for o in ids]) for f in filters]
            else:
                cols += [(p, [objs[o]["p"][p][main] for o in ids])]
        for j in rng.permutation(len(cols)):
            df[cols[j][0]] = cols[j][1]
        idx = rng.integers(3)
        if idx == 1:
            df.index = rng.permutation(n) + 7
        elif idx == 2:
            df = df.sample(frac=1, random_state=int(rng.integers(1 << 30)))
        before = df.copy(deep=True)
        ctx = {"phase_function": fn, "filters": filters, "per_filter_parameters": percol, "integer_H": bool(intH), "rows": n}
        out = ck.must(PPCalculateApparentMagnitude, df.copy(), fn, main, [c[0] for c in cols if c[0][1:2] == "-"] or None, filters, None,
                      lightcurve_choice=None, verbose=False, _w=ctx)
        ck.ev(f"rows_{fn}", n)
        if percol and fn != "none":
            ck.ev("per_filter_params")
        if nf == 1:
            ck.ev("single_filter")
        ck.case([i, ctx], nf == 1 or len(set(fil)) > 1, ctx)
        if not ck.ensure(sorted(out["vid"]) == sorted(before["vid"]), "apparent magnitude step lost or duplicated rows", ctx):
            continue
        bi = before.set_index("vid", drop=False)
        for r in out.to_dict("records"):
            b = bi.loc[r["vid"]]
            o, f = objs[b["ObjID"]], str(b["optFilter"])
            H = o["H"] + o["col"][f]
            rr = np.sqrt(b["Obj_Sun_x_LTC_km"] ** 2 + b["Obj_Sun_y_LTC_km"] ** 2 + b["Obj_Sun_z_LTC_km"] ** 2) / W.AU_KM
            want = reduced(fn, H, {p: o["p"][p][f] for p in PARAMS[fn]}, b["phase_deg"]) + 5 * np.log10(
                b["Range_LTC_km"] / W.AU_KM * rr)
            got = r["trailedSourceMagTrue"]
            bad = not (abs(got - want) < 1e-6 or (np.isnan(got) and np.isnan(want)) or (np.isinf(want) and got == want))
            ck.ensure(not bad, f"apparent magnitude in {f} with phase function {fn} is {got}, the model gives {want}",
                      {"ctx": ctx, "row": r, "object": o})
            ck.ensure(abs(r["H_filter"] - H) < 1e-9, f"H_filter is {r['H_filter']}, H + colour is {H}", {"ctx": ctx, "row": r})
            ck.ensure(abs(r["H_" + main] - o["H"]) < 1e-9, "the main-filter absolute magnitude of the input was altered", {"ctx": ctx, "row": r})
        gone = [c[0] for c in cols] + (["H_" + main])
        W.unchanged(ck, "apparent magnitude step", before, out, free=gone, ctx=ctx)


def parts():
    return [("mag", run)]
