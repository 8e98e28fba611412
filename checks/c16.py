"""C16: DES discovery criteria - offline history checker."""
import numpy as np
import pandas as pd

from vlib.common import Check
from vlib import world as W

AU = W.AU_KM


def make():
    ck = Check(
        "C16",
        "Each case is the detection history of one object inside a table of several; histories sit around the limits (6-9 nights, "
        "arc around half a year with an end night dropped, gaps around 60 and 90 days, distance around 50 au). "
        "Non-trivial = at least six nights.",
        ["a night's detections lie within 0.38 days, different nights are at least 0.6 days apart",
         "objects within 1e-6 of a limit are not judged"],
    )
    ck.need("discovered_by_nine_nights", 100)
    ck.need("discovered_by_arc_and_triplet", 100)
    ck.need("rejected_only_by_arc", 40)
    ck.need("rejected_only_by_triplet", 40)
    ck.need("rejected_only_by_nights", 10)
    ck.need("window_90_decides", 10)
    return ck


def spec(t, r):
    t = np.sort(t)
    nights = [t[0]]
    last = [t[0]]
    for x in t[1:]:
        if x - last[-1] > 0.5:
            nights.append(x)
            last.append(x)
        else:
            last[-1] = x
    nights, last = np.array(nights), np.array(last)
    n = len(nights)
    win = 90.0 if r.min() >= 50 else 60.0
    # arc with the first night left out, and with the last night left out
    arc = min(last[-1] - nights[1], last[-2] - nights[0]) if n > 1 else 0.0
    # gaps between nights, last detection of a night is not looked at: nights are marked by their first detection
    g = np.diff(nights)
    trip = any(a < win and b < win for a, b in zip(g[:-1], g[1:]))
    other = any(a < 150 - win and b < 150 - win for a, b in zip(g[:-1], g[1:]))
    amb = abs(arc - 182.625) < 1e-6 or (np.abs(g - 60) < 1e-6).any() or (np.abs(g - 90) < 1e-6).any() or abs(r.min() - 50) < 1e-6
    return {"nights": n, "arc": arc > 182.625, "triplet": trip, "window_matters": trip != other, "ambiguous": amb,
            "found": n >= 9 or (n >= 7 and arc > 182.625 and trip)}


def history(rng):
    n = int(rng.choice([1, 2, 3, 5, 6, 7, 7, 7, 8, 8, 8, 9, 10, 14]))
    kind = rng.integers(6)
    if kind == 0:
        gaps = rng.choice([1.0, 5.0, 20.0, 40.0], n)
    elif kind == 1:  # gaps alternate short and just-too-long
        gaps = np.where(np.arange(n) % 2, rng.uniform(91, 130, n), rng.uniform(1, 55, n))
    elif kind == 2:
        gaps = np.where(np.arange(n) % 2, rng.uniform(61, 89, n), rng.uniform(1, 59, n))
    elif kind == 3:
        gaps = rng.choice([59.9, 60.1, 89.9, 90.1, 200.0, 2.0], n)
    elif kind == 4:  # arc decided by one outlying night
        gaps = rng.uniform(1, 180.0 / max(n - 2, 1), n)
        gaps[int(rng.integers(n)) if rng.integers(2) else (1 if rng.integers(2) else -1) % n] = rng.uniform(100, 400)
    else:
        gaps = rng.uniform(1, 120, n)
        if n > 4:
            k = int(rng.integers(1, n - 2))
            gaps[k:k + 2] = rng.uniform(20, 58, 2)
            rest = np.setdiff1d(np.arange(n), [k, k + 1])
            gaps[rest] = rng.choice([rng.uniform(95, 140), rng.uniform(1, 10)], len(rest))
    if rng.random() < 0.3 and n > 2:  # total arc near half a year
        gaps = gaps * rng.uniform(175, 190) / gaps[1:].sum()
    wide = rng.random() < 0.25  # nights used from dusk to dawn
    gaps = np.maximum(gaps, (1.1 if wide else 0.7) + 0.0 * gaps)
    t0 = 56000 + rng.uniform(0, 300) + np.cumsum(gaps)
    t = []
    for x in t0:
        m = int(rng.choice([1, 1, 2, 4]))
        t += [x] + list(x + rng.uniform(0.001, 0.38 if wide else 0.05 if rng.integers(2) else 0.09, m - 1))
    t = np.array(t)
    base = rng.choice([3, 40, 49.5, 50.5, 55, 120])
    r = base + rng.uniform(0, 0.4, len(t)) * rng.choice([-1, 1])
    if rng.random() < 0.2 and len(t) > 1:  # one single detection at the other side of 50 au
        r[int(rng.integers(len(t)))] = 100 - base if 0 < 100 - base < 100 else 49.9
    return t, r


def run(ck):
    from sorcha.modules.DESDiscoveryFilter import DESDiscoveryFilter

    rng = ck.rng("des")
    for i in range(ck.n(150, 3000)):
        nobj = int(rng.integers(1, 25))
        H = [history(rng) for _ in range(nobj)]
        names = [f"{rng.choice(['o', 'obj', '2004 X'])}{k}" if i % 4 else f"É{k}" for k in range(nobj)]
        fr = []
        for nm, (t, r) in zip(names, H):
            d = W.unit(*W.rand_sky(rng, len(t))) * (r * AU)[:, None]
            fr.append(pd.DataFrame({"ObjID": nm, "fieldMJD_TAI": t, "Obj_Sun_x_LTC_km": d[:, 0], "Obj_Sun_y_LTC_km": d[:, 1],
                                    "Obj_Sun_z_LTC_km": d[:, 2]}))
        df = pd.concat(fr, ignore_index=True)
        extra = W.obs_frame(rng, len(df))
        for c in extra.columns:
            if c not in df.columns:
                df[c] = extra[c].to_numpy()
        if i % 3:
            df = df.iloc[rng.permutation(len(df))]
        if i % 2:
            df = df.reset_index(drop=True)
        before = df.copy(deep=True)
        out = ck.must(DESDiscoveryFilter, df, _w={"table": before.head(60).to_dict("list")})
        exp = {}
        skip = set()
        for nm, (t, r) in zip(names, H):
            s = spec(t, r)
            exp[nm] = s["found"]
            ck.case([t, r], s["nights"] >= 6, {"nights": s["nights"], "found": s["found"], "mjd": np.sort(t)[:12]})
            if s["ambiguous"]:
                skip.add(nm)
                ck.ev("not_judged_near_threshold")
                continue
            n9 = s["nights"] >= 9
            ck.ev("discovered_by_nine_nights", n9)
            ck.ev("discovered_by_arc_and_triplet", s["found"] and not n9)
            ck.ev("rejected_only_by_arc", s["nights"] in (7, 8) and s["triplet"] and not s["arc"])
            ck.ev("rejected_only_by_triplet", s["nights"] in (7, 8) and s["arc"] and not s["triplet"])
            ck.ev("rejected_only_by_nights", s["nights"] < 7 and s["arc"] and s["triplet"])
            ck.ev("window_90_decides", s["nights"] in (7, 8) and s["arc"] and s["window_matters"])
            n_in, n_out = int((before.ObjID == nm).sum()), int((out.ObjID == nm).sum())
            ck.ensure(n_out == (n_in if s["found"] else 0),
                      f"DES discovery: object {'must be discovered' if s['found'] else 'must not be discovered'} but {n_out} of its {n_in} detections survived",
                      lambda: {"object": nm, "mjd": np.sort(t), "distance_au": r, "criteria": s})
        keep = before.ObjID.map(exp).to_numpy()
        amb = before.ObjID.isin(skip).to_numpy()
        keep = np.where(amb, before.vid.isin(set(out.vid)), keep)
        W.kept_exactly(ck, "DES discovery", before, out, keep)


def parts():
    return [("run", run)]
