"""C15: linking efficiency and independence between objects."""
import numpy as np
import pandas as pd

from vlib.common import Check
from vlib import stat
from vlib import world as W
from checks import c14


def make():
    ck = Check(
        "C15",
        "Each case is one linking run over a population, either compared with a transformed run of the same detections "
        "(rows permuted, objects renamed, other objects added or removed, unlinked kept) or pooled into efficiency statistics "
        "over objects with exactly one discovery opportunity. Non-trivial = at least one object is linkable.",
        ["statistical tests reject at p < 1e-9", "objects differ in their measured positions"],
    )
    ck.need("metamorphic_pairs", 100)
    ck.need("partial_efficiency_pairs", 200)
    ck.need("linkable_objects_in_efficiency_test", 5000)
    ck.need("renamed_non_ascii", 10)
    ck.need("statistical_tests", 10)
    return ck


def simple(rng, n, c, nops=1):
    """n objects, each with exactly ntrk nightly tracklets in each of nops disjoint windows."""
    H = []
    for k in range(n):
        base = 60000 + int(rng.integers(2000))
        rows = []
        ra, dec = W.rand_sky(rng, 1)
        for w in range(nops):
            ks = np.sort(rng.choice(np.arange(c["window"]), size=c["ntrk"], replace=False)) + base + w * (2 * c["window"] + 3)
            for q in ks:
                t0 = q + c["noon"] / 24 + rng.uniform(0.2, 0.7)
                x, y = W.offset(np.full(c["minobs"], ra[0]), np.full(c["minobs"], dec[0]), np.arange(c["minobs"]) * c["minsep"] * 3 / 3600, rng.uniform(0, 360))
                rows += [(t0 + j * c["maxt"] / (c["minobs"] + 1), x[j], y[j]) for j in range(c["minobs"])]
                ra, dec = W.offset(ra, dec, rng.uniform(0.01, 1), rng.uniform(0, 360))
        H.append(tuple(np.array(z) for z in zip(*rows)))
    return H


def efficiency(ck):
    rng = ck.rng("eff")
    pool = {}
    seqs = []
    for i in range(ck.n(36, 300)):
        c = dict(minobs=2, ntrk=int(rng.choice([1, 2, 3])), window=15, minsep=0.5, maxt=0.0625, noon=16.0)
        p = float([0.95, 0.5, 0.0, 1.0, 0.2, 0.8][i % 6])
        n = int(rng.choice([1, 40, 400]))
        nops = 1 if rng.random() < 0.8 else int(rng.integers(2, 4))
        if c["ntrk"] == 1:
            nops = 1
        H = simple(rng, n, c, nops)
        names = [f"S{q}" for q in rng.permutation(n)]
        df = c14.frame(rng, H, names)
        df = df.sample(frac=1, random_state=int(rng.integers(1 << 30)))
        ctx = {"config": c, "efficiency": p, "objects": n, "opportunities": nops}
        ck.case([i, ctx], True, ctx)
        drop = bool(i % 3)
        before = df.copy(deep=True)
        out = ck.must(c14.link, c, df, p, drop, _w=ctx)
        linked = set(out.ObjID[out["object_linked"].astype(bool)])
        dated = set(out.ObjID[out["date_linked_MJD"].notna()])
        ck.ensure(linked == dated, "an object is flagged linked without a linking date or the other way round", ctx)
        want = before[before.ObjID.isin(linked)] if drop else before
        ck.ensure(sorted(out.vid) == sorted(want.vid), "linking kept other detections than all of those of the linked objects" if drop
                  else "linking with unlinked objects kept lost or repeated detections", ctx)
        W.unchanged(ck, "linking", before, out, ctx=ctx)
        y = np.array([nm in linked for nm in names])
        if p in (0.0, 1.0):
            ck.ensure(y.all() if p else not y.any(), f"with efficiency {p} {y.sum()} of {n} linkable objects were linked", ctx)
            ck.ev("certain_objects", n)
        if nops == 1:
            pool.setdefault(p, []).append(y)
            seqs.append((p, y))
        ck.ev("linkable_objects_in_efficiency_test", n)
    for p, ys in pool.items():
        y = np.concatenate(ys)
        if 0 < p < 1:
            stat.binomial(ck, f"linking with efficiency {p}: number of objects linked", int(y.sum()), len(y), p, {"efficiency": p})
    # independence: whole-population outcomes vary between populations as independent draws do, neighbours uncorrelated
    big = [(p, y) for p, y in seqs if len(y) >= 40 and 0 < p < 1]
    for p, y in big:
        stat.binomial(ck, f"linking with efficiency {p}: objects linked in one population of {len(y)}", int(y.sum()), len(y), p, {"efficiency": p})
    a = np.concatenate([(y[:-1] - p) / np.sqrt(p * (1 - p)) for p, y in big])
    b = np.concatenate([(y[1:] - p) / np.sqrt(p * (1 - p)) for p, y in big])
    z = abs((a * b).sum()) / np.sqrt(len(a))
    ck.ev("statistical_tests")
    ck.ensure(z < 6.5, f"linking outcomes of neighbouring objects are correlated ({z:.1f} sigma)", {"pairs": len(a)})


NAMES = {
    "ascii_long": lambda rng, n: [f"{'x' * int(rng.integers(1, 60))}_{k}" for k in range(n)],
    "prefixes": lambda rng, n: ["a" * (k + 1) for k in range(n)],
    "non_ascii": lambda rng, n: [f"Čapek{k}é" if k % 2 else f"名{k}" for k in range(n)],
    "numeric": lambda rng, n: [str(10 ** 6 + k * 7) for k in range(n)],
    "spaces": lambda rng, n: [f"2015 RX{k}" for k in range(n)],
    "case": lambda rng, n: [("Obj" if k % 2 else "oBJ") + str(k // 2) for k in range(n)],
    "mixed_len_last_long": lambda rng, n: ["o" + str(k) for k in range(n - 1)] + ["averyveryverylongidentifier0123456789"],
}


def verdicts(out):
    return {o: (bool(g["object_linked"].iloc[0]), g["date_linked_MJD"].iloc[0]) for o, g in out.groupby("ObjID")}


def metamorphic(ck):
    rng = ck.rng("meta")
    for i in range(ck.n(45, 700)):
        c = c14.params(rng)
        H = [h for h in (c14.history(rng, c, True) for _ in range(int(rng.integers(2, 16)))) if len(h[0])]
        if not H:
            continue
        n = len(H)
        names = [f"obj{j:03d}" for j in range(n)]
        df = c14.frame(rng, H, names)
        ref = ck.must(c14.link, c, df.copy(deep=True), 1.0, False, _w=c)
        v0 = verdicts(ref)
        nl = sum(x[0] for x in v0.values())
        ck.case([i, c, n], nl > 0, {"config": c, "objects": n, "linked": nl})
        same = lambda a, b: a[0] == b[0] and (a[1] == b[1] or (np.isnan(a[1]) and np.isnan(b[1])))

        def cmp(what, out, back=lambda o: o, only=None):
            ck.ev("metamorphic_pairs")
            v1 = {back(o): x for o, x in verdicts(out).items()}
            for o in (only if only is not None else names):
                if not ck.ensure(o in v1 and same(v0[o], v1[o]), f"the linking verdict of an object changed when {what}",
                                 lambda: {"config": c, "object": o, "before": v0[o], "after": v1.get(o), "table": df[df.ObjID == o].to_dict("list")}):
                    break

        cmp("rows were permuted", ck.must(c14.link, c, df.sample(frac=1, random_state=i), 1.0, False, _w=c))
        d2 = df.copy(deep=True)
        d2.index = rng.permutation(len(d2)) + 100
        cmp("the index was changed", ck.must(c14.link, c, d2, 1.0, False, _w=c))
        for kind in rng.choice(list(NAMES), 2, replace=False):
            new = NAMES[kind](rng, n)
            if rng.integers(2):
                new = [new[k] for k in rng.permutation(n)]
            mp = dict(zip(names, new))
            inv = {b: a for a, b in mp.items()}
            d3 = df.copy(deep=True)
            d3["ObjID"] = d3["ObjID"].map(mp)
            out = ck.must(c14.link, c, d3, 1.0, False, _w={"names": new})
            if ck.ensure(set(out.ObjID) == set(new), "identifiers were altered or lost by linking",
                         lambda: {"kind": kind, "lost": set(new) - set(out.ObjID), "new": set(out.ObjID) - set(new)}):
                cmp(f"objects were renamed ({kind})", out, inv.get)
            ck.ev(f"renamed_{kind}")
        sub = [o for o in names if rng.integers(2)]
        if sub:
            cmp("other objects were removed", ck.must(c14.link, c, df[df.ObjID.isin(sub)].copy(), 1.0, False, _w=c), only=sub)
        one = names[int(rng.integers(n))]
        cmp("it was the only object", ck.must(c14.link, c, df[df.ObjID == one].copy(), 1.0, False, _w=c), only=[one])
        # with an efficiency below one the outcome is random, but it is the object's own
        p = float(rng.uniform(0.15, 0.85))
        vp = verdicts(ck.must(c14.link, c, df.copy(deep=True), p, False, _w=c))
        for keep in (sub, [one], names[::-1][: max(1, n // 2)]):
            if not keep:
                continue
            v1 = verdicts(ck.must(c14.link, c, df[df.ObjID.isin(keep)].copy(), p, False, _w=c))
            ck.ev("partial_efficiency_pairs", len(keep))
            bad = [o for o in keep if o not in v1 or not same(vp[o], v1[o])]
            ck.ensure(not bad, f"with efficiency {p:.2f} the linking verdict of an object changed when other objects were removed",
                      {"config": c, "objects": bad[:5], "kept": len(keep), "of": n})
        dr = ck.must(c14.link, c, df.copy(deep=True), 1.0, True, _w=c)
        want = sorted(ref.vid[ref.object_linked.astype(bool)])
        ck.ensure(sorted(dr.vid) == want, "dropping unlinked objects left other detections than those of linked objects", {"config": c})
        if len(dr):
            cmp("unlinked objects were dropped", dr, only=sorted(set(dr.ObjID)))


def parts():
    return [("metamorphic", metamorphic), ("efficiency", efficiency)]
