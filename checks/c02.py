"""C02: a run is reproducible from its seed and its stages draw independently."""
import hashlib
import os
import random
import shutil
from concurrent.futures import ThreadPoolExecutor

import numpy as np
import pandas as pd

from vlib.common import Check, SkipCase
from vlib import pipeline as P
from vlib import world as W
from checks import c01


def make():
    ck = Check(
        "C02",
        "Each case is a group of runs of one world that have to agree (same seed: fresh processes of the real command line with different hash seeds, "
        "thread counts, directories and histories) or to differ (another seed), a run whose random draws are recorded at every stage and replayed "
        "stage by stage on isolated generators, or a random history of use of the generator collection. Non-trivial = at least one random draw shaped the compared rows.",
        ["CSV files are compared byte by byte, SQLite and HDF5 files by their tables (their containers hold allocation and time stamps)",
         "linking with an efficiency below one is seeded by the object's own detections, so a different seed changes it only through those"],
    )
    ck.need("process_runs", 30)
    ck.need("same_seed_pairs", 14)
    ck.need("different_seed_pairs", 4)
    ck.need("unseeded_pairs", 2)
    ck.need("in_process_repeats", 8)
    ck.need("draws_recorded", 40)
    ck.need("draws_replayed", 40)
    ck.need("stages_toggled", 12)
    ck.need("generator_histories", 40)
    ck.need("stream_pairs", 300)
    ck.need("neighbouring_streams", 1000)
    return ck


def rand_config(rng, w):
    des = w.survey == "DES"
    o = {"EXPERT": {}, "OUTPUT": {"output_columns": "all"}, "FOV": {"camera_model": "circle", "circle_radius": "2.0", "fill_factor": f"{rng.uniform(0.5, 0.95):.3f}"},
         "INPUT": {"size_serial_chunk": str(int(rng.choice([1, 3, 5, 500])))}}
    if des:
        if rng.random() < 0.7:
            o["FADINGFUNCTION"] = {"fading_function_on": "True"}
            w.visits = P.ccds(rng, w)
            o["FOV"] = {"camera_model": "visits_footprint", "visits_query": P.VISITS_QUERY}
    else:
        o["EXPERT"] = {"randomization_on": "True", "vignetting_on": "True", "trailing_losses_on": "True"}
        o["FADINGFUNCTION"] = {"fading_function_on": "True", "fading_function_width": "0.3", "fading_function_peak_efficiency": f"{rng.uniform(0.6, 1):.2f}"}
        if rng.random() < 0.4:
            o["LINKINGFILTER"] = {"SSP_detection_efficiency": "0.6", "SSP_number_observations": "2", "SSP_separation_threshold": "0.5", "SSP_maximum_time": "0.0625",
                                  "SSP_number_tracklets": "2", "SSP_track_window": "15", "SSP_night_start_utc": "16.0", "drop_unlinked": str(rng.choice(["True", "False"]))}
    return o


def world(rng, i, n=None):
    survey = "DES" if i % 3 == 2 else "rubin_sim"
    w = P.make(rng, survey, n=n or int(rng.choice([15, 25])), groups=2, nights=6, phase=str(rng.choice(["HG", "HG12", "linear"])), per_night=3)
    return w, rand_config(rng, w)


def content(d, stem, fmt, stats):
    """What a run wrote, in a comparable form."""
    out = {}
    p = os.path.join(d, stem + {"csv": ".csv", "sqlite3": ".db", "hdf5": ".h5"}[fmt])
    if not os.path.exists(p):
        out["table"] = None
    elif fmt == "csv":
        out["table"] = open(p, "rb").read()
    else:
        t = P.read_output(d, stem, fmt)
        out["table"] = [list(t.columns)] + [tuple(repr(x) for x in r) for r in t.to_numpy(object)]
    if stats:
        p = os.path.join(d, stats + ".csv")
        out["stats"] = open(p, "rb").read() if os.path.exists(p) else None
    return out


def processes(ck):
    pool = ThreadPoolExecutor(8)
    jobs = []
    for i in range(ck.n(10, 50)):
        rng = ck.rng("p", i)
        gen = i == 3
        if gen:
            w, over, ar = c01.ar_world(rng, n=5)
            over["EXPERT"] = {"randomization_on": "True", "default_snr_cut": "False", "brute_force": "True"}
            over["INPUT"]["size_serial_chunk"] = "2"
        else:
            (w, over), ar = world(rng, i, 35), None
        fmt = ["csv", "sqlite3", "hdf5", "csv"][i % 4]
        over["OUTPUT"]["output_format"] = fmt
        d = W.tmpdir()
        P.write(w, os.path.join(d, "in"), str(rng.choice(["csv", "whitespace"])), "csv", rng=rng)
        st = None if gen else "st"
        s = [0, 1, 2 ** 32 - 1, 12345, int(rng.integers(1 << 31))][i % 5]
        a = [("A", s, {"PYTHONHASHSEED": "0"}), ("B", s, {"PYTHONHASHSEED": "4242", "OMP_NUM_THREADS": "4", "OPENBLAS_NUM_THREADS": "4"}),
             ("C", s, {"PYTHONHASHSEED": "random", "TZ": "Asia/Tokyo", "LC_ALL": "C"}), ("D", s + 1 + i, {})]
        if i in (0, 1, 4, 6):
            a += [("U", None, {"PYTHONHASHSEED": "0"}), ("V", None, {"PYTHONHASHSEED": "0"})]
        fs = {t: pool.submit(P.cli, w, os.path.join(d, "o" + t), seed=sd, env=e, stats=st, ar=ar, over=over) for t, sd, e in a}
        jobs.append((i, d, w, over, fmt, st, s, fs))
    for i, d, w, over, fmt, st, s, fs in jobs:
        ctx = {"world": i, "survey": w.survey, "seed": s, "config": over, "format": fmt}
        try:
            got = {}
            for t, f in fs.items():
                r = f.result()
                if not ck.ensure(r.returncode == 0, "a valid run failed", lambda: {"ctx": ctx, "run": t, "stderr": r.stderr[-800:]}):
                    raise SkipCase()
                ck.ev("process_runs")
                got[t] = content(os.path.join(d, "o" + t), "out", fmt, st)
            rows = P.read_output(os.path.join(d, "oA"), "out", fmt)
            ck.case(ctx, rows is not None and len(rows) > 5, {"world": i, "seed": s, "rows": 0 if rows is None else len(rows), "format": fmt, "survey": w.survey})
            for t in "BC":
                ck.ev("same_seed_pairs")
                for k in got["A"]:
                    ck.ensure(got["A"][k] == got[t][k], f"two runs with the same inputs and seed wrote different {k} files",
                              lambda: {"ctx": ctx, "run": t, "a": repr(got["A"][k])[:1500], "b": repr(got[t][k])[:1500]})
            random_parts = w.survey != "DES" or (rows is not None and len(rows) > 30)
            if rows is not None and len(rows) > 20 and random_parts:
                ck.ev("different_seed_pairs")
                ck.ensure(got["A"]["table"] != got["D"]["table"], "a different seed did not change the results", ctx)
                other = P.read_output(os.path.join(d, "oD"), "out", fmt)
                if w.survey != "DES" and other is not None:
                    m = rows.merge(other, on=["ObjID", "FieldID"])
                    for c in ("trailedSourceMag", "RA_deg", "Dec_deg"):
                        ck.ensure(len(m) == 0 or (m[c + "_x"] == m[c + "_y"]).mean() < 0.2, f"a different seed did not change the measured {c}", lambda: {"ctx": ctx, "rows": m[[c + "_x", c + "_y"]].head(4)})
                if "U" in got:
                    ck.ev("unseeded_pairs")
                    ck.ensure(got["U"]["table"] != got["V"]["table"], "two runs without a seed gave the same random results", ctx)
        except SkipCase:
            pass
        finally:
            shutil.rmtree(d, ignore_errors=True)
    pool.shutdown()


class Recorder:
    """Records every draw of the stages of a run, by stage."""

    def __enter__(self):
        from sorcha.utilities.sorchaModuleRNG import PerModuleRNG

        self.cls, self.orig = PerModuleRNG, PerModuleRNG.getModuleRNG
        log = self.log = []
        orig = self.orig

        class Rec(np.random.Generator):
            pass

        def wrap(m):
            base = getattr(np.random.Generator, m)

            def f(s, *a, **k):
                if s.__dict__.get("busy"):
                    return base(s, *a, **k)
                s.busy = True
                try:
                    r = base(s, *a, **k)
                finally:
                    s.busy = False
                log.append((s.stage, m, a, k, hashlib.sha1(np.ascontiguousarray(r).tobytes()).hexdigest(), int(np.size(r))))
                return r

            return f

        for m in ("random", "normal", "standard_normal", "uniform", "integers", "choice", "permutation", "multivariate_normal", "exponential", "rayleigh", "binomial", "poisson"):
            setattr(Rec, m, wrap(m))
        cache = {}

        def get(s, name):
            g = orig(s, name)
            if id(g) not in cache:
                r = Rec(g.bit_generator)
                r.stage = name
                cache[id(g)] = (r, g)
            return cache[id(g)][0]

        PerModuleRNG.getModuleRNG = get
        return self

    def __exit__(self, *a):
        self.cls.getModuleRNG = self.orig


def streams(ck):
    """Recorded draws of a run are those of one isolated generator per stage; switching stages moves no other stage."""
    from sorcha.utilities.sorchaModuleRNG import PerModuleRNG

    for i in range(ck.n(9, 80)):
        rng = ck.rng("s", i)
        w, over = world(rng, i)
        d = W.tmpdir()
        try:
            P.write(w, os.path.join(d, "in"), "csv", "csv", rng=rng)
            seed = int(rng.choice([0, 7, 2 ** 31 - 1, 2 ** 32 + 5, int(rng.integers(1 << 40))]))
            ctx = {"world": i, "survey": w.survey, "seed": seed, "config": over}
            with Recorder() as rec:
                a = ck.must(P.run, w, os.path.join(d, "a"), seed=seed, stats="st", _w=ctx, **over)
            ck.case(ctx, bool(rec.log) and a.out is not None and len(a.out) > 5, {"world": i, "seed": seed, "draws": len(rec.log), "stages": sorted({l[0] for l in rec.log})})
            ck.ev("draws_recorded", len(rec.log))
            for st in sorted({l[0] for l in rec.log}):
                g = PerModuleRNG(seed).getModuleRNG(st)
                for j, (s, m, aa, k, dig, size) in enumerate([l for l in rec.log if l[0] == st]):
                    r = getattr(g, m)(*aa, **k)
                    ck.ev("draws_replayed")
                    if not ck.ensure(hashlib.sha1(np.ascontiguousarray(r).tobytes()).hexdigest() == dig, "the random stream of a stage is not that of its own generator (other stages or earlier chunks shift or restart it)",
                                     {"ctx": ctx, "stage": st, "draw": j, "method": m, "size": size}):
                        break
            per = {}
            for s, m, aa, k, dig, size in rec.log:
                if size > 3:
                    per.setdefault(dig, []).append((s, m, size))
            rep = {k: v for k, v in per.items() if len(v) > 1}
            ck.ensure(not rep, "the same random numbers were used twice in a run", lambda: {"ctx": ctx, "draws": list(rep.values())[:4]})
            # repeat in this process with other global states
            np.random.seed(int(rng.integers(1 << 31)))
            random.seed(int(rng.integers(1 << 31)))
            b = ck.must(P.run, w, os.path.join(d, "b"), seed=seed, stats="st", _w=ctx, **over)
            ck.ev("in_process_repeats")
            for k in ("out", "stats"):
                x, y = getattr(a, k), getattr(b, k)
                ck.ensure((x is None) == (y is None) and (x is None or x.equals(y)), f"repeating a run in the same process gave different {k}", lambda: {"ctx": ctx, "a": x.head(4), "b": y.head(4)})
            toggles(ck, rng, w, d, over, seed, ctx)
        except SkipCase:
            pass
        finally:
            shutil.rmtree(d, ignore_errors=True)


VALS = ["trailedSourceMag", "PSFMag", "RA_deg", "Dec_deg"]


def toggles(ck, rng, w, d, over, seed, ctx):
    des = w.survey == "DES"

    def go(tag, **ch):
        o = {k: dict(v) for k, v in over.items() if k != "LINKINGFILTER"}
        if not des:
            o["EXPERT"]["default_snr_cut"] = "False"
            o["EXPERT"]["snr_limit"] = "0.000001"
        for k, v in ch.items():
            o[k] = v
        r = ck.must(P.run, w, os.path.join(d, tag), seed=seed, _w=dict(ctx, variant=tag), **o)
        t = r.out
        t = pd.DataFrame(columns=["ObjID", "FieldID"] + VALS) if t is None else t
        return t.set_index(["ObjID", "FieldID"])

    off = {"fading_function_on": "False"}
    on = over.get("FADINGFUNCTION", off)
    circ = {"camera_model": "circle", "circle_radius": "2.0"}
    if des:
        circ_f = dict(circ, fill_factor="0.7")
        runs = {"fill": go("fill", FOV=circ_f, FADINGFUNCTION=off), "none": go("none", FOV=circ, FADINGFUNCTION=off)}
        cut = go("cut", FOV=circ_f, FADINGFUNCTION=off, SATURATION={"bright_limit": "17"})
        ck.ev("stages_toggled")
        ck.ensure(set(cut.index) <= set(runs["fill"].index), "a later cut changed which rows an earlier random stage keeps", ctx)
        return
    fill = dict(circ, fill_factor="0.7")
    r = {"none": go("none", FOV=circ, FADINGFUNCTION=off), "fill": go("fill", FOV=fill, FADINGFUNCTION=off),
         "fade": go("fade", FOV=circ, FADINGFUNCTION=on), "both": go("both", FOV=fill, FADINGFUNCTION=on)}
    for k in ("fill", "fade", "both"):
        ck.ev("stages_toggled")
        m = r["none"].join(r[k][VALS], how="inner", rsuffix="_v")
        for c in VALS:
            bad = m[c] != m[c + "_v"]
            ck.ensure(not bad.any(), f"switching another random stage on ({k}) changed the measured {c}", lambda: {"ctx": ctx, "rows": m.loc[bad, [c, c + "_v"]].head(4).reset_index()})
    ck.ensure(set(r["both"].index) <= set(r["fill"].index), "the fading function changed which rows the fill factor keeps", lambda: {"ctx": ctx, "rows": [str(x) for x in list(set(r["both"].index) - set(r["fill"].index))[:4]]})
    norand = go("norand", FOV=fill, FADINGFUNCTION=off, EXPERT=dict(over["EXPERT"], randomization_on="False", default_snr_cut="False", snr_limit="0.000001"))
    both = go("norand2", FOV=circ, FADINGFUNCTION=off, EXPERT=dict(over["EXPERT"], randomization_on="False", default_snr_cut="False", snr_limit="0.000001"))
    ck.ensure(set(norand.index) <= set(both.index), "the fill factor invented rows", ctx)
    if len(both) and set(both.index) == set(r["none"].index):
        # same rows reach the fill factor: it has to keep the same ones whether or not the magnitudes were randomised
        ck.ev("fill_with_and_without_randomisation")
        ck.ensure(set(norand.index) == set(r["fill"].index), "randomising magnitudes changed which rows the fill factor keeps", lambda: {"ctx": ctx, "n": [len(norand), len(r["fill"])]})


NAMES = ["sorcha.modules.PPRandomizeMeasurements", "sorcha.modules.PPDropObservations", "sorcha.modules.PPApplyFOVFilter", "sorcha.modules.PPDetectionEfficiency",
         "sorcha.modules.PPAddUncertainties", "a", "b", "ab", "ba", "", "aa", "abc", "cba", "A", "sorcha", "é", "sorcha.modules.X" * 20]


def generators(ck):
    from sorcha.utilities.sorchaModuleRNG import PerModuleRNG

    for i in range(ck.n(60, 600)):
        rng = ck.rng("g", i)
        seed = int(rng.choice([0, 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, int(rng.integers(1 << 62))]))
        names = list(rng.permutation(np.array(NAMES, object))) + ["m%d" % z for z in rng.integers(0, 10 ** 6, 3)]
        names = names[: int(rng.integers(2, len(names)))]
        ctx = {"history": i, "seed": seed, "names": names}
        ref = {}
        for n in names:
            g = PerModuleRNG(seed).getModuleRNG(n)
            ref[n] = g.random(300)
        c = PerModuleRNG(seed)
        other = PerModuleRNG(seed + 1)
        pos = {n: 0 for n in names}
        for _ in range(60):
            n = names[int(rng.integers(len(names)))]
            k = int(rng.integers(1, 6))
            if pos[n] + k > 300:
                continue
            if rng.random() < 0.3:
                other.getModuleRNG(n).random(3)
            x = c.getModuleRNG(n).random(k)
            if not ck.ensure(np.array_equal(x, ref[n][pos[n]:pos[n] + k]), "the stream of a stage depends on the history of use of the collection", {"ctx": ctx, "name": n, "at": pos[n], "got": x, "want": ref[n][pos[n]:pos[n] + k]}):
                break
            pos[n] += k
        ck.ev("generator_histories")
        ck.case(ctx, True, {"seed": seed, "names": len(names)})
        for a in range(len(names)):
            for b in range(a):
                if names[a] != names[b]:
                    x, y = ref[names[a]], ref[names[b]]
                    ck.ev("stream_pairs")
                    ck.ensure(not np.intersect1d(x, y).size and abs(np.corrcoef(x, y)[0, 1]) < 0.42, "two stages draw the same or correlated random numbers", {"ctx": ctx, "names": [names[a], names[b]]})
        for ds in (1, 2, 1000, 2 ** 20):
            y = PerModuleRNG(seed + ds).getModuleRNG(names[0]).random(300)
            ck.ev("stream_pairs")
            ck.ensure(not np.intersect1d(ref[names[0]], y).size and abs(np.corrcoef(ref[names[0]], y)[0, 1]) < 0.42, "two seeds give the same random numbers", {"ctx": ctx, "seeds": [seed, seed + ds]})
    # runs without a seed, started at once
    from sorcha.utilities.sorchaArguments import sorchaArguments

    base = {k: "x" for k in ("paramsinput", "orbinfile", "configfile", "outpath", "outfilestem", "pointing_database", "visits_database", "surveyname", "stats")}
    base["loglevel"] = False
    seen = [float(sorchaArguments(dict(base))._rngs.getModuleRNG(NAMES[0]).random()) for _ in range(40)]
    ck.ev("unseeded_pairs", 39)
    ck.ensure(len(set(seen)) >= 39, "unseeded runs started at once draw the same random numbers", {"distinct": len(set(seen)), "of": 40})
    # consecutive seeds, as users give to the parts of a large simulation: no stage of one run may draw what any stage of another draws
    for i in range(ck.n(3, 20)):
        base = int(ck.rng("n", i).integers(1 << 40))
        seen = {}
        for s in range(base, base + 150):
            c = PerModuleRNG(s)
            for n in NAMES:
                x = float(c.getModuleRNG(n).random())
                ck.ev("neighbouring_streams")
                if not ck.ensure(x not in seen, "two runs with nearby seeds draw the same random numbers", {"first": seen.get(x), "second": [s, n], "value": x}):
                    return
                seen[x] = [s, n]


def parts():
    return [("processes", processes), ("streams", streams), ("generators", generators)]
