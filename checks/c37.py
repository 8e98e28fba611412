"""C37: the logs of a run tell what it did."""
import collections
import glob
import logging
import os
import re
import shutil

import numpy as np
import pandas as pd

from vlib.common import Check, Inconclusive, SkipCase
from vlib import pipeline as P
from vlib import world as W
from checks import c01, c36

STAGES = ["FOV filters", "SNR limit filter", "mag limit filter", "fading function", "bright limit filter", "distance cuts", "motion cuts", "DES Discovery filter", "SSP linking filter"]


def make():
    ck = Check(
        "C37",
        "Counts: each case is one detailed log of a complete run; the rows before and after each stage, added over the chunks, must be the numbers of rows which runs with only the stages up to there report. "
        "Outcomes: each case is one real command with a valid or a spoilt input; exit status, log, error log and output are compared. Seeds: a run repeated with the seed in its log gives the same bytes. "
        "Non-trivial = rows entered a stage, or the command was refused, or the seed was drawn by the run.",
        ["messages of stages that are not recognised in the log are not judged", "an unexpected exception need not be in the error log, as documented only for graceful errors"],
    )
    for k, n in {"detailed_logs": 20, "stage_counts": 120, "stages_that_took_rows": 40, "chunks_in_logs": 40, "des_logs": 6, "valid_runs": 6, "refused_runs": 40, "graceful_errors": 35, "runs_refused_by_a_model": 4, "verbs_run": 8, "verbs_refused": 2, "drawn_seeds": 3, "repeated_from_log": 3,
                 **{"stage_" + s.split()[0]: 1 for s in STAGES}}.items():
        ck.need(k, n)
    return ck


class Capture(logging.Handler):
    def __init__(self):
        super().__init__(logging.INFO)
        self.lines = []

    def emit(self, r):
        self.lines.append((r.levelno, r.getMessage()))


def logged(w, outdir, seed, **over):
    """P.run with the detailed log."""
    cap = Capture()
    root = logging.getLogger()
    lv, dis = root.level, logging.root.manager.disable
    import sorcha.utilities.sorchaArguments as A

    orig = A.sorchaArguments.__init__

    def init(self, d=None, *a, **k):
        if isinstance(d, dict):
            d = dict(d, loglevel=True)
        return orig(self, d, *a, **k) if d is not None else orig(self, *a, **k)

    disable = logging.disable
    handlers, root.handlers = root.handlers, [cap]
    root.setLevel(logging.INFO)
    A.sorchaArguments.__init__ = init
    logging.disable(logging.NOTSET)
    P.logging = type("L", (), {"disable": staticmethod(lambda x: None), "CRITICAL": logging.CRITICAL, "NOTSET": logging.NOTSET})
    try:
        r = P.run(w, outdir, seed=seed, **over)
    finally:
        P.logging = logging
        A.sorchaArguments.__init__ = orig
        root.handlers = handlers
        root.setLevel(lv)
        disable(dis)
    return r, cap.lines


LINE = re.compile(r"number of rows (before|after) applying (.*?):?\s+(\d+)\s*$", re.I)


def counts(lines):
    """stage -> (before, after) added over the chunks; problems of the sequence."""
    before, after, order, bad, last, chunks = collections.Counter(), collections.Counter(), [], [], None, 0
    for _, m in lines:
        if re.search(r"working on objects \d+-\d+", m, re.I):
            chunks += 1
            last = None
        g = LINE.search(m)
        if not g:
            continue
        which, stage, n = g.group(1).lower(), g.group(2).strip().rstrip(":"), int(g.group(3))
        stage = next((s for s in STAGES if s.lower() == stage.lower()), None)
        if stage is None:
            continue
        if which == "before":
            before[stage] += n
            if last is not None and n != last:
                bad.append((stage, last, n))
        else:
            after[stage] += n
            last = n
            if stage not in order:
                order.append(stage)
    return before, after, order, bad, chunks


def part_counts(ck):
    for i in range(ck.n(26, 180)):
        rng = ck.rng("c", i)
        des = i % 3 == 1
        w = P.make(rng, "DES" if des else "rubin_sim", n=int(rng.choice([4, 8, 14])), nights=int(rng.integers(3, 7)) + 3 * des, per_night=2, hrange=(13.0, 20.0) if des else (14.0, 22.0), phase=str(rng.choice(["HG", "none"])))
        d = W.tmpdir()
        try:
            P.write(w, os.path.join(d, "in"), "csv", "csv")
            one(ck, rng, w, d, des, i)
        except SkipCase:
            pass
        finally:
            shutil.rmtree(d, ignore_errors=True)


def one(ck, rng, w, d, des, i):
    base = {"FILTERS": {"observing_filters": ",".join(w.filters)}, "OUTPUT": {"output_format": str(rng.choice(["csv", "sqlite3", "hdf5"])), "output_columns": "all"},
            "INPUT": {"size_serial_chunk": str(int(rng.choice([2, 3, 5, 1000])))}, "FOV": {"camera_model": "none"}, "LINKINGFILTER": {}, "EXPERT": {}, "SATURATION": {}, "FADINGFUNCTION": None}
    if not des:
        base["EXPERT"] = {"default_snr_cut": "False", "randomization_on": str(rng.choice(["True", "False"])), "vignetting_on": str(rng.choice(["True", "False"]))}
    else:
        base["FADINGFUNCTION"] = {"fading_function_on": "False"}
    steps = []
    k = str(rng.choice(["circle", "fill", "footprint"]))
    fov = {"circle": {"camera_model": "circle", "circle_radius": f"{rng.uniform(0.8, 1.9):.3f}"}, "fill": {"camera_model": "circle", "fill_factor": "0.9", "circle_radius": "1.8"}, "footprint": {"camera_model": "footprint"}}[k]
    if k == "fill" and des:
        fov.pop("fill_factor")
    steps.append(("FOV filters", {"FOV": fov}))
    r = rng.random()
    if r < 0.45 and not des:
        steps.append(("SNR limit filter", {"EXPERT": {"snr_limit": f"{rng.uniform(3, 15):.2f}"}}))
    elif r < 0.9:
        steps.append(("mag limit filter", {"EXPERT": {"mag_limit": f"{rng.uniform(21.5, 23.5):.2f}"}}))
    if not des:
        steps.append(("fading function", {"FADINGFUNCTION": {"fading_function_on": "True", "fading_function_width": "0.3", "fading_function_peak_efficiency": "0.9"}}))
    elif rng.random() < 0.7:
        steps.append(("fading function", {"FADINGFUNCTION": {"fading_function_on": "True"}}))
    steps.append(("bright limit filter", {"SATURATION": {"bright_limit": f"{rng.uniform(16, 18.5):.2f}"}}))
    if des:
        if rng.random() < 0.6:
            steps.append(("distance cuts", {"LINKINGFILTER": {"distance_cut_upper": "14", "distance_cut_lower": "0.5"}}))
        if rng.random() < 0.6:
            steps.append(("motion cuts", {"LINKINGFILTER": {"motion_cut_upper": "110", "motion_cut_lower": "1"}}))
        steps.append(("DES Discovery filter", {"LINKINGFILTER": {"des_discovery_on": "True"}}))
    else:
        steps.append(("SSP linking filter", {"LINKINGFILTER": {"SSP_detection_efficiency": "0.9", "SSP_number_observations": "2", "SSP_separation_threshold": "0.5", "SSP_maximum_time": "0.0625",
                                                              "SSP_number_tracklets": "1", "SSP_track_window": "15", "SSP_night_start_utc": "16.0", "drop_unlinked": "True"}}))
    seed = int(rng.integers(1, 10 ** 6))
    ctx = {"world": i, "survey": w.survey, "base": base, "steps": steps}

    def conf(n):
        o = {k: (dict(v) if v is not None else None) for k, v in base.items()}
        for _, c in steps[:n]:
            for s, kv in c.items():
                o[s] = dict(o.get(s) or {}, **kv)
        return o

    rows = []
    for n in range(len(steps) + 1):
        if n == len(steps):
            r, lines = ck.must(logged, w, os.path.join(d, f"o{n}"), seed, _w=ctx, **conf(n))
        else:
            r = ck.must(P.run, w, os.path.join(d, f"o{n}"), seed=seed, _w=dict(ctx, n=n), **conf(n))
        rows.append(0 if r.out is None else len(r.out))
        shutil.rmtree(r.dir, ignore_errors=True)
    before, after, order, bad, chunks = counts(lines)
    ctx.update(rows=rows, before=dict(before), after=dict(after))
    ck.ev("detailed_logs")
    ck.ev("des_logs", des)
    ck.ev("chunks_in_logs", chunks)
    ck.case(["counts", i, rows], rows[0] > 0, ctx)
    size = int(base["INPUT"]["size_serial_chunk"])
    n = len(w.ids)
    ck.ensure(chunks == -(-n // size), "the log has another number of chunks", {"ctx": ctx, "chunks": chunks, "objects": n})
    ck.ensure(not bad, "in the log, rows appear or disappear between two stages", {"ctx": ctx, "at": bad[:4]})
    ck.ensure(any("completed" in m for _, m in lines), "the log of a whole run does not say that it is completed", ctx)
    ck.ensure(not any(l >= logging.ERROR for l, _ in lines), "a run without errors logs an error", {"ctx": ctx, "errors": [m for l, m in lines if l >= logging.ERROR][:3]})
    for j, (s, _) in enumerate(steps):
        if s not in before and rows[j] > 0:
            # the stage is not named in this log
            if s in STAGES:
                ck.violation("rows entered a stage which is not in the detailed log", {"ctx": ctx, "stage": s})
            continue
        ck.ev("stage_counts")
        ck.ev("stage_" + s.split()[0], rows[j] > 0)
        ck.ev("stages_that_took_rows", rows[j + 1] < rows[j])
        ck.ensure(before[s] == rows[j], f"the log counts {before[s]} rows before the {s}, the run without it and what follows has {rows[j]}", ctx)
        ck.ensure(after[s] == rows[j + 1], f"the log counts {after[s]} rows after the {s}, the run that ends there has {rows[j + 1]}", ctx)


# ---------------------------------------------------------------- outcomes
def spoil(rng, w, files, sec, kind):
    """Changes files, sections or arguments; False if it does not apply."""
    def table(f, fn):
        t = pd.read_csv(files[f], dtype={"ObjID": str}, keep_default_na=False, na_values=[""])
        t = fn(t)
        t.to_csv(files[f], index=False)

    one = w.eph["ObjID"].iloc[0]
    is_one = lambda t: t["ObjID"] == one  # noqa
    if kind == "missing file":
        os.remove(files[str(rng.choice(["orbinfile", "paramsinput", "pointing_database", "input_ephemeris_file"]))])
    elif kind == "missing parameters":
        table("paramsinput", lambda t: t[~is_one(t)])
    elif kind == "no magnitude":
        table("paramsinput", lambda t: t.drop(columns=[c for c in t.columns if c.startswith("H_")]))
    elif kind == "no colour":
        table("paramsinput", lambda t: t.drop(columns=[c for c in t.columns if c.endswith("-" + w.main)][:1]))
    elif kind == "no phase parameter":
        table("paramsinput", lambda t: t.drop(columns=["GS"]))
    elif kind == "repeated object":
        table("paramsinput", lambda t: pd.concat([t, t[is_one(t)]]))
    elif kind == "repeated orbit":
        table("orbinfile", lambda t: pd.concat([t, t[is_one(t)]]))
    elif kind == "orbit column":
        table("orbinfile", lambda t: t.drop(columns=["inc"]))
    elif kind == "orbit format":
        table("orbinfile", lambda t: t.assign(FORMAT="XYZ"))
    elif kind == "ephemeris column":
        table("input_ephemeris_file", lambda t: t.drop(columns=["Range_LTC_km"]))
    elif kind == "not a number":
        table("paramsinput", lambda t: t.assign(**{"H_" + w.main: t["H_" + w.main].astype(object).where(~is_one(t), "x")}))
    elif kind == "bad value":
        s, k, v = [("OUTPUT", "output_format", "fits"), ("INPUT", "size_serial_chunk", "many"), ("INPUT", "eph_format", "json"), ("FOV", "camera_model", "square"), ("PHASECURVES", "phase_function", "HHH"),
                   ("EXPERT", "randomization_on", "perhaps"), ("SATURATION", "bright_limit", "a,b"), ("OUTPUT", "position_decimals", "-2"), ("FILTERS", "observing_filters", "q,zz"),
                   ("EXPERT", "snr_limit", "-3"), ("LINKINGFILTER", "SSP_number_tracklets", "3")][int(rng.integers(11))]
        sec.setdefault(s, {})[k] = v
    elif kind == "missing section":
        sec.pop(str(rng.choice(["INPUT", "OUTPUT", "FILTERS"])))
    elif kind == "unknown output column":
        sec["OUTPUT"]["output_columns"] = "ObjID,fieldMJD_TAI,optFilter,nothing_like_it"
    elif kind == "bad query":
        sec["INPUT"]["pointing_sql_query"] = "SELECT * FROM nothing"
    elif kind == "no visits":
        sec["INPUT"]["pointing_sql_query"] += " WHERE 1 = 0" if " where " not in sec["INPUT"]["pointing_sql_query"].lower() else ""
    elif kind == "empty orbits":
        table("orbinfile", lambda t: t.iloc[:0])
    else:
        return False
    return True


KINDS = ["missing file", "missing parameters", "no magnitude", "no colour", "no phase parameter", "repeated object", "repeated orbit", "orbit column", "orbit format", "ephemeris column", "not a number", "bad value",
         "missing section", "unknown output column", "bad query", "empty orbits", "existing output", "survey"]


def part_outcomes(ck):
    pool = c36.Pool(c36.build(), 8)
    root = W.tmpdir()
    try:
        reqs, infos = [], []
        for i in range(ck.n(90, 600)):
            rng = ck.rng("o", i)
            w = P.make(rng, "rubin_sim" if rng.random() < 0.75 else "DES", n=6, nights=3, per_night=2, pad_vis=5, name_kind="plain")
            while not len(w.eph):
                w = P.make(rng, w.survey, n=6, nights=3, per_night=2, pad_vis=5, name_kind="plain")
            d = os.path.join(root, "c%d" % i)
            out = os.path.join(d, "out")
            os.makedirs(out)
            P.write(w, os.path.join(d, "in"))
            sec = P.sections(w, OUTPUT={"output_format": str(rng.choice(["csv", "sqlite3", "hdf5"])), "output_columns": "all"}, FOV={"camera_model": "none"})
            kind = None if i % 8 == 0 else KINDS[(i - 1 - i // 8) % len(KINDS)]
            extra = []
            if kind == "existing output":
                f = {"csv": "out.csv", "sqlite3": "out.db", "hdf5": "out.h5"}[sec["OUTPUT"]["output_format"]]
                open(os.path.join(out, f), "w").write("mine")
            elif kind == "survey":
                pass
            elif kind is not None:
                spoil(rng, w, w.files, sec, kind)
            ini = W.write_ini(sec, os.path.join(d, "c.ini"))
            argv = P.cli_args(w, ini, out, stats="st") + (["-l"] if rng.random() < 0.5 else [])
            if kind == "survey":
                argv[argv.index("-s") + 1] = str(rng.choice(["LSST", "ZTF", "des2"]))
            reqs.append({"module": "sorcha_cmdline.run", "argv": ["sorcha-run"] + argv, "cwd": out, "env": {"SORCHA_SEED": "4"}, "out": os.path.join(d, "so"), "err": os.path.join(d, "se"),
                         "trace": os.path.join(d, "trace"), "fault": {"prefix": "/nonexistent/", "read": 0, "kind": 0, "at": -1, "sticky": 0}})
            infos.append((i, kind, w.survey, d, out, sec))
        for (i, kind, survey, d, out, sec), rc, q in zip(infos, pool.map(reqs), reqs):
            try:
                outcome(ck, i, kind, survey, d, out, sec, rc, open(q["err"]).read())
            except SkipCase:
                pass
    finally:
        pool.close()
        shutil.rmtree(root, ignore_errors=True)


def outcome(ck, i, kind, survey, d, out, sec, rc, err):
    lg, er = sorted(glob.glob(os.path.join(out, "*sorcha.log"))), sorted(glob.glob(os.path.join(out, "*sorcha.err")))
    log = open(lg[0]).read() if lg else None
    el = open(er[0]).read() if er else None
    ctx = {"case": i, "spoilt": kind, "survey": survey, "rc": rc, "stderr": err[-500:], "log": (log or "")[-300:], "err": (el or "")[-300:], "config": sec if kind in ("bad value", "missing section") else None}
    ck.case(["outcome", i, kind], kind is not None, ctx)
    if rc is None:
        raise Inconclusive("the fork server died")
    ck.ensure(len(lg) == 1 and len(er) == 1, "a run does not have one log and one error log", ctx)
    if not lg or not er:
        raise SkipCase()
    done = c36.completed(log)
    ck.ensure(done == (rc == 0), "the log and the exit status disagree on whether the run is completed", ctx)
    if rc == 0:
        ck.ev("valid_runs", kind is None)
        ck.ensure(kind is None or kind == "bad value", "a run with a spoilt input is reported as successful", ctx)
        ck.ensure(el == "", "the error log of a successful run is not empty", ctx)
    else:
        ck.ev("refused_runs")
        ck.ensure(kind is not None, "a valid run fails", ctx)
        ck.ensure(err.strip() != "", "a failed run prints nothing", ctx)
        if "Traceback" not in err:
            ck.ev("graceful_errors")
            ck.ensure(el.strip() != "", "a run which ended with an error message has an empty error log", ctx)
            words = lambda s: set(re.findall(r"[A-Za-z_]{4,}", s))  # noqa
            a, b = words(err), words(el)
            ck.ensure(len(a & b) >= min(3, len(a)) or not a, "the error log does not have the error the run ended with", ctx)
            ck.ensure(all(l in log for l in el.splitlines()), "an error is in the error log but not in the log", ctx)


def part_seeds(ck):
    for i in range(ck.n(3, 12)):
        rng = ck.rng("s", i)
        w = P.make(rng, "DES" if i % 3 == 2 else "rubin_sim", n=8, nights=3, pad_vis=5)
        d = W.tmpdir()
        try:
            P.write(w, os.path.join(d, "in"))
            over = {"OUTPUT": {"output_columns": "all"}, "FOV": {"camera_model": "circle", "circle_radius": "1.9"}}
            if w.survey != "DES":
                over["FOV"]["fill_factor"] = "0.9"
                over["FADINGFUNCTION"] = {"fading_function_on": "True", "fading_function_width": "0.2", "fading_function_peak_efficiency": "0.9"}
            r = P.cli(w, os.path.join(d, "a"), over=over)
            lg = glob.glob(os.path.join(d, "a", "*sorcha.log"))
            ctx = {"case": i, "rc": r.returncode, "stderr": r.stderr[-300:]}
            if not ck.ensure(r.returncode == 0 and len(lg) == 1, "a run without a seed fails", ctx):
                continue
            s = re.findall(r"base rng seed is (\d+)", open(lg[0]).read())
            ck.ev("drawn_seeds")
            if not ck.ensure(len(set(s)) == 1, "the log does not have the one seed of the run", dict(ctx, seeds=s)):
                continue
            r2 = P.cli(w, os.path.join(d, "b"), seed=s[0], over=over)
            a, b = [open(os.path.join(d, x, "out.csv"), "rb").read() if os.path.exists(os.path.join(d, x, "out.csv")) else None for x in "ab"]
            ck.ev("repeated_from_log")
            ck.case(["seed", i], a is not None, ctx)
            ck.ensure(r2.returncode == 0 and a == b, "a run repeated with the seed in the log of the first gives another output", dict(ctx, seed=s[0], rc2=r2.returncode))
            s2 = re.findall(r"base rng seed is (\d+)", open(glob.glob(os.path.join(d, "b", "*sorcha.log"))[0]).read())
            ck.ensure(set(s2) == set(s), "the log of a run with a given seed has another one", {"ctx": ctx, "given": s[0], "logged": s2})
        finally:
            shutil.rmtree(d, ignore_errors=True)


def part_models(ck):
    """Runs refused by a model: the reason is logged as an error."""
    from checks import c33

    c33.models()
    for i in range(ck.n(4, 30)):
        rng = ck.rng("m", i)
        w = P.make(rng, "DES" if i % 4 == 3 else "rubin_sim", n=4, groups=1, nights=2, pad_vis=3, hrange=(14, 18))
        t = c33.cp(rng, w)
        lc, ca = ("verif_wave", None) if i % 2 == 0 else (None, "verif_dust")
        col = str(rng.choice(["LCA", "Period", "Time0"] if lc else ["afrho1", "k"]))
        w.cp = t.drop(columns=col)
        d = W.tmpdir()
        cap = Capture()
        root = logging.getLogger()
        lv, handlers, dis = root.level, root.handlers, logging.root.manager.disable
        try:
            P.write(w, os.path.join(d, "in"), "csv", "csv", rng=rng)
            root.handlers = [cap]
            root.setLevel(logging.ERROR)
            logging.disable(logging.NOTSET)
            try:
                r = c33.go(ck, w, d, "run", {}, lc=lc, ca=ca, expect=False)
            finally:
                root.handlers = handlers
                root.setLevel(lv)
                logging.disable(dis)
            ctx = {"case": i, "model": lc or ca, "missing column": col, "result": repr(r)[:200], "errors": [m for v, m in cap.lines if v >= logging.ERROR][:5]}
            ck.case(["model", i], True, ctx)
            ck.ev("runs_refused_by_a_model")
            ck.ensure(isinstance(r, BaseException), "a run with a model which lacks one of its columns is reported as successful", ctx)
            ck.ensure(any(col in m for v, m in cap.lines if v >= logging.ERROR), "a run refused by its model has an error log without the reason", ctx)
        except SkipCase:
            pass
        finally:
            shutil.rmtree(d, ignore_errors=True)


def part_dispatch(ck):
    """sorcha VERB ...: the command of that name with these arguments, and its exit status."""
    import subprocess
    import sys

    for i in range(ck.n(20, 150)):
        rng = ck.rng("v", i)
        d = W.tmpdir()
        try:
            dirs = [os.path.join(d, n) for n in rng.permutation(["bin", "with space", "nothing", "umläut"])[: int(rng.integers(1, 5))]]
            for p in dirs:
                if not p.endswith("nothing"):
                    os.makedirs(p)
            real = [p for p in dirs if os.path.isdir(p)]
            verbs = [str(v) for v in rng.permutation(["run", "check", "a-b", "x2"])[: int(rng.integers(1, 4))]] if real else []
            rec = os.path.join(d, "rec")
            for v in verbs:
                f = os.path.join(real[int(rng.integers(len(real)))], "sorcha-" + v)
                with open(f, "w") as h:
                    h.write('#!/bin/sh\nprintf "%s\\0" "$0" "$@" >> "$REC"\n[ "$CODE" = kill ] && kill -9 $$\nexit $CODE\n')
                os.chmod(f, 0o755)
            if real and rng.random() < 0.5:  # not a command
                open(os.path.join(real[0], "sorcha-plain"), "w").close()
            if rng.random() < 0.8 and verbs:
                verb = verbs[int(rng.integers(len(verbs)))]
            else:
                verb = str(rng.choice(["plain", "nope", "ru", ""]))
            args = [str(x) for x in rng.choice(["-c", "a b", "--version", "-h", "", "x=*.csv", "-f", "ünï", "--help", "run"], int(rng.integers(0, 6)))]
            code = str(rng.choice(["0", "0", "1", "2", "7", "77", "kill"]))
            env = dict(os.environ, REC=rec, CODE=code, PATH=os.pathsep.join(dirs + ["/usr/bin", "/bin"]))
            r = subprocess.run([sys.executable, "-W", "ignore", "-c", "from sorcha_cmdline.main import main; main()"] + ([verb] if verb else []) + (args if verb else []),
                               env=env, cwd=d, capture_output=True, text=True, timeout=120)
            seen = open(rec).read().split("\0")[:-1] if os.path.exists(rec) else None
            ctx = {"verb": verb, "args": args, "there are": verbs, "code": code, "rc": r.returncode, "was run with": seen, "stderr": r.stderr[-300:]}
            ck.case(["verb", i, verb, args, code], verb in verbs, ctx)
            if verb in verbs:
                ck.ev("verbs_run")
                ck.ensure(seen is not None and os.path.basename(seen[0]) == "sorcha-" + verb and seen[1:] == args, "a command is not run once with the arguments given", ctx)
                ck.ensure(r.returncode == int(code) if code != "kill" else r.returncode != 0, "the exit status is not that of the command which was run", ctx)
            else:
                ck.ev("verbs_refused")
                ck.ensure(seen is None and r.returncode != 0, "an unknown command is not refused", ctx)
        except SkipCase:
            pass
        finally:
            shutil.rmtree(d, ignore_errors=True)


def parts():
    return [("counts", part_counts), ("dispatch", part_dispatch), ("models", part_models), ("outcomes", part_outcomes), ("seeds", part_seeds)]
