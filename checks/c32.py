"""C32: the log checker reports each run's true outcome."""
import argparse
import contextlib
import io
import logging
import os
import re
import shutil
import signal
import subprocess
import time

import numpy as np
import pandas as pd

from vlib.common import Check, SkipCase
from vlib import pipeline as P
from vlib import world as W

DONE = "Sorcha process is completed."


def make():
    ck = Check(
        "C32",
        "Real runs (finishing, refused, failing at an injected fault in one of the stages, killed) whose exit status is known leave their logs; trees of such logs, of logs cut at every "
        "line and at drawn bytes, and of hostile logs (empty, binary, other encodings, very long lines) under hostile names are given to the check-logs command and its table and printed report "
        "compared with the known outcomes. Non-trivial = successful and unsuccessful logs in one tree.",
        ["a log cut within the last three bytes after the final message is not judged", "a last line made of blanks may be reported as such or as the last line with text"],
    )
    for k, n in {"logs_judged": 400, "real_success": 5, "real_failed": 20, "killed_runs": 1, "faults_injected": 4, "empty_logs": 8, "cut_logs": 200, "binary_logs": 12, "csv_reports": 20,
                 "printed_reports": 10, "all_successful": 5, "existing_report_kept": 2, "error_logs": 20, "decoys": 50, "odd_names": 30}.items():
        ck.need(k, n)
    return ck


def command(ck, folder, outpath=False, force=False):
    from sorcha_cmdline.outputs import cmd_outputs_check_logs

    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        r, e = ck.call(cmd_outputs_check_logs, argparse.Namespace(filepath=folder, outpath=outpath, force=force))
    return buf.getvalue(), e


# --- real runs -----------------------------------------------------------------------------------------------------------------------------------------

FAULTS = [("sorcha.modules.PPMatchPointingToObservations", "PPMatchPointingToObservations"), ("sorcha.modules.PPCalculateApparentMagnitude", "PPCalculateApparentMagnitude"),
          ("sorcha.modules.PPOutput", "PPWriteOutput"), ("sorcha.modules.PPReadPointingDatabase", "PPReadPointingDatabase"), ("sorcha.modules.PPStats", "stats")]


def run(ck, w, d, out, kind, rng, stem):
    """One run of the real entry point with logging. Returns (completed, graceful refusal, log text, error-log text)."""
    from checks.c30 import execute, ns
    import sorcha.sorcha as S
    import sorcha.des as D

    sec = P.sections(w, OUTPUT={"output_format": "csv"}, INPUT={"size_serial_chunk": str(rng.choice([2, 3, 100]))})
    files = dict(w.files)
    a = {"t": stem, "st": "tally" if rng.random() < 0.4 else None, "l": bool(rng.random() < 0.5)}
    fault = None
    if kind == "config":
        k = int(rng.integers(3))
        if k == 0:
            sec["INPUT"]["size_serial_chunk"] = "many"
        elif k == 1:
            sec["FOV"]["camera_model"] = "box"
        else:
            sec["PHASECURVES"]["phase_function"] = "HG7"
    elif kind == "existing":
        open(os.path.join(out, stem + ".csv"), "w").close()
    elif kind == "input":
        t = pd.read_csv(files["paramsinput"], dtype=str, keep_default_na=False, na_values=[""])
        q = os.path.join(d, "bad.csv")
        t.drop(columns=[c for c in t.columns if c.startswith("H_")]).to_csv(q, index=False)
        w.files = dict(files, paramsinput=q)
    elif kind == "missing":
        w.files = dict(files, orbinfile=os.path.join(d, "absent.csv"))
    elif kind == "survey":
        a["s"] = "LSST"
    elif kind == "fault":
        fault = FAULTS[int(rng.integers(len(FAULTS)))]
        if fault[1] == "stats":
            a["st"] = "tally"
    inip = W.write_ini(sec, os.path.join(d, "c.ini"))
    old = []
    n = [0]
    if fault:
        when = int(rng.integers(1, 3))
        for mod in (S, D):
            if hasattr(mod, fault[1]):
                f = getattr(mod, fault[1])

                def bad(*x, _f=f, **k):
                    n[0] += 1
                    if n[0] == when:
                        raise [OSError(28, "No space left on device"), MemoryError(), ValueError("injected\nin two lines"), KeyboardInterrupt()][int(rng.integers(4))]
                    return _f(*x, **k)

                old.append((mod, fault[1], f))
                setattr(mod, fault[1], bad)
    before = set(os.listdir(out))
    lev = logging.root.manager.disable
    logging.disable(logging.NOTSET)
    code = exc = None
    try:
        code = execute(ns(w, inip, out, **a), int(rng.integers(1, 10 ** 6)))
    except BaseException as e:  # noqa: B902 the injected faults
        exc = e
    finally:
        logging.disable(lev)
        for m, nm, f in old:
            setattr(m, nm, f)
        w.files = files
    new = sorted(set(os.listdir(out)) - before)
    logs = [f for f in new if f.endswith("sorcha.log")]
    errs = [f for f in new if f.endswith("sorcha.err")]
    if len(logs) != 1 or len(errs) != 1:
        ck.violation("a run does not leave one log and one error log", {"kind": kind, "new files": new}, "log files")
        return None
    t = open(os.path.join(out, logs[0]), encoding="utf-8", errors="replace").read()
    te = open(os.path.join(out, errs[0]), encoding="utf-8", errors="replace").read()
    if exc is not None and not (fault and n[0]):
        ck.violation("a run ended with a stack trace", {"kind": kind, "exception": repr(exc)[:300]}, "stack trace")
        return None
    completed = exc is None and code == 0
    if fault and exc is not None:
        ck.ev("faults_injected")
    return completed, exc is None and not completed, t, te, os.path.join(out, logs[0])


def part_real(ck):
    rng = ck.rng("real")
    pool = []
    kinds = ["ok", "fault", "config", "existing", "fault", "input", "missing", "survey", "ok", "fault"]
    for i in range(ck.n(50, 300)):
        kind = kinds[i % len(kinds)]
        w = P.make(rng, n=4, groups=1, nights=2, pad_vis=3, survey="DES" if i % 7 == 3 and kind != "survey" else "rubin_sim", hrange=(15, 20) if rng.random() < 0.7 else (30, 31))
        d = W.tmpdir()
        try:
            P.write(w, os.path.join(d, "in"), "csv", "csv", rng=rng)
            out = os.path.join(d, "o")
            os.makedirs(out)
            stem = str(rng.choice(["run", "run.v2", "x[1]", "a b", DONE[:6]]))
            r = run(ck, w, d, out, kind, rng, stem)
            if r is None:
                continue
            completed, refused, t, te, p = r
            ctx = {"kind": kind, "survey": w.survey, "i": i, "completed": completed}
            if kind == "ok":
                ck.ensure(completed, "a valid run did not complete", {"ctx": ctx, "log": t[-300:]}, "valid run")
            elif kind != "fault":
                ck.ensure(not completed, "an invalid run completed", {"ctx": ctx}, "invalid run")
            if completed:
                ck.ensure(te == "", "the error log of a completed run is not empty", {"ctx": ctx, "err": te[:300]}, "error log")
            elif refused:
                ck.ensure(te.strip() != "", "the error log of a refused run is empty", {"ctx": ctx, "log": t[-300:]}, "error log")
            ck.ev("error_logs")
            ck.ev("real_success" if completed else "real_failed")
            pool.append((completed, open(p, "rb").read()))
            one_folder(ck, out, {p: completed}, ctx, rng)
        except SkipCase:
            pass
        finally:
            shutil.rmtree(d, ignore_errors=True)
    killed(ck, rng, pool)
    trees(ck, rng, pool)


def killed(ck, rng, pool):
    """Processes of their own, killed at drawn moments: their last outcome is the one the log has to give."""
    w = P.make(rng, n=30, groups=2, nights=4)
    d = W.tmpdir()
    try:
        P.write(w, os.path.join(d, "in"), "csv", "csv", rng=rng)
        inip = W.write_ini(P.sections(w, OUTPUT={"output_format": "csv"}, INPUT={"size_serial_chunk": "1"}), os.path.join(d, "c.ini"))
        for j in range(ck.n(4, 16)):
            out = os.path.join(d, f"k{j}")
            os.makedirs(out)
            env = dict(os.environ, SORCHA_SEED="3")
            p = subprocess.Popen([P.PY, "-m", "sorcha_cmdline.run"] + P.cli_args(w, inip, out), env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            t0 = time.time()
            while time.time() - t0 < 60 and p.poll() is None and not any(f.endswith("sorcha.log") for f in os.listdir(out)):
                time.sleep(0.002)
            time.sleep(float(rng.uniform(0, 0.5)))
            if j % 4 == 3:
                p.wait(120)
            else:
                p.send_signal(signal.SIGKILL if j % 2 else signal.SIGTERM)
            p.wait(120)
            logs = [f for f in os.listdir(out) if f.endswith("sorcha.log")]
            if not logs:
                continue
            completed = p.returncode == 0
            if p.returncode and p.returncode < 0:
                ck.ev("killed_runs")
                n = open(os.path.join(out, logs[0]), errors="replace").read()
                if DONE in n.splitlines()[-1:]:
                    continue  # killed between the message and the end of the process
            lp = os.path.join(out, logs[0])
            b = open(lp, "rb").read()
            if not completed and DONE.encode() in b[-40:]:
                continue
            pool.append((completed, b))
            ctx = {"kind": "killed", "status": p.returncode, "bytes": len(b)}
            one_folder(ck, out, {lp: completed}, ctx, rng)
    finally:
        shutil.rmtree(d, ignore_errors=True)


# --- reports -------------------------------------------------------------------------------------------------------------------------------------------


def lastlines(b):
    """Acceptable reports of the last line of a log."""
    t = b.decode("utf-8", errors="replace").replace("\r\n", "\n").replace("\r", "\n")
    ls = t.split("\n")
    if ls and ls[-1] == "":
        ls = ls[:-1]
    txt = [x for x in ls if x.strip()]
    uni = t.splitlines()  # line ends of other kinds (form feed, ...) may count as ends of lines or not
    utxt = [x for x in uni if x.strip()]
    return [z[-1] if z else "" for z in (ls, txt, uni, utxt)]


def squash(s):
    return re.sub(r"[^ -~]+", "", "" if s is None or s != s else str(s)).strip()


def matches(reported, b):
    a = squash(reported)
    for x in lastlines(b):
        y = squash(x)
        if a == y:
            return True
    return not lastlines(b)[0].strip() and not a


def one_folder(ck, folder, want, ctx, rng):
    """want: path -> completed (None: not judged)."""
    ok = [p for p, c in want.items() if c]
    bad = [p for p, c in want.items() if c is False]
    ck.case([ctx, sorted(os.path.basename(p) for p in want)], bool(ok and bad), ctx)
    d = W.tmpdir()
    try:
        mode = int(rng.integers(3))
        if mode < 2:
            rep = os.path.join(d, str(rng.choice(["report.csv", "report", "r.txt", "r[1].csv"])))
            real = rep if rep.endswith(".csv") else rep + ".csv"
            pre, force = bool(rng.random() < 0.3), bool(rng.random() < 0.5)
            other = os.path.join(d, "report.csv.bak")
            open(other, "w").write("mine")
            if rep != real:
                open(rep, "w").write("not a report")
            if pre:
                open(real, "w").write("precious")
            txt, e = command(ck, folder, rep, force)
            if e is not None:
                ck.violation("the log checker failed", {"ctx": ctx, "error": f"{type(e).__name__}: {str(e)[:300]}", "logs": sizes(want)}, "failed")
                return
            ck.ensure(open(other).read() == "mine" and (rep == real or (os.path.exists(rep) and open(rep).read() == "not a report")), "the log checker changed another file", ctx, "other file")
            if pre and not force:
                ck.ev("existing_report_kept")
                ck.ensure(os.path.exists(real) and open(real).read() == "precious", "an existing report was replaced without force", {"ctx": ctx, "name": os.path.basename(rep)}, "report overwritten")
                return
            if not bad and all(c is not None for c in want.values()):
                ck.ev("all_successful")
                ck.ensure("unsuccessful" not in txt, "completed runs are reported as unsuccessful", {"ctx": ctx, "text": txt[-500:]}, "outcome")
                ck.ev("logs_judged", len(want))
                return
            if not os.path.exists(real):
                if bad:
                    ck.violation("no report was written although there are unsuccessful runs", {"ctx": ctx, "text": txt[-400:], "logs": sizes(want)}, "outcome")
                return
            ck.ev("csv_reports")
            t = pd.read_csv(real, dtype={"log_lastline": str, "log_filename": str}, keep_default_na=False, lineterminator="\n")
            names = list(t["log_filename"])
            ck.ensure(sorted(os.path.realpath(x) for x in names) == sorted(os.path.realpath(p) for p in want), "the report does not contain each log once",
                      {"ctx": ctx, "report": sorted(names)[:6], "logs": sorted(want)[:6], "numbers": [len(names), len(want)]}, "logs listed")
            for nm, good, last in zip(names, t["run_successful"], t["log_lastline"]):
                c = want.get(nm, want.get(os.path.realpath(nm)))
                ck.ev("logs_judged")
                if c is None:
                    continue
                good = str(good) == "True"
                b = open(nm, "rb").read()
                ck.ensure(good == c, "a completed run is reported as unsuccessful" if c else "an unsuccessful run is reported as completed",
                          {"ctx": ctx, "log": os.path.basename(nm), "end": repr(b[-120:])}, "outcome")
                if not c:
                    ck.ensure(matches(last, b), "the reported last line is not the log's", {"ctx": ctx, "log": os.path.basename(nm), "reported": last[:200], "end": repr(b[-200:])}, "last line")
        else:
            txt, e = command(ck, folder)
            if e is not None:
                ck.violation("the log checker failed", {"ctx": ctx, "error": f"{type(e).__name__}: {str(e)[:300]}", "logs": sizes(want)}, "failed")
                return
            ck.ev("printed_reports")
            found = re.findall(r"Failed run log filename:\n\t(.*)\n", txt)
            lines = re.findall(r"Failed run last line of log:\n\t(.*)\n", txt)
            got = sorted(os.path.realpath(x) for x in found)
            maybe = {os.path.realpath(p) for p, c in want.items() if c is None}
            ck.ensure([x for x in got if x not in maybe] == sorted(os.path.realpath(p) for p in bad), "the printed report does not name exactly the unsuccessful runs",
                      {"ctx": ctx, "reported": [os.path.basename(x) for x in got][:8], "unsuccessful": [os.path.basename(x) for x in bad][:8]}, "outcome")
            ck.ev("logs_judged", len(want))
            if len(found) == len(lines):
                for nm, last in zip(found, lines):
                    if want.get(nm) is False:
                        b = open(nm, "rb").read()
                        ck.ensure(matches(last, b), "the printed last line is not the log's", {"ctx": ctx, "log": os.path.basename(nm), "reported": last[:200], "end": repr(b[-200:])}, "last line")
            if not bad and not maybe:
                ck.ev("all_successful")
                ck.ensure("unsuccessful" not in txt, "completed runs are reported as unsuccessful", {"ctx": ctx, "text": txt[-500:]}, "outcome")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def sizes(want):
    return [(os.path.basename(p), c, os.path.getsize(p)) for p, c in want.items()][:8]


def verdict(b, complete):
    """Outcome of a log that is a beginning of a real one of a completed run (complete: its bytes)."""
    if b == complete:
        return True
    if DONE.encode() in b[-len(DONE) - 4:]:
        return None
    return False


def trees(ck, rng, pool):
    good = [b for c, b in pool if c]
    fail = [b for c, b in pool if not c]
    if not good or not fail:
        return
    # every line of one completed run
    b = good[int(rng.integers(len(good)))]
    ends = [m.end() for m in re.finditer(b"\n", b)]
    for i in range(ck.n(40, 300)):
        d = W.tmpdir()
        try:
            want = {}

            def put(name, data, c):
                p = os.path.join(d, name)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                if os.path.exists(p):
                    return
                open(p, "wb").write(data)
                want[p] = c

            def nm(k):
                x = str(rng.choice(["", "sub/", "a/b/c/", "x[1]/", "dir with space/", ".hidden/", "run.csv/", "é/"]))
                y = str(rng.choice(["run", "SSPPOutput", "a b", "[x]", "é", "run,1", 'q"u', "sorcha.log", "-"]))
                if x or y != "run":
                    ck.ev("odd_names")
                return f"{x}{y}-2024-05-0{1 + k % 9}-00-00-0{k % 7}-p{k}-sorcha.log"

            only = int(rng.integers(5))
            n = int(rng.integers(3, 14))
            for k in range(n):
                kind = int(rng.integers(9)) if only else 0
                if kind == 0:
                    put(nm(k), good[int(rng.integers(len(good)))], True)
                elif kind == 1:
                    put(nm(k), fail[int(rng.integers(len(fail)))], False)
                elif kind in (2, 3):
                    e = ends[int(rng.integers(len(ends) - 1))] if len(ends) > 1 else 0
                    put(nm(k), b[:e], False)
                    ck.ev("cut_logs")
                elif kind == 4:
                    e = int(rng.integers(len(b))) if rng.random() < 0.6 else len(b) - int(rng.integers(4, 60))
                    put(nm(k), b[:max(e, 0)], verdict(b[:max(e, 0)], b))
                    ck.ev("cut_logs")
                elif kind == 5:
                    put(nm(k), [b"", b"\n", b" \n \n", b"\n" * 5][int(rng.integers(4))], False)
                    ck.ev("empty_logs")
                elif kind == 6:
                    z = bytes(rng.integers(0, 256, int(rng.integers(1, 300))).astype("u1")).replace(b"\n", b"").replace(b"\r", b"")
                    put(nm(k), b[:ends[0]] + (z if rng.random() < 0.5 else b"2024 \xff\xfe\x00 caf\xe9 stopped"), False)
                    ck.ev("binary_logs")
                elif kind == 7:  # the message in the text of another line, or of an earlier run
                    x = [b"2024 root INFO     Using commandline setting outfilestem = Sorcha process is completed.  or not \n",
                         (DONE + " \n").encode() + b"2024 root ERROR    ERROR: no \n", b"2024 root ERROR    " + b"x" * 70000 + b" \n", b"Sorcha process is completed \n", b"process is completed. \n",
                         b"2024 root ERROR    ERROR: a, \"quoted\" line, \xc2\xa0 \xe2\x80\xa8 \n"][int(rng.integers(6))]
                    put(nm(k), b[:ends[0]] + x, False)
                else:  # bytes that are no text within the log of a completed run
                    put(nm(k), b[:ends[0]] + b"2024 root INFO     Reading caf\xe9 \xff \n" + b[ends[0]:], True)
                    ck.ev("binary_logs")
            for x in ("notes.log", "run-sorcha.err", "x-sorcha.log.gz", "sorcha.log.bak", "run-sorcha.LOG", "s/sorcha_log"):
                if rng.random() < 0.6:
                    p = os.path.join(d, x)
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    open(p, "wb").write(b"" if rng.random() < 0.5 else fail[0])
                    ck.ev("decoys")
            if rng.random() < 0.3:
                os.makedirs(os.path.join(d, "folder-sorcha.log"), exist_ok=True)
            one_folder(ck, d, want, {"kind": "tree", "i": i, "logs": [(os.path.relpath(p, d), c) for p, c in want.items()][:14]}, rng)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    # every cut of one log, in one folder each twenty
    cuts = sorted(set(ends[:-1]) | set(range(max(0, len(b) - 80), len(b))))
    for s in range(0, len(cuts), 40):
        d = W.tmpdir()
        try:
            want = {}
            for e in cuts[s:s + 40]:
                p = os.path.join(d, f"cut{e}-sorcha.log")
                open(p, "wb").write(b[:e])
                want[p] = verdict(b[:e], b)
                ck.ev("cut_logs")
            p = os.path.join(d, "whole-sorcha.log")
            open(p, "wb").write(b)
            want[p] = True
            for _ in range(2):
                one_folder(ck, d, want, {"kind": "cuts", "from": cuts[s]}, rng)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    # no logs at all: refused
    d = W.tmpdir()
    try:
        txt, e = command(ck, d)
        ck.ensure(isinstance(e, SystemExit) and e.code, "a folder without logs was not refused", {"text": txt[:200], "error": repr(e)})
        txt, e = command(ck, os.path.join(d, "absent"))
        ck.ensure(isinstance(e, SystemExit) and e.code, "a folder that does not exist was not refused", {"text": txt[:200], "error": repr(e)})
    finally:
        shutil.rmtree(d, ignore_errors=True)


def parts():
    return [("real", part_real)]
