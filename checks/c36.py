"""C36: faults of the file system are never reported as success, and what was written before stays valid."""
import collections
import glob
import json
import os
import queue
import shutil
import sqlite3
import subprocess
import sys
import threading

import numpy as np
import pandas as pd

from vlib.common import Check, Inconclusive, SkipCase, VERIF
from vlib import pipeline as P
from vlib import world as W
from checks import c01

KINDS = {"enospc": 1, "eio": 2, "short": 3, "eintr": 4, "kill": 5, "eacces": 6}
BENIGN = ("short", "eintr")


def make():
    ck = Check(
        "C36",
        "Each case is one call of the real run or create-sqlite command in a process of its own, in which one call (or every one from there on) on a file of the output folder - open, write, sync, truncate, "
        "close, unlink - or one read of an input file fails, is cut short, is interrupted, or kills the process; exit status, log and all files are compared with the undisturbed run. "
        "Non-trivial = the fault was injected.",
        ["the kernel's own caches are intact after a kill (no loss of power)", "an HDF5 file is not judged after a run that reported failure", "faults in the log files themselves are not injected"],
    )
    for k, n in {"faults_injected": 300, "reported_failures": 150, "killed": 50, "benign_faults": 30, "survived": 20, "read_faults": 30, "complete_outputs": 40, "rows_after_failure": 40, "transactions_checked": 25,
                 "output_csv": 25, "output_sqlite3": 40, "output_hdf5": 40, "statistics_files": 40, "ephemeris_files": 12, "merges": 25}.items():
        ck.need(k, n)
    return ck


class Pool:
    def __init__(self, lib, n):
        env = dict(os.environ, LD_PRELOAD=lib)
        self.ps = [subprocess.Popen([P.PY, "-W", "ignore", "-m", "vlib.forkrun"], env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True) for _ in range(n)]
        for p in self.ps:
            if p.stdout.readline().strip() != "ready":
                raise Inconclusive("the fork server did not start")

    def map(self, reqs):
        """Answers in the order of the requests."""
        out, q = [None] * len(reqs), queue.Queue()
        for i, r in enumerate(reqs):
            q.put((i, r))

        def work(p):
            while True:
                try:
                    i, r = q.get_nowait()
                except queue.Empty:
                    return
                p.stdin.write(json.dumps(r) + "\n")
                p.stdin.flush()
                s = p.stdout.readline()
                out[i] = json.loads(s)["rc"] if s else None

        ts = [threading.Thread(target=work, args=(p,)) for p in self.ps]
        [t.start() for t in ts]
        [t.join() for t in ts]
        return out

    def close(self):
        for p in self.ps:
            p.stdin.close()
        for p in self.ps:
            p.wait()


def build():
    lib = os.path.join(os.environ["VERIF_WORK"], "fault.so")
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", lib, os.path.join(VERIF, "vlib", "native", "fault.c"), "-ldl"], check=True, capture_output=True)
    return lib


class Job:
    """One undisturbed command: how to start it and what it leaves."""

    def __init__(self, name, root, module, argv, folder, outputs, env=None, prepare=None, readside=None):
        self.name, self.root, self.module, self.argv, self.folder, self.outputs = name, root, module, argv, folder, outputs
        self.env, self.prepare, self.readside = env or {}, prepare, readside

    def request(self, tag, fault):
        """argv etc. with the output folder of this case."""
        d = os.path.join(self.root, "case %s %s" % (self.name, tag))
        out = os.path.join(d, "out")
        os.makedirs(out)
        if self.prepare:
            self.prepare(out)
        f = {"prefix": out + "/", "read": 0, "kind": 0, "at": -1, "sticky": 0}
        f.update(fault)
        if f["read"]:
            f["prefix"] = self.readside + "/"
        return d, {"module": self.module, "argv": [a.replace("@OUT@", out) for a in self.argv], "cwd": out, "env": self.env, "out": os.path.join(d, "stdout"), "err": os.path.join(d, "stderr"),
                   "trace": os.path.join(d, "trace"), "fault": f}


def trace(d):
    ops = []
    for l in open(os.path.join(d, "trace")):
        a = l.rstrip("\n").split(" ", 4)
        ops.append((a[1], int(a[2]), a[4]))
    return ops


def db_state(p):
    """(rows of every table, problems). Rolls back what was not committed."""
    con = sqlite3.connect(p)
    try:
        bad = con.execute("pragma integrity_check").fetchall()
        tabs = [r[0] for r in con.execute("select name from sqlite_master where type='table' order by name")]
        return {t: [tuple(r) for r in con.execute(f'select * from "{t}"')] for t in tabs}, bad
    finally:
        con.close()


def state(out, outputs, judge_h5=True):
    r = {}
    for f in outputs:
        p = os.path.join(out, f)
        if not os.path.exists(p):
            r[f] = None
        elif f.endswith(".db"):
            try:
                rows, bad = db_state(p)
                r[f] = {"rows": rows, "bad": [b for b in bad if b != ("ok",)]}
            except sqlite3.DatabaseError as e:
                r[f] = {"rows": None, "bad": [repr(e)]}
        elif f.endswith(".h5"):
            r[f] = None
            if judge_h5:
                try:
                    with pd.HDFStore(p, "r") as s:
                        r[f] = {k: s[k].to_csv(index=False) for k in s.keys()}
                except Exception as e:  # noqa
                    r[f] = {"unreadable": repr(e)[:300]}
        else:
            r[f] = open(p, "rb").read()
    return r


def logs(out):
    t = ""
    for f in glob.glob(os.path.join(out, "**", "*sorcha.log"), recursive=True):
        t = open(f, errors="replace").read().rstrip("\n")
    return t


def completed(text):
    return text.rstrip().endswith("Sorcha process is completed.")


def jobs(ck):
    """Worlds and commands."""
    root = W.tmpdir()
    des = 0
    for i, fmt in enumerate(["csv", "sqlite3", "hdf5", "sqlite3", "csv", "hdf5"][: ck.n(4, 6)]):
        rng = ck.rng("job", i)
        survey = "DES" if i in (3, 5) else "rubin_sim"
        w = P.make(rng, survey, n=int(rng.integers(7, 11)), nights=3, per_night=2, pad_vis=5, name_kind="plain")
        ef, af = [("csv", "csv"), ("hdf5", "csv"), ("whitespace", "whitespace"), ("csv", "csv"), ("hdf5", "csv"), ("csv", "csv")][i]
        src = os.path.join(root, "in%d" % i)
        P.write(w, src, ef, af)
        over = {"OUTPUT": {"output_format": fmt, "output_columns": "all"}, "INPUT": {"size_serial_chunk": str(int(rng.integers(3, 5)))}, "FOV": {"camera_model": "none"}, "LINKINGFILTER": {}}
        if fmt == "hdf5" and survey != "DES":
            over["OUTPUT"]["output_columns"] = "basic"
        if survey != "DES":
            over["EXPERT"] = {"default_snr_cut": "False"}
            if i == 1:
                over["LINKINGFILTER"] = {"SSP_detection_efficiency": "1.0", "SSP_number_observations": "2", "SSP_separation_threshold": "0.5", "SSP_maximum_time": "0.0625", "SSP_number_tracklets": "1",
                                         "SSP_track_window": "15", "SSP_night_start_utc": "16.0", "drop_unlinked": "False"}
        ini = W.write_ini(P.sections(w, **over), os.path.join(root, "job%d.ini" % i))
        outputs = ["out" + {"csv": ".csv", "sqlite3": ".db", "hdf5": ".h5"}[fmt], "st.csv"]
        yield Job(f"{survey} {fmt}", root, "sorcha_cmdline.run", ["sorcha-run"] + P.cli_args(w, ini, "@OUT@", stats="st"), None, outputs, {"SORCHA_SEED": str(i + 5)}, readside=src), fmt
    # ephemerides written
    for i, ef in enumerate(["csv", "hdf5"]):
        rng = ck.rng("ar", i)
        w, over, d = c01.ar_world(rng, n=3)
        src = os.path.join(root, "ar%d" % i)
        P.write(w, src, "csv", "csv")
        over["INPUT"] = dict(over["INPUT"], size_serial_chunk="2", eph_format=ef, aux_format="csv")
        over["OUTPUT"] = {"output_format": "csv", "output_columns": "all"}
        ini = W.write_ini(P.sections(w, **over), os.path.join(root, "ar%d.ini" % i))
        yield Job("ephemeris " + ef, root, "sorcha_cmdline.run", ["sorcha-run"] + P.cli_args(w, ini, "@OUT@", ar=d, ew="eph"), None,
                  ["out.csv", "eph." + ("h5" if ef == "hdf5" else "csv")], {"SORCHA_SEED": "3"}, readside=src), "ar"
    # merging
    rng = ck.rng("merge")
    src = os.path.join(root, "results")
    for k in range(3):
        d = os.path.join(src, "r%d" % k)
        os.makedirs(d)
        n = 40
        df = pd.DataFrame({"ObjID": [f"S{k}{j:03d}" for j in range(n)], "fieldMJD_TAI": rng.uniform(6e4, 6.1e4, n), "optFilter": rng.choice(["g", "r"], n), "RA_deg": rng.uniform(0, 360, n)})
        P.sql(os.path.join(d, "out%d.db" % k), df, "sorcha_results")
    inp = os.path.join(root, "inputs")
    os.makedirs(inp)
    ids = [f"S{k}{j:03d}" for k in range(3) for j in range(40)]
    for s, c in (("orbits", "q"), ("params", "H_r")):
        pd.DataFrame({"ObjID": ids, c: rng.uniform(1, 20, len(ids)).round(4)}).to_csv(os.path.join(inp, f"{s}_x.txt"), sep=" ", index=False)
    yield Job("merge", root, "sorcha_cmdline.outputs", ["sorcha-outputs", "create-sqlite", "-o", "@OUT@/all.db", "-i", inp, "-r", src], None, ["all.db"], readside=src), "merge"


def faults(ck, rng, ops, rops, budget):
    """Chosen (kind, at, sticky, read)."""
    by = collections.defaultdict(list)
    for i, (op, _, p) in enumerate(ops):
        by[(op, os.path.basename(p))].append(i)
    for i, (op, _, p) in enumerate(rops):
        by[(op + "r", os.path.basename(p))].append(i)
    out, keys = [], sorted(by)
    j = 0
    while len(out) < budget:
        k = keys[j % len(keys)]
        at = int(rng.choice(by[k][-2:] if j % 3 == 0 else by[k]))
        rd = k[0] in ("readr", "preadr", "openr")
        r = rng.random()
        if rd:
            kind = "short" if r < 0.25 else "eintr" if r < 0.4 else "eio"
        else:
            kind = "enospc" if r < 0.3 else "eio" if r < 0.55 else "kill" if r < 0.75 else "short" if r < 0.86 else "eintr" if r < 0.93 else "eacces"
        out.append((kind, at, int(rng.random() < 0.5) if kind != "eintr" else 0, int(rd), k))
        j += 1
    return out


def part(ck):
    pool = Pool(build(), 8)
    try:
        for i, (job, fmt) in enumerate(jobs(ck)):
            try:
                one(ck, pool, job, fmt, ck.rng("faults", i), ck.n(*{"ar": (40, 320), "hdf5": (110, 1000)}.get(fmt, (170, 1500))))
            except SkipCase:
                pass
    finally:
        pool.close()


def one(ck, pool, job, fmt, rng, budget):
    ref = []
    for tag, f in (("w", {}), ("r", {"read": 1}), ("w2", {})):
        d, q = job.request(tag, f)
        rc = pool.map([q])[0]
        ctx = {"job": job.name, "fault": None, "rc": rc, "stderr": open(q["err"]).read()[-400:]}
        if not ck.ensure(rc == 0, "an undisturbed command fails", ctx):
            raise SkipCase()
        ref.append((d, trace(d), state(os.path.join(d, "out"), job.outputs)))
    want = ref[0][2]
    if want != ref[2][2]:
        raise Inconclusive("the undisturbed command is not reproducible: " + job.name)
    if any(v is None for v in want.values()):
        raise Inconclusive("the undisturbed command made no output: " + job.name)
    ck.ensure(fmt == "merge" or completed(logs(os.path.join(ref[0][0], "out"))), "an undisturbed run is not completed in its log", {"job": job.name})
    plan = faults(ck, rng, ref[0][1], ref[1][1], budget)
    # the states a database goes through, for the rows allowed after a failure
    reqs, dirs = [], []
    for j, (kind, at, sticky, rd, key) in enumerate(plan):
        d, q = job.request(str(j), {"kind": KINDS[kind], "at": at, "sticky": sticky, "read": rd})
        reqs.append(q)
        dirs.append(d)
    rcs = pool.map(reqs)
    for j, (kind, at, sticky, rd, key) in enumerate(plan):
        try:
            judge(ck, job, fmt, dirs[j], reqs[j], rcs[j], want, kind, at, sticky, rd, key)
        except SkipCase:
            pass
        shutil.rmtree(dirs[j])
    for d, _, _ in ref:
        shutil.rmtree(d)


def chunk_ends(want, rows):
    return want[: len(rows)] == rows


def judge(ck, job, fmt, d, q, rc, want, kind, at, sticky, rd, key):
    ops = trace(d)
    hit = [o for o in ops if o[1]]
    out = os.path.join(d, "out")
    err = open(q["err"]).read()
    log = logs(out)
    ctx = {"job": job.name, "kind": kind, "at": at, "sticky": sticky, "read": rd, "call": hit[0][0] if hit else None, "file": os.path.basename(hit[0][2]) if hit else None, "rc": rc, "stderr": err[-300:], "log": log[-200:]}
    ck.case([job.name, kind, key, at, sticky, rd], bool(hit), ctx)
    if rc is None:
        raise Inconclusive("the fork server died")
    ck.ev("faults_injected", bool(hit))
    ck.ev({"ar": "ephemeris_files", "merge": "merges"}.get(fmt, "output_" + fmt), bool(hit))
    ck.ev("read_faults", bool(hit and rd))
    ck.ev("statistics_files", "st.csv" in job.outputs and bool(hit))
    benign = kind in BENIGN or not hit
    ck.ev("benign_faults", kind in BENIGN and bool(hit))
    if benign:
        ck.ensure(rc == 0, "a command fails because of a call that was only interrupted or done in pieces" if hit else "a command without fault fails", ctx)
    if kind == "kill" and hit:
        ck.ev("killed")
        ck.ensure(rc == -9, "a killed process has another status", ctx)
    got = state(out, job.outputs, rc == 0)
    if rc == 0:
        ck.ev("survived", bool(hit) and not benign)
        ck.ev("complete_outputs")
        for f in job.outputs:
            ck.ensure(got[f] == want[f], "the command reports success but its output is not complete", lambda: {"ctx": ctx, "file": f, "got": str(got[f])[:300]})
        if fmt != "merge":
            ck.ensure(completed(log), "a successful run is not completed in its log", ctx)
    else:
        ck.ev("reported_failures", kind != "kill")
        if kind != "kill" and hit:
            ck.ensure(err.strip() != "", "a failure without any message", ctx)
        if fmt != "merge" and completed(log):
            # killed after the end, or a failure after everything was written
            ok = kind == "kill" and all(got[f] == want[f] for f in job.outputs if not f.endswith(".h5"))
            ck.ensure(ok, "the log of a failed run says that it is completed", ctx)
        for f in job.outputs:
            g, w = got[f], want[f]
            if g is None or f.endswith(".h5"):
                continue
            ck.ev("rows_after_failure")
            if f.endswith(".db"):
                ck.ev("transactions_checked")
                if not ck.ensure(not g["bad"], "the database is damaged after a failure", {"ctx": ctx, "bad": g["bad"][:3]}):
                    continue
                for t, rows in g["rows"].items():
                    ck.ensure(t in w["rows"] and chunk_ends(w["rows"][t], rows), "the rows in the database after a failure are not the first ones of the complete output", {"ctx": ctx, "table": t, "rows": len(rows)})
            else:
                ck.ensure(w.startswith(g), "what was written before a failure is not the beginning of the complete output", lambda: {"ctx": ctx, "file": f, "tail": g[-200:].decode("latin1")})




def parts():
    return [("faults", part)]
